//! C13 (dates and times), C14 (conversion to UTC), C15 (alarms and durations).

use crate::conv::*;
use crate::gen;
use crate::model::{self, When};
use crate::p_build::{seconds_of, spell};
use crate::p_text::prop_string;
use crate::reader::{self, XComp};
use crate::rng::Rng;
use crate::rt::*;
use chrono::{DateTime, Datelike, Duration, NaiveDate, NaiveDateTime, Offset, TimeZone, Timelike, Utc};
use chrono_tz::{OffsetName, Tz, TZ_VARIANTS};
use icalendar::parser;
use icalendar::*;
use std::collections::{BTreeMap, BTreeSet};
use std::str::FromStr;

// -------------------------------------------------------------------------------------- C13

const DATE_KEYS: &[&str] = &["DTSTART", "DTEND", "DUE", "RECURRENCE-ID", "EXDATE", "RDATE", "COMPLETED", "X-WHEN"];

/// one parsed property from a line
fn parsed<T>(ctx: &mut Ctx, line: &str, f: impl FnOnce(&mut Ctx, &parser::Property) -> T) -> Option<T> {
    match parser::Property::try_from(line) {
        Ok(p) => Some(f(ctx, &p)),
        Err(e) => {
            ctx.fail("a date line is not accepted", format!("{e}: {line:?}"));
            None
        }
    }
}

/// a value through to_property and both readers
fn c13_value(ctx: &mut Ctx, key: &str, w: &When, deep: bool) {
    let v = w.value();
    let p = v.to_property(key);
    let mut bad = vec![];
    let form = w.form(key);
    if !ctx.eq("RFC 5545 form", &t_prop(&p, &mut bad), &form, "to_property") {
        return;
    }
    let mut r = ctx.rng.clone();
    let inside = w.convert(&mut r);
    ctx.rng = r;
    if !ctx.eq("form of a time within the second", &t_prop(&inside.to_property(key), &mut bad), &form, "to_property") {
        return;
    }
    if !ctx.eq("typed reader", &DatePerhapsTime::from_property(&p), &Some(v.clone()), &form.val) {
        return;
    }
    let day = match w {
        When::Date(d) => *d,
        When::Floating(t) | When::Zoned(t, _) => t.date(),
        When::Utc(t) => {
            if t.with_timezone(&chrono::Local).date_naive() != t.date_naive() {
                ctx.obs("instants on another date here");
            }
            t.date_naive()
        }
    };
    ctx.eq("date_naive", &v.date_naive(), &day, &form.val);
    ctx.eq("NaiveDate::from", &NaiveDate::from(v.clone()), &day, &form.val);
    let by_str = CalendarDateTime::from_str(&form.val);
    match w {
        When::Date(_) => {
            ctx.eq("CalendarDateTime::from_str of a date", &by_str, &Err(()), &form.val);
        }
        When::Utc(t) => {
            ctx.eq("CalendarDateTime::from_str", &by_str, &Ok(CalendarDateTime::Utc(*t)), &form.val);
        }
        When::Floating(t) | When::Zoned(t, _) => {
            ctx.eq("CalendarDateTime::from_str", &by_str, &Ok(CalendarDateTime::Floating(*t)), &form.val);
        }
    }
    ctx.obs("values");
    if !deep {
        return;
    }
    // as a line of a document
    let Some(line) = prop_string(ctx, &p) else {
        return;
    };
    let line = parser::unfold(&line);
    parsed(ctx, &line, |ctx, q| {
        // a TZID without a name is refused by this reader, and asserted to be by a test of the library
        if !matches!(w, When::Zoned(_, z) if z.is_empty()) {
            ctx.eq("parsed-property reader", &DatePerhapsTime::try_from(q), &Ok(v.clone()), &line);
        }
        let typed = Property::from(q.clone());
        ctx.eq("typed reader of a parsed line", &DatePerhapsTime::from_property(&typed), &Some(v.clone()), &line);
    });
    ctx.obs("values read from a line");
}

fn form_of(i: u64, d: NaiveDate, t: NaiveDateTime, tz: &str) -> When {
    match i % 4 {
        0 => When::Date(d),
        1 => When::Floating(t),
        2 => When::Utc(Utc.from_utc_datetime(&t)),
        _ => When::Zoned(t, tz.to_string()),
    }
}

/// every day of a year
fn c13_dates(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let year = (ctx.case % 10_000) as i32;
    let tz = model::tzid(&mut r);
    let all = ctx.tier == Tier::Thorough;
    let mut d = NaiveDate::from_ymd_opt(year, 1, 1);
    let mut i = r.u64() % 4;
    while let Some(day) = d.filter(|d| d.year() == year) {
        i += 1;
        let t = day.and_hms_opt(r.below(24) as u32, r.below(60) as u32, r.below(60) as u32).unwrap();
        for k in 0..if all { 4 } else { 1 } {
            let w = form_of(i + k, day, t, &tz);
            let key = DATE_KEYS[(i as usize + k as usize) % DATE_KEYS.len()];
            c13_value(ctx, key, &w, i % 8 < 2 || all);
        }
        if ctx.failed() {
            return;
        }
        d = day.succ_opt();
    }
    ctx.nontrivial(&year.to_string());
    ctx.obs("years swept");
}

/// every second of a day, on some day
fn c13_times(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let minute = (ctx.case % 1440) as u32;
    let day = model::date(&mut r);
    let tz = model::tzid(&mut r);
    for s in 0..60 {
        let t = day.and_hms_opt(minute / 60, minute % 60, s).unwrap();
        for i in 1..4 {
            let w = form_of(i, day, t, &tz);
            if s == 59 {
                let leap = t.with_nanosecond(1_000_000_000).unwrap_or(t);
                c13_value(ctx, DATE_KEYS[i as usize % DATE_KEYS.len()], &form_of(i, day, leap, &tz), true);
                ctx.obs("leap seconds");
            }
            c13_value(ctx, DATE_KEYS[(s as usize + i as usize) % DATE_KEYS.len()], &w, true);
        }
        if ctx.failed() {
            return;
        }
    }
    ctx.nontrivial(&format!("{day} {minute}"));
    ctx.obs("minutes swept");
}

/// every setter, read back directly, from the component's text, and from a document
fn c13_setters(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let a = model::when(&mut r);
    let b = model::when(&mut r);
    let (u1, u2, u3, u4) = (model::utc(&mut r), model::utc(&mut r), model::utc(&mut r), model::utc(&mut r));
    let mut e = Event::new();
    let mut t = Todo::new();
    // in the middle of a second
    let v = [u1, u2, u3, u4].map(|u| model::utc_within(&mut r, u));
    if v != [u1, u2, u3, u4] {
        ctx.obs("setters given fractions of a second");
    }
    if [u1, u2, u3, u4].iter().any(|u| u.nanosecond() > 0) {
        ctx.obs("setters given leap seconds");
    }
    e.starts(a.convert(&mut r)).ends(b.convert(&mut r)).created(v[0]).last_modified(v[1]).timestamp(v[2]);
    t.starts(b.convert(&mut r))
        .ends(a.convert(&mut r))
        .due(a.convert(&mut r))
        .created(v[2])
        .last_modified(v[3])
        .timestamp(v[0]);
    t.completed(v[1]);
    let day = model::date(&mut r);
    let mut all_day = Event::new();
    all_day.all_day(day).uid("x");
    let check_event = |ctx: &mut Ctx, e: &Event, at: &str| {
        ctx.eq(&format!("get_start ({at})"), &e.get_start(), &Some(a.value()), at);
        ctx.eq(&format!("get_end ({at})"), &e.get_end(), &Some(b.value()), at);
        ctx.eq(&format!("get_created ({at})"), &e.get_created(), &Some(u1), at);
        ctx.eq(&format!("get_last_modified ({at})"), &e.get_last_modified(), &Some(u2), at);
        ctx.eq(&format!("get_timestamp ({at})"), &e.get_timestamp(), &Some(u3), at);
        ctx.obs("components read");
    };
    let check_todo = |ctx: &mut Ctx, t: &Todo, at: &str| {
        ctx.eq(&format!("get_start ({at})"), &t.get_start(), &Some(b.value()), at);
        ctx.eq(&format!("get_end ({at})"), &t.get_end(), &Some(a.value()), at);
        ctx.eq(&format!("get_due ({at})"), &t.get_due(), &Some(a.value()), at);
        ctx.eq(&format!("get_created ({at})"), &t.get_created(), &Some(u3), at);
        ctx.eq(&format!("get_last_modified ({at})"), &t.get_last_modified(), &Some(u4), at);
        ctx.eq(&format!("get_timestamp ({at})"), &t.get_timestamp(), &Some(u1), at);
        ctx.eq(&format!("get_completed ({at})"), &t.get_completed(), &Some(u2), at);
        ctx.obs("components read");
    };
    let check_all_day = |ctx: &mut Ctx, e: &Event, at: &str| {
        let want = Some(DatePerhapsTime::Date(day));
        ctx.eq(&format!("get_start of all_day ({at})"), &e.get_start(), &want, at);
        ctx.eq(&format!("get_end of all_day ({at})"), &e.get_end(), &want, at);
    };
    check_event(ctx, &e, "built");
    check_todo(ctx, &t, "built");
    check_all_day(ctx, &all_day, "built");
    let mut cal = Calendar::new();
    cal.push(e).push(t).push(all_day);
    let text = cal.to_string();
    ctx.nontrivial(&text);
    ctx.sample(|| clip(&text, 600));
    // the text has the RFC forms, for a reader that does not know the library
    let tree = match reader::tree(&text, false) {
        Ok(t) if t.len() == 1 && t[0].comps.len() == 3 => t,
        other => return ctx.fail("malformed output", format!("{other:?}: {text:?}")),
    };
    let find = |c: &XComp, key: &str| c.props.iter().find(|p| p.name == key).map(t_of_xprop);
    let (xe, xt, xa) = (&tree[0].comps[0], &tree[0].comps[1], &tree[0].comps[2]);
    for (c, key, w) in [
        (xe, "DTSTART", a.clone()),
        (xe, "DTEND", b.clone()),
        (xe, "CREATED", When::Utc(u1)),
        (xe, "LAST-MODIFIED", When::Utc(u2)),
        (xe, "DTSTAMP", When::Utc(u3)),
        (xt, "DTSTART", b.clone()),
        (xt, "DTEND", a.clone()),
        (xt, "DUE", a.clone()),
        (xt, "COMPLETED", When::Utc(u2)),
        (xt, "CREATED", When::Utc(u3)),
        (xt, "LAST-MODIFIED", When::Utc(u4)),
        (xt, "DTSTAMP", When::Utc(u1)),
        (xa, "DTSTART", When::Date(day)),
        (xa, "DTEND", When::Date(day)),
    ] {
        ctx.eq(&format!("written {key}"), &find(c, key), &Some(w.form(key)), &text);
        ctx.obs("written forms");
    }
    let back: Calendar = match text.parse() {
        Ok(c) => c,
        Err(e) => return ctx.fail("output is not accepted", format!("{e}: {text:?}")),
    };
    match &back.components[..] {
        [CalendarComponent::Event(e), CalendarComponent::Todo(t), CalendarComponent::Event(a)] => {
            check_event(ctx, e, "parsed");
            check_todo(ctx, t, "parsed");
            check_all_day(ctx, a, "parsed");
        }
        other => return ctx.fail("components", format!("{other:?}")),
    }
    // the reader for parsed properties
    let unfolded = parser::unfold(&text);
    if let Ok(c) = parser::read_calendar(&unfolded) {
        for (i, key, w) in [(0, "DTSTART", &a), (0, "DTEND", &b), (1, "DTSTART", &b), (1, "DTEND", &a), (1, "DUE", &a)]
        {
            let got = c.components.get(i).and_then(|c| c.find_prop(key)).map(DatePerhapsTime::try_from);
            if matches!(w, When::Zoned(_, z) if z.is_empty()) {
                continue;
            }
            ctx.eq(&format!("parsed-property reader of {key}"), &got, &Some(Ok(w.value())), &text);
        }
    }
}

/// all readers of a value at once; None if there is none
fn readers(
    ctx: &mut Ctx,
    name: &str,
    params: &[(&str, &str)],
    val: &str,
) -> Vec<(&'static str, Option<DatePerhapsTime>)> {
    let mut p = Property::new(name, val);
    let mut line = name.to_string();
    for (k, v) in params {
        p.add_parameter(k, v);
        line.push_str(&format!(";{k}={v}"));
    }
    line.push_str(&format!(":{val}"));
    let mut out = vec![("DatePerhapsTime::from_property", DatePerhapsTime::from_property(&p))];
    parsed(ctx, &line, |_, q| {
        out.push(("TryFrom<&parser::Property>", DatePerhapsTime::try_from(q).ok()));
        out.push(("from_property of a parsed line", DatePerhapsTime::from_property(&Property::from(q.clone()))));
    });
    if params.is_empty() {
        out.push(("CalendarDateTime::from_str", CalendarDateTime::from_str(val).ok().map(DatePerhapsTime::DateTime)));
        // a floating time is none of theirs
        if val.ends_with('Z') || !well_formed(val) && !is_date(val) {
            let mut t = Todo::new();
            t.add_property("DTSTAMP", val).add_property("CREATED", val);
            t.add_property("LAST-MODIFIED", val).add_property("COMPLETED", val);
            for (label, v) in [
                ("get_timestamp", t.get_timestamp()),
                ("get_created", t.get_created()),
                ("get_last_modified", t.get_last_modified()),
                ("get_completed", t.get_completed()),
            ] {
                out.push((label, v.map(DatePerhapsTime::from)));
            }
        }
        let mut e = Todo::new();
        e.add_property("DTSTART", val).add_property("DTEND", val).add_property("DUE", val);
        if name != "X-WHEN" {
            out.push(("get_start", e.get_start()));
            out.push(("get_end", e.get_end()));
            out.push(("get_due", e.get_due()));
        }
    }
    out
}

fn malform(r: &mut Rng, date: &str, time: &str, z: &str) -> String {
    let mut date = date.to_string();
    let mut time = time.to_string();
    let set = |s: &mut String, at: usize, v: String| {
        let e = (at + v.len()).min(s.len());
        s.replace_range(at..e, &v);
    };
    match r.below(17) {
        // fields out of range
        0 => set(&mut date, 4, (*r.pick(&["00", "13", "14", "20", "99"])).to_string()),
        1 => set(&mut date, 6, (*r.pick(&["00", "32", "33", "40", "99"])).to_string()),
        2 => set(&mut date, 4, (*r.pick(&["0230", "0231", "0431", "0631", "0931", "1131"])).to_string()),
        3 => {
            // the 29th of February of a common year
            let y = *r.pick(&[1900, 1901, 1999, 2001, 2023, 2100, 2200, 1]);
            date = format!("{y:04}0229");
        }
        4 => set(&mut time, 0, r.range(24, 99).to_string()),
        5 => set(&mut time, 2, r.range(60, 99).to_string()),
        6 => set(&mut time, 4, r.range(61, 99).to_string()),
        // missing parts
        7 => time.truncate(*r.pick(&[0, 2, 4])),
        8 => date.truncate(*r.pick(&[0, 4, 6])),
        9 => return format!("{date}{time}{z}"),
        10 => return format!("T{time}{z}"),
        // something behind
        11 => {
            return format!(
                "{date}T{time}{z}{}",
                r.pick(&[
                    "X", "Z", "0", "T", "+0100", "-0800", ".5", ",", "/P1D", "/", "z", " ", "   ", "\t", "\u{a0}",
                    "\u{2028}", " Z", "\u{0}",
                ])
            )
            .replace("ZZ", "ZZZ")
        }
        // letters, signs, digits of other scripts
        12 | 13 => {
            let c =
                *r.pick(&["A", "O", "l", "x", ":", "+", "-", "\u{661}", "\u{ff11}", "\u{966}", "\u{b2}", "\u{1d7ce}"]);
            let of = if r.one_in(2) { &mut date } else { &mut time };
            let at = r.below(of.len());
            of.replace_range(at..at + 1, c);
        }
        14 => return format!("{date}{}{time}{z}", r.pick(&["t", "X", "TT", "-", "Z"])),
        15 => {
            return format!(
                "{}-{}-{}T{}:{}:{}{z}",
                &date[..4],
                &date[4..6],
                &date[6..],
                &time[..2],
                &time[2..4],
                &time[4..]
            )
        }
        _ => {
            return (*r.pick(&[
                "",
                "T",
                "Z",
                "now",
                "P1D",
                "20200101T",
                "20200101TZ",
                "0",
                "2020",
                "TRUE",
                ":",
                "20200101T000000 Z",
            ]))
            .to_string()
        }
    }
    format!("{date}T{time}{z}")
}

/// is this a date-time in one of the two RFC 5545 notations?
fn well_formed(s: &str) -> bool {
    let t = s.strip_suffix('Z').unwrap_or(s);
    let b = t.as_bytes();
    if b.len() != 15 || b[8] != b'T' || !b[..8].iter().chain(&b[9..]).all(u8::is_ascii_digit) {
        return false;
    }
    let n = |a: usize, e: usize| t[a..e].parse::<u32>().unwrap_or(99);
    NaiveDate::from_ymd_opt(n(0, 4) as i32, n(4, 6), n(6, 8)).is_some()
        && n(9, 11) < 24
        && n(11, 13) < 60
        && n(13, 15) < 61
}

fn is_date(s: &str) -> bool {
    s.len() == 8
        && s.bytes().all(|b| b.is_ascii_digit())
        && NaiveDate::from_ymd_opt(
            s[..4].parse().unwrap_or(0),
            s[4..6].parse().unwrap_or(0),
            s[6..].parse().unwrap_or(0),
        )
        .is_some()
}

fn c13_malformed(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let d = model::date(&mut r);
    let date = format!("{:04}{:02}{:02}", d.year(), d.month(), d.day());
    let time = format!("{:02}{:02}{:02}", r.below(24), r.below(60), r.below(60));
    let z = if r.one_in(2) { "Z" } else { "" };
    let params: &[(&str, &str)] = match r.below(4) {
        0 => &[("VALUE", "DATE")],
        1 => &[("TZID", "Europe/Berlin")],
        2 => &[("VALUE", "DATE-TIME")],
        _ => &[],
    };
    let val = malform(&mut r, &date, &time, z);
    let date_only = params.first().map(|p| p.1) == Some("DATE");
    if well_formed(&val) || is_date(&val) {
        return;
    }
    // what chrono reads less strictly than RFC 5545 (see DESIGN.md) is not judged: blanks before a number
    if val.trim_end().contains(' ') && !val.ends_with("Z Z") {
        return;
    }
    let key = *r.pick(&["DTSTART", "DTEND", "DUE", "RECURRENCE-ID"]);
    for (label, got) in readers(ctx, key, params, &val) {
        ctx.eq(&format!("malformed value, {label}"), &got, &None, &format!("{params:?} {val:?}"));
        ctx.obs("malformed values refused");
    }
    if date_only {
        // a date with something missing or behind
        let val = match r.below(8) {
            7 => format!("{date}{}", r.pick(&[" ", "  ", "\t", "\u{a0}", "/", "T", "-"])),
            0 => format!("{date}X"),
            1 => format!("{date}Z"),
            2 => date[..*r.pick(&[0, 2, 4, 6])].to_string(),
            3 => format!("{}13{}", &date[..4], &date[6..]),
            4 => format!("{}32", &date[..6]),
            5 => format!("{}-{}-{}", &date[..4], &date[4..6], &date[6..]),
            _ => format!("{}0230", &date[..4]),
        };
        for (label, got) in readers(ctx, key, params, &val) {
            ctx.eq(&format!("malformed date, {label}"), &got, &None, &format!("{params:?} {val:?}"));
            ctx.obs("malformed values refused");
        }
    }
    ctx.nontrivial(&val);
}

/// no form is read as another: the same digits in every form, through every reader
fn c13_forms(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let t = model::date_time(&mut r);
    let tz = loop {
        let tz = model::tzid(&mut r);
        // to be written into a line by hand
        if tz.chars().all(|c| c.is_ascii_alphanumeric() || "/_+-. ".contains(c)) && tz.trim() == tz && !tz.is_empty() {
            break tz;
        }
    };
    let text = model::ymdhms(&t);
    let date = text[..8].to_string();
    let zed = format!("{text}Z");
    let key = *r.pick(DATE_KEYS);
    let extra: &[(&str, &str)] = if r.one_in(3) { &[("X-A", "DATE")] } else { &[] };
    let with = |more: &[(&'static str, &str)]| -> Vec<(String, String)> {
        extra.iter().chain(more).map(|(a, b)| ((*a).to_string(), (*b).to_string())).collect()
    };
    let forms: Vec<(Vec<(String, String)>, &str, DatePerhapsTime)> = vec![
        (with(&[]), &text, CalendarDateTime::Floating(t).into()),
        (with(&[]), &zed, CalendarDateTime::Utc(Utc.from_utc_datetime(&t)).into()),
        (with(&[("TZID", &tz)]), &text, CalendarDateTime::WithTimezone { date_time: t, tzid: tz.clone() }.into()),
        (with(&[("VALUE", "DATE")]), &date, DatePerhapsTime::Date(t.date())),
        (with(&[("VALUE", "DATE-TIME")]), &text, CalendarDateTime::Floating(t).into()),
        (with(&[("VALUE", "DATE-TIME")]), &zed, CalendarDateTime::Utc(Utc.from_utc_datetime(&t)).into()),
        (
            with(&[("VALUE", "DATE-TIME"), ("TZID", &tz)]),
            &text,
            CalendarDateTime::WithTimezone { date_time: t, tzid: tz.clone() }.into(),
        ),
    ];
    for (params, val, want) in forms {
        let ps: Vec<(&str, &str)> = params.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
        let utc_only = ["get_timestamp", "get_created", "get_last_modified", "get_completed"];
        for (label, got) in readers(ctx, key, &ps, val) {
            if utc_only.contains(&label) && !val.ends_with('Z') {
                continue;
            }
            ctx.eq(&format!("form, {label}"), &got, &Some(want.clone()), &format!("{ps:?} {val:?}"));
            ctx.obs("forms told apart");
        }
    }
    // UTC getters do not take a floating or a zoned time for UTC
    let mut e = Todo::new();
    let mut p = Property::new("COMPLETED", &text);
    p.add_parameter("TZID", &tz);
    e.add_property("CREATED", &text).append_property(p);
    ctx.eq("get_created of a floating time", &e.get_created(), &None, &text);
    ctx.eq("get_completed of a zoned time", &e.get_completed(), &None, &text);
    ctx.nontrivial(&text);
}

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        level: "exploration",
        rule: "A case is all days of one year (of 0000-9999), all seconds of one minute of a day, one set of setters, \
               one value in all forms, or one malformed value, through every setter and reader, the text judged by \
               an independent formatter. Non-trivial: distinct years, minutes, texts and malformed values.",
        sections: vec![
            sec("dates", 10_000, 10_000, c13_dates),
            sec("times", 5_760, 115_200, c13_times),
            sec("setters", 40_000, 800_000, c13_setters),
            sec("forms", 80_000, 1_600_000, c13_forms),
            sec("malformed", 240_000, 4_800_000, c13_malformed),
        ],
        require: vec![
            ("years swept", 9_000),
            ("values", 1_000_000),
            ("values read from a line", 100_000),
            ("minutes swept", 1_000),
            ("leap seconds", 1_000),
            ("setters given leap seconds", 1_000),
            ("setters given fractions of a second", 1_000),
            ("written forms", 50_000),
            ("forms told apart", 50_000),
            ("instants on another date here", 10_000),
            ("malformed values refused", 50_000),
        ],
        extra: None,
        assumptions: vec![
            "years 0000-9999; fractions of a second are not written, as RFC 5545 has none",
            "spaces and shortened fields, which chrono reads, are not judged",
        ],
    }
}

// -------------------------------------------------------------------------------------- C14

fn offset(tz: Tz, utc: NaiveDateTime) -> i64 {
    i64::from(tz.offset_from_utc_datetime(&utc).fix().local_minus_utc())
}

/// every instant whose local time in the zone is `t`
fn instants(tz: Tz, t: NaiveDateTime) -> BTreeSet<NaiveDateTime> {
    let mut offsets = BTreeSet::new();
    let mut at = t - Duration::hours(17);
    let end = t + Duration::hours(17);
    while at <= end {
        offsets.insert(offset(tz, at));
        at += Duration::minutes(10);
    }
    offsets
        .into_iter()
        .map(|o| (o, t - Duration::seconds(o)))
        .filter(|(o, u)| offset(tz, *u) == *o)
        .map(|(_, u)| u)
        .collect()
}

fn c14_local(ctx: &mut Ctx, tz: Tz, t: NaiveDateTime) {
    let all = instants(tz, t);
    let want = if all.len() == 1 { all.first().map(|u| Utc.from_utc_datetime(u)) } else { None };
    match all.len() {
        0 => ctx.obs("local times in a gap"),
        1 => ctx.obs("unique local times"),
        _ => ctx.obs("ambiguous local times"),
    }
    let c = CalendarDateTime::WithTimezone { date_time: t, tzid: tz.name().to_string() };
    ctx.eq("try_into_utc", &c.try_into_utc(), &want, &format!("{t} {} {all:?}", tz.name()));
    // making one needs no instant
    let at = || format!("{t} {} {all:?}", tz.name());
    if (0..=9999).contains(&t.year()) {
        let m = t.with_second(0).unwrap_or(t);
        let minute = CalendarDateTime::WithTimezone { date_time: m, tzid: tz.name().to_string() };
        let made = CalendarDateTime::from_ymd_hm_tzid(t.year(), t.month(), t.day(), t.hour(), t.minute(), tz);
        ctx.eq("from_ymd_hm_tzid", &made.as_ref(), &Some(&minute), &at());
        let made = ymd_hm_tzid(t.year(), t.month(), t.day(), t.hour(), t.minute(), tz);
        ctx.eq("ymd_hm_tzid", &made, &Some(minute), &at());
    }
    ctx.eq("(time, zone)", &CalendarDateTime::from((t, tz)), &c, &at());
    ctx.eq("(time, zone)", &DatePerhapsTime::from((t, tz)), &DatePerhapsTime::DateTime(c.clone()), &at());
    ctx.eq("(time, name)", &CalendarDateTime::try_from((t, tz.name())), &Ok(c.clone()), &at());
    for u in &all {
        let made = CalendarDateTime::from_date_time(tz.from_utc_datetime(u));
        ctx.eq("from_date_time", &made, &c, &at());
    }
    ctx.nontrivial(&format!("{t} {}", tz.name()));
}

/// the transitions of a zone in a year
fn transitions(tz: Tz, year: i32, step_h: i64) -> Vec<NaiveDateTime> {
    let Some(start) = NaiveDate::from_ymd_opt(year, 1, 1).and_then(|d| d.and_hms_opt(0, 0, 0)) else {
        return vec![];
    };
    let mut out = vec![];
    let mut a = start;
    let end = start + Duration::days(366);
    while a < end {
        let b = a + Duration::hours(step_h);
        if offset(tz, a) != offset(tz, b) {
            let (mut lo, mut hi) = (0, step_h * 3600);
            while hi - lo > 1 {
                let mid = (lo + hi) / 2;
                if offset(tz, a + Duration::seconds(mid)) == offset(tz, a) {
                    lo = mid;
                } else {
                    hi = mid;
                }
            }
            out.push(a + Duration::seconds(hi));
        }
        a = b;
    }
    out
}

fn around(ctx: &mut Ctx, r: &mut Rng, tz: Tz, at: NaiveDateTime) {
    let before = offset(tz, at - Duration::seconds(1));
    let after = offset(tz, at);
    for o in [before, after] {
        let local = at + Duration::seconds(o);
        for d in [-3600, -60, -1, 0, 1, 60, 3600] {
            c14_local(ctx, tz, local + Duration::seconds(d));
        }
    }
    let (lo, hi) = (before.min(after), before.max(after));
    for _ in 0..4 {
        c14_local(ctx, tz, at + Duration::seconds(r.range(lo - 3600, hi + 3600)));
    }
    ctx.obs("transitions");
    if after > before {
        ctx.obs("transitions forward");
    } else {
        ctx.obs("transitions backward");
    }
}

/// one zone: its transitions in some (or all) years, and other times
fn c14_zone(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let tz = TZ_VARIANTS[(ctx.case % TZ_VARIANTS.len() as u64) as usize];
    ctx.eq("zone name", &tz.name().parse::<Tz>().ok(), &Some(tz), tz.name());
    let years: Vec<i32> = if ctx.tier == Tier::Thorough {
        (1840..2100).collect()
    } else {
        let mut y: Vec<i32> = (0..60).map(|_| r.range(1880, 2099) as i32).collect();
        y.extend([1916, 1941, 1974, 1996, 2011, 2024, 2026, 2037]);
        y
    };
    for y in years {
        for at in transitions(tz, y, 24) {
            around(ctx, &mut r, tz, at);
            if ctx.failed() {
                return;
            }
        }
    }
    for _ in 0..10 {
        let t = model::plain_time(&mut r);
        if (2..9998).contains(&t.year()) {
            c14_local(ctx, tz, t);
        }
    }
    ctx.obs("zones");
}

fn c14_constructors(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let tz = *r.pick(&TZ_VARIANTS);
    // parts, possible and impossible
    let y = r.range(0, 9999) as i32;
    let mo = r.range(0, 14) as u32;
    let d = if r.one_in(3) { r.range(27, 33) } else { r.range(0, 31) } as u32;
    let h = if r.one_in(4) { r.range(22, 30) } else { r.range(0, 23) } as u32;
    let mi = if r.one_in(4) { r.range(57, 70) } else { r.range(0, 59) } as u32;
    let days = [
        31,
        if y % 4 == 0 && (y % 100 != 0 || y % 400 == 0) { 29 } else { 28 },
        31,
        30,
        31,
        30,
        31,
        31,
        30,
        31,
        30,
        31,
    ];
    let possible = (1..=12).contains(&mo) && d >= 1 && d <= days[(mo as usize).clamp(1, 12) - 1] && h < 24 && mi < 60;
    let a = CalendarDateTime::from_ymd_hm_tzid(y, mo, d, h, mi, tz);
    let b = ymd_hm_tzid(y, mo, d, h, mi, tz);
    ctx.eq("ymd_hm_tzid", &b, &a, "");
    let input = format!("{y}-{mo}-{d} {h}:{mi} {}", tz.name());
    ctx.eq("possible", &a.is_some(), &possible, &input);
    match &a {
        Some(CalendarDateTime::WithTimezone { date_time: t, tzid }) => {
            let parts = (t.year(), t.month(), t.day(), t.hour(), t.minute(), t.second(), t.nanosecond());
            ctx.eq("local time", &parts, &(y, mo, d, h, mi, 0, 0), &input);
            ctx.eq("zone", &tzid.as_str(), &tz.name(), &input);
            ctx.obs("possible times");
        }
        None => ctx.obs("impossible times"),
        other => ctx.fail("form", format!("{other:?} for {input}")),
    }
    // from a date-time of chrono
    let utc = model::plain_time(&mut r);
    let dt: DateTime<Tz> = tz.from_utc_datetime(&utc);
    let c = CalendarDateTime::from_date_time(dt);
    let local = utc + Duration::seconds(offset(tz, utc));
    let want = CalendarDateTime::WithTimezone { date_time: local, tzid: tz.name().to_string() };
    ctx.eq("from_date_time", &c, &want, &format!("{dt:?}"));
    ctx.eq("tz_id", &dt.offset().tz_id(), &tz.name(), "");
    if (1..9998).contains(&local.year()) {
        let all = instants(tz, local);
        let there_and_back = if all.len() == 1 { Some(Utc.from_utc_datetime(&utc)) } else { None };
        ctx.check(all.contains(&utc), "oracle", || format!("{utc} {} {all:?}", tz.name()));
        ctx.eq("from_date_time and back", &c.try_into_utc(), &there_and_back, &format!("{dt:?}"));
    }
    // pairs
    let t = model::plain_time(&mut r);
    let want = CalendarDateTime::WithTimezone { date_time: t, tzid: tz.name().to_string() };
    ctx.eq("(time, zone)", &CalendarDateTime::from((t, tz)), &want, tz.name());
    ctx.eq("(time, zone)", &DatePerhapsTime::from((t, tz)), &DatePerhapsTime::DateTime(want.clone()), tz.name());
    ctx.eq("(time, name)", &CalendarDateTime::try_from((t, tz.name())), &Ok(want.clone()), tz.name());
    ctx.eq("(time, name)", &DatePerhapsTime::try_from((t, tz.name())), &Ok(DatePerhapsTime::DateTime(want)), tz.name());
    ctx.nontrivial(&format!("{input} {dt:?} {t}"));
    ctx.obs("constructors");
}

fn c14_unknown(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let t = model::plain_time(&mut r);
    let known = TZ_VARIANTS[r.below(TZ_VARIANTS.len())].name();
    let id = match r.below(10) {
        9 => (*r.pick(&[
            "Eastern Standard Time",
            "Pacific Standard Time",
            "W. Europe Standard Time",
            "Central European Standard Time",
            "GMT Standard Time",
            "China Standard Time",
            "Coordinated Universal Time",
            "(UTC+01:00) Amsterdam, Berlin",
            "/freeassociation.sourceforge.net/Europe/Berlin",
            "/softwarestudio.org/Olson_20011030_5/America/New_York",
            "UTC+1",
            "UTC+01:00",
            "GMT+1",
            "GMT-8",
            "GMT+01:00",
            "+0100",
            "+01:00",
            "-0800",
            "Z",
            "utc",
            "gmt",
            "CEST",
            "PDT",
            "EDT",
            "BST",
            "JST",
            "IST",
            "Local",
            "local",
            "floating",
            "Europe",
            "Berlin",
            "Europe/",
            "Europe\\Berlin",
            "Europe-Berlin",
            "Europe/Berlin;X=1",
            "\"Europe/Berlin\"",
            "America/New York",
            "posix/Europe/Berlin",
            "right/UTC",
            "Factory",
        ]))
        .to_string(),
        0 => String::new(),
        1 => known.to_lowercase(),
        2 => format!("{known} "),
        3 => format!(" {known}"),
        4 => format!("/{known}"),
        5 => known[..known.len() - 1].to_string(),
        6 => format!("{known}/{}", gen::ascii_word(&mut r, 4)),
        7 => model::tzid(&mut r),
        _ => gen::text(&mut r, gen::PARAM),
    };
    if TZ_VARIANTS.iter().any(|z| z.name() == id) {
        return;
    }
    let c = CalendarDateTime::WithTimezone { date_time: t, tzid: id.clone() };
    ctx.eq("unknown zone", &c.try_into_utc(), &None, &id);
    ctx.check(CalendarDateTime::try_from((t, id.as_str())).is_err(), "unknown zone accepted", || id.clone());
    ctx.check(DatePerhapsTime::try_from((t, id.as_str())).is_err(), "unknown zone accepted", || id.clone());
    ctx.eq("floating time", &CalendarDateTime::Floating(t).try_into_utc(), &None, &t.to_string());
    let u = Utc.from_utc_datetime(&t);
    ctx.eq("UTC time", &CalendarDateTime::Utc(u).try_into_utc(), &Some(u), &t.to_string());
    ctx.nontrivial(&id);
    ctx.obs("unknown zones");
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        level: "exploration",
        rule: "A case is one zone of the database with the transitions of some years (thorough: of all years \
               1840-2099) and local times around and inside of each, judged by a brute-force search for all \
               instants with that local time; or one set of constructor arguments; or one unknown zone id. \
               Non-trivial: distinct (local time, zone).",
        sections: vec![
            sec("zones", TZ_VARIANTS.len() as u64, TZ_VARIANTS.len() as u64, c14_zone),
            sec("constructors", 100_000, 2_000_000, c14_constructors),
            sec("unknown", 100_000, 2_000_000, c14_unknown),
        ],
        require: vec![
            ("zones", TZ_VARIANTS.len() as u64),
            ("transitions forward", 1_000),
            ("transitions backward", 1_000),
            ("local times in a gap", 2_000),
            ("ambiguous local times", 2_000),
            ("unique local times", 20_000),
            ("impossible times", 500),
            ("unknown zones", 1_000),
        ],
        extra: None,
        assumptions: vec!["the UTC-to-local direction of chrono-tz is the reference for the zone rules"],
    }
}

// -------------------------------------------------------------------------------------- C15

/// the trigger read from a property has to be `want`
fn trigger_is(ctx: &mut Ctx, sig: &str, got: Result<Trigger, ()>, want: &Trigger, input: &str) {
    if let (Ok(Trigger::Duration(g, gr)), Trigger::Duration(w, wr)) = (&got, want) {
        if w.num_seconds().unsigned_abs() >= 1 << 32 && *g == Duration::zero() && gr == wr {
            return ctx.known("duration-of-2^32-seconds", format!("a trigger of {w:?} is read as {g:?}"));
        }
    }
    ctx.eq(sig, &got, &Ok(want.clone()), input);
    ctx.obs("triggers read");
}

fn c15_trigger(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let d = if r.one_in(200) { Duration::seconds(r.range(1 << 32, 1 << 40)) } else { model::duration(&mut r) };
    let secs = d.num_seconds();
    let rel = model::related(&mut r);
    let when = model::cdt(&mut r);
    let triggers: Vec<(Trigger, Option<i64>, Option<Related>)> = vec![
        (Trigger::from(d), Some(secs), None),
        (Trigger::from((d, rel)), Some(secs), Some(rel)),
        (Trigger::after_start(d), Some(secs), Some(Related::Start)),
        (Trigger::after_end(d), Some(secs), Some(Related::End)),
        (Trigger::before_start(d), Some(-secs), Some(Related::Start)),
        (Trigger::before_end(d), Some(-secs), Some(Related::End)),
        (Trigger::from(when.clone()), None, None),
        match &when {
            CalendarDateTime::Utc(t) => (Trigger::from(*t), None, None),
            CalendarDateTime::Floating(t) => (Trigger::from(*t), None, None),
            other => (Trigger::from(other.clone()), None, None),
        },
    ];
    for (t, secs, related) in triggers {
        let input = format!("{t:?}");
        ctx.nontrivial(&input);
        ctx.eq("as_duration", &t.as_duration().map(Duration::num_seconds), &secs, &input);
        ctx.eq("related", &t.related(), &related, &input);
        ctx.eq("as_date_time", &t.as_date_time(), &if secs.is_none() { Some(&when) } else { None }, &input);
        let p = Property::from(t.clone());
        ctx.eq("key", &p.key(), &"TRIGGER", &input);
        let tp = t_prop(&p, &mut vec![]);
        if let Some(s) = secs {
            // the text means this length to anybody
            ctx.eq("written length", &seconds_of(&tp.val), &Some(s), &tp.val);
            let want = related.map(|r| if r == Related::Start { "START" } else { "END" });
            ctx.eq("written relation", &tp.params.get("RELATED").map(String::as_str), &want, &input);
        } else {
            ctx.eq("written type", &tp.params.get("VALUE").map(String::as_str), &Some("DATE-TIME"), &input);
            let w = match &when {
                CalendarDateTime::Floating(t) => When::Floating(*t),
                CalendarDateTime::Utc(t) => When::Utc(*t),
                CalendarDateTime::WithTimezone { date_time, tzid } => When::Zoned(*date_time, tzid.clone()),
            };
            let mut form = w.form("TRIGGER");
            form.params.insert("VALUE".into(), "DATE-TIME".into());
            ctx.eq("written time", &tp, &form, &input);
        }
        trigger_is(ctx, "trigger of a property", Trigger::try_from(&p), &t, &input);
        // through the text of an alarm, of its event, and of a calendar
        let alarm = if r.one_in(2) { Alarm::audio(t.clone()) } else { Alarm::display("x", t.clone()) };
        let mut e = Event::new();
        e.alarm(alarm.clone());
        let texts = [Component::to_string(&e), Calendar::from(e).to_string()];
        for text in &texts {
            let unfolded = parser::unfold(text);
            let found = parser::read_components(&unfolded).ok().and_then(|cs| {
                fn find(c: &parser::Component) -> Option<Property> {
                    if c.name == "VALARM" {
                        return c.find_prop("TRIGGER").map(|p| Property::from(p.clone()));
                    }
                    c.components.iter().find_map(find)
                }
                cs.iter().find_map(find)
            });
            match found {
                Some(p) => trigger_is(ctx, "trigger of a document", Trigger::try_from(&p), &t, text),
                None => ctx.fail("the trigger is lost", text.clone()),
            }
        }
        if let Ok(CalendarComponent::Event(e)) = texts[0].parse::<CalendarComponent>() {
            match e.components() {
                [a] if a.component_kind() == "VALARM" => match a.properties().get("TRIGGER") {
                    Some(p) => trigger_is(ctx, "trigger of a parsed event", Trigger::try_from(p), &t, &texts[0]),
                    None => ctx.fail("the trigger is lost", texts[0].clone()),
                },
                other => ctx.fail("the alarm is lost", format!("{other:?}")),
            }
        } else {
            ctx.fail("the event is lost", texts[0].clone());
        }
        if ctx.failed() {
            return;
        }
    }
}

/// RFC 5545 spellings of a length
fn c15_spelling(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let n = |r: &mut Rng| -> u64 {
        match r.below(6) {
            0 => 0,
            1 => r.below(10) as u64,
            2 => r.below(100_000) as u64,
            _ => r.below(200) as u64,
        }
    };
    let digits = |r: &mut Rng, n: u64| {
        let zeros = if r.one_in(4) { r.below(3) } else { 0 };
        format!("{}{n}", "0".repeat(zeros))
    };
    let mut total: u64 = 0;
    let mut s = String::from("P");
    let time = |r: &mut Rng, s: &mut String, total: &mut u64| {
        s.push('T');
        let first = r.below(3);
        let last = first + r.below(3 - first);
        for (i, (u, f)) in [('H', 3600), ('M', 60), ('S', 1)].iter().enumerate() {
            if i >= first && i <= last {
                let v = n(r);
                *total += v * f;
                s.push_str(&format!("{}{u}", digits(r, v)));
            }
        }
    };
    match r.below(4) {
        0 => {
            let v = n(&mut r).min(7000);
            total += v * 604_800;
            s.push_str(&format!("{}W", digits(&mut r, v)));
        }
        1 => {
            let v = n(&mut r).min(49_000);
            total += v * 86_400;
            s.push_str(&format!("{}D", digits(&mut r, v)));
        }
        2 => {
            let v = n(&mut r).min(40_000);
            total += v * 86_400;
            s.push_str(&format!("{}D", digits(&mut r, v)));
            time(&mut r, &mut s, &mut total);
        }
        _ => time(&mut r, &mut s, &mut total),
    }
    let (sign, secs) = match r.below(3) {
        0 => ("", total as i64),
        1 => ("+", total as i64),
        _ => ("-", -(total as i64)),
    };
    let s = format!("{sign}{s}");
    judge_spelling(ctx, &mut r, &s, secs);
    // another spelling of the same
    let d = model::duration(&mut r);
    let s = spell(&mut r, d);
    ctx.check(seconds_of(&s) == Some(d.num_seconds()), "oracle", || format!("{s} {d:?}"));
    judge_spelling(ctx, &mut r, &s, d.num_seconds());
}

fn judge_spelling(ctx: &mut Ctx, r: &mut Rng, s: &str, secs: i64) {
    ctx.nontrivial(s);
    let rel = match r.below(3) {
        0 => None,
        1 => Some(Related::Start),
        _ => Some(Related::End),
    };
    let want = Trigger::Duration(Duration::seconds(secs), rel);
    let mut p = Property::new("TRIGGER", s);
    let mut line = String::from("TRIGGER");
    let mut params = vec![];
    if let Some(rel) = rel {
        params.push(("RELATED", if rel == Related::Start { "START" } else { "END" }));
    }
    if r.one_in(3) {
        params.push(("VALUE", "DURATION"));
    }
    if r.one_in(4) {
        params.push(("X-A", "END"));
    }
    r.shuffle(&mut params);
    for (k, v) in params {
        p.add_parameter(k, v);
        line.push_str(&format!(";{k}={v}"));
    }
    line.push_str(&format!(":{s}"));
    trigger_is(ctx, "duration spelling", Trigger::try_from(&p), &want, s);
    match line.parse::<Property>() {
        Ok(p) => trigger_is(ctx, "duration spelling on a line", Trigger::try_from(&p), &want, &line),
        Err(e) => ctx.fail("a duration line is not accepted", format!("{e}: {line:?}")),
    }
    // refresh intervals have the same syntax
    let mut cal = Calendar::new();
    cal.append_property(("REFRESH-INTERVAL", s));
    let got = cal.get_ttl();
    ctx.eq("refresh interval", &got, &Some(Duration::seconds(secs)), s);
    ctx.obs("spellings");
}

fn c15_alarm(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let t = model::trigger(&mut r);
    let display = r.one_in(2);
    let text = gen::text(&mut r, gen::ANY);
    let mut alarm = if display { Alarm::display(&text, t.clone()) } else { Alarm::audio(t.clone()) };
    let rep = if r.one_in(2) {
        let d = model::duration(&mut r);
        let n = *r.pick(&[0u32, 1, 2, 3, 10, 65_536, u32::MAX]);
        alarm = alarm.duration_and_repeat(d, n);
        Some((d, n))
    } else {
        None
    };
    let rep = if r.one_in(6) {
        // set again: replaced
        let d = model::duration(&mut r);
        alarm = alarm.duration_and_repeat(d, 7);
        Some((d, 7))
    } else {
        rep
    };
    if r.one_in(4) {
        alarm.summary("something else").add_multi_property("ATTENDEE", "mailto:a@b");
    }
    let alarm = if r.one_in(2) { alarm.done() } else { alarm };
    let mut want: BTreeMap<&str, String> = BTreeMap::new();
    want.insert("ACTION", if display { "DISPLAY" } else { "AUDIO" }.into());
    if let Some((_, n)) = rep {
        want.insert("REPEAT", n.to_string());
    }
    let mut host: CalendarComponent = if r.one_in(2) {
        let mut e = Event::new();
        e.alarm(alarm.clone());
        e.into()
    } else {
        let mut e = Todo::new();
        e.alarm(alarm.clone());
        e.into()
    };
    if r.one_in(4) {
        // two alarms stay two
        if let CalendarComponent::Event(e) = &mut host {
            e.alarm(Alarm::audio(Duration::zero()));
        }
    }
    let cal = Calendar::from(host);
    for text_of in [Component::to_string(&alarm), cal.to_string()] {
        ctx.nontrivial(&text_of);
        let tree = match reader::tree(&text_of, false) {
            Ok(t) => t,
            Err(e) => return ctx.fail("malformed output", format!("{e}: {text_of:?}")),
        };
        fn find(c: &XComp) -> Option<&XComp> {
            if c.name == "VALARM" {
                return Some(c);
            }
            c.comps.iter().find_map(find)
        }
        let Some(x) = tree.iter().find_map(find) else {
            return ctx.fail("no VALARM", text_of);
        };
        let values =
            |name: &str| -> Vec<String> { x.props.iter().filter(|p| p.name == name).map(|p| p.val.clone()).collect() };
        ctx.eq("ACTION", &values("ACTION"), &vec![want["ACTION"].clone()], &text_of);
        ctx.eq("number of TRIGGERs", &values("TRIGGER").len(), &1, &text_of);
        ctx.eq("REPEAT", &values("REPEAT"), &want.get("REPEAT").cloned().into_iter().collect::<Vec<_>>(), &text_of);
        let durations: Vec<Option<i64>> = values("DURATION").iter().map(|s| seconds_of(s)).collect();
        ctx.eq("DURATION", &durations, &rep.iter().map(|(d, _)| Some(d.num_seconds())).collect::<Vec<_>>(), &text_of);
        if display {
            ctx.eq("DESCRIPTION", &values("DESCRIPTION"), &vec![text.clone()], &text_of);
        }
        ctx.obs("alarms written");
    }
    let p = alarm.properties().get("TRIGGER");
    match p {
        Some(p) => trigger_is(ctx, "trigger of an alarm", Trigger::try_from(p), &t, "built"),
        None => ctx.fail("no trigger", format!("{alarm:?}")),
    }
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        level: "exploration",
        rule: "A case is a duration, relation and time in every kind of trigger, or two RFC 5545 duration texts, or \
               one alarm; triggers are read back from the property, the alarm, its event and a calendar, and what \
               is written is read by an independent duration reader. Non-trivial: distinct triggers, spellings \
               and alarms.",
        sections: vec![
            sec("triggers", 96_000, 1_920_000, c15_trigger),
            sec("spellings", 480_000, 9_600_000, c15_spelling),
            sec("alarms", 96_000, 1_920_000, c15_alarm),
        ],
        require: vec![("triggers read", 200_000), ("spellings", 100_000), ("alarms written", 10_000)],
        extra: None,
        assumptions: vec!["durations are whole seconds"],
    }
}
