//! What the library does in this build, for C24: `probe <seed> <n>` prints one line "key digest"
//! per case, `probe <seed> <n> <key>` prints what is behind the digest. Cases of a section are the
//! same in every build; sections that need a feature are left out without it.

#[allow(dead_code)]
#[path = "../../harness/src/gen.rs"]
mod gen;
#[allow(dead_code)]
#[path = "../../harness/src/reader.rs"]
mod reader;
#[allow(dead_code)]
#[path = "../../harness/src/rng.rs"]
mod rng;

use chrono::{DateTime, Duration, NaiveDate, NaiveDateTime, Utc};
use gen::ANY;
use icalendar::*;
use rng::Rng;
use std::convert::{TryFrom, TryInto};
use std::fmt::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::str::FromStr;

macro_rules! say {
    ($o:expr, $($arg:tt)*) => { writeln!($o, $($arg)*).unwrap() };
}

// ----------------------------------------------------------------------------- generators

fn date(r: &mut Rng) -> NaiveDate {
    NaiveDate::from_ymd_opt(1970 + r.below(130) as i32, 1 + r.below(12) as u32, 1 + r.below(28) as u32).unwrap()
}

fn date_time(r: &mut Rng) -> NaiveDateTime {
    let d = date(r);
    d.and_hms_opt(r.below(24) as u32, r.below(60) as u32, *r.pick(&[0, 0, 1, 30, 59])).unwrap()
}

fn utc(r: &mut Rng) -> DateTime<Utc> {
    DateTime::from_naive_utc_and_offset(date_time(r), Utc)
}

fn when(r: &mut Rng) -> DatePerhapsTime {
    match r.below(4) {
        0 => date(r).into(),
        1 => date_time(r).into(),
        2 => utc(r).into(),
        _ => DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone {
            date_time: date_time(r),
            tzid: (*r.pick(&["Europe/Berlin", "America/New_York", "Custom", "", "UTC"])).into(),
        }),
    }
}

fn duration(r: &mut Rng) -> Duration {
    let n = match r.below(4) {
        0 => r.below(120) as i64,
        1 => r.below(100_000) as i64,
        2 => 604_800 * r.below(60) as i64,
        _ => 60 * r.below(100_000) as i64,
    };
    Duration::seconds(if r.one_in(3) { -n } else { n })
}

fn trigger(r: &mut Rng) -> Trigger {
    let d = duration(r);
    match r.below(7) {
        0 => Trigger::after_start(d),
        1 => Trigger::after_end(d),
        2 => Trigger::before_start(d),
        3 => Trigger::before_end(d),
        4 => d.into(),
        5 => (d, if r.one_in(2) { Related::Start } else { Related::End }).into(),
        _ => utc(r).into(),
    }
}

fn property(r: &mut Rng) -> Property {
    let name = gen::prop_name(r);
    let value = match r.below(4) {
        0 => utc(r).format("%Y%m%dT%H%M%SZ").to_string(),
        1 => date(r).format("%Y%m%d").to_string(),
        _ => gen::text(r, ANY),
    };
    let mut p = Property::new(name, value);
    for _ in 0..r.small(3) {
        let (k, v) = (gen::param_name(r), gen::param_value(r));
        match r.below(3) {
            0 => p.append_parameter((k.as_str(), v.as_str())),
            1 => p.append_parameter(Parameter::new(&k, &v)),
            _ => p.add_parameter(&k, &v),
        };
    }
    if r.one_in(6) {
        p.append_parameter(ValueType::from_str(*r.pick(&["TEXT", "DATE", "URI", "BINARY", "INTEGER"])).unwrap());
    }
    p.done()
}

fn common<C: Component>(r: &mut Rng, c: &mut C) {
    match r.below(15) {
        0 => {
            let (k, v) = (gen::prop_name(r), gen::text(r, ANY));
            c.add_property(k, v);
        }
        1 => {
            let p = property(r);
            c.append_property(p);
        }
        2 => {
            let p = property(r);
            c.append_multi_property(p);
        }
        3 => {
            let v = gen::text(r, ANY);
            c.add_multi_property(*r.pick(&["ATTENDEE", "CATEGORIES", "COMMENT", "X-A"]), &v);
        }
        4 => {
            let v = gen::text(r, ANY);
            c.add_property_pre_alloc("X-PRE".into(), v);
        }
        5 => {
            let v = gen::text(r, ANY);
            c.summary(&v);
        }
        6 => {
            let v = gen::text(r, ANY);
            c.description(&v);
        }
        7 => {
            c.priority(r.below(14) as u32);
        }
        8 => {
            c.sequence(*r.pick(&[0, 1, 7, u32::MAX]));
        }
        9 => {
            c.class(*r.pick(&[Class::Public, Class::Private, Class::Confidential]));
        }
        10 => {
            let v = gen::text(r, ANY);
            c.url(&v);
        }
        11 => {
            let t = utc(r);
            c.last_modified(t);
        }
        12 => {
            let t = utc(r);
            c.created(t);
        }
        13 => {
            let x = alarm(r);
            c.append_component(x);
        }
        _ => {
            c.append_property(*r.pick(&[Class::Public, Class::Private]));
        }
    }
}

fn event_like<C: EventLike>(r: &mut Rng, c: &mut C) {
    match r.below(6) {
        0 => {
            let w = when(r);
            c.starts(w);
        }
        1 => {
            let w = when(r);
            c.ends(w);
        }
        2 => {
            let d = date(r);
            c.all_day(d);
        }
        3 => {
            let (a, b) = (gen::text(r, ANY), gen::ascii_word(r, 9));
            c.venue(&a, &b);
        }
        4 => {
            let v = gen::text(r, ANY);
            c.location(&v);
        }
        _ => {
            let x = alarm(r);
            c.alarm(x);
        }
    }
}

/// always a UID and a DTSTAMP, what goes in by itself is random
fn ids<C: Component>(r: &mut Rng, c: &mut C) {
    let v = format!("{:x}", r.u64());
    c.uid(&v);
    let t = utc(r);
    c.timestamp(t);
}

fn alarm(r: &mut Rng) -> Alarm {
    let t = trigger(r);
    let mut a = if r.one_in(2) {
        Alarm::audio(t)
    } else {
        let v = gen::text(r, ANY);
        Alarm::display(&v, t)
    };
    if r.one_in(2) {
        let d = duration(r);
        a = a.duration_and_repeat(d, r.below(9) as u32);
    }
    for _ in 0..r.small(3) {
        match r.below(6) {
            0 => {
                let p = property(r);
                a.append_property(p);
            }
            1 => {
                let p = property(r);
                a.append_multi_property(p);
            }
            2 => {
                let v = gen::text(r, ANY);
                a.summary(&v);
            }
            3 => {
                a.priority(r.below(12) as u32);
            }
            _ => {
                let v = gen::text(r, ANY);
                a.add_multi_property("ATTENDEE", &v);
            }
        }
    }
    ids(r, &mut a);
    a.done()
}

fn event(r: &mut Rng) -> Event {
    let mut c = Event::new();
    for _ in 0..r.small(10) {
        match r.below(8) {
            0..=3 => common(r, &mut c),
            4..=6 => event_like(r, &mut c),
            _ => {
                c.status(*r.pick(&[EventStatus::Tentative, EventStatus::Confirmed, EventStatus::Cancelled]));
            }
        }
    }
    ids(r, &mut c);
    c.done()
}

fn todo(r: &mut Rng) -> Todo {
    let mut c = Todo::new();
    for _ in 0..r.small(10) {
        match r.below(10) {
            0..=3 => common(r, &mut c),
            4..=5 => event_like(r, &mut c),
            6 => {
                c.percent_complete(r.below(101) as u8);
            }
            7 => {
                let w = when(r);
                c.due(w);
            }
            8 => {
                let t = utc(r);
                c.completed(t);
            }
            _ => {
                c.status(*r.pick(&[
                    TodoStatus::NeedsAction,
                    TodoStatus::Completed,
                    TodoStatus::InProcess,
                    TodoStatus::Cancelled,
                ]));
            }
        }
    }
    ids(r, &mut c);
    c.done()
}

fn venue(r: &mut Rng) -> Venue {
    let mut c = Venue::new();
    for _ in 0..r.small(10) {
        let v = gen::text(r, ANY);
        match r.below(8) {
            0 => c.street_address(&v),
            1 => c.extended_address(&v),
            2 => c.locality(&v),
            3 => c.region(&v),
            4 => c.country(&v),
            5 => c.postal_code(&v),
            _ => {
                common(r, &mut c);
                &mut c
            }
        };
    }
    ids(r, &mut c);
    c.done()
}

fn calendar(r: &mut Rng) -> Calendar {
    let mut cal = if r.one_in(3) { Calendar::empty() } else { Calendar::new() };
    for _ in 0..r.small(6) {
        let v = gen::text(r, ANY);
        match r.below(6) {
            0 => cal.name(&v),
            1 => cal.description(&v),
            2 => cal.timezone(&v),
            3 => {
                let d = duration(r);
                cal.ttl(&d)
            }
            _ => {
                let p = property(r);
                cal.append_property(p)
            }
        };
    }
    for _ in 0..r.small(5) {
        match r.below(5) {
            0 | 1 => {
                let x = event(r);
                cal.push(x);
            }
            2 => {
                let x = todo(r);
                cal.push(x);
            }
            3 => {
                let x = venue(r);
                cal.extend([x]);
            }
            _ => {
                let mut o = Calendar::from([event(r)]);
                cal.append(&mut o);
            }
        }
    }
    cal
}

// ----------------------------------------------------------------------------- what is seen

fn see_property(o: &mut String, p: &Property) {
    say!(o, "{:?} = {:?} : {:?}", p.key(), p.value(), p.value_type());
    let mut params: Vec<_> = p.params().iter().collect();
    params.sort_by_key(|x| x.0);
    for (k, v) in params {
        say!(o, "  {k:?} {:?} {:?}", v.key(), v.value());
        say!(o, "  {:?}", ValueType::try_from(v.clone()).ok());
    }
    say!(o, "  {:?}", DatePerhapsTime::from_property(p));
    say!(o, "  {:?}", Trigger::try_from(p).ok());
    let text: Result<String, _> = p.clone().try_into();
    say!(o, "  {text:?}");
}

fn see<C: Component>(o: &mut String, c: &C) {
    say!(o, "{} {:?}", c.component_kind(), c.try_into_string());
    say!(o, "{:?}", Component::to_string(c));
    for (k, p) in c.properties() {
        say!(o, "{k:?} {:?}", c.property_value(k));
        see_property(o, p);
    }
    for (k, ps) in c.multi_properties() {
        say!(o, "{k:?} {}", ps.len());
        for p in ps {
            see_property(o, p);
        }
    }
    say!(
        o,
        "{:?}",
        (
            c.get_uid(),
            c.get_timestamp(),
            c.get_start(),
            c.get_end(),
            c.get_priority(),
            c.get_summary(),
            c.get_description(),
            c.get_sequence(),
        )
    );
    say!(o, "{:?}", (c.get_class(), c.get_url(), c.get_last_modified(), c.get_created()));
    for x in c.components() {
        see(o, x);
    }
}

fn see_event(o: &mut String, c: &Event) {
    see(o, c);
    say!(o, "{:?} {:?}", c.get_status(), c.get_location());
}

fn see_todo(o: &mut String, c: &Todo) {
    see(o, c);
    say!(o, "{:?}", (c.get_status(), c.get_location(), c.get_percent_complete(), c.get_due(), c.get_completed()));
}

fn see_venue(o: &mut String, c: &Venue) {
    see(o, c);
    say!(
        o,
        "{:?}",
        (
            c.get_street_address(),
            c.get_extended_address(),
            c.get_locality(),
            c.get_region(),
            c.get_country(),
            c.get_postal_code()
        )
    );
}

fn see_cc(o: &mut String, c: &CalendarComponent) {
    say!(o, "{} {}", c.as_event().is_some(), c.as_todo().is_some());
    match c {
        CalendarComponent::Event(c) => see_event(o, c),
        CalendarComponent::Todo(c) => see_todo(o, c),
        CalendarComponent::Venue(c) => see_venue(o, c),
        CalendarComponent::Other(c) => see(o, c),
        _ => {}
    }
}

fn see_cal(o: &mut String, c: &Calendar) {
    say!(o, "{:?}", c.to_string());
    let text: Result<String, _> = c.try_into();
    say!(o, "{text:?}");
    say!(o, "{:?}", (c.get_name(), c.get_description(), c.get_timezone(), c.get_ttl()));
    for p in &c.properties {
        say!(o, "{:?}", c.property_value(p.key()));
        see_property(o, p);
    }
    for x in c.iter() {
        see_cc(o, x);
    }
}

// ----------------------------------------------------------------------------- sections

fn builders(r: &mut Rng, o: &mut String) {
    match r.below(6) {
        0 => see_event(o, &event(r)),
        1 => see_todo(o, &todo(r)),
        2 => see_venue(o, &venue(r)),
        3 => see(o, &alarm(r)),
        _ => {
            let mut c = calendar(r);
            see_cal(o, &c);
            let p = property(r);
            let copy = c.done();
            c.append_property(p);
            say!(o, "{}", copy == c);
            see_cal(o, &c);
        }
    }
}

/// strings near to dates, durations, triggers, types
fn values(r: &mut Rng, o: &mut String) {
    let text = match r.below(8) {
        0 => utc(r).format("%Y%m%dT%H%M%SZ").to_string(),
        1 => date_time(r).format("%Y%m%dT%H%M%S").to_string(),
        2 => date(r).format("%Y%m%d").to_string(),
        3 => {
            let p: Property = duration(r).into();
            p.value().to_string()
        }
        4 => (*r.pick(&["TEXT", "BINARY", "text", "DATE-TIME", "BOOLEAN", "DURATION", "RECUR", ""])).into(),
        5 => format!("{}", r.u64() as i64 >> r.below(60)),
        6 => {
            let p: Property = trigger(r).into();
            p.value().to_string()
        }
        _ => gen::text(r, ANY),
    };
    let text = match r.below(6) {
        0 => {
            let mut cs: Vec<char> = text.chars().collect();
            if !cs.is_empty() {
                let i = r.below(cs.len());
                cs[i] = *r.pick(&['0', '9', 'T', 'Z', '-', '+', 'P', ' ', '\u{660}']);
            }
            cs.into_iter().collect()
        }
        1 => format!("{text}{}", r.pick(&["Z", "0", " ", "S"])),
        _ => text,
    };
    say!(o, "{:?}", CalendarDateTime::from_str(&text));
    say!(o, "{:?}", ValueType::from_str(&text).ok());
    for name in ["DTSTART", "TRIGGER", "DURATION", "X", "REFRESH-INTERVAL"] {
        let mut p = Property::new(name, text.as_str());
        see_property(o, &p);
        for (k, v) in [("TZID", "Europe/Berlin"), ("VALUE", "DATE-TIME"), ("RELATED", "END"), ("VALUE", "DATE")] {
            if r.one_in(3) {
                p.add_parameter(k, v);
                see_property(o, &p);
            }
        }
    }
    let mut e = Event::new();
    for k in
        ["DTSTART", "DTEND", "DTSTAMP", "CREATED", "LAST-MODIFIED", "PRIORITY", "SEQUENCE", "CLASS", "STATUS", "UID"]
    {
        e.add_property(k, text.as_str());
    }
    e.uid("1");
    say!(
        o,
        "{:?}",
        (
            e.get_start(),
            e.get_end(),
            e.get_timestamp(),
            e.get_created(),
            e.get_last_modified(),
            e.get_priority(),
            e.get_sequence(),
            e.get_class(),
            e.get_status()
        )
    );
    let mut t = Todo::new();
    for k in ["DUE", "COMPLETED", "PERCENT-COMPLETE", "STATUS"] {
        t.add_property(k, text.as_str());
    }
    say!(o, "{:?}", (t.get_due(), t.get_completed(), t.get_percent_complete(), t.get_status()));
    let mut c = Calendar::empty();
    c.append_property(Property::new("REFRESH-INTERVAL", text.as_str()));
    say!(o, "{:?}", c.get_ttl());
    let w = when(r);
    say!(o, "{:?} {:?}", w.date_naive(), NaiveDate::from(w.clone()));
    see_property(o, &w.to_property("DTEND"));
    let t = trigger(r);
    say!(o, "{:?} {:?} {:?}", t.related(), t.as_duration(), t.as_date_time());
    let p: Property = t.into();
    see_property(o, &p);
}

#[cfg(feature = "parser")]
fn document(r: &mut Rng) -> String {
    let doc = if r.one_in(2) { gen::realistic(r) } else { gen::document(r, &gen::DEFAULT_DOC) };
    let mut lines = gen::lines_of(&doc);
    if r.one_in(3) && !lines.is_empty() {
        let i = r.below(lines.len());
        match r.below(4) {
            0 => {
                lines.remove(i);
            }
            1 => lines[i] = gen::text(r, ANY),
            2 => lines[i].insert(0, ';'),
            _ => {
                let l = lines[i].clone();
                lines.insert(i, l);
            }
        }
    }
    let eol = if r.one_in(2) { "\r\n" } else { "\n" };
    let mut text = lines.join(eol);
    text.push_str(eol);
    if r.one_in(5) {
        let mut k = r.below(text.len());
        while !text.is_char_boundary(k) {
            k -= 1;
        }
        text.truncate(k);
    }
    text
}

#[cfg(feature = "parser")]
fn see_parsed(o: &mut String, c: &parser::Component) {
    say!(o, "{:?}", c.name.as_str());
    for p in &c.properties {
        say!(o, "{:?} {:?}", p.name.as_str(), p.val.as_str());
        for q in &p.params {
            say!(o, "  {:?} {:?}", q.key.as_str(), q.val.as_ref().map(|v| v.as_str().to_string()));
        }
        say!(o, "{:?} {:?}", p.to_string(), DatePerhapsTime::try_from(p));
        see_property(o, &Property::from(p.clone()));
        say!(o, "{:?}", p.val.clone().unescape_by_value_type(ValueType::Text).as_str());
    }
    for x in &c.components {
        see_parsed(o, x);
    }
}

/// Gives it the UID and DTSTAMP it lacks, and all in it.
#[cfg(feature = "parser")]
fn identify(c: &mut parser::Component) {
    for (k, v) in [("UID", "u"), ("DTSTAMP", "20240101T000000Z")] {
        if c.properties.iter().all(|p| p.name.as_str() != k) {
            c.properties.push(parser::Property::new_ref(k, v));
        }
    }
    c.components.iter_mut().for_each(identify);
}

#[cfg(feature = "parser")]
fn documents(r: &mut Rng, o: &mut String) {
    let text = document(r);
    let flat = parser::unfold(&text);
    say!(o, "{flat:?}");
    match parser::read_components(&flat) {
        Ok(cs) => {
            for c in &cs {
                see_parsed(o, c);
                // UID and DTSTAMP would be made up
                let mut c = c.clone();
                identify(&mut c);
                see_cc(o, &CalendarComponent::from(c.clone()));
                for x in &c.components {
                    see_cc(o, &CalendarComponent::from(x.clone()));
                }
            }
        }
        Err(e) => say!(o, "{e}"),
    }
    match parser::read_calendar(&flat) {
        Ok(c) => {
            say!(o, "{c}");
            for x in &c.components {
                see_parsed(o, x);
            }
            let mut c = c.clone();
            c.components.iter_mut().for_each(identify);
            let text = c.to_string();
            see_cal(o, &c.into());
            match Calendar::from_str(&text) {
                Ok(c) => see_cal(o, &c),
                Err(e) => say!(o, "{e}"),
            }
        }
        Err(e) => say!(o, "{e}"),
    }
    match Calendar::from_str(&text) {
        Ok(c) => {
            say!(o, "{} {} {:?}", c.properties.len(), c.components.len(), c.get_name());
        }
        Err(e) => say!(o, "{e}"),
    }
    if let Err(e) = CalendarComponent::from_str(&text) {
        say!(o, "{e}");
    }
    for l in flat.lines() {
        match Property::from_str(l) {
            Ok(p) => see_property(o, &p),
            Err(e) => say!(o, "{e}"),
        }
    }
}

#[cfg(all(feature = "parser", feature = "serde", feature = "serde_json"))]
fn json(r: &mut Rng, o: &mut String) {
    let text = document(r);
    let flat = parser::unfold(&text);
    let Ok(c) = parser::read_calendar(&flat) else {
        return;
    };
    let j = serde_json::to_string(&c);
    say!(o, "{:?}", j.as_ref().ok());
    if let Ok(j) = &j {
        let back: Result<parser::Calendar, _> = serde_json::from_str(j);
        say!(o, "{:?}", back.map(|b| (b.components == c.components, b.to_string())).ok());
    }
}

#[cfg(feature = "chrono-tz")]
fn zones(r: &mut Rng, o: &mut String) {
    let tz = *r.pick(&[
        chrono_tz::Europe::Berlin,
        chrono_tz::America::New_York,
        chrono_tz::Pacific::Apia,
        chrono_tz::UTC,
        chrono_tz::Asia::Tokyo,
    ]);
    let t = date_time(r);
    let d: CalendarDateTime = (t, tz).into();
    say!(o, "{d:?} {:?}", d.try_into_utc());
    for name in ["Europe/Berlin", "Nowhere/There", "", "UTC", "europe/berlin"] {
        say!(o, "{:?}", CalendarDateTime::try_from((t, name)));
        say!(o, "{:?}", DatePerhapsTime::try_from((t, name)));
        let d = CalendarDateTime::WithTimezone { date_time: t, tzid: name.into() };
        say!(o, "{:?}", d.try_into_utc());
    }
    let u = utc(r).with_timezone(&tz);
    say!(o, "{:?}", CalendarDateTime::from_date_time(u));
    say!(
        o,
        "{:?}",
        ymd_hm_tzid(
            2000 + r.below(90) as i32,
            r.below(14) as u32,
            r.below(33) as u32,
            r.below(26) as u32,
            r.below(62) as u32,
            tz
        )
    );
}

/// Sizes past any limit, page or narrow counter; every case is one size in one direction.
const SIZES: [usize; 14] = [2, 9, 17, 33, 65, 101, 129, 257, 513, 1025, 2049, 4100, 10_001, 65_540];
const BUILT: usize = 9;
#[cfg(feature = "parser")]
const PARSED: usize = 11;

fn size_of(case: u64, of: usize) -> (usize, usize) {
    (case as usize % of, SIZES[case as usize / of % SIZES.len()])
}

fn see_large<C: Component + Clone + PartialEq>(o: &mut String, c: &C) {
    say!(o, "{} {:?}", c.component_kind(), c.try_into_string());
    say!(o, "{} {}", c.properties().len(), c.components().len());
    for (k, ps) in c.multi_properties() {
        say!(o, "{k:?} {}", ps.len());
    }
    say!(o, "{:?} {:?} {:?}", c.get_uid(), c.get_summary().map(str::len), c.property_value("X-1"));
    say!(o, "{}", c.clone() == *c);
}

fn large_built(case: u64, o: &mut String) {
    let (dim, n) = size_of(case, BUILT);
    let mut e = Event::new();
    e.uid("u").timestamp(DateTime::from_timestamp(1_700_000_000, 0).unwrap_or_default());
    match dim {
        0 => {
            for i in 0..n {
                e.add_property(&format!("X-{i}"), &i.to_string());
            }
        }
        1 => {
            for i in 0..n {
                e.add_multi_property("COMMENT", &i.to_string());
            }
        }
        2 => {
            for i in 0..n {
                let mut a = Alarm::display(&i.to_string(), Trigger::before_start(Duration::seconds(i as i64)));
                a.uid("a").timestamp(DateTime::from_timestamp(1_700_000_000, 0).unwrap_or_default());
                e.alarm(a);
            }
        }
        3 => {
            let mut p = Property::new("X-P", "v");
            for i in 0..n {
                p.add_parameter(&format!("X-{i}"), &i.to_string());
            }
            see_property(o, &p.done());
            return;
        }
        4 => {
            e.summary(&"ab ;,\\\n\u{e9}".repeat(n));
        }
        5 => {
            e.add_property("X-RAW", "0123456789".repeat(n));
        }
        6 => {
            let mut p = Property::new("X-P", "v");
            p.add_parameter("X-LONG", &"a:b".repeat(n));
            e.append_property(p);
        }
        7 => {
            for i in 0..n {
                e.summary(&i.to_string()).priority(i as u32).sequence(i as u32);
            }
        }
        _ => {
            let mut c = Calendar::new();
            for i in 0..n {
                let mut x = e.clone();
                x.uid(&i.to_string());
                c.push(x);
                if i % 2 == 1 {
                    c.append_property(("X-P", i.to_string().as_str()));
                }
            }
            say!(o, "{c}");
            say!(o, "{} {}", c.len(), c.properties.len());
            return;
        }
    }
    see_large(o, &e.done());
}

#[cfg(feature = "parser")]
fn large_parsed(case: u64, o: &mut String) {
    let (dim, n) = size_of(case, PARSED);
    let mut lines: Vec<String> = vec!["UID:u".into(), "DTSTAMP:20240101T000000Z".into()];
    let mut head: Vec<String> = vec![];
    let mut rest: Vec<String> = vec![];
    for i in 0..n {
        match dim {
            0 => lines.push(format!("X-{i}:{i}")),
            1 => lines.push(format!("COMMENT:{i}")),
            2 => lines.push(format!("X-SAME;A={i}:{i}")),
            3 => lines.extend(["BEGIN:VALARM".into(), format!("UID:{i}"), lines[1].clone(), "END:VALARM".into()]),
            4 => rest.extend(["BEGIN:VTODO".into(), format!("UID:{i}"), lines[1].clone(), "END:VTODO".into()]),
            5 => head.push(format!("X-{i}:{i}")),
            _ => {}
        }
    }
    match dim {
        6 => lines.push(format!("X{}:v", (0..n).map(|i| format!(";X-{i}={i}")).collect::<String>())),
        7 => lines.push(format!("SUMMARY:{}", "ab\\n\\,\\;\\\\\u{e9}".repeat(n))),
        8 => lines.push(format!("CATEGORIES:{}", "a,".repeat(n))),
        9 => lines.push(format!("X;A=\"{}\":v", "a:b".repeat(n))),
        10 => lines.push(format!("DESCRIPTION:{}", "0123456\r\n ".repeat(n))),
        _ => {}
    }
    let mut all: Vec<String> = vec!["BEGIN:VCALENDAR".into()];
    all.append(&mut head);
    all.push("BEGIN:VEVENT".into());
    all.append(&mut lines);
    all.push("END:VEVENT".into());
    all.append(&mut rest);
    all.push("END:VCALENDAR\r\n".into());
    let text = all.join("\r\n");
    let flat = parser::unfold(&text);
    say!(o, "{flat}");
    match parser::read_calendar(&flat) {
        Ok(c) => {
            say!(o, "{c}");
            say!(o, "{} {}", c.properties.len(), c.components.len());
            let typed = Calendar::from(c);
            say!(o, "{typed}");
            for x in typed.iter() {
                match x {
                    CalendarComponent::Event(e) => see_large(o, e),
                    CalendarComponent::Todo(e) => see_large(o, e),
                    _ => {}
                }
            }
        }
        Err(e) => say!(o, "{e}"),
    }
    match parser::read_components(&flat) {
        Ok(c) => say!(o, "{}", c.len()),
        Err(e) => say!(o, "{e}"),
    }
}

enum Work {
    Random(fn(&mut Rng, &mut String)),
    Case(fn(u64, &mut String)),
}

type Section = (&'static str, u64, u64, Work);

fn main() {
    let args: Vec<String> = std::env::args().skip(1).collect();
    let seed: u64 = args[0].parse().expect("seed");
    let n: u64 = args[1].parse().expect("number");
    #[allow(unused_mut)]
    let mut sections: Vec<Section> = vec![
        ("B", 1, n, Work::Random(builders)),
        ("V", 2, n, Work::Random(values)),
        ("M", 6, (BUILT * SIZES.len()) as u64, Work::Case(large_built)),
    ];
    #[cfg(feature = "parser")]
    sections.push(("P", 3, n, Work::Random(documents)));
    #[cfg(feature = "parser")]
    sections.push(("L", 7, (PARSED * SIZES.len()) as u64, Work::Case(large_parsed)));
    #[cfg(all(feature = "parser", feature = "serde", feature = "serde_json"))]
    sections.push(("J", 4, n, Work::Random(json)));
    #[cfg(feature = "chrono-tz")]
    sections.push(("Z", 5, n, Work::Random(zones)));
    if args.len() < 3 {
        std::panic::set_hook(Box::new(|_| {}));
    }
    for (name, tag, n, f) in &sections {
        for i in 0..*n {
            let key = format!("{name}{i}");
            if args.len() > 2 && args[2] != key {
                continue;
            }
            let mut r = Rng::new(&[seed, 0xc24, *tag, i]);
            let mut o = String::new();
            let died = catch_unwind(AssertUnwindSafe(|| match f {
                Work::Random(f) => f(&mut r, &mut o),
                Work::Case(f) => f(i, &mut o),
            }))
            .is_err();
            if died {
                o.push_str("panic\n");
            }
            if args.len() > 2 {
                print!("{o}");
            } else {
                println!("{key} {:016x} {}", rng::hash_str(&o), o.len());
            }
        }
    }
}
