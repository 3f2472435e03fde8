//! Random programs over the public builders, run on the real types and on a small model.

use crate::conv::{t_prop, TComp, TProp};
use crate::gen;
use crate::reader::is_text;
use crate::rng::Rng;
use crate::rt::Ctx;
use chrono::{DateTime, Duration, NaiveDate, NaiveDateTime, TimeZone, Utc};
use icalendar::*;
use std::collections::BTreeMap;

/// Names RFC 5545 lets occur more than once and the library files as repeatable.
pub const REPEATABLE: &[&str] =
    &["ATTACH", "ATTENDEE", "CATEGORIES", "COMMENT", "CONTACT", "EXDATE", "FREEBUSY", "RDATE", "RESOURCES"];
/// further names the library's own list has
pub const REPEATABLE_TOO: &[&str] = &["IANA-PROP", "RELATED", "RSTATUS", "X-PROP"];

pub fn is_repeatable(name: &str) -> bool {
    REPEATABLE.contains(&name) || REPEATABLE_TOO.contains(&name)
}

// -------------------------------------------------------------------------------- points in time

#[derive(Clone, Debug, PartialEq)]
pub enum When {
    Date(NaiveDate),
    Floating(NaiveDateTime),
    Utc(DateTime<Utc>),
    Zoned(NaiveDateTime, String),
}

fn ymd(d: &NaiveDate) -> String {
    use chrono::Datelike;
    format!("{:04}{:02}{:02}", d.year(), d.month(), d.day())
}

pub fn ymdhms(d: &NaiveDateTime) -> String {
    use chrono::{Datelike, Timelike};
    // chrono's way to hold a leap second is a second of 59 with too many nanoseconds
    let leap = d.nanosecond() / 1_000_000_000;
    crate::conv::fmt_date_time(d.year(), d.month(), d.day(), d.hour(), d.minute(), d.second() + leap)
}

impl When {
    /// the RFC 5545 form
    pub fn form(&self, key: &str) -> TProp {
        let mut params = BTreeMap::new();
        let val = match self {
            When::Date(d) => {
                params.insert("VALUE".to_string(), "DATE".to_string());
                ymd(d)
            }
            When::Floating(t) => ymdhms(t),
            When::Utc(t) => format!("{}Z", ymdhms(&t.naive_utc())),
            When::Zoned(t, tz) => {
                params.insert("TZID".to_string(), tz.clone());
                ymdhms(t)
            }
        };
        TProp { name: key.into(), params, val }
    }
    pub fn value(&self) -> DatePerhapsTime {
        match self {
            When::Date(d) => DatePerhapsTime::Date(*d),
            When::Floating(t) => DatePerhapsTime::DateTime(CalendarDateTime::Floating(*t)),
            When::Utc(t) => DatePerhapsTime::DateTime(CalendarDateTime::Utc(*t)),
            When::Zoned(t, tz) => {
                DatePerhapsTime::DateTime(CalendarDateTime::WithTimezone { date_time: *t, tzid: tz.clone() })
            }
        }
    }
    /// the same through one of the conversions the setters accept
    #[allow(deprecated)]
    pub fn convert(&self, r: &mut Rng) -> DatePerhapsTime {
        let inside = match self {
            When::Date(_) => self.clone(),
            When::Floating(t) => When::Floating(within(r, *t)),
            When::Utc(t) => When::Utc(utc_within(r, *t)),
            When::Zoned(t, tz) => When::Zoned(within(r, *t), tz.clone()),
        };
        match &inside {
            When::Date(d) => match r.below(3) {
                0 => (*d).into(),
                1 => chrono::Date::<Utc>::from_utc(*d, Utc).into(),
                _ => DatePerhapsTime::Date(*d),
            },
            When::Floating(t) => match r.below(3) {
                0 => (*t).into(),
                1 => CalendarDateTime::from(*t).into(),
                _ => DatePerhapsTime::DateTime(CalendarDateTime::Floating(*t)),
            },
            When::Utc(t) => match r.below(3) {
                0 => (*t).into(),
                1 => CalendarDateTime::from(*t).into(),
                _ => DatePerhapsTime::DateTime(CalendarDateTime::Utc(*t)),
            },
            When::Zoned(t, tz) => match tz.parse::<chrono_tz::Tz>() {
                Ok(zone) if zone.name() == tz => match r.below(5) {
                    0 => (*t, zone).into(),
                    1 => CalendarDateTime::from((*t, zone)).into(),
                    2 => DatePerhapsTime::try_from((*t, tz.as_str())).unwrap_or_else(|_| inside.value()),
                    3 => {
                        CalendarDateTime::try_from((*t, tz.as_str())).map(Into::into).unwrap_or_else(|_| inside.value())
                    }
                    _ => inside.value(),
                },
                _ => inside.value(),
            },
        }
    }
}

pub fn date(r: &mut Rng) -> NaiveDate {
    if let Some(t) = r.echo_time(6) {
        return t.date();
    }
    let d = fresh_date(r);
    r.keep_time(d.and_hms_opt(0, 0, 0).unwrap());
    d
}

fn fresh_date(r: &mut Rng) -> NaiveDate {
    loop {
        let y = match r.below(10) {
            0 => r.range(0, 9999),
            1 => *r.pick(&[0, 1, 9, 99, 999, 1000, 1582, 1900, 1969, 1970, 2000, 2038, 9999]),
            _ => r.range(1970, 2099),
        };
        let (m, d) = match r.below(6) {
            0 => (2, r.range(27, 29)),
            1 => (12, 31),
            2 => (1, 1),
            3 => (r.range(1, 12), r.range(28, 31)),
            _ => (r.range(1, 12), r.range(1, 28)),
        };
        if let Some(d) = NaiveDate::from_ymd_opt(y as i32, m as u32, d as u32) {
            return d;
        }
    }
}

pub fn date_time(r: &mut Rng) -> NaiveDateTime {
    if let Some(t) = r.echo_time(6) {
        return t;
    }
    let d = fresh_date(r);
    let (h, m, s) = match r.below(6) {
        0 => (0, 0, 0),
        1 => (23, 59, 59),
        2 => (r.range(0, 9), r.range(0, 9), r.range(0, 9)),
        _ => (r.range(0, 23), r.range(0, 59), r.range(0, 59)),
    };
    let mut t = d.and_hms_opt(h as u32, m as u32, s as u32).unwrap();
    if r.one_in(24) {
        // a leap second
        t = d.and_hms_nano_opt(h as u32, m as u32, 59, 1_000_000_000).unwrap();
    }
    r.keep_time(t);
    t
}

/// Without leap seconds, for those who reckon with times.
pub fn plain_time(r: &mut Rng) -> NaiveDateTime {
    use chrono::Timelike;
    date_time(r).with_nanosecond(0).unwrap()
}

/// The same second, somewhere inside of it. What is written is the second.
pub fn within(r: &mut Rng, t: NaiveDateTime) -> NaiveDateTime {
    use chrono::Timelike;
    let ns = match r.below(6) {
        0 => 1,
        1 => *r.pick(&[499_999_999, 500_000_000, 500_000_001, 999_999_999, 999_500_000, 123_456_789]),
        2 => r.range(0, 999_999_999),
        _ => 0,
    };
    t.with_nanosecond(t.nanosecond() + ns as u32).unwrap()
}

pub fn utc_within(r: &mut Rng, t: DateTime<Utc>) -> DateTime<Utc> {
    Utc.from_utc_datetime(&within(r, t.naive_utc()))
}

pub fn tzid(r: &mut Rng) -> String {
    match r.below(6) {
        0 => (*r.pick(&[
            "W. Europe Standard Time",
            "/freeassociation.sourceforge.net/Europe/Berlin",
            "Custom: Zone; 1",
            "(UTC+01:00) Amsterdam, Berlin",
            "Zo\u{eb}/\u{6771}\u{4eac}",
            "MY-TZ-ID",
            "Z",
            "europe/berlin",
            "DATE",
        ]))
        .to_string(),
        1 => {
            let v = gen::param_value(r);
            if v.is_empty() && !r.one_in(4) {
                "X".into()
            } else {
                v
            }
        }
        _ => r.pick(&chrono_tz::TZ_VARIANTS).name().to_string(),
    }
}

pub fn when(r: &mut Rng) -> When {
    match r.below(4) {
        0 => When::Date(date(r)),
        1 => When::Floating(date_time(r)),
        2 => When::Utc(Utc.from_utc_datetime(&date_time(r))),
        _ => {
            let t = date_time(r);
            When::Zoned(t, tzid(r))
        }
    }
}

pub fn utc(r: &mut Rng) -> DateTime<Utc> {
    Utc.from_utc_datetime(&date_time(r))
}

/// A date-time without the date-only form, as the alarms take it.
pub fn cdt(r: &mut Rng) -> CalendarDateTime {
    match r.below(3) {
        0 => CalendarDateTime::Floating(date_time(r)),
        1 => CalendarDateTime::Utc(utc(r)),
        _ => {
            let date_time = date_time(r);
            CalendarDateTime::WithTimezone { date_time, tzid: tzid(r) }
        }
    }
}

/// whole seconds, below 2^32 in size
pub fn seconds(r: &mut Rng) -> i64 {
    let n = match r.below(8) {
        0 => *r.pick(&[0, 1, 59, 60, 61, 3599, 3600, 3601, 86399, 86400, 86401, 604_799, 604_800, 604_801]),
        1 => *r.pick(&[u32::MAX as i64, i32::MAX as i64, i32::MAX as i64 + 1, 1 << 31, (1 << 24) + 1]),
        2 => r.range(0, u32::MAX as i64),
        3 => r.range(0, 60) * 86400,
        4 => r.range(0, 500) * 3600,
        _ => r.range(0, 200_000),
    };
    if r.one_in(2) {
        -n
    } else {
        n
    }
}

pub fn duration(r: &mut Rng) -> Duration {
    Duration::seconds(seconds(r))
}

pub fn related(r: &mut Rng) -> Related {
    if r.one_in(2) {
        Related::Start
    } else {
        Related::End
    }
}

pub fn trigger(r: &mut Rng) -> Trigger {
    match r.below(8) {
        0 => Trigger::from(duration(r)),
        1 => {
            let d = duration(r);
            Trigger::from((d, related(r)))
        }
        2 => Trigger::after_start(duration(r)),
        3 => Trigger::after_end(duration(r)),
        4 => Trigger::before_start(duration(r)),
        5 => Trigger::before_end(duration(r)),
        _ => Trigger::from(cdt(r)),
    }
}

// --------------------------------------------------------------------------------------- the model

#[derive(Clone, Debug, PartialEq)]
pub enum Typed {
    Raw,
    Num(u32),
    Class(Class),
    EventStatus(EventStatus),
    TodoStatus(TodoStatus),
    Utc(DateTime<Utc>),
    When(DatePerhapsTime),
}

#[derive(Clone, Debug)]
pub struct MComp {
    pub kind: &'static str,
    pub props: BTreeMap<String, TProp>,
    pub multi: BTreeMap<String, Vec<TProp>>,
    pub typed: BTreeMap<String, Typed>,
    pub comps: Vec<MComp>,
    pub ops: usize,
}

impl MComp {
    pub fn new(kind: &'static str) -> MComp {
        MComp { kind, props: BTreeMap::new(), multi: BTreeMap::new(), typed: BTreeMap::new(), comps: vec![], ops: 0 }
    }
    pub fn set(&mut self, p: TProp, t: Typed) {
        self.typed.insert(p.name.clone(), t);
        self.props.insert(p.name.clone(), p);
    }
    pub fn set_text(&mut self, name: &str, v: &str) {
        self.set(TProp { name: name.into(), params: BTreeMap::new(), val: v.into() }, Typed::Raw);
    }
    pub fn push_multi(&mut self, p: TProp) {
        self.multi.entry(p.name.clone()).or_default().push(p);
    }
    pub fn tree(&self) -> TComp {
        let mut props: BTreeMap<String, Vec<TProp>> = BTreeMap::new();
        for (k, p) in &self.props {
            props.entry(k.clone()).or_default().push(p.clone());
        }
        for (k, ps) in &self.multi {
            props.entry(k.clone()).or_default().extend(ps.iter().cloned());
        }
        TComp { kind: self.kind.into(), props, comps: self.comps.iter().map(MComp::tree).collect() }
    }
}

#[derive(Clone, Copy, Debug)]
pub struct Dom {
    pub max_ops: usize,
    pub depth: usize,
    /// every component gets a UID and a DTSTAMP at the end
    pub ids: bool,
    /// repeatable names only through the multi API, all other names only through the single API
    pub by_table: bool,
    /// names with a getter are never added through the multi API
    pub tame_multi: bool,
    /// property names without lower case
    pub values: gen::Alphabet,
}

pub const DOM: Dom = Dom { max_ops: 14, depth: 2, ids: false, by_table: false, tame_multi: false, values: gen::ANY };

/// A value in the domain of C02 for a property of this name and VALUE parameter.
pub fn value_for(r: &mut Rng, name: &str, value_param: Option<&str>, a: gen::Alphabet) -> String {
    if r.pct(20) {
        if let Some(v) = gen::typical_value(r, name) {
            return v;
        }
    }
    if is_text(name, value_param) {
        gen::text(r, a)
    } else {
        gen::text(r, gen::Alphabet { lf: false, cr: false, ..a })
    }
}

pub fn any_property(r: &mut Rng, name: &str, a: gen::Alphabet) -> (Property, TProp) {
    let mut params: BTreeMap<String, String> = BTreeMap::new();
    let mut order = vec![];
    let n = match r.below(8) {
        0..=3 => 0,
        4 | 5 => 1,
        6 => 2,
        _ => r.below(6),
    };
    for _ in 0..n {
        let (k, v) = if r.one_in(4) {
            ("VALUE".to_string(), (*r.pick(gen::VALUE_TYPES)).to_string())
        } else {
            let k = gen::param_name(r);
            let v = gen::param_value_for(r, &k);
            (k, v)
        };
        params.insert(k.clone(), v.clone());
        order.push((k, v));
    }
    let val = value_for(r, name, params.get("VALUE").map(String::as_str), a);
    let mut p = match r.below(3) {
        0 => Property::from((name, val.as_str())),
        1 => Property::new(name, val.as_str()),
        _ => Property::new(name.to_string(), val.clone()),
    };
    for (k, v) in order {
        match r.below(3) {
            0 => p.add_parameter(&k, &v),
            1 => p.append_parameter(Parameter::new(&k, &v)),
            _ => p.append_parameter((k.as_str(), v.as_str())),
        };
    }
    let p = if r.one_in(2) { p.done() } else { p };
    (p, TProp { name: name.into(), params, val })
}

fn single_name(r: &mut Rng, d: &Dom) -> String {
    loop {
        let n = gen::prop_name(r);
        if n == "UID" || n == "DTSTAMP" || (d.by_table && is_repeatable(&n)) {
            continue;
        }
        return n;
    }
}

const GETTER_NAMES: &[&str] = &[
    "UID",
    "DTSTAMP",
    "SUMMARY",
    "DESCRIPTION",
    "URL",
    "SEQUENCE",
    "CLASS",
    "PRIORITY",
    "CREATED",
    "LAST-MODIFIED",
    "DTSTART",
    "DTEND",
    "LOCATION",
    "STATUS",
    "PERCENT-COMPLETE",
    "DUE",
    "COMPLETED",
    "STREET-ADDRESS",
    "EXTENDED-ADDRESS",
    "LOCALITY",
    "REGION",
    "COUNTRY",
    "POSTAL-CODE",
    "TRIGGER",
    "ACTION",
    "REPEAT",
    "DURATION",
];

fn multi_name(r: &mut Rng, d: &Dom) -> String {
    loop {
        let n = if d.by_table || r.one_in(2) { (*r.pick(REPEATABLE)).to_string() } else { gen::prop_name(r) };
        if n == "UID" || n == "DTSTAMP" {
            continue;
        }
        if d.tame_multi && GETTER_NAMES.contains(&n.as_str()) {
            continue;
        }
        return n;
    }
}

fn common_op<C: Component>(r: &mut Rng, d: &Dom, level: usize, c: &mut C, m: &mut MComp) {
    let a = d.values;
    match r.below(20) {
        0 => {
            let v = gen::text(r, a);
            c.summary(&v);
            m.set_text("SUMMARY", &v);
        }
        1 => {
            let v = gen::text(r, a);
            c.description(&v);
            m.set_text("DESCRIPTION", &v);
        }
        2 => {
            let v = if r.one_in(3) { gen::uid(r) } else { gen::text(r, a) };
            c.uid(&v);
            m.set_text("UID", &v);
        }
        3 => {
            let v = value_for(r, "URL", None, a);
            c.url(&v);
            m.set_text("URL", &v);
        }
        4 => {
            let n = if r.one_in(2) { r.u64() as u32 } else { *r.pick(&[0, 1, 2, 7, 10, 99, 1000, u32::MAX]) };
            c.sequence(n);
            m.set_text("SEQUENCE", &n.to_string());
            m.typed.insert("SEQUENCE".into(), Typed::Num(n));
        }
        5 => {
            let n = *r.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 99, 100, u32::MAX]);
            c.priority(n);
            m.set_text("PRIORITY", &n.min(10).to_string());
            m.typed.insert("PRIORITY".into(), Typed::Num(n.min(10)));
        }
        6 => {
            let (v, s) = *r.pick(&[
                (Class::Public, "PUBLIC"),
                (Class::Private, "PRIVATE"),
                (Class::Confidential, "CONFIDENTIAL"),
            ]);
            c.class(v);
            m.set_text("CLASS", s);
            m.typed.insert("CLASS".into(), Typed::Class(v));
        }
        7..=9 => {
            let t = utc(r);
            let name = *r.pick(&["DTSTAMP", "CREATED", "LAST-MODIFIED"]);
            let inside = utc_within(r, t);
            match name {
                "DTSTAMP" => c.timestamp(inside),
                "CREATED" => c.created(inside),
                _ => c.last_modified(inside),
            };
            m.set(When::Utc(t).form(name), Typed::Utc(t));
        }
        10 | 11 => {
            let name = single_name(r, d);
            let v = value_for(r, &name, None, a);
            match r.below(4) {
                0 => c.add_property(&name, &v),
                1 => c.add_property(name.clone(), v.clone()),
                #[allow(deprecated)]
                2 => c.add_property_pre_alloc(name.clone(), v.clone()),
                _ => c.append_property((name.as_str(), v.as_str())),
            };
            m.set_text(&name, &v);
        }
        12 | 13 => {
            let name = single_name(r, d);
            let (p, t) = any_property(r, &name, a);
            c.append_property(p);
            m.set(t, Typed::Raw);
        }
        14 => {
            let name = multi_name(r, d);
            let v = value_for(r, &name, None, a);
            c.add_multi_property(&name, &v);
            m.push_multi(TProp { name, params: BTreeMap::new(), val: v });
        }
        15..=17 => {
            let name = multi_name(r, d);
            let n = 1 + r.below(3);
            for _ in 0..n {
                let (p, t) = any_property(r, &name, a);
                c.append_multi_property(p);
                m.push_multi(t);
            }
        }
        _ => {
            if level < d.depth {
                match r.below(5) {
                    0 => {
                        let (x, t) = event(r, d, level + 1);
                        c.append_component(x);
                        m.comps.push(t);
                    }
                    1 => {
                        let (x, t) = todo(r, d, level + 1);
                        c.append_component(x);
                        m.comps.push(t);
                    }
                    2 => {
                        let (x, t) = venue(r, d, level + 1);
                        c.append_component(x);
                        m.comps.push(t);
                    }
                    3 => {
                        let (x, t) = other(r, d, level + 1);
                        match x {
                            CalendarComponent::Other(x) => c.append_component(x),
                            _ => return,
                        };
                        m.comps.push(t);
                    }
                    _ => {
                        let (x, t) = alarm(r, d, level + 1);
                        c.append_component(x);
                        m.comps.push(t);
                    }
                }
            }
        }
    }
}

fn event_like_op<C: EventLike>(r: &mut Rng, d: &Dom, level: usize, c: &mut C, m: &mut MComp) {
    match r.below(6) {
        0 => {
            let w = when(r);
            c.starts(w.convert(r));
            m.set(w.form("DTSTART"), Typed::When(w.value()));
        }
        1 => {
            let w = when(r);
            c.ends(w.convert(r));
            m.set(w.form("DTEND"), Typed::When(w.value()));
        }
        2 => {
            let w = date(r);
            c.all_day(w);
            let w = When::Date(w);
            m.set(w.form("DTSTART"), Typed::When(w.value()));
            m.set(w.form("DTEND"), Typed::When(w.value()));
        }
        3 => {
            let v = gen::text(r, d.values);
            c.location(&v);
            m.set_text("LOCATION", &v);
        }
        4 => {
            let v = gen::text(r, d.values);
            let id = gen::param_value(r);
            c.venue(&v, &id);
            m.set_text("LOCATION", &v);
            if let Some(p) = m.props.get_mut("LOCATION") {
                p.params.insert("VVENUE".into(), id);
            }
        }
        _ => {
            if level < d.depth {
                let (x, t) = alarm(r, d, level + 1);
                c.alarm(x);
                m.comps.push(t);
            }
        }
    }
}

pub fn event_op(r: &mut Rng, d: &Dom, level: usize, c: &mut Event, m: &mut MComp) {
    m.ops += 1;
    match r.below(10) {
        0..=5 => common_op(r, d, level, c, m),
        6..=8 => event_like_op(r, d, level, c, m),
        _ => {
            let (v, s) = *r.pick(&[
                (EventStatus::Tentative, "TENTATIVE"),
                (EventStatus::Confirmed, "CONFIRMED"),
                (EventStatus::Cancelled, "CANCELLED"),
            ]);
            c.status(v);
            m.set_text("STATUS", s);
            m.typed.insert("STATUS".into(), Typed::EventStatus(v));
        }
    }
}

pub fn todo_op(r: &mut Rng, d: &Dom, level: usize, c: &mut Todo, m: &mut MComp) {
    m.ops += 1;
    match r.below(12) {
        0..=5 => common_op(r, d, level, c, m),
        6..=8 => event_like_op(r, d, level, c, m),
        9 => {
            let (v, s) = *r.pick(&[
                (TodoStatus::NeedsAction, "NEEDS-ACTION"),
                (TodoStatus::Completed, "COMPLETED"),
                (TodoStatus::InProcess, "IN-PROCESS"),
                (TodoStatus::Cancelled, "CANCELLED"),
            ]);
            c.status(v);
            m.set_text("STATUS", s);
            m.typed.insert("STATUS".into(), Typed::TodoStatus(v));
        }
        10 => {
            let n = r.below(256) as u8;
            c.percent_complete(n);
            m.set_text("PERCENT-COMPLETE", &n.to_string());
            m.typed.insert("PERCENT-COMPLETE".into(), Typed::Num(u32::from(n)));
        }
        _ => {
            if r.one_in(2) {
                let w = when(r);
                c.due(w.convert(r));
                m.set(w.form("DUE"), Typed::When(w.value()));
            } else {
                let t = utc(r);
                c.completed(utc_within(r, t));
                m.set(When::Utc(t).form("COMPLETED"), Typed::Utc(t));
            }
        }
    }
}

pub fn venue_op(r: &mut Rng, d: &Dom, level: usize, c: &mut Venue, m: &mut MComp) {
    m.ops += 1;
    if r.one_in(2) {
        return common_op(r, d, level, c, m);
    }
    let v = gen::text(r, d.values);
    let name = match r.below(6) {
        0 => {
            c.street_address(&v);
            "STREET-ADDRESS"
        }
        1 => {
            c.extended_address(&v);
            "EXTENDED-ADDRESS"
        }
        2 => {
            c.locality(&v);
            "LOCALITY"
        }
        3 => {
            c.region(&v);
            "REGION"
        }
        4 => {
            c.country(&v);
            "COUNTRY"
        }
        _ => {
            c.postal_code(&v);
            "POSTAL-CODE"
        }
    };
    m.set_text(name, &v);
}

fn model_prop(p: &Property) -> TProp {
    t_prop(p, &mut vec![])
}

pub fn new_alarm(r: &mut Rng, d: &Dom) -> (Alarm, MComp) {
    let mut m = MComp::new("VALARM");
    let t = trigger(r);
    let tp = model_prop(&Property::from(t.clone()));
    m.set(tp, Typed::Raw);
    let mut a = if r.one_in(2) {
        m.set_text("ACTION", "AUDIO");
        Alarm::audio(t)
    } else {
        let v = gen::text(r, d.values);
        m.set_text("ACTION", "DISPLAY");
        m.set_text("DESCRIPTION", &v);
        Alarm::display(&v, t)
    };
    if r.one_in(2) {
        let du = duration(r);
        let n = *r.pick(&[0u32, 1, 2, 5, 100, u32::MAX]);
        a = a.duration_and_repeat(du, n);
        m.set(model_prop(&Property::from(du)), Typed::Raw);
        m.set_text("REPEAT", &n.to_string());
    }
    (a, m)
}

pub fn alarm_op(r: &mut Rng, d: &Dom, level: usize, c: &mut Alarm, m: &mut MComp) {
    m.ops += 1;
    common_op(r, d, level, c, m);
}

fn finish<C: Component>(r: &mut Rng, d: &Dom, c: &mut C, m: &mut MComp) {
    if d.ids {
        if !m.props.contains_key("UID") || r.one_in(2) {
            let v = if r.one_in(2) {
                gen::uid(r)
            } else {
                format!("{}{}", r.u64(), if r.one_in(4) { "@example.com;x,\\n" } else { "" })
            };
            c.uid(&v);
            m.set_text("UID", &v);
        }
        if !m.props.contains_key("DTSTAMP") {
            let t = utc(r);
            c.timestamp(utc_within(r, t));
            m.set(When::Utc(t).form("DTSTAMP"), Typed::Utc(t));
        }
    }
}

macro_rules! builder {
    ($name:ident, $ty:ty, $kind:expr, $op:ident) => {
        pub fn $name(r: &mut Rng, d: &Dom, level: usize) -> ($ty, MComp) {
            let mut c = <$ty>::new();
            let mut m = MComp::new($kind);
            for _ in 0..r.small(d.max_ops) {
                $op(r, d, level, &mut c, &mut m);
            }
            finish(r, d, &mut c, &mut m);
            if r.one_in(2) {
                c = c.done();
            }
            (c, m)
        }
    };
}

builder!(event, Event, "VEVENT", event_op);
builder!(todo, Todo, "VTODO", todo_op);
builder!(venue, Venue, "VVENUE", venue_op);

pub fn alarm(r: &mut Rng, d: &Dom, level: usize) -> (Alarm, MComp) {
    let (mut c, mut m) = new_alarm(r, d);
    for _ in 0..r.small(d.max_ops / 2) {
        alarm_op(r, d, level, &mut c, &mut m);
    }
    finish(r, d, &mut c, &mut m);
    if r.one_in(2) {
        c = c.done();
    }
    (c, m)
}

/// Kinds of component without a builder. What there is comes out of the parser and goes on being filled from there.
pub const OTHERS: &[&str] =
    &["VJOURNAL", "VFREEBUSY", "VTIMEZONE", "STANDARD", "DAYLIGHT", "X-COMP", "PARTICIPANT", "VALARM"];

pub fn shell(r: &mut Rng) -> (CalendarComponent, MComp) {
    let kind = *r.pick(OTHERS);
    let text = format!("BEGIN:{kind}\r\nEND:{kind}\r\n");
    let c = match r.below(3) {
        0 => text.parse::<Calendar>().ok().and_then(|c| c.components.into_iter().next()),
        1 => icalendar::parser::Component::try_from(text.as_str()).ok().map(CalendarComponent::from),
        _ => text.parse::<CalendarComponent>().ok(),
    };
    match c {
        Some(c @ CalendarComponent::Other(_)) => (c, MComp::new(kind)),
        other => panic!("harness: {kind} was read as {other:?}"),
    }
}

pub fn other_op(r: &mut Rng, d: &Dom, level: usize, c: &mut CalendarComponent, m: &mut MComp) {
    if let CalendarComponent::Other(c) = c {
        m.ops += 1;
        common_op(r, d, level, c, m);
    }
}

pub fn other(r: &mut Rng, d: &Dom, level: usize) -> (CalendarComponent, MComp) {
    let (mut c, mut m) = shell(r);
    for _ in 0..r.small(d.max_ops / 2) {
        other_op(r, d, level, &mut c, &mut m);
    }
    if let CalendarComponent::Other(c) = &mut c {
        finish(r, d, c, &mut m);
    }
    (c, m)
}

pub fn component(r: &mut Rng, d: &Dom) -> (CalendarComponent, MComp) {
    match r.below(4) {
        0 => {
            let (c, m) = event(r, d, 0);
            (c.into(), m)
        }
        1 => {
            let (c, m) = todo(r, d, 0);
            (c.into(), m)
        }
        2 => other(r, d, 0),
        _ => {
            let (c, m) = venue(r, d, 0);
            (c.into(), m)
        }
    }
}

/// A calendar and what it holds.
pub fn calendar(r: &mut Rng, d: &Dom) -> (Calendar, Vec<TProp>, Vec<MComp>) {
    let (mut cal, mut props) =
        if r.one_in(3) { (Calendar::empty(), vec![]) } else { (Calendar::new(), default_props()) };
    for _ in 0..r.small(6) {
        let name = if r.one_in(3) {
            (*r.pick(&["NAME", "X-WR-CALNAME", "DESCRIPTION", "METHOD"])).to_string()
        } else {
            gen::prop_name(r)
        };
        let (p, t) = any_property(r, &name, d.values);
        cal.append_property(p);
        props.push(t);
    }
    let mut comps = vec![];
    for _ in 0..r.small(4) {
        let (c, m) = component(r, d);
        cal.push(c);
        comps.push(m);
    }
    (cal, props, comps)
}

pub fn default_props() -> Vec<TProp> {
    [("VERSION", "2.0"), ("PRODID", "ICALENDAR-RS"), ("CALSCALE", "GREGORIAN")]
        .iter()
        .map(|(k, v)| TProp { name: (*k).into(), params: BTreeMap::new(), val: (*v).into() })
        .collect()
}

// ----------------------------------------------------------------------------------- getters

fn expect_num(ctx: &mut Ctx, m: &MComp, name: &str, got: Option<u32>, at: &str) {
    match m.typed.get(name) {
        None => {
            ctx.eq(&format!("getter of {name}, never set ({at})"), &got, &None, name);
        }
        Some(Typed::Num(n)) => {
            ctx.eq(&format!("getter of {name} ({at})"), &got, &Some(*n), name);
        }
        _ => {}
    }
    ctx.obs("getters");
}

fn expect_utc(ctx: &mut Ctx, m: &MComp, name: &str, got: Option<DateTime<Utc>>, at: &str) {
    match m.typed.get(name) {
        None => {
            if !(name == "DTSTAMP" && at != "built") {
                ctx.eq(&format!("getter of {name}, never set ({at})"), &got, &None, name);
            }
        }
        Some(Typed::Utc(n)) => {
            ctx.eq(&format!("getter of {name} ({at})"), &got, &Some(*n), name);
        }
        _ => {}
    }
    ctx.obs("getters");
}

fn expect_when(ctx: &mut Ctx, m: &MComp, name: &str, got: Option<DatePerhapsTime>, at: &str) {
    match m.typed.get(name) {
        None => {
            ctx.eq(&format!("getter of {name}, never set ({at})"), &got, &None, name);
        }
        Some(Typed::When(n)) => {
            ctx.eq(&format!("getter of {name} ({at})"), &got, &Some(n.clone()), name);
        }
        _ => {}
    }
    ctx.obs("getters");
}

fn expect_str(ctx: &mut Ctx, m: &MComp, name: &str, got: Option<&str>, at: &str) {
    if name == "UID" && at != "built" && !m.props.contains_key("UID") {
        return;
    }
    let want = m.props.get(name).map(|p| p.val.as_str());
    ctx.eq(&format!("getter of {name} ({at})"), &got, &want, name);
    ctx.obs("getters");
}

pub fn check_common<C: Component>(ctx: &mut Ctx, r: &mut Rng, c: &C, m: &MComp, at: &str) {
    ctx.eq(&format!("component_kind ({at})"), &c.component_kind().as_str(), &m.kind, "kind");
    expect_str(ctx, m, "SUMMARY", c.get_summary(), at);
    expect_str(ctx, m, "DESCRIPTION", c.get_description(), at);
    expect_str(ctx, m, "UID", c.get_uid(), at);
    expect_str(ctx, m, "URL", c.get_url(), at);
    expect_num(ctx, m, "SEQUENCE", c.get_sequence(), at);
    expect_num(ctx, m, "PRIORITY", c.get_priority(), at);
    expect_utc(ctx, m, "DTSTAMP", c.get_timestamp(), at);
    expect_utc(ctx, m, "CREATED", c.get_created(), at);
    expect_utc(ctx, m, "LAST-MODIFIED", c.get_last_modified(), at);
    expect_when(ctx, m, "DTSTART", c.get_start(), at);
    expect_when(ctx, m, "DTEND", c.get_end(), at);
    match m.typed.get("CLASS") {
        None => {
            ctx.eq(&format!("getter of CLASS, never set ({at})"), &c.get_class(), &None, "CLASS");
        }
        Some(Typed::Class(v)) => {
            ctx.eq(&format!("getter of CLASS ({at})"), &c.get_class(), &Some(*v), "CLASS");
        }
        _ => {}
    }
    for (name, p) in &m.props {
        if at != "built" && (is_repeatable(name) || m.multi.contains_key(name)) {
            continue;
        }
        ctx.eq(&format!("property_value ({at})"), &c.property_value(name), &Some(p.val.as_str()), name);
        ctx.obs("property_value");
    }
    for _ in 0..3 {
        let name = gen::prop_name(r);
        if !m.props.contains_key(&name) && !m.multi.contains_key(&name) && name != "UID" && name != "DTSTAMP" {
            ctx.eq(&format!("property_value of something never set ({at})"), &c.property_value(&name), &None, &name);
        }
    }
    if at == "built" {
        let mut bad = vec![];
        let mut props: BTreeMap<String, TProp> = BTreeMap::new();
        for (k, p) in c.properties() {
            props.insert(k.clone(), t_prop(p, &mut bad));
        }
        ctx.eq("properties()", &props, &m.props, "after the operations");
        let mut multi: BTreeMap<String, Vec<TProp>> = BTreeMap::new();
        for (k, ps) in c.multi_properties() {
            multi.insert(k.clone(), ps.iter().map(|p| t_prop(p, &mut bad)).collect());
        }
        ctx.eq("multi_properties()", &multi, &m.multi, "after the operations");
        let kids: Vec<TComp> = c.components().iter().map(|c| crate::conv::t_comp(c, &mut bad)).collect();
        let want: Vec<TComp> = m.comps.iter().map(MComp::tree).collect();
        ctx.eq("components()", &kids, &want, "after the operations");
        ctx.check(bad.is_empty(), "map invariant", || bad.join("; "));
    }
}

pub fn check_event_like<C: EventLike>(ctx: &mut Ctx, c: &C, m: &MComp, at: &str) {
    expect_str(ctx, m, "LOCATION", c.get_location(), at);
}

pub fn check_event(ctx: &mut Ctx, r: &mut Rng, c: &Event, m: &MComp, at: &str) {
    check_common(ctx, r, c, m, at);
    check_event_like(ctx, c, m, at);
    match m.typed.get("STATUS") {
        None => {
            ctx.eq(&format!("getter of STATUS, never set ({at})"), &c.get_status(), &None, "STATUS");
        }
        Some(Typed::EventStatus(v)) => {
            ctx.eq(&format!("getter of STATUS ({at})"), &c.get_status(), &Some(*v), "STATUS");
        }
        _ => {}
    }
}

pub fn check_todo(ctx: &mut Ctx, r: &mut Rng, c: &Todo, m: &MComp, at: &str) {
    check_common(ctx, r, c, m, at);
    check_event_like(ctx, c, m, at);
    expect_num(ctx, m, "PERCENT-COMPLETE", c.get_percent_complete().map(u32::from), at);
    expect_when(ctx, m, "DUE", c.get_due(), at);
    expect_utc(ctx, m, "COMPLETED", c.get_completed(), at);
    match m.typed.get("STATUS") {
        None => {
            ctx.eq(&format!("getter of STATUS, never set ({at})"), &c.get_status(), &None, "STATUS");
        }
        Some(Typed::TodoStatus(v)) => {
            ctx.eq(&format!("getter of STATUS ({at})"), &c.get_status(), &Some(*v), "STATUS");
        }
        _ => {}
    }
}

pub fn check_venue(ctx: &mut Ctx, r: &mut Rng, c: &Venue, m: &MComp, at: &str) {
    check_common(ctx, r, c, m, at);
    expect_str(ctx, m, "STREET-ADDRESS", c.get_street_address(), at);
    expect_str(ctx, m, "EXTENDED-ADDRESS", c.get_extended_address(), at);
    expect_str(ctx, m, "LOCALITY", c.get_locality(), at);
    expect_str(ctx, m, "REGION", c.get_region(), at);
    expect_str(ctx, m, "COUNTRY", c.get_country(), at);
    expect_str(ctx, m, "POSTAL-CODE", c.get_postal_code(), at);
}

pub fn check_cc(ctx: &mut Ctx, r: &mut Rng, c: &CalendarComponent, m: &MComp, at: &str) {
    match c {
        CalendarComponent::Event(e) if m.kind == "VEVENT" => check_event(ctx, r, e, m, at),
        CalendarComponent::Todo(e) if m.kind == "VTODO" => check_todo(ctx, r, e, m, at),
        CalendarComponent::Venue(e) if m.kind == "VVENUE" => check_venue(ctx, r, e, m, at),
        CalendarComponent::Other(e) if OTHERS.contains(&m.kind) => check_common(ctx, r, e, m, at),
        _ => ctx.fail("component kind", format!("a {} came back as {c:?}", m.kind)),
    }
}
