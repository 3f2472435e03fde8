//! Drives every public entry point and every accessor with one string and digests everything
//! that comes back. C01 looks at whether it comes back at all, C21 at whether it is always the
//! same.

use icalendar::parser;
use icalendar::*;
use std::convert::TryFrom;
use std::fmt::{Debug, Display, Write};
use std::str::FromStr;

/// A digest of results: FNV over what was formatted, and what was seen.
pub struct Seen {
    pub hash: u64,
    /// one digest per step, to say which step differs
    pub steps: Vec<(&'static str, u64)>,
    keep_steps: bool,
    pub accepted: u64,
    pub rejected: u64,
    pub components: u64,
    pub properties: u64,
    pub dates: u64,
    pub triggers: u64,
    pub instants: u64,
    pub durations: u64,
    pub written: u64,
    pub json: u64,
}

struct Sink<'a>(&'a mut u64);

impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> std::fmt::Result {
        let mut h = *self.0;
        for b in s.bytes() {
            h = (h ^ u64::from(b)).wrapping_mul(0x0000_0100_0000_01b3);
        }
        *self.0 = h;
        Ok(())
    }
}

impl Seen {
    pub fn new(keep_steps: bool) -> Seen {
        Seen {
            hash: 0xcbf2_9ce4_8422_2325,
            steps: vec![],
            keep_steps,
            accepted: 0,
            rejected: 0,
            components: 0,
            properties: 0,
            dates: 0,
            triggers: 0,
            instants: 0,
            durations: 0,
            written: 0,
            json: 0,
        }
    }
    fn put(&mut self, step: &'static str, v: &dyn Debug) {
        let _ = write!(Sink(&mut self.hash), "{v:?}|");
        self.mark(step);
    }
    /// formatted, and not part of the digest: the parameters of a property are in a HashMap,
    /// whose order means nothing
    fn format(&mut self, v: &dyn Debug) {
        let mut other = 0;
        let _ = write!(Sink(&mut other), "{v:?}|");
    }
    fn show(&mut self, step: &'static str, v: &dyn Display) {
        let _ = write!(Sink(&mut self.hash), "{v}|");
        self.mark(step);
    }
    fn mark(&mut self, step: &'static str) {
        if self.keep_steps {
            self.steps.push((step, self.hash));
        }
    }
}

/// What is done with the results.
#[derive(Clone, Copy)]
pub struct Plan {
    /// through serde_json and back
    pub json: bool,
    /// texts that come out are read again
    pub again: bool,
    /// the results are formatted with Debug
    pub debug: bool,
}

pub const FULL: Plan = Plan { json: true, again: true, debug: true };

fn property(step: &'static str, p: &Property, seen: &mut Seen) {
    let mut params: Vec<_> = p.params().iter().map(|(k, v)| (k, v.key(), v.value())).collect();
    params.sort();
    seen.put(step, &(p.key(), p.value(), params));
    seen.format(p);
}

fn date(v: &DatePerhapsTime, seen: &mut Seen) {
    seen.dates += 1;
    seen.put("date", v);
    seen.put("date_naive", &v.date_naive());
    let p = v.to_property("DTSTART");
    property("to_property", &p, seen);
    seen.put("from to_property", &DatePerhapsTime::from_property(&p));
    if let DatePerhapsTime::DateTime(t) = v {
        let u = t.try_into_utc();
        seen.instants += u64::from(u.is_some());
        seen.put("try_into_utc", &u);
        let tr = Trigger::from(t.clone());
        property("trigger property", &Property::from(tr), seen);
    }
    let c = v.clone();
    seen.put("date ==", &(c == *v));
}

pub fn typed_property(p: &Property, plan: Plan, seen: &mut Seen) {
    seen.properties += 1;
    seen.put("key", &p.key());
    seen.put("value", &p.value());
    seen.put("value_type", &p.value_type());
    let mut params: Vec<_> = p.params().iter().collect();
    params.sort_by_key(|x| x.0);
    for (k, v) in params {
        seen.put("param", &(k, v.key(), v.value()));
        seen.put("ValueType of param", &ValueType::try_from(v.clone()).is_ok());
        seen.put("get_param_as", &p.get_param_as(k, |s| Some(s.len())));
    }
    seen.put("get_value_as", &p.get_value_as(|s| s.parse::<i64>().ok()));
    if let Some(d) = DatePerhapsTime::from_property(p) {
        date(&d, seen);
    }
    match Trigger::try_from(p) {
        Ok(t) => {
            seen.triggers += 1;
            seen.put("trigger", &t);
            seen.put("trigger parts", &(t.related(), t.as_duration().copied()));
            seen.durations += u64::from(t.as_duration().is_some());
            seen.put("trigger date", &t.as_date_time().and_then(|d| d.try_into_utc()));
            let back = Property::from(t);
            seen.put("trigger back", &Trigger::try_from(&back).ok());
        }
        Err(e) => seen.put("trigger error", &e),
    }
    seen.put("from_str of the value", &CalendarDateTime::from_str(p.value()).ok().map(|d| d.try_into_utc()));
    let c = p.clone();
    seen.put("property ==", &(c == *p));
    let text: Result<String, std::fmt::Error> = c.try_into();
    if let Ok(text) = text {
        seen.written += 1;
        seen.show("property text", &text);
        if plan.again {
            match Property::from_str(&text) {
                Ok(p) => property("property again", &p, seen),
                Err(e) => seen.show("property not read again", &e),
            }
        }
    }
}

/// Has it a UID and a DTSTAMP at every level, so that what is written is always the same?
fn stable<C: Component>(c: &C) -> bool {
    let p = c.properties();
    p.contains_key("UID") && p.contains_key("DTSTAMP") && c.components().iter().all(|c| stable(c))
}

fn stable_cc(c: &CalendarComponent) -> bool {
    match c {
        CalendarComponent::Event(c) => stable(c),
        CalendarComponent::Todo(c) => stable(c),
        CalendarComponent::Venue(c) => stable(c),
        CalendarComponent::Other(c) => stable(c),
        _ => false,
    }
}

fn stable_parsed(cs: &[parser::Component]) -> bool {
    cs.iter().all(|c| !c.name.as_str().eq_ignore_ascii_case("calendar") && stable_parsed(&c.components))
}

fn common<C: Component + Clone + PartialEq>(c: &C, plan: Plan, seen: &mut Seen) {
    seen.components += 1;
    seen.put("kind", &c.component_kind());
    for p in c.properties().values() {
        typed_property(p, plan, seen);
    }
    for p in c.multi_properties().values().flatten() {
        typed_property(p, plan, seen);
    }
    seen.put("texts", &(c.get_summary(), c.get_description(), c.get_uid(), c.get_url(), c.property_value("LOCATION")));
    seen.put("numbers", &(c.get_priority(), c.get_sequence(), c.get_class()));
    seen.put("stamps", &(c.get_timestamp(), c.get_created(), c.get_last_modified()));
    if let Some(d) = c.get_start() {
        date(&d, seen);
    }
    if let Some(d) = c.get_end() {
        date(&d, seen);
    }
    let copy = c.clone();
    seen.put("component ==", &(copy == *c));
    let text = c.try_into_string();
    let text2 = Component::to_string(&copy);
    seen.written += 2;
    if stable(c) {
        seen.put("component text", &text);
        seen.show("component text", &text2);
    }
    if let (true, Ok(text)) = (plan.again, text) {
        seen.put("component again", &CalendarComponent::from_str(&text).is_ok());
    }
}

fn others<C: Component + Clone + PartialEq>(cs: &[C], plan: Plan, seen: &mut Seen) {
    for c in cs {
        common(c, Plan { again: false, ..plan }, seen);
        others(c.components(), plan, seen);
    }
}

pub fn component(c: &CalendarComponent, plan: Plan, seen: &mut Seen) {
    seen.put("as", &(c.as_event().is_some(), c.as_todo().is_some()));
    match c {
        CalendarComponent::Event(e) => {
            common(e, plan, seen);
            seen.put("event", &(e.get_status(), e.get_location()));
            others(e.components(), plan, seen);
            let text: Result<String, std::fmt::Error> = e.clone().try_into();
            seen.put("try_into", &(text.is_ok()));
        }
        CalendarComponent::Todo(t) => {
            common(t, plan, seen);
            seen.put("todo", &(t.get_status(), t.get_percent_complete(), t.get_completed(), t.get_location()));
            if let Some(d) = t.get_due() {
                date(&d, seen);
            }
            others(t.components(), plan, seen);
            let text: Result<String, std::fmt::Error> = t.clone().try_into();
            seen.put("try_into", &(text.is_ok()));
        }
        CalendarComponent::Venue(v) => {
            common(v, plan, seen);
            seen.put(
                "venue",
                &(
                    v.get_street_address(),
                    v.get_extended_address(),
                    v.get_locality(),
                    v.get_region(),
                    v.get_country(),
                    v.get_postal_code(),
                ),
            );
            others(v.components(), plan, seen);
        }
        CalendarComponent::Other(o) => {
            common(o, plan, seen);
            others(o.components(), plan, seen);
        }
        _ => {}
    }
}

pub fn calendar(c: &Calendar, plan: Plan, seen: &mut Seen) {
    seen.put("names", &(c.get_name(), c.get_description(), c.get_timezone(), c.property_value("VERSION")));
    let ttl = c.get_ttl();
    seen.durations += u64::from(ttl.is_some());
    seen.put("ttl", &ttl);
    for p in &c.properties {
        typed_property(p, plan, seen);
    }
    for x in c.iter() {
        component(x, Plan { again: false, ..plan }, seen);
    }
    seen.put("components ==", &(c.components.clone() == c.components && c.properties.clone() == c.properties));
    if plan.debug {
        seen.format(c);
    }
    let text = c.to_string();
    seen.written += 1;
    let ids = c.iter().all(stable_cc);
    if ids {
        seen.show("calendar text", &text);
    }
    if plan.again {
        match Calendar::from_str(&text) {
            Ok(again) => {
                if ids {
                    seen.put("calendar again", &(again.components == c.components));
                    seen.show("calendar text again", &again);
                } else {
                    seen.show("calendar again", &again.len());
                }
            }
            Err(_) => seen.mark("calendar not read again"),
        }
    }
}

fn parsed_property(p: &parser::Property, seen: &mut Seen) {
    seen.show("parsed property", p);
    match DatePerhapsTime::try_from(p) {
        Ok(d) => date(&d, seen),
        Err(e) => seen.put("not a date", &e),
    }
}

fn parsed_component(c: &parser::Component, plan: Plan, seen: &mut Seen) {
    seen.components += 1;
    for p in &c.properties {
        parsed_property(p, seen);
        seen.put("find_prop", &c.find_prop(p.name.as_str()).map(|q| q == p));
    }
    seen.put("find_prop", &(c.find_prop("UID").is_some(), c.find_prop("").is_some()));
    for x in &c.components {
        parsed_component(x, plan, seen);
    }
}

pub fn parsed_calendar(c: &parser::Calendar, plan: Plan, seen: &mut Seen) {
    seen.accepted += 1;
    if plan.debug {
        seen.put("parsed", c);
    }
    for p in &c.properties {
        parsed_property(p, seen);
    }
    for x in &c.components {
        parsed_component(x, plan, seen);
    }
    seen.put("parsed ==", &same_calendar(&c.clone(), c));
    let text = c.to_string();
    seen.written += 1;
    if stable_parsed(&c.components) {
        seen.show("parsed text", &text);
    }
    if plan.again {
        seen.put(
            "parsed again",
            &parser::read_calendar(&text).map(|again| (same_calendar(&again, c), again.components.len())).ok(),
        );
    }
    if plan.json {
        if let Ok(j) = serde_json::to_string(c) {
            seen.json += 1;
            seen.show("json", &j);
            match serde_json::from_str::<parser::Calendar>(&j) {
                Ok(b) => seen.put("json ==", &same_calendar(&b, c)),
                Err(_) => seen.mark("json not read"),
            }
        }
    }
    let typed = Calendar::from(c.clone());
    calendar(&typed, plan, seen);
}

fn same_calendar(a: &parser::Calendar, b: &parser::Calendar) -> bool {
    a.properties == b.properties && a.components == b.components
}

/// Everything that borrows from `s`.
fn flat(s: &str, plan: Plan, seen: &mut Seen) {
    match parser::read_calendar(s) {
        Ok(c) => parsed_calendar(&c, plan, seen),
        Err(e) => {
            seen.rejected += 1;
            seen.show("read_calendar error", &e)
        }
    }
    match parser::read_calendar_simple(s) {
        Ok(cs) => {
            seen.accepted += 1;
            seen.put("simple ==", &(cs.clone() == cs));
            let typed = Calendar::from(cs);
            seen.put("from components", &typed.len());
            if typed.iter().all(stable_cc) {
                seen.show("from components", &typed);
            }
        }
        Err(e) => {
            seen.rejected += 1;
            seen.put("simple error", &(e.input.len(), e.code));
        }
    }
    match parser::read_components(s) {
        Ok(cs) => {
            seen.accepted += 1;
            for c in cs {
                parsed_component(&c, plan, seen);
                component(&CalendarComponent::from(c), plan, seen);
            }
        }
        Err(e) => {
            seen.rejected += 1;
            seen.show("components error", &e)
        }
    }
    match parser::Component::try_from(s) {
        Ok(c) => {
            seen.accepted += 1;
            parsed_component(&c, plan, seen)
        }
        Err(e) => {
            seen.rejected += 1;
            seen.show("component error", &e)
        }
    }
    match parser::Property::try_from(s) {
        Ok(p) => {
            seen.accepted += 1;
            parsed_property(&p, seen);
            seen.put("property ==", &(p.clone() == p));
            typed_property(&p.into(), plan, seen);
        }
        Err(e) => {
            seen.rejected += 1;
            seen.show("property error", &e)
        }
    }
    match parser::Parameter::try_from(s) {
        Ok(p) => {
            seen.accepted += 1;
            seen.put("parameter", &p);
            seen.put("parameter ==", &(p.clone() == p));
            let p: Parameter = p.into();
            seen.put("typed parameter", &(p.key(), p.value()));
            seen.put("value type", &ValueType::try_from(p).is_ok());
        }
        Err(e) => {
            seen.rejected += 1;
            seen.show("parameter error", &e)
        }
    }
}

/// All entry points on one string.
pub fn everything(s: &str, plan: Plan, seen: &mut Seen) {
    let unfolded = parser::unfold(s);
    seen.show("unfolded", &unfolded);
    flat(s, plan, seen);
    if unfolded != s {
        flat(&unfolded, plan, seen);
    }
    match Calendar::from_str(s) {
        Ok(c) => {
            seen.accepted += 1;
            calendar(&c, plan, seen)
        }
        Err(e) => {
            seen.rejected += 1;
            seen.show("calendar error", &e)
        }
    }
    match CalendarComponent::from_str(s) {
        Ok(c) => {
            seen.accepted += 1;
            component(&c, plan, seen)
        }
        Err(e) => {
            seen.rejected += 1;
            seen.show("component error", &e)
        }
    }
    match Property::from_str(s) {
        Ok(p) => {
            seen.accepted += 1;
            typed_property(&p, plan, seen)
        }
        Err(e) => {
            seen.rejected += 1;
            seen.show("property error", &e)
        }
    }
    match CalendarDateTime::from_str(s) {
        Ok(d) => {
            seen.accepted += 1;
            date(&d.into(), seen)
        }
        Err(()) => seen.rejected += 1,
    }
    seen.put("ValueType", &ValueType::from_str(s).is_ok());
    let ps = parser::ParseString::from(s);
    seen.put("ParseString", &(ps.to_owned() == s, ps.as_str().len(), ps.as_ref().len()));
    seen.show("unescape_text", &ps.clone().unescape_text());
    seen.show("unescape_by_value_type", &ps.unescape_by_value_type(ValueType::Text));
}
