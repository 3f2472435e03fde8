//! What the library holds, copied into the harness' own trees (with the invariants of the maps).

use crate::reader::{XComp, XParam, XProp};
use icalendar::parser;
use icalendar::{Calendar, CalendarComponent, Component, Property};
use std::collections::BTreeMap;

pub fn x_param(p: &parser::Parameter) -> XParam {
    XParam { key: p.key.as_str().to_string(), val: p.val.as_ref().map(|v| v.as_str().to_string()) }
}

pub fn x_prop(p: &parser::Property) -> XProp {
    XProp {
        name: p.name.as_str().to_string(),
        params: p.params.iter().map(x_param).collect(),
        val: p.val.as_str().to_string(),
    }
}

pub fn x_comp(c: &parser::Component) -> XComp {
    XComp {
        name: c.name.as_str().to_string(),
        props: c.properties.iter().map(x_prop).collect(),
        comps: c.components.iter().map(x_comp).collect(),
    }
}

pub fn x_comps(cs: &[parser::Component]) -> Vec<XComp> {
    cs.iter().map(x_comp).collect()
}

/// (properties, components)
pub fn x_cal(c: &parser::Calendar) -> (Vec<XProp>, Vec<XComp>) {
    (c.properties.iter().map(x_prop).collect(), x_comps(&c.components))
}

/// a parsed tree put together by hand
pub fn hand_prop(p: &XProp) -> parser::Property<'_> {
    let mut q = parser::Property::new_ref(&p.name, &p.val);
    for x in &p.params {
        q.params.push(parser::Parameter::new_ref(&x.key, x.val.as_deref()));
    }
    q
}

pub fn hand_comp(c: &XComp) -> parser::Component<'_> {
    parser::Component {
        name: parser::ParseString::from(c.name.as_str()),
        properties: c.props.iter().map(hand_prop).collect(),
        components: c.comps.iter().map(hand_comp).collect(),
    }
}

/// every way from a parsed string to another string
pub fn same_string(p: &parser::ParseString, want: &str) -> Result<(), &'static str> {
    let all = [
        ("as_str", p.as_str() == want),
        ("as_ref", AsRef::<str>::as_ref(p) == want),
        ("Display", p.to_string() == want),
        ("format", format!("{p}") == want),
        ("==", *p == want),
        ("to_owned", p.to_owned().as_str() == want),
        ("to_owned of an owned one", p.to_owned().to_owned() == want),
        ("into_owned", p.clone().into_owned().as_str() == want),
        ("into_owned of an owned one", p.to_owned().into_owned() == want),
        ("String::from", String::from(p.to_owned()) == want),
        ("String::from of a borrowed one", String::from(p.clone().into_owned()) == want),
        ("From<String>", parser::ParseString::from(want.to_string()) == *p),
        ("From<&str>", parser::ParseString::from(want) == *p),
        ("clone", p.clone() == *p && p.clone().as_str() == want),
        ("!=", want.is_empty() || parser::ParseString::from("") != *p),
    ];
    match all.iter().find(|(_, ok)| !ok) {
        Some((name, _)) => Err(name),
        None => Ok(()),
    }
}

// ------------------------------------------------------------------------------------ typed

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TProp {
    pub name: String,
    pub params: BTreeMap<String, String>,
    pub val: String,
}

/// Properties by name, each name with its values in order.
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TComp {
    pub kind: String,
    pub props: BTreeMap<String, Vec<TProp>>,
    pub comps: Vec<TComp>,
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct TCal {
    pub props: Vec<TProp>,
    pub comps: Vec<TComp>,
}

pub fn t_prop(p: &Property, bad: &mut Vec<String>) -> TProp {
    let mut params = BTreeMap::new();
    for (k, v) in p.params() {
        if k != v.key() {
            bad.push(format!("parameter {:?} of {:?} is filed under {k:?}", v.key(), p.key()));
        }
        params.insert(v.key().to_string(), v.value().to_string());
    }
    TProp { name: p.key().to_string(), params, val: p.value().to_string() }
}

pub fn t_comp<C: Component>(c: &C, bad: &mut Vec<String>) -> TComp {
    let mut props: BTreeMap<String, Vec<TProp>> = BTreeMap::new();
    for (k, p) in c.properties() {
        if k != p.key() {
            bad.push(format!("property {:?} is filed under {k:?}", p.key()));
        }
        props.entry(p.key().to_string()).or_default().push(t_prop(p, bad));
    }
    for (k, ps) in c.multi_properties() {
        for p in ps {
            if k != p.key() {
                bad.push(format!("property {:?} is filed under {k:?}", p.key()));
            }
            props.entry(p.key().to_string()).or_default().push(t_prop(p, bad));
        }
    }
    TComp { kind: c.component_kind(), props, comps: c.components().iter().map(|c| t_comp(c, bad)).collect() }
}

/// The variant has to fit the kind.
pub fn t_cc(c: &CalendarComponent, bad: &mut Vec<String>) -> TComp {
    let (variant, t) = match c {
        CalendarComponent::Event(e) => ("VEVENT", t_comp(e, bad)),
        CalendarComponent::Todo(e) => ("VTODO", t_comp(e, bad)),
        CalendarComponent::Venue(e) => ("VVENUE", t_comp(e, bad)),
        CalendarComponent::Other(e) => ("", t_comp(e, bad)),
        _ => ("?", TComp { kind: "?".into(), props: BTreeMap::new(), comps: vec![] }),
    };
    if variant != "" && variant != t.kind {
        bad.push(format!("a component of kind {:?} is held as {variant}", t.kind));
    }
    if variant == "" && ["VEVENT", "VTODO", "VVENUE"].contains(&t.kind.as_str()) {
        bad.push(format!("a {} is not held as its own type", t.kind));
    }
    if c.as_event().is_some() != (t.kind == "VEVENT") || c.as_todo().is_some() != (t.kind == "VTODO") {
        bad.push(format!("as_event/as_todo do not fit the kind {:?}", t.kind));
    }
    t
}

pub fn t_cal(c: &Calendar, bad: &mut Vec<String>) -> TCal {
    TCal {
        props: c.properties.iter().map(|p| t_prop(p, bad)).collect(),
        comps: c.components.iter().map(|c| t_cc(c, bad)).collect(),
    }
}

// --------------------------------------------------- what a document means as a typed tree

pub fn t_of_xprop(p: &XProp) -> TProp {
    let mut params = BTreeMap::new();
    for q in &p.params {
        params.insert(q.key.clone(), q.val.clone().unwrap_or_default());
    }
    TProp { name: p.name.clone(), params, val: p.val.clone() }
}

pub fn t_of_x(c: &XComp) -> TComp {
    let mut props: BTreeMap<String, Vec<TProp>> = BTreeMap::new();
    for p in &c.props {
        props.entry(p.name.clone()).or_default().push(t_of_xprop(p));
    }
    TComp { kind: c.name.clone(), props, comps: c.comps.iter().map(t_of_x).collect() }
}

pub fn fmt_date_time(y: i32, mo: u32, d: u32, h: u32, mi: u32, s: u32) -> String {
    format!("{y:04}{mo:02}{d:02}T{h:02}{mi:02}{s:02}")
}

/// Is this a UTC time of the form 20200101T000000Z?
pub fn is_utc_form(s: &str) -> bool {
    let b = s.as_bytes();
    b.len() == 16 && b[8] == b'T' && b[15] == b'Z' && b[..8].iter().chain(&b[9..15]).all(u8::is_ascii_digit)
}
