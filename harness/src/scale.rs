//! Documents that are large in one direction: many of one thing, or one long thing.
//!
//! Limits, pages, buffers and narrow counters in the code sit at sizes no random document reaches.

use crate::conv::TProp;
use crate::gen::{self, DComp, DItem, DParam, DProp, DVal};
use crate::model::{self, MComp, Typed};
use crate::rng::Rng;
use chrono::{TimeZone, Utc};
use icalendar::*;
use std::collections::BTreeMap;

/// Around every power of two up to 4096, the powers of ten, around the limits of 16 bits, and past 100 000.
pub const SIZES: &[usize] = &[
    0, 1, 2, 3, 4, 5, 7, 8, 9, 10, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512,
    513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 5000, 8192, 10_000, 16_384, 32_767, 32_768,
    65_535, 65_536, 100_001,
];

pub const DIMS: &[&str] = &[
    "properties of different names",
    "properties of one name",
    "values of a repeatable property",
    "components of the calendar",
    "components of a component",
    "levels",
    "roots",
    "properties of the calendar",
    "parameters",
    "length of a text",
    "escapes in a text",
    "length of a value",
    "length of a parameter value",
    "length of a name",
    "members of a parameter list",
    "list members",
];

/// One sweep over all directions and sizes.
pub const SWEEP: u64 = (SIZES.len() * DIMS.len()) as u64;

pub fn size(case: u64, of: usize, r: &mut Rng) -> usize {
    let i = (case / of as u64) as usize;
    if i < SIZES.len() {
        return SIZES[i];
    }
    let n = 1usize << r.below(16);
    match r.below(3) {
        0 => n + r.below(n),
        1 => n * (1 + r.below(8)),
        _ => n * 2 - 1 + r.below(3),
    }
    .min(100_000)
}

fn prop(name: &str, value: String) -> DItem {
    DItem::Prop(DProp { name: name.into(), params: vec![], raw: Some(value) })
}

fn event(i: usize) -> DComp {
    DComp {
        name: "VEVENT".into(),
        items: vec![prop("UID", format!("u{i}")), prop("DTSTAMP", "20240102T030405Z".into())],
    }
}

fn spell(i: usize) -> String {
    (*["a", "\\,", "\\;", "\\\\", "\\n", "b", " "].get(i % 7).unwrap_or(&"a")).to_string()
}

/// The document that has `n` of that.
pub fn doc(r: &mut Rng, dim: usize, n: usize) -> Vec<DComp> {
    let mut e = event(0);
    let mut cal = DComp {
        name: "VCALENDAR".into(),
        items: vec![prop("VERSION", "2.0".into()), prop("PRODID", "x".into()), prop("CALSCALE", "GREGORIAN".into())],
    };
    let with = |p: DProp, e: &mut DComp| e.items.push(DItem::Prop(p));
    let long = |name: &str, raw: String| DProp { name: name.into(), params: vec![], raw: Some(raw) };
    // lengths go further than numbers
    let n = if n == 100_001 && DIMS[dim].starts_with("length") { 1_048_577 } else { n };
    match DIMS[dim] {
        "properties of different names" => {
            e.items.extend((0..n).map(|i| prop(&format!("X-{i}"), format!("{i}"))));
        }
        "properties of one name" => {
            let name = *r.pick(&["SUMMARY", "X-SAME", "RRULE"]);
            e.items.extend((0..n).map(|i| prop(name, format!("{i}"))));
        }
        "values of a repeatable property" => {
            let name = *r.pick(&["ATTENDEE", "COMMENT", "EXDATE"]);
            e.items.extend((0..n).map(|i| prop(name, format!("{i}"))));
        }
        "components of the calendar" => cal.items.extend((1..=n).map(|i| {
            // equal neighbours, too
            DItem::Comp(event(i / 2))
        })),
        "components of a component" => e.items.extend((1..=n).map(|i| {
            let mut c = event(i / 2);
            c.name = "VALARM".into();
            DItem::Comp(c)
        })),
        "levels" => {
            for i in 0..n % 98 {
                let mut outer = event(i + 1);
                outer.items.push(DItem::Comp(e));
                outer.items.push(prop("SUMMARY", format!("after {i}")));
                e = outer;
            }
        }
        "roots" => {
            let mut roots = vec![];
            cal.items.push(DItem::Comp(e));
            if r.one_in(2) {
                roots.push(cal);
            }
            roots.extend((1..=n.max(1)).map(event));
            return roots;
        }
        "properties of the calendar" => cal.items.extend((0..n).map(|i| prop(&format!("X-{}", i / 2), format!("{i}")))),
        "parameters" => {
            // the library reads them in a loop
            let params = (0..n).map(|i| DParam { key: format!("X-{i}"), val: DVal::Plain(format!("{i}")) }).collect();
            with(DProp { name: "ATTACH".into(), params, raw: Some("x".into()) }, &mut e);
        }
        "length of a text" => {
            let name = *r.pick(&["SUMMARY", "DESCRIPTION"]);
            let s: String = match r.below(3) {
                0 => "x".repeat(n),
                1 => (0..n).map(|i| char::from(b'a' + (i % 26) as u8)).collect(),
                _ => (0..n).map(|i| ['x', '\u{e9}', ' ', '\u{4e2d}', '\u{1f600}'][i % 5]).collect(),
            };
            // one escape at the end, one in front
            with(long(name, format!("\\,{s}\\;")), &mut e);
        }
        "escapes in a text" => with(long("DESCRIPTION", (0..n).map(spell).collect()), &mut e),
        "length of a value" => {
            with(long(*r.pick(&["URL", "X-LONG", "RRULE"]), format!("\\,{}\\;", "y".repeat(n))), &mut e)
        }
        "length of a parameter value" => {
            let v = "z".repeat(n);
            let val = if r.one_in(2) { DVal::Quoted(format!("{v}:")) } else { DVal::Plain(v) };
            let p = DProp {
                name: "ORGANIZER".into(),
                params: vec![DParam { key: "CN".into(), val }],
                raw: Some("x".into()),
            };
            with(p, &mut e);
        }
        "length of a name" => {
            let name = format!("X-{}", "N".repeat(n));
            match r.below(3) {
                0 => with(long(&name, "1".into()), &mut e),
                1 => {
                    let params = vec![DParam { key: name, val: DVal::Plain("v".into()) }];
                    with(DProp { name: "X-A".into(), params, raw: Some("1".into()) }, &mut e);
                }
                _ => {
                    let mut c = event(1);
                    c.name = name;
                    e.items.push(DItem::Comp(c));
                }
            }
        }
        "members of a parameter list" => {
            let ms = (0..n.max(2)).map(|i| (i == 0 || i % 3 == 0, format!("m{i}"))).collect();
            let params = vec![DParam { key: "MEMBER".into(), val: DVal::List(ms) }];
            with(DProp { name: "ORGANIZER".into(), params, raw: Some("x".into()) }, &mut e);
        }
        "list members" => {
            let name = *r.pick(&["CATEGORIES", "RESOURCES", "EXDATE"]);
            with(long(name, (0..n).map(|i| format!("m{i}")).collect::<Vec<_>>().join(",")), &mut e);
        }
        _ => {}
    }
    // something behind it all
    e.items.push(prop("STATUS", "CONFIRMED".into()));
    cal.items.push(DItem::Comp(e));
    cal.items.push(DItem::Comp(event(9)));
    vec![cal]
}

/// The document of a case, and what is large in it.
pub fn of_case(r: &mut Rng, case: u64) -> (Vec<DComp>, &'static str, usize) {
    // threads take neighbouring cases: shuffled, so that the large ones are everywhere
    let case = if case < SWEEP { case * 61 % SWEEP } else { case };
    let dim = (case % DIMS.len() as u64) as usize;
    let n = size(case, DIMS.len(), r);
    (doc(r, dim, n), DIMS[dim], n)
}

pub fn text(r: &mut Rng, doc: &[DComp]) -> String {
    let eol = *r.pick(&[gen::Eol::Lf, gen::Eol::Crlf]);
    gen::layout(r, &gen::lines_of(doc), &gen::Layout { eol, fold: 0, blank: 0, final_eol: true })
}

// ------------------------------------------------------------------------------------- builders

pub const BUILDS: &[&str] = &[
    "single properties",
    "one property over and over",
    "values of one name",
    "values of all repeatable names",
    "children",
    "a text",
    "escapes",
    "a raw value",
    "parameters",
    "a parameter",
    "levels",
    "operations",
];

pub const BUILD_SWEEP: u64 = (SIZES.len() * BUILDS.len()) as u64;

fn plain(name: &str, val: &str) -> TProp {
    TProp { name: name.into(), params: BTreeMap::new(), val: val.into() }
}

/// A small event with everything in it that a component has to have.
pub fn small(i: usize) -> (Event, MComp) {
    let mut e = Event::new();
    let mut m = MComp::new("VEVENT");
    ids(&mut e, &mut m, i);
    (e, m)
}

fn ids<C: Component>(c: &mut C, m: &mut MComp, i: usize) {
    let uid = format!("u{i}");
    c.uid(&uid);
    m.set_text("UID", &uid);
    let t = Utc.timestamp_opt(1_700_000_000 + i as i64, 0).single().unwrap_or_default();
    c.timestamp(t);
    m.set(model::When::Utc(t).form("DTSTAMP"), Typed::Utc(t));
}

/// Characters of all widths, the ones with a meaning among them.
pub fn long_text(r: &mut Rng, n: usize) -> String {
    const MIX: [char; 12] = ['x', '\u{e9}', ' ', '\u{4e2d}', ',', 'y', '\u{1f600}', ';', '\\', 'n', '\n', ':'];
    match r.below(4) {
        0 => "x".repeat(n),
        1 => (0..n).map(|i| char::from(b'a' + (i % 26) as u8)).collect(),
        2 => format!("{}\\,;\n", "y".repeat(n)),
        _ => (0..n).map(|i| MIX[(i + i / 12) % 12]).collect(),
    }
}

fn fill<C: Component>(r: &mut Rng, c: &mut C, m: &mut MComp, what: &str, n: usize) {
    let n = if n == 100_001 && ["a text", "a raw value", "a parameter"].contains(&what) { 1_048_577 } else { n };
    match what {
        "single properties" => {
            for i in 0..n {
                let (name, val) = (format!("X-{i}"), format!("{i}"));
                c.add_property(&name, &val);
                m.set_text(&name, &val);
            }
        }
        "one property over and over" => {
            for i in 0..n {
                let val = format!("{}", i / 2);
                match i % 3 {
                    0 => c.summary(&val),
                    1 => c.add_property("SUMMARY", &val),
                    _ => c.append_property(Property::new("SUMMARY", &val)),
                };
                m.set_text("SUMMARY", &val);
            }
        }
        "values of one name" => {
            let name = *r.pick(model::REPEATABLE);
            for i in 0..n {
                // some equal to the one before
                let val = format!("{}", i / 3);
                if i % 2 == 0 {
                    c.add_multi_property(name, &val);
                } else {
                    c.append_multi_property(Property::new(name, &val));
                }
                m.push_multi(plain(name, &val));
            }
        }
        "values of all repeatable names" => {
            for i in 0..n {
                let name = model::REPEATABLE[i % model::REPEATABLE.len()];
                let val = format!("{i}");
                c.append_multi_property(Property::new(name, &val));
                m.push_multi(plain(name, &val));
            }
        }
        "children" => {
            for i in 0..n {
                let (e, x) = small(i / 2);
                c.append_component(e);
                m.comps.push(x);
            }
        }
        "a text" => {
            for name in ["SUMMARY", "DESCRIPTION"] {
                let v = long_text(r, n);
                if name == "SUMMARY" {
                    c.summary(&v);
                } else {
                    c.description(&v);
                }
                m.set_text(name, &v);
            }
        }
        "escapes" => {
            let v: String = (0..n).map(|i| [',', ';', '\\', '\n', 'n'][(i + i / 5) % 5]).collect();
            c.description(&v);
            m.set_text("DESCRIPTION", &v);
        }
        "a raw value" => {
            let v = format!("{}\\,;", "z".repeat(n));
            c.url(&v);
            m.set_text("URL", &v);
            c.append_multi_property(Property::new("ATTENDEE", &v));
            m.push_multi(plain("ATTENDEE", &v));
        }
        "parameters" | "a parameter" => {
            let mut p = Property::new("ORGANIZER", "x");
            let mut t = plain("ORGANIZER", "x");
            if what == "parameters" {
                for i in 0..n {
                    let (k, v) = (format!("X-{i}"), format!("{i}"));
                    p.add_parameter(&k, &v);
                    t.params.insert(k, v);
                }
            } else {
                let v = format!("{}{}", "z".repeat(n), if r.one_in(2) { ":;" } else { "" });
                p.add_parameter("CN", &v);
                t.params.insert("CN".into(), v);
            }
            c.append_property(p);
            m.set(t, Typed::Raw);
        }
        "levels" => {
            let (mut e, mut x) = small(0);
            for i in 0..n % 64 {
                let (mut outer, mut om) = small(i + 1);
                outer.append_component(e);
                om.comps.push(x);
                e = outer;
                x = om;
            }
            c.append_component(e);
            m.comps.push(x);
        }
        _ => {
            for i in 0..n {
                match i % 5 {
                    0 => {
                        c.sequence(i as u32);
                        m.set_text("SEQUENCE", &i.to_string());
                        m.typed.insert("SEQUENCE".into(), Typed::Num(i as u32));
                    }
                    1 => {
                        let t = Utc.timestamp_opt(1_600_000_000 + i as i64, 0).single().unwrap_or_default();
                        c.created(t);
                        m.set(model::When::Utc(t).form("CREATED"), Typed::Utc(t));
                    }
                    2 => {
                        let p = (i / 5 % 11) as u32;
                        c.priority(p);
                        m.set_text("PRIORITY", &p.to_string());
                        m.typed.insert("PRIORITY".into(), Typed::Num(p));
                    }
                    3 => {
                        c.description(&i.to_string());
                        m.set_text("DESCRIPTION", &i.to_string());
                    }
                    _ => {
                        c.uid(&i.to_string());
                        m.set_text("UID", &i.to_string());
                    }
                }
            }
        }
    }
}

/// A component made by the builders, large in one direction.
pub fn built(r: &mut Rng, case: u64) -> (CalendarComponent, MComp, &'static str, usize) {
    // 5 and 576 have no common divisor
    let case = if case < BUILD_SWEEP { case * 5 % BUILD_SWEEP } else { case };
    let what = BUILDS[(case % BUILDS.len() as u64) as usize];
    let n = size(case, BUILDS.len(), r);
    macro_rules! go {
        ($ty:ident, $kind:expr) => {{
            let (mut c, mut m) = ($ty::new(), MComp::new($kind));
            ids(&mut c, &mut m, 0);
            fill(r, &mut c, &mut m, what, n);
            (c.into(), m, what, n)
        }};
    }
    match r.below(3) {
        0 => go!(Event, "VEVENT"),
        1 => go!(Todo, "VTODO"),
        _ => go!(Venue, "VVENUE"),
    }
}
