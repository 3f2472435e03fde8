//! C02 (calendars read back), C11 (deterministic output), C12 (builders and getters), C16 (UID and
//! DTSTAMP), C17 (calendars as containers), C19 (single items).

use crate::conv::*;
use crate::gen::{self, DocOpts, ANY, DEFAULT_DOC};
use crate::model::{self, Dom, MComp, Typed, DOM};
use crate::p_text::{prop_string, strip_auto, t_want};
use crate::reader::{self, is_text, XComp};
use crate::rng::Rng;
use crate::rt::*;
use crate::scale;
use chrono::{DateTime, Duration, TimeZone, Utc};
use icalendar::parser;
use icalendar::*;
use std::collections::{BTreeMap, HashSet};
use std::str::FromStr;
use std::sync::Mutex;

// -------------------------------------------------------------------------------------- C02

fn any_dom(r: &mut Rng) -> Dom {
    Dom {
        max_ops: *r.pick(&[4, 14, 14, 40]),
        depth: *r.pick(&[1, 2, 2, 4]),
        ids: r.one_in(2),
        by_table: r.one_in(3),
        ..DOM
    }
}

/// the text of a calendar through one of the ways there are
fn cal_text(ctx: &mut Ctx, r: &mut Rng, cal: &Calendar) -> Option<String> {
    match r.below(3) {
        0 => Some(cal.to_string()),
        1 => Some(format!("{cal}")),
        _ => {
            let s: Result<String, _> = cal.try_into();
            if s.is_err() {
                ctx.fail("serialize", "TryInto<String> failed");
            }
            s.ok()
        }
    }
}

/// one of the ways from a text to a typed calendar
fn read_cal(ctx: &mut Ctx, r: &mut Rng, text: &str) -> Option<Calendar> {
    let res = match r.below(5) {
        0 => {
            let unfolded = parser::unfold(text);
            parser::read_calendar(&unfolded).map(Calendar::from).map_err(|e| e.to_string())
        }
        1 => {
            let unfolded = parser::unfold(text);
            parser::read_calendar_simple(&unfolded).map(Calendar::from).map_err(|e| e.to_string())
        }
        2 => {
            let unfolded = parser::unfold(text);
            parser::read_components(&unfolded).map(Calendar::from).map_err(|e| e.to_string())
        }
        _ => text.parse::<Calendar>().map_err(|e| e.to_string()),
    };
    match res {
        Ok(c) => Some(c),
        Err(e) => {
            ctx.fail("output is not accepted", format!("{e}\n  output: {}", clip(&format!("{text:?}"), 4000)));
            None
        }
    }
}

fn compare_cal(ctx: &mut Ctx, back: &Calendar, props: &[TProp], want: &[TComp], text: &str) -> bool {
    let mut bad = vec![];
    let got = t_cal(back, &mut bad);
    ctx.check(bad.is_empty(), "map invariant", || format!("{}\n{text:?}", bad.join("; ")));
    ctx.eq("calendar properties", &got.props, &props.to_vec(), text);
    if got.comps.len() != want.len() {
        ctx.fail("number of components", format!("{} for {}: {text:?}", got.comps.len(), want.len()));
        return false;
    }
    for (mut g, w) in got.comps.into_iter().zip(want) {
        strip_auto(ctx, &mut g, w);
        if !ctx.eq("component", &g, w, text) {
            return false;
        }
    }
    !ctx.failed()
}

fn c02_calendar(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let d = any_dom(&mut r);
    let (cal, props, comps) = model::calendar(&mut r, &d);
    let Some(text) = cal_text(ctx, &mut r, &cal) else {
        return;
    };
    ctx.sample(|| clip(&text, 500));
    ctx.nontrivial(&text);
    let Some(back) = read_cal(ctx, &mut r, &text) else {
        return;
    };
    let want = t_want(&comps);
    ctx.obs_n("properties", want.iter().map(count).sum::<usize>() as u64);
    ctx.obs_n("nested components", want.iter().map(|c| c.comps.len()).sum::<usize>() as u64);
    ctx.obs_n(
        "repeated properties",
        comps.iter().map(|c| c.multi.values().filter(|v| v.len() > 1).count()).sum::<usize>() as u64,
    );
    if !compare_cal(ctx, &back, &props, &want, &text) {
        return;
    }
    if d.ids && d.by_table {
        // nothing was added and everything is filed as it was
        ctx.check(back == cal, "equal calendar", || format!("{cal:?}\n{back:?}\n{text:?}"));
        ctx.obs("equal calendars");
    }
    // and once more
    let again = back.to_string();
    let Some(back) = read_cal(ctx, &mut r, &again) else {
        return;
    };
    compare_cal(ctx, &back, &props, &want, &again);
    ctx.obs("calendars read back");
}

fn count(c: &TComp) -> usize {
    c.props.values().map(Vec::len).sum::<usize>() + c.comps.iter().map(count).sum::<usize>()
}

/// one property of every kind, at a chosen place, with a chosen value
fn c02_property(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let name = if r.one_in(4) { gen::prop_name(&mut r) } else { (*r.pick(gen::PROP_NAMES)).to_string() };
    if name == "UID" || name == "DTSTAMP" {
        return;
    }
    let (p, t) = model::any_property(&mut r, &name, ANY);
    let multi = r.one_in(3);
    let mut want = TComp { kind: String::new(), props: BTreeMap::new(), comps: vec![] };
    want.props.insert(name.clone(), vec![t.clone()]);
    macro_rules! one {
        ($c:expr, $kind:expr) => {{
            let mut c = $c;
            if multi {
                c.append_multi_property(p.clone());
            } else {
                c.append_property(p.clone());
            }
            want.kind = $kind.into();
            c
        }};
    }
    let mut cal = Calendar::empty();
    let mut props = vec![];
    let level = r.below(5);
    match level {
        0 => {
            cal.append_property(p.clone());
            props.push(t);
        }
        1 => {
            cal.push(one!(Event::new(), "VEVENT"));
        }
        2 => {
            cal.push(one!(Todo::new(), "VTODO"));
        }
        3 => {
            cal.push(one!(Venue::new(), "VVENUE"));
        }
        _ => {
            let mut e = Event::new();
            e.append_component(one!(Todo::new(), "VTODO"));
            cal.push(e);
            want = TComp { kind: "VEVENT".into(), props: BTreeMap::new(), comps: vec![want] };
        }
    }
    let text = cal.to_string();
    ctx.nontrivial(&text);
    let Some(back) = read_cal(ctx, &mut r, &text) else {
        return;
    };
    let want = if level == 0 { vec![] } else { vec![want] };
    compare_cal(ctx, &back, &props, &want, &text);
    ctx.obs("single properties read back");
}

/// every character there is, in a value of either sort and in a parameter
fn c02_chars(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let all = gen::chars_of(ctx.case);
    let line: String = all.chars().filter(|c| !matches!(c, '\n' | '\r')).collect();
    let param: String = line.chars().filter(|c| *c != '"' && (!c.is_control() || *c == '\t')).collect();
    let mut m = MComp::new("VEVENT");
    let mut e = Event::new();
    for (name, val) in [("SUMMARY", &all), ("X-LINE", &line), ("ATTENDEE", &line)] {
        let mut p = Property::new(name, val);
        p.add_parameter("CN", &param).add_parameter("X-B", &format!("{param}:"));
        let params = [("CN", param.clone()), ("X-B", format!("{param}:"))];
        let params = params.into_iter().map(|(k, v)| (k.to_string(), v)).collect();
        let t = TProp { name: name.into(), params, val: val.clone() };
        if name == "ATTENDEE" {
            e.append_multi_property(p);
            m.push_multi(t);
        } else {
            e.append_property(p);
            m.set(t, Typed::Raw);
        }
    }
    e.uid("u");
    m.set_text("UID", "u");
    let mut cal = Calendar::empty();
    cal.push(e.done());
    let text = cal.to_string();
    ctx.nontrivial(&text);
    ctx.obs_n("characters enumerated", all.chars().count() as u64);
    let Some(back) = read_cal(ctx, &mut r, &text) else {
        return;
    };
    compare_cal(ctx, &back, &[], &[m.tree()], &text);
}

/// many components, or many properties, or long values, or deep nesting
fn c02_big(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let mut cal = Calendar::new();
    let mut comps: Vec<MComp> = vec![];
    match ctx.case % 4 {
        0 => {
            let d = Dom { max_ops: 3, depth: 1, ..DOM };
            for _ in 0..150 + r.below(200) {
                let (c, m) = model::component(&mut r, &d);
                cal.push(c);
                comps.push(m);
            }
        }
        1 => {
            let d = Dom { max_ops: 400, depth: 0, ..DOM };
            let (c, m) = model::component(&mut r, &d);
            cal.push(c);
            comps.push(m);
        }
        2 => {
            let n = 1000 + r.below(20_000);
            let v = gen::text_len(&mut r, ANY, n);
            let mut e = Event::new();
            e.description(&v);
            let mut m = MComp::new("VEVENT");
            m.set_text("DESCRIPTION", &v);
            cal.push(e);
            comps.push(m);
        }
        _ => {
            let d = Dom { max_ops: 2, depth: 0, ..DOM };
            let (mut c, mut m) = model::event(&mut r, &d, 0);
            for _ in 0..2 + r.below(60) {
                let (mut outer, mut om) = model::event(&mut r, &d, 0);
                outer.append_component(c);
                om.comps.push(m);
                c = outer;
                m = om;
            }
            cal.push(c);
            comps.push(m);
        }
    }
    let text = cal.to_string();
    ctx.nontrivial(&text);
    let Some(back) = read_cal(ctx, &mut r, &text) else {
        return;
    };
    compare_cal(ctx, &back, &model::default_props(), &t_want(&comps), &text);
    ctx.obs("big calendars");
}

/// large in one direction
fn c02_scale(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let (c, m, _, _) = scale::built(&mut r, ctx.case);
    let (f, fm) = scale::small(1);
    let cal = if r.one_in(2) { Calendar::from(c) } else { Calendar::new().push(c).push(f.clone()).done() };
    let mut comps = vec![m];
    if cal.components.len() == 2 {
        comps.push(fm);
    }
    let text = cal.to_string();
    ctx.nontrivial(&text);
    ctx.obs("large calendars");
    let Some(back) = read_cal(ctx, &mut r, &text) else {
        return;
    };
    if compare_cal(ctx, &back, &model::default_props(), &t_want(&comps), &text) {
        ctx.check(back == cal, "equal calendar", || format!("{cal:?}\n{back:?}\n{text:?}"));
    }
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        level: "exploration",
        rule: "A case is one builder program, run on the library and on a model; the text of the calendar is read \
               by the library in one of four ways and compared with the model, name by name, level by level, twice. \
               Non-trivial: distinct texts.",
        sections: vec![
            sec("scale", scale::BUILD_SWEEP, 4 * scale::BUILD_SWEEP, c02_scale),
            sec("calendar", 240_000, 4_800_000, c02_calendar),
            sec("property", 600_000, 12_000_000, c02_property),
            sec("chars", gen::CHAR_CASES, 2 * gen::CHAR_CASES, c02_chars),
            sec("big", 1_200, 24_000, c02_big),
        ],
        require: vec![
            ("large calendars", 300),
            ("properties", 50_000),
            ("nested components", 2_000),
            ("repeated properties", 1_000),
            ("equal calendars", 100),
            ("big calendars", 50),
            ("characters enumerated", 10_000),
        ],
        extra: None,
        assumptions: vec![
            "names are RFC 5545 names; parameter values are free of double quotes and control characters; values of \
             properties that are not TEXT are free of line breaks",
        ],
    }
}

// -------------------------------------------------------------------------------------- C11

#[derive(Clone)]
pub struct PropPlan {
    t: TProp,
    /// parameters that are set and then overwritten
    noise: Vec<(String, String)>,
}

#[derive(Clone)]
pub enum Step {
    Single(PropPlan),
    Multi(PropPlan),
    Child(Plan),
}

/// A component as a set of things to add; the order of adding is open.
#[derive(Clone)]
pub struct Plan {
    kind: usize,
    steps: Vec<Step>,
}

pub fn plan_prop(r: &mut Rng, name: &str) -> PropPlan {
    let (_, mut t) = model::any_property(r, name, ANY);
    // more parameters than usual: their order is what matters here
    if r.one_in(2) {
        for _ in 0..r.below(7) {
            let k = gen::param_name(r);
            let v = gen::param_value_for(r, &k);
            if k != "VALUE" {
                t.params.insert(k, v);
            }
        }
    }
    let mut noise = vec![];
    for (k, _) in &t.params {
        if r.one_in(6) {
            noise.push((k.clone(), gen::param_value(r)));
        }
    }
    PropPlan { t, noise }
}

pub fn plan(r: &mut Rng, level: usize) -> Plan {
    let mut names = HashSet::new();
    let mut steps = vec![];
    for name in ["UID", "DTSTAMP"] {
        let val = if name == "UID" { format!("{:x}", r.u64()) } else { gen::utc_stamp(r) };
        let t = TProp { name: name.into(), params: BTreeMap::new(), val };
        steps.push(Step::Single(PropPlan { t, noise: vec![] }));
        names.insert(name.to_string());
    }
    for _ in 0..r.small(14) {
        let name = gen::prop_name(r);
        if model::is_repeatable(&name) || !names.insert(name.clone()) {
            continue;
        }
        steps.push(Step::Single(plan_prop(r, &name)));
    }
    for _ in 0..r.small(10) {
        let name = *r.pick(model::REPEATABLE);
        steps.push(Step::Multi(plan_prop(r, name)));
    }
    if level < 2 {
        for _ in 0..r.small(3) {
            steps.push(Step::Child(plan(r, level + 1)));
        }
    }
    Plan { kind: r.below(3), steps }
}

fn build_prop(r: &mut Rng, p: &PropPlan) -> Property {
    let mut out = Property::new(&p.t.name, &p.t.val);
    for (k, v) in &p.noise {
        out.add_parameter(k, v);
    }
    let mut params: Vec<_> = p.t.params.iter().collect();
    r.shuffle(&mut params);
    for (k, v) in params {
        if r.one_in(2) {
            out.add_parameter(k, v);
        } else {
            out.append_parameter(Parameter::new(k, v));
        }
    }
    if r.one_in(2) {
        out.done()
    } else {
        out.clone()
    }
}

/// a random order that keeps repeated names and children in their order
fn reorder(r: &mut Rng, steps: &[Step]) -> Vec<Step> {
    let key = |s: &Step| match s {
        Step::Single(p) => format!("s{}", p.t.name),
        Step::Multi(p) => format!("m{}", p.t.name),
        Step::Child(_) => "c".to_string(),
    };
    let mut order: Vec<usize> = (0..steps.len()).collect();
    r.shuffle(&mut order);
    // the places of each key are filled in the original order
    let mut by_key: BTreeMap<String, Vec<usize>> = BTreeMap::new();
    for (i, s) in steps.iter().enumerate() {
        by_key.entry(key(s)).or_default().push(i);
    }
    let mut next: BTreeMap<String, usize> = BTreeMap::new();
    order
        .into_iter()
        .map(|i| {
            let k = key(&steps[i]);
            let n = next.entry(k.clone()).or_insert(0);
            let s = steps[by_key[&k][*n]].clone();
            *n += 1;
            s
        })
        .collect()
}

fn fill<C: Component>(r: &mut Rng, c: &mut C, p: &Plan) {
    for s in reorder(r, &p.steps) {
        match s {
            Step::Single(p) => {
                if r.one_in(8) {
                    // overwritten later
                    c.add_property(&p.t.name, "something else");
                }
                let q = build_prop(r, &p);
                c.append_property(q);
            }
            Step::Multi(p) => {
                let q = build_prop(r, &p);
                c.append_multi_property(q);
            }
            Step::Child(p) => match p.kind {
                0 => {
                    let mut e = Event::new();
                    fill(r, &mut e, &p);
                    c.append_component(e);
                }
                1 => {
                    let mut e = Todo::new();
                    fill(r, &mut e, &p);
                    c.append_component(e.done());
                }
                _ => {
                    let mut e = Venue::new();
                    fill(r, &mut e, &p);
                    c.append_component(e.clone());
                }
            },
        }
    }
}

pub fn build(r: &mut Rng, p: &Plan) -> CalendarComponent {
    match p.kind {
        0 => {
            let mut e = Event::new();
            fill(r, &mut e, p);
            e.into()
        }
        1 => {
            let mut e = Todo::new();
            fill(r, &mut e, p);
            e.into()
        }
        _ => {
            let mut e = Venue::new();
            fill(r, &mut e, p);
            e.into()
        }
    }
}

pub fn build_cal(r: &mut Rng, props: &[PropPlan], plans: &[Plan]) -> Calendar {
    let mut cal = if r.one_in(2) { Calendar::empty() } else { Calendar::default() };
    cal.properties.clear();
    for p in props {
        let q = build_prop(r, p);
        cal.append_property(q);
    }
    for p in plans {
        let c = build(r, p);
        match r.below(3) {
            0 => cal.extend(vec![c]),
            1 => cal.append(&mut Calendar::from(c)),
            _ => {
                cal.push(c);
            }
        }
    }
    cal
}

fn cc_text(ctx: &mut Ctx, which: usize, c: &CalendarComponent) -> Option<String> {
    fn go<C: Component + Clone + TryInto<String>>(which: usize, c: &C) -> Option<String> {
        match which {
            0 => c.try_into_string().ok(),
            1 => Some(Component::to_string(c)),
            2 => c.clone().try_into().ok(),
            _ => {
                let mut s = String::new();
                c.fmt_write(&mut s).ok()?;
                Some(s)
            }
        }
    }
    let s = match c {
        CalendarComponent::Event(e) => go(which, e),
        CalendarComponent::Todo(e) => go(which, e),
        CalendarComponent::Venue(e) => go(which, e),
        CalendarComponent::Other(e) => match which {
            0 | 2 => e.try_into_string().ok(),
            1 => Some(Component::to_string(e)),
            _ => {
                let mut s = String::new();
                e.fmt_write(&mut s).ok().map(|_| s)
            }
        },
        _ => None,
    };
    if s.is_none() {
        ctx.fail("serialize", format!("{c:?}"));
    }
    s
}

fn cc_kids(c: &CalendarComponent) -> usize {
    match c {
        CalendarComponent::Event(e) => e.components().len(),
        CalendarComponent::Todo(e) => e.components().len(),
        CalendarComponent::Venue(e) => e.components().len(),
        CalendarComponent::Other(e) => e.components().len(),
        _ => 0,
    }
}

fn c11_orders(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let plans: Vec<Plan> = (0..r.small(5)).map(|_| plan(&mut r, 0)).collect();
    let props: Vec<PropPlan> = (0..r.small(5))
        .map(|_| {
            let name = gen::prop_name(&mut r);
            plan_prop(&mut r, &name)
        })
        .collect();
    let a = build_cal(&mut r, &props, &plans);
    let b = build_cal(&mut r, &props, &plans);
    ctx.check(a == b, "equal calendars", || format!("{a:?}\n{b:?}"));
    let text = a.to_string();
    ctx.sample(|| clip(&text, 500));
    ctx.nontrivial(&text);
    ctx.check(a == b, "serialising modifies", || format!("{a:?}\n{b:?}"));
    for (i, c) in [&a, &b, &a, &b].iter().enumerate() {
        let t = match i {
            0 => c.to_string(),
            1 => format!("{c}"),
            _ => match TryInto::<String>::try_into(*c) {
                Ok(t) => t,
                Err(e) => return ctx.fail("serialize", e.to_string()),
            },
        };
        if !ctx.eq("another text for an equal calendar", &t, &text, "two orders of insertion") {
            return;
        }
        ctx.obs("texts compared");
    }
    // its parts
    let mut whole = String::from("BEGIN:VCALENDAR\r\n");
    for p in &a.properties {
        let (Some(x), Some(y)) = (prop_string(ctx, p), prop_string(ctx, &p.clone())) else {
            return;
        };
        ctx.eq("another text for an equal property", &x, &y, "clone");
        whole.push_str(&x);
    }
    for (c, d) in a.components.iter().zip(&b.components) {
        let Some(first) = cc_text(ctx, 0, c) else {
            return;
        };
        for which in 0..4 {
            for x in [c, d, &c.clone()] {
                let Some(t) = cc_text(ctx, which, x) else {
                    return;
                };
                ctx.eq("another text for an equal component", &t, &first, "entry points");
                ctx.obs("texts compared");
            }
        }
        ctx.obs_n("children", cc_kids(c) as u64);
        whole.push_str(&first);
    }
    whole.push_str("END:VCALENDAR\r\n");
    ctx.eq("the parts of a calendar", &whole, &text, "properties and components on their own");
    // parsed, and written again
    let Some(parsed) = read_cal(ctx, &mut r, &text) else {
        return;
    };
    ctx.check(parsed == a, "parsed calendar", || format!("{parsed:?}\n{a:?}"));
    ctx.eq("parsing and serialising again", &parsed.to_string(), &text, "library text");
    ctx.obs("fixpoints");
}

/// whatever the builders do, after one round the text stays
fn c11_rounds(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let by_table = r.one_in(2);
    let d = Dom { ids: true, by_table, depth: 3, ..DOM };
    let (cal, _, _) = model::calendar(&mut r, &d);
    let t0 = cal.to_string();
    ctx.nontrivial(&t0);
    ctx.eq("the same calendar twice", &cal.to_string(), &t0, "");
    let Some(c1) = read_cal(ctx, &mut r, &t0) else {
        return;
    };
    let t1 = c1.to_string();
    if by_table {
        ctx.eq("parsing and serialising again", &t1, &t0, "library text");
    }
    let Some(c2) = read_cal(ctx, &mut r, &t1) else {
        return;
    };
    ctx.check(c1 == c2, "parsed calendars differ", || format!("{t0:?}\n{t1:?}"));
    ctx.eq("parsing and serialising again", &c2.to_string(), &t1, "text of a parsed calendar");
    // an equal calendar was parsed from the same text: the same output
    let Some(c3) = read_cal(ctx, &mut r, &t0) else {
        return;
    };
    ctx.check(c1 == c3, "parsed calendars differ", || format!("{t0:?}"));
    ctx.eq("another text for an equal calendar", &c3.to_string(), &t1, &t0);
    ctx.obs("fixpoints");
}

/// documents and builders, large in one direction
fn c11_scale(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let (doc, _, _) = scale::of_case(&mut r, ctx.case);
    c11_document(ctx, &mut r, &doc);
    let (c, _, _, _) = scale::built(&mut r, ctx.case);
    let cal = Calendar::from(c);
    let text = cal.to_string();
    ctx.eq("the same calendar twice", &cal.to_string(), &text, "");
    let Some(parsed) = read_cal(ctx, &mut r, &text) else {
        return;
    };
    ctx.eq("parsing and serialising again", &parsed.to_string(), &text, "library text");
    ctx.obs("large calendars");
}

/// documents of others: the first output is final
fn c11_documents(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let o = DocOpts { ids: true, ..DEFAULT_DOC };
    let doc = if r.one_in(4) { gen::realistic(&mut r) } else { gen::document(&mut r, &o) };
    c11_document(ctx, &mut r, &doc);
}

fn c11_document(ctx: &mut Ctx, r: &mut Rng, doc: &[gen::DComp]) {
    let text = gen::lines_of(doc).join("\r\n");
    ctx.nontrivial(&text);
    // documents may lack UIDs and have parameters that cannot be written, see C09
    let Ok(first) = text.parse::<Calendar>() else {
        return;
    };
    let missing = |c: &Calendar| {
        fn no_ids<C: Component>(c: &C) -> bool {
            !c.properties().contains_key("UID")
                || !c.properties().contains_key("DTSTAMP")
                || c.components().iter().any(no_ids)
        }
        c.components.iter().any(|c| match c {
            CalendarComponent::Event(e) => no_ids(e),
            CalendarComponent::Todo(e) => no_ids(e),
            CalendarComponent::Venue(e) => no_ids(e),
            CalendarComponent::Other(e) => no_ids(e),
            _ => true,
        })
    };
    if missing(&first) {
        return;
    }
    let t1 = first.to_string();
    ctx.eq("the same calendar twice", &first.to_string(), &t1, &text);
    let Some(second) = read_cal(ctx, r, &t1) else {
        return;
    };
    ctx.eq("parsing and serialising again", &second.to_string(), &t1, &text);
    let third = text.parse::<Calendar>().map(|c| c.to_string());
    ctx.eq("another text for the same document", &third, &Ok(t1), &text);
    ctx.obs("documents");
}

fn c11_params(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let name = gen::prop_name(&mut r);
    let p = plan_prop(&mut r, &name);
    let a = build_prop(&mut r, &p);
    let Some(text) = prop_string(ctx, &a) else {
        return;
    };
    ctx.nontrivial(&text);
    for _ in 0..4 {
        let b = build_prop(&mut r, &p);
        ctx.check(a == b, "equal properties", || format!("{a:?}\n{b:?}"));
        let Some(t) = prop_string(ctx, &b) else {
            return;
        };
        ctx.eq("another text for an equal property", &t, &text, "parameter order");
        ctx.obs("texts compared");
    }
    if p.t.params.len() > 1 {
        ctx.obs("several parameters");
    }
}

/// Calls `go` with the text of every item and a function that prints the item.
fn print_items(seed: u64, n: u64, go: &mut dyn FnMut(&str, &dyn Fn() -> Result<(), std::fmt::Error>)) {
    for case in 0..n {
        let mut r = Rng::new(&[seed, 0x5052_494e_54, case]);
        let d = Dom { ids: true, depth: 2, ..DOM };
        let (cal, _, _) = model::calendar(&mut r, &d);
        let text = cal.to_string();
        go(&text, &|| cal.print());
        let flat = parser::unfold(&text);
        if let Ok(p) = parser::read_calendar(&flat) {
            go(&p.to_string(), &|| p.print());
        }
        for c in &cal.components {
            match c {
                CalendarComponent::Event(e) => go(&Component::to_string(e), &|| e.print()),
                CalendarComponent::Todo(e) => go(&Component::to_string(e), &|| e.print()),
                CalendarComponent::Venue(e) => go(&Component::to_string(e), &|| e.print()),
                CalendarComponent::Other(e) => go(&Component::to_string(e), &|| e.print()),
                _ => {}
            }
        }
    }
}

const PRINT_MARK: &str = "\u{1}==\u{1}\r\n";

pub fn emit_prints(seed: u64, n: u64) {
    print_items(seed, n, &mut |_, print| {
        print!("{PRINT_MARK}");
        print().expect("print");
    });
}

/// what `print` writes to standard output, in a process of its own
fn c11_extra(e: &mut Extra) {
    let rounds = if e.tier == Tier::Quick { 1 } else { 20 };
    let n = 150;
    for round in 0..rounds {
        let seed = e.seed.wrapping_mul(1000) + round;
        let out = std::process::Command::new(&e.exe).args(["print", &seed.to_string(), &n.to_string()]).output();
        let mut fail = |sig: &str, detail: String| {
            e.fails.push(Fail { section: "extra".into(), case: round, sig: sig.into(), detail });
        };
        let text = match out {
            Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).into_owned(),
            Ok(o) => return fail("a process died", format!("{} {}", o.status, String::from_utf8_lossy(&o.stderr))),
            Err(err) => {
                e.errors.push(format!("cannot start {}: {err}", e.exe.display()));
                return;
            }
        };
        let printed: Vec<&str> = text.split(PRINT_MARK).skip(1).collect();
        let mut want = vec![];
        print_items(seed, n, &mut |t, _| want.push(t.to_string()));
        if printed.len() != want.len() {
            return fail("number of printed items", format!("{} instead of {}", printed.len(), want.len()));
        }
        for (p, w) in printed.iter().zip(&want) {
            // print ends the text with a line break of its own
            if p != w && p.strip_suffix("\r\n") != Some(w) {
                return fail("print writes another text", format!("{p:?} instead of {w:?}"));
            }
        }
        e.evaluations += want.len() as u64;
        *e.counters.entry("items printed".into()).or_insert(0) += want.len() as u64;
    }
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        level: "exploration",
        rule: "A case is a calendar given as a set of additions and built in two random orders (with parameters \
               and properties that are overwritten on the way), or a builder program, or a document, serialised \
               through every entry point and, parsed, again; all texts have to be the same octets. Non-trivial: \
               distinct texts.",
        sections: vec![
            sec("scale", scale::BUILD_SWEEP, 4 * scale::BUILD_SWEEP, c11_scale),
            sec("orders", 12_000, 400_000, c11_orders),
            sec("rounds", 12_000, 400_000, c11_rounds),
            sec("documents", 15_000, 500_000, c11_documents),
            sec("params", 60_000, 2_500_000, c11_params),
        ],
        require: vec![
            ("large calendars", 300),
            ("texts compared", 100_000),
            ("fixpoints", 5_000),
            ("documents", 2_000),
            ("several parameters", 5_000),
            ("items printed", 300),
            ("children", 1_000),
        ],
        extra: Some(c11_extra),
        assumptions: vec![
            "\"at once\" holds for text of parsed calendars and of builders that add repeatable names with the \
             multi-property calls and other names with the single-property calls",
        ],
    }
}

// -------------------------------------------------------------------------------------- C12

fn c12_dom(r: &mut Rng) -> Dom {
    Dom { max_ops: *r.pick(&[6, 14, 14, 60]), depth: 1, tame_multi: true, ..DOM }
}

/// the new history and the one that was taken out
macro_rules! history {
    ($name:ident, $ty:ty, $kind:expr, $op:ident, $check:ident, $new:expr) => {
        fn $name(ctx: &mut Ctx, r: &mut Rng, d: &Dom) -> Option<($ty, MComp)> {
            #[allow(clippy::redundant_closure_call)]
            let (mut c, mut m): ($ty, MComp) = $new(r, d);
            model::$check(ctx, r, &c, &m, "built");
            let n = 1 + r.small(d.max_ops);
            let every = if n > 20 { 5 } else { 1 };
            for i in 0..n {
                model::$op(r, d, 0, &mut c, &mut m);
                ctx.obs("operations");
                if i % every == 0 {
                    model::$check(ctx, r, &c, &m, "built");
                }
                if r.one_in(12) {
                    let copy = c.clone();
                    let taken = c.done();
                    ctx.obs("done");
                    ctx.check(taken == copy, "done() changes the component", || format!("{copy:?}\n{taken:?}"));
                    model::$check(ctx, r, &taken, &m, "built");
                    model::$check(ctx, r, &c, &MComp::new($kind), "built");
                    if r.one_in(2) {
                        c = taken;
                    } else {
                        // the builder goes on, empty
                        m = MComp::new($kind);
                    }
                }
                if ctx.failed() {
                    return None;
                }
            }
            model::$check(ctx, r, &c, &m, "built");
            let copy = c.clone();
            ctx.check(copy == c, "clone", || format!("{c:?}"));
            model::$check(ctx, r, &copy, &m, "built");
            Some((c, m))
        }
    };
}

history!(event_history, Event, "VEVENT", event_op, check_event, |_: &mut Rng, _: &Dom| (
    Event::new(),
    MComp::new("VEVENT")
));
history!(todo_history, Todo, "VTODO", todo_op, check_todo, |_: &mut Rng, _: &Dom| (Todo::new(), MComp::new("VTODO")));
history!(venue_history, Venue, "VVENUE", venue_op, check_venue, |_: &mut Rng, _: &Dom| (
    Venue::new(),
    MComp::new("VVENUE")
));
history!(alarm_history, Alarm, "VALARM", alarm_op, check_common, |r: &mut Rng, d: &Dom| model::new_alarm(r, d));

fn c12_reread(ctx: &mut Ctx, r: &mut Rng, c: CalendarComponent, m: &MComp) {
    let text = match cc_text(ctx, 0, &c) {
        Some(t) => t,
        None => return,
    };
    ctx.nontrivial(&text);
    ctx.sample(|| clip(&text, 500));
    match text.parse::<CalendarComponent>() {
        Ok(back) => model::check_cc(ctx, r, &back, m, "parsed"),
        Err(e) => return ctx.fail("output is not accepted", format!("{e}: {text:?}")),
    }
    let cal = Calendar::from(c);
    let text = cal.to_string();
    let Some(back) = read_cal(ctx, r, &text) else {
        return;
    };
    match &back.components[..] {
        [c] => model::check_cc(ctx, r, c, m, "parsed"),
        other => ctx.fail("number of components", format!("{} for 1: {text:?}", other.len())),
    }
    ctx.obs("histories read back");
}

fn c12_event(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let d = c12_dom(&mut r);
    let Some((c, m)) = event_history(ctx, &mut r, &d) else {
        return;
    };
    c12_reread(ctx, &mut r, c.into(), &m);
}

fn c12_todo(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let d = c12_dom(&mut r);
    let Some((c, m)) = todo_history(ctx, &mut r, &d) else {
        return;
    };
    c12_reread(ctx, &mut r, c.into(), &m);
}

fn c12_venue(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let d = c12_dom(&mut r);
    let Some((c, m)) = venue_history(ctx, &mut r, &d) else {
        return;
    };
    c12_reread(ctx, &mut r, c.into(), &m);
}

fn c12_alarm(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let d = c12_dom(&mut r);
    let Some((c, m)) = alarm_history(ctx, &mut r, &d) else {
        return;
    };
    let mut e = Event::new();
    let mut em = MComp::new("VEVENT");
    e.alarm(c);
    em.comps.push(m.clone());
    model::check_event(ctx, &mut r, &e, &em, "built");
    let text = Component::to_string(&e);
    ctx.nontrivial(&text);
    match text.parse::<CalendarComponent>() {
        Ok(CalendarComponent::Event(e)) if e.components().len() == 1 => {
            ctx.eq("kind of an alarm", &e.components()[0].component_kind(), &"VALARM".to_string(), &text);
            model::check_common(ctx, &mut r, &e.components()[0], &m, "parsed");
            ctx.obs("histories read back");
        }
        other => ctx.fail("an alarm is lost", format!("{other:?}: {text:?}")),
    }
}

/// A component of another kind, as the parser gives it, that is filled further.
fn c12_other(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let d = c12_dom(&mut r);
    let (mut c, mut m) = model::shell(&mut r);
    model::check_cc(ctx, &mut r, &c, &m, "built");
    for _ in 0..1 + r.small(d.max_ops) {
        model::other_op(&mut r, &d, 0, &mut c, &mut m);
        ctx.obs("operations");
        model::check_cc(ctx, &mut r, &c, &m, "built");
        if ctx.failed() {
            return;
        }
    }
    let copy = c.clone();
    ctx.check(copy == c, "clone", || format!("{c:?}"));
    c12_reread(ctx, &mut r, c, &m);
}

/// large in one direction
fn c12_scale(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let (c, m, what, _) = scale::built(&mut r, ctx.case);
    if what == "operations" {
        ctx.obs("long histories");
    }
    model::check_cc(ctx, &mut r, &c, &m, "built");
    let copy = c.clone();
    ctx.check(copy == c, "clone", || format!("{c:?}"));
    if !ctx.failed() {
        c12_reread(ctx, &mut r, c, &m);
    }
    ctx.obs("large components");
}

/// The builder of a single property against a map.
fn c12_property(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let name = gen::prop_name(&mut r);
    let val = gen::text(&mut r, gen::ANY);
    let mut p = match r.below(5) {
        0 => Property::new(&name, &val),
        1 => Property::new(name.clone(), val.clone()),
        2 => Property::from((name.as_str(), val.as_str())),
        3 => {
            #[allow(deprecated)]
            let p = Property::new_pre_alloc(name.clone(), val.clone());
            p
        }
        _ => {
            let other = gen::text(&mut r, gen::ANY);
            let mut all = Property::from_array([("X-A", other.as_str()), (name.as_str(), val.as_str()), ("X-B", "")]);
            ctx.eq("from_array", &all.len(), &3, "length");
            ctx.eq("from_array", &(all[0].key(), all[0].value()), &("X-A", other.as_str()), "first");
            ctx.eq("from_array", &(all[2].key(), all[2].value()), &("X-B", ""), "last");
            all.swap_remove(1)
        }
    };
    let mut m = TProp { name, params: BTreeMap::new(), val };
    let pool: Vec<String> = (0..1 + r.below(5)).map(|_| gen::param_name(&mut r)).collect();
    for step in 0..1 + r.small(12) {
        match r.below(12) {
            0 if step > 0 => {
                let copy = p.clone();
                let taken = p.done();
                ctx.obs("done");
                ctx.check(taken == copy, "done() changes the property", || format!("{copy:?}\n{taken:?}"));
                let empty = (p.key().is_empty(), p.value().is_empty(), p.params().is_empty());
                ctx.eq("done() leaves something behind", &empty, &(true, true, true), "name, value, parameters");
                p = taken;
            }
            k => {
                let key = if r.one_in(6) { "VALUE".to_string() } else { r.pick(&pool).clone() };
                let v = if key == "VALUE" {
                    (*r.pick(gen::VALUE_TYPES)).to_string()
                } else {
                    gen::param_value_for(&mut r, &key)
                };
                match k % 3 {
                    0 => p.add_parameter(&key, &v),
                    1 => {
                        let q = Parameter::new(&key, &v);
                        ctx.eq("Parameter", &(q.key(), q.value()), &(key.as_str(), v.as_str()), "accessors");
                        p.append_parameter(q)
                    }
                    _ => p.append_parameter((key.as_str(), v.as_str())),
                };
                m.params.insert(key, v);
            }
        }
        ctx.obs("operations");
        let mut bad = vec![];
        let t = t_prop(&p, &mut bad);
        ctx.eq("property after a history", &t, &m, "name, parameters, value");
        ctx.check(bad.is_empty(), "parameter filed under another name", || format!("{bad:?}"));
        ctx.eq("get_value_as", &p.get_value_as(|s| Some(s.to_string())), &Some(m.val.clone()), "identity");
        ctx.eq("get_value_as", &p.get_value_as(|_| None::<u8>), &None, "never");
        for key in pool.iter().map(String::as_str).chain(["VALUE", "X-NEVER-SET"]) {
            let want = m.params.get(key).cloned();
            ctx.eq("get_param_as", &p.get_param_as(key, |s| Some(s.to_string())), &want, key);
            ctx.eq("get_param_as", &p.get_param_as(key, |_| None::<u8>), &None, key);
            ctx.obs("getters");
        }
        if ctx.failed() {
            return;
        }
    }
    let Some(text) = prop_string(ctx, &p) else {
        return;
    };
    ctx.nontrivial(&text);
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        level: "exploration",
        rule: "A case is one history of setter, append and done calls on one component; after every step (every \
               fifth in long ones) all getters, maps and children are compared with a model, and all getters once \
               more after writing and parsing. Non-trivial: distinct texts at the end of a history.",
        sections: vec![
            sec("scale", scale::BUILD_SWEEP, 4 * scale::BUILD_SWEEP, c12_scale),
            sec("event", 60_000, 1_200_000, c12_event),
            sec("todo", 60_000, 1_200_000, c12_todo),
            sec("venue", 40_000, 800_000, c12_venue),
            sec("alarm", 40_000, 800_000, c12_alarm),
            sec("other", 40_000, 800_000, c12_other),
            sec("property", 150_000, 3_000_000, c12_property),
        ],
        require: vec![
            ("large components", 300),
            ("operations", 50_000),
            ("getters", 200_000),
            ("property_value", 50_000),
            ("done", 2_000),
            ("histories read back", 20_000),
        ],
        extra: None,
        assumptions: vec![
            "percent_complete is given at most 100; names with a getter are not added as multi-properties",
        ],
    }
}

// -------------------------------------------------------------------------------------- C16

/// every generated UID of this process
static UIDS: Mutex<Option<HashSet<String>>> = Mutex::new(None);

struct Stamps {
    before: DateTime<Utc>,
    after: DateTime<Utc>,
}

impl Stamps {
    /// the clock may have gone back
    fn between(a: DateTime<Utc>, b: DateTime<Utc>) -> Stamps {
        Stamps { before: a.min(b), after: a.max(b) }
    }
}

fn stamp(s: &str) -> Option<DateTime<Utc>> {
    if !is_utc_form(s) {
        return None;
    }
    let n = |a: usize, b: usize| s[a..b].parse::<u32>().ok();
    Utc.with_ymd_and_hms(n(0, 4)? as i32, n(4, 6)?, n(6, 8)?, n(9, 11)?, n(11, 13)?, n(13, 15)?).single()
}

/// A generated UID and DTSTAMP wherever none was set, the set ones elsewhere.
fn ids_of(ctx: &mut Ctx, x: &XComp, want: &TComp, s: &Stamps, uids: &mut Vec<String>, text: &str) {
    for name in ["UID", "DTSTAMP"] {
        let got: Vec<_> = x.props.iter().filter(|p| p.name == name).collect();
        if got.len() != 1 {
            ctx.fail(format!("{} x {name} in a component", got.len()), format!("{}: {text:?}", x.name));
            return;
        }
        ctx.obs("UIDs and DTSTAMPs");
        let got = got[0];
        match want.props.get(name) {
            Some(w) => {
                if w.len() == 1 {
                    ctx.eq(&format!("{name} that was set"), &t_of_xprop(got), &w[0], text);
                    ctx.obs("kept");
                }
            }
            None if name == "UID" => {
                ctx.check(!got.val.is_empty() && got.params.is_empty(), "empty UID", || text.to_string());
                uids.push(got.val.clone());
            }
            None => match stamp(&got.val) {
                Some(t) => {
                    let ok = t >= s.before - Duration::seconds(1) && t <= s.after + Duration::seconds(1);
                    ctx.check(ok && got.params.is_empty(), "DTSTAMP is not the time of serialization", || {
                        format!("{t} is not in {} - {}: {text:?}", s.before, s.after)
                    });
                    ctx.obs("generated DTSTAMPs");
                }
                None => ctx.fail("DTSTAMP is not a UTC time", format!("{:?}", got.val)),
            },
        }
    }
    if x.comps.len() != want.comps.len() {
        return ctx.fail("children", format!("{} for {}: {text:?}", x.comps.len(), want.comps.len()));
    }
    for (x, w) in x.comps.iter().zip(&want.comps) {
        ids_of(ctx, x, w, s, uids, text);
    }
}

fn fresh(ctx: &mut Ctx, uids: Vec<String>) {
    let mut seen = UIDS.lock().unwrap();
    let seen = seen.get_or_insert_with(HashSet::new);
    for u in uids {
        ctx.obs("generated UIDs");
        if !seen.insert(u.clone()) {
            ctx.fail("a generated UID was used before", u);
            return;
        }
    }
}

fn read_tree(ctx: &mut Ctx, text: &str) -> Option<XComp> {
    match reader::tree(text, false) {
        Ok(mut t) if t.len() == 1 => t.pop(),
        Ok(t) => {
            ctx.fail("malformed output", format!("{} roots: {text:?}", t.len()));
            None
        }
        Err(e) => {
            ctx.fail("malformed output", format!("{e}: {text:?}"));
            None
        }
    }
}

/// one serialization of a component, judged
fn c16_judge(ctx: &mut Ctx, f: impl FnOnce() -> String, want: &[TComp], cal: bool) {
    let before = Utc::now();
    let text = f();
    let after = Utc::now();
    let Some(x) = read_tree(ctx, &text) else {
        return;
    };
    let s = Stamps::between(before, after);
    let mut uids = vec![];
    let roots: Vec<&XComp> = if cal { x.comps.iter().collect() } else { vec![&x] };
    if cal {
        for p in &x.props {
            ctx.check(p.name != "UID" && p.name != "DTSTAMP", "identification of a calendar", || text.clone());
        }
    }
    if roots.len() != want.len() {
        return ctx.fail("components", format!("{} for {}: {text:?}", roots.len(), want.len()));
    }
    for (x, w) in roots.into_iter().zip(want) {
        ids_of(ctx, x, w, &s, &mut uids, &text);
    }
    ctx.nontrivial(&text);
    fresh(ctx, uids);
    ctx.obs("serializations");
}

fn c16_dom(r: &mut Rng) -> Dom {
    Dom { max_ops: 10, depth: 3, ids: r.one_in(6), values: gen::DOC, ..DOM }
}

/// A UID or DTSTAMP with whatever value and parameters.
fn own_id(r: &mut Rng, name: &str) -> (Property, TProp) {
    let (mut p, mut t) = model::any_property(r, name, gen::DOC);
    if r.one_in(2) {
        t.val = if name == "UID" { gen::uid(r) } else { gen::utc_stamp(r) };
        let mut q = Property::new(name, &t.val);
        for x in p.params().values() {
            q.append_parameter(x.clone());
        }
        p = q;
    }
    if r.one_in(3) {
        let k = *r.pick(&["TZID", "LANGUAGE", "ALTREP", "VALUE", "RANGE", "X-VOBJ-ORIGINAL-TZID"]);
        let v = gen::typical_param(r, k).unwrap_or_else(|| "x".into());
        p.add_parameter(k, &v);
        t.params.insert(k.into(), v);
    }
    (p, t)
}

fn c16_component(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let d = c16_dom(&mut r);
    macro_rules! go {
        ($f:ident) => {{
            let (mut c, mut m) = model::$f(&mut r, &d, 0);
            // one of them set as any property may be
            if r.one_in(3) {
                let name = *r.pick(&["UID", "DTSTAMP"]);
                let (p, t) = own_id(&mut r, name);
                c.append_property(p);
                m.set(t, Typed::Raw);
                ctx.obs("identification set as properties");
            }
            let copy = c.clone();
            let want = [m.tree()];
            for i in 0..3 {
                let f = || match i {
                    0 => Component::to_string(&c),
                    1 => c.try_into_string().unwrap_or_default(),
                    _ => c.clone().try_into().unwrap_or_default(),
                };
                c16_judge(ctx, f, &want, false);
            }
            ctx.check(c == copy, "serialising modifies", || format!("{copy:?}\n{c:?}"));
            ctx.eq("get_uid after serialising", &c.get_uid(), &copy.get_uid(), "");
            ctx.eq("get_timestamp after serialising", &c.get_timestamp(), &copy.get_timestamp(), "");
        }};
    }
    match r.below(4) {
        0 => go!(event),
        1 => go!(todo),
        2 => go!(venue),
        _ => go!(alarm),
    }
}

fn c16_calendar(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let d = c16_dom(&mut r);
    let mut cal = Calendar::new();
    let mut want = vec![];
    for _ in 0..1 + r.below(5) {
        let (c, m) = model::component(&mut r, &d);
        cal.push(c);
        want.push(m.tree());
    }
    let before = format!("{:?}", cal.components);
    for _ in 0..2 {
        c16_judge(ctx, || cal.to_string(), &want, true);
    }
    ctx.eq("serialising modifies", &format!("{:?}", cal.components), &before, "");
}

/// parsed documents with and without them
fn c16_parsed(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    fn doc(r: &mut Rng, level: usize, out: &mut Vec<String>) -> TComp {
        let kind = *r.pick(&["VEVENT", "VTODO", "VVENUE", "VJOURNAL", "VALARM", "VTIMEZONE", "STANDARD", "X-FOO"]);
        let mut t = TComp { kind: kind.into(), props: BTreeMap::new(), comps: vec![] };
        out.push(format!("BEGIN:{kind}"));
        let mut lines = vec![];
        for name in ["UID", "DTSTAMP"] {
            if r.one_in(2) {
                let raw = match (name, r.below(6)) {
                    ("UID", 0) => String::new(),
                    ("UID", 1..=3) => gen::uid(r),
                    ("UID", 4) => gen::text(r, gen::DOC),
                    ("UID", _) => gen::ascii_word(r, 60),
                    (_, 0) => "20200101T000000".into(),
                    (_, 1) => gen::typical_value(r, name).unwrap_or_default(),
                    _ => gen::utc_stamp(r),
                };
                let mut param = String::new();
                let mut params = BTreeMap::new();
                if r.one_in(4) {
                    let k = *r.pick(&["X-A", "TZID", "LANGUAGE", "ALTREP", "VALUE", "RANGE", "X-VOBJ-ORIGINAL-TZID"]);
                    let v = gen::typical_param(r, k).unwrap_or_else(|| "b".into());
                    param = if v.contains([':', ';', ',']) { format!(";{k}=\"{v}\"") } else { format!(";{k}={v}") };
                    params.insert(k.to_string(), v);
                }
                lines.push(format!("{name}{param}:{raw}"));
                let text = is_text(name, params.get("VALUE").map(String::as_str));
                let val = if text { reader::decode_text(&raw) } else { raw };
                t.props.insert(name.into(), vec![TProp { name: name.into(), params, val }]);
            }
        }
        for _ in 0..r.below(4) {
            lines.push(format!("X-{}:{}", gen::ascii_word(r, 5).to_uppercase(), gen::ascii_word(r, 9)));
        }
        if r.one_in(5) {
            lines.push("RECURRENCE-ID:20200101T000000Z".into());
        }
        r.shuffle(&mut lines);
        out.extend(lines);
        if level < 3 {
            for _ in 0..r.below(3) {
                let c = doc(r, level + 1, out);
                t.comps.push(c);
            }
        }
        out.push(format!("END:{kind}"));
        t
    }
    let mut lines = vec!["BEGIN:VCALENDAR".to_string()];
    let mut want = vec![];
    for _ in 0..1 + r.below(3) {
        want.push(doc(&mut r, 0, &mut lines));
    }
    lines.push("END:VCALENDAR".into());
    let text = lines.join("\r\n");
    let cal: Calendar = match text.parse() {
        Ok(c) => c,
        Err(e) => return ctx.fail("parse", format!("{e}: {text:?}")),
    };
    c16_judge(ctx, || cal.to_string(), &want, true);
    for (c, w) in cal.components.iter().zip(&want) {
        let which = r.below(4);
        let before = Utc::now();
        let Some(t) = cc_text(ctx, which, c) else {
            return;
        };
        let after = Utc::now();
        let Some(x) = read_tree(ctx, &t) else { return };
        let mut uids = vec![];
        ids_of(ctx, &x, w, &Stamps::between(before, after), &mut uids, &t);
        fresh(ctx, uids);
    }
    ctx.obs("parsed documents");
}

/// many components without either, in one text
fn c16_scale(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let n = scale::size(ctx.case, 2, &mut r);
    let mut cal = Calendar::new();
    let mut want = vec![];
    let empty = |kind: &str| TComp { kind: kind.into(), props: BTreeMap::new(), comps: vec![] };
    if ctx.case % 2 == 0 {
        cal.extend((0..n).map(|_| Event::new()));
        want.extend((0..n).map(|_| empty("VEVENT")));
    } else {
        let mut t = Todo::new();
        for _ in 0..n {
            t.append_component(Event::new());
        }
        cal.push(t);
        want.push(TComp { comps: (0..n).map(|_| empty("VEVENT")).collect(), ..empty("VTODO") });
    }
    c16_judge(ctx, || cal.to_string(), &want, true);
    // large components that have them
    let (c, m, _, _) = scale::built(&mut r, ctx.case);
    c16_judge(ctx, || Calendar::from(c.clone()).to_string(), &[m.tree()], true);
    ctx.obs("large calendars");
}

/// one component, serialized by several threads at once
fn c16_threads(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let d = Dom { max_ops: 6, depth: 2, values: gen::DOC, ..DOM };
    let (c, m) = model::event(&mut r, &d, 0);
    let want = m.tree();
    let barrier = std::sync::Barrier::new(4);
    // the other threads have it too
    crate::clock::real();
    let before = Utc::now();
    let texts: Vec<String> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..4)
            .map(|_| {
                s.spawn(|| {
                    barrier.wait();
                    (0..25).map(|_| Component::to_string(&c)).collect::<Vec<_>>()
                })
            })
            .collect();
        hs.into_iter().flat_map(|h| h.join().unwrap_or_default()).collect()
    });
    let after = Utc::now();
    ctx.check(texts.len() == 100, "a thread died", || format!("{c:?}"));
    let s = Stamps::between(before, after);
    for t in &texts {
        let Some(x) = read_tree(ctx, t) else { return };
        let mut uids = vec![];
        ids_of(ctx, &x, &want, &s, &mut uids, t);
        fresh(ctx, uids);
        if ctx.failed() {
            return;
        }
        ctx.obs("concurrent serializations");
    }
}

/// what another process generates, see `c16_extra`
pub fn emit_ids(n: usize) {
    let mut out = String::new();
    let hs: Vec<_> = (0..2)
        .map(|_| {
            std::thread::spawn(move || {
                let mut out = String::new();
                for i in 0..n {
                    let e = Event::new();
                    let t = Todo::new();
                    let v = Venue::new();
                    out.push_str(&match i % 3 {
                        0 => Component::to_string(&e),
                        1 => Component::to_string(&t),
                        _ => Component::to_string(&v),
                    });
                }
                out
            })
        })
        .collect();
    for h in hs {
        out.push_str(&h.join().expect("thread"));
    }
    print!("{out}");
}

/// processes in different time zones: their UIDs differ, their DTSTAMPs are UTC
fn c16_extra(e: &mut Extra) {
    let zones = [
        "UTC",
        "XXX-14",
        "YYY12",
        "<+0545>-5:45",
        "America/New_York",
        "Asia/Kolkata",
        "",
        "bogus",
        "Pacific/Auckland",
        "EST5EDT,M3.2.0,M11.1.0",
    ];
    let rounds = if e.tier == Tier::Quick { 1 } else { 12 };
    let n = if e.tier == Tier::Quick { 500 } else { 3000 };
    let mut uids = HashSet::new();
    for round in 0..rounds {
        for tz in zones {
            let before = Utc::now();
            let out = std::process::Command::new(&e.exe).args(["ids", &n.to_string()]).env("TZ", tz).output();
            let after = Utc::now();
            let text = match out {
                Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).into_owned(),
                Ok(o) => {
                    e.fails.push(Fail {
                        section: "extra".into(),
                        case: round,
                        sig: "a process died".into(),
                        detail: format!("TZ={tz:?} {:?} {}", o.status, String::from_utf8_lossy(&o.stderr)),
                    });
                    return;
                }
                Err(err) => {
                    e.errors.push(format!("cannot start {}: {err}", e.exe.display()));
                    return;
                }
            };
            let mut fail = |sig: &str, detail: String| {
                e.fails.push(Fail { section: "extra".into(), case: round, sig: sig.into(), detail });
            };
            let tree = match reader::tree(&text, false) {
                Ok(t) => t,
                Err(err) => return fail("malformed output", err),
            };
            for c in &tree {
                for p in &c.props {
                    match p.name.as_str() {
                        "UID" => {
                            if !uids.insert(p.val.clone()) {
                                return fail("a generated UID was used before", format!("{} (TZ={tz:?})", p.val));
                            }
                        }
                        "DTSTAMP" => {
                            let ok = stamp(&p.val).is_some_and(|t| {
                                t >= before - Duration::seconds(1) && t <= after + Duration::seconds(1)
                            });
                            if !ok {
                                return fail(
                                    "DTSTAMP is not the time of serialization in UTC",
                                    format!("{} with TZ={tz:?} between {before} and {after}", p.val),
                                );
                            }
                        }
                        _ => {}
                    }
                }
            }
            e.evaluations += tree.len() as u64;
            *e.counters.entry("serializations in other processes".into()).or_insert(0) += tree.len() as u64;
        }
    }
    e.distinct += uids.len() as u64;
    e.notes.insert("time zones of the processes".into(), serde_json::json!(zones));
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        level: "exploration",
        rule: "A case is a component, calendar or parsed document serialized several times; an independent reader \
               finds exactly one UID and DTSTAMP at every level: the set ones, or a UID never seen before in the \
               run (all threads, all processes) and a UTC DTSTAMP inside a wall-clock bracket. Non-trivial: \
               distinct texts and UIDs.",
        sections: vec![
            sec("scale", 2 * scale::SIZES.len() as u64, 10 * scale::SIZES.len() as u64, c16_scale),
            sec("component", 72_000, 1_440_000, c16_component),
            sec("calendar", 36_000, 720_000, c16_calendar),
            sec("parsed", 72_000, 1_440_000, c16_parsed),
            sec("threads", 720, 14_400, c16_threads),
        ],
        require: vec![
            ("identification set as properties", 1000),
            ("large calendars", 60),
            ("cases under another clock", 60_000),
            ("generated UIDs", 30_000),
            ("generated DTSTAMPs", 20_000),
            ("kept", 10_000),
            ("parsed documents", 5_000),
            ("concurrent serializations", 5_000),
            ("serializations in other processes", 5_000),
        ],
        extra: Some(c16_extra),
        assumptions: vec![
            "the system clock is not stepped during a case that runs under the real one (one in four)",
            "uniqueness is observed within a run (all threads and processes of it), not proved",
        ],
    }
}

// -------------------------------------------------------------------------------------- C17

#[derive(Default)]
struct MCal {
    props: Vec<TProp>,
    comps: Vec<MComp>,
}

impl MCal {
    fn new() -> MCal {
        MCal { props: model::default_props(), comps: vec![] }
    }
    fn push(&mut self, name: &str, param: Option<(&str, &str)>, val: &str) {
        let params = param.iter().map(|(k, v)| ((*k).to_string(), (*v).to_string())).collect();
        self.props.push(TProp { name: name.into(), params, val: val.into() });
    }
    fn first(&self, name: &str) -> Option<&str> {
        self.props.iter().find(|p| p.name == name).map(|p| p.val.as_str())
    }
    fn first_of(&self, a: &str, b: &str) -> Option<&str> {
        self.first(a).or_else(|| self.first(b))
    }
}

/// the whole of a duration in one of the ways RFC 5545 allows
pub fn spell(r: &mut Rng, d: Duration) -> String {
    let secs = d.num_seconds();
    let n = secs.unsigned_abs();
    let sign = if secs < 0 {
        "-"
    } else if r.one_in(6) {
        "+"
    } else {
        ""
    };
    if n > 0 && n % 604_800 == 0 && r.one_in(2) {
        return format!("{sign}P{}W", n / 604_800);
    }
    // days of any number, then hours, minutes and seconds of any size that fits
    let days = if r.one_in(2) { n / 86400 } else { 0 };
    let rest = n - days * 86400;
    let hours = if r.one_in(2) || rest > 10_000_000 { rest / 3600 } else { 0 };
    let rest2 = rest - hours * 3600;
    let minutes = if hours > 0 || r.one_in(2) { rest2 / 60 } else { 0 };
    let seconds = rest2 - minutes * 60;
    let mut s = format!("{sign}P");
    if days > 0 {
        s.push_str(&format!("{days}D"));
    }
    if hours + minutes + seconds > 0 || days == 0 {
        s.push('T');
        let (h, sec) = (hours > 0, seconds > 0 || (hours == 0 && minutes == 0));
        if h {
            s.push_str(&format!("{hours}H"));
        }
        // RFC 5545: hours may be followed by minutes, minutes by seconds
        if minutes > 0 || (h && sec) {
            s.push_str(&format!("{minutes}M"));
        }
        if sec {
            s.push_str(&format!("{seconds}S"));
        }
    }
    s
}

/// what was put in the properties that denote a duration
type Ttl = BTreeMap<String, Vec<Duration>>;

fn c17_check(ctx: &mut Ctx, r: &mut Rng, cal: &Calendar, m: &MCal, ttl: &Ttl, at: &str) {
    let want = t_want(&m.comps);
    let mut bad = vec![];
    let got = t_cal(cal, &mut bad);
    ctx.check(bad.is_empty(), "map invariant", || bad.join("; "));
    ctx.eq(&format!("properties ({at})"), &got.props, &m.props, "");
    ctx.eq(&format!("len ({at})"), &cal.len(), &want.len(), "");
    ctx.eq(&format!("is_empty ({at})"), &cal.is_empty(), &want.is_empty(), "");
    if got.comps.len() != want.len() {
        return ctx.fail("number of components", format!("{} for {} ({at})", got.comps.len(), want.len()));
    }
    for (g, w) in got.comps.into_iter().zip(&want) {
        let mut g = g;
        if at != "built" {
            strip_auto(ctx, &mut g, w);
        }
        if !ctx.eq(&format!("component ({at})"), &g, w, "") {
            return;
        }
    }
    // all views show the same
    let slice: &[CalendarComponent] = cal.as_ref();
    ctx.check(slice == &cal.components[..] && &cal[..] == slice, "AsRef and Deref", || format!("{cal:?}"));
    ctx.check(cal.iter().zip(&cal.components).all(|(a, b)| std::ptr::eq(a, b)), "iter", || format!("{cal:?}"));
    let events = want.iter().filter(|w| w.kind == "VEVENT").count();
    ctx.eq("events", &cal.iter().filter_map(CalendarComponent::as_event).count(), &events, "");
    let todos = want.iter().filter(|w| w.kind == "VTODO").count();
    ctx.eq("todos", &cal.iter().filter_map(CalendarComponent::as_todo).count(), &todos, "");
    // getters
    ctx.eq(&format!("get_name ({at})"), &cal.get_name(), &m.first_of("NAME", "X-WR-CALNAME"), "");
    ctx.eq(&format!("get_description ({at})"), &cal.get_description(), &m.first_of("DESCRIPTION", "X-WR-CALDESC"), "");
    ctx.eq(&format!("get_timezone ({at})"), &cal.get_timezone(), &m.first_of("TIMEZONE-ID", "X-WR-TIMEZONE"), "");
    let want_ttl = ttl.get("REFRESH-INTERVAL").or_else(|| ttl.get("X-PUBLISHED-TTL")).and_then(|v| v.first()).copied();
    let got_ttl = cal.get_ttl();
    match want_ttl {
        Some(w) if w.num_seconds().unsigned_abs() >= 1 << 32 && got_ttl == Some(Duration::zero()) => {
            ctx.known("refresh-interval-of-2^32-seconds", format!("get_ttl is {got_ttl:?} for {w:?}"))
        }
        _ => {
            ctx.eq(
                &format!("get_ttl ({at})"),
                &got_ttl,
                &want_ttl,
                m.first_of("REFRESH-INTERVAL", "X-PUBLISHED-TTL").unwrap_or(""),
            );
        }
    }
    for p in m.props.iter().step_by(1 + m.props.len() / 60) {
        ctx.eq(&format!("property_value ({at})"), &cal.property_value(&p.name), &m.first(&p.name), &p.name);
    }
    let other = gen::prop_name(r);
    ctx.eq(&format!("property_value ({at})"), &cal.property_value(&other), &m.first(&other), &other);
    ctx.obs("calendars checked");
}

fn some_event(r: &mut Rng, d: &Dom) -> (Event, MComp) {
    model::event(r, d, 0)
}

#[allow(deprecated)]
fn c17_history(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let d = Dom { max_ops: 3, depth: 1, ids: true, ..DOM };
    let mut ttl: Ttl = BTreeMap::new();
    let (mut cal, mut m) = match r.below(8) {
        0 => (Calendar::empty(), MCal::default()),
        1 => (Calendar::default(), MCal::new()),
        2 => {
            let (c, x) = some_event(&mut r, &d);
            let mut m = MCal::new();
            m.comps.push(x);
            (Calendar::from(c), m)
        }
        3 => {
            let (a, b, c) = (some_event(&mut r, &d), some_event(&mut r, &d), some_event(&mut r, &d));
            let mut m = MCal::new();
            m.comps.extend([a.1, b.1, c.1]);
            (Calendar::from([a.0, b.0, c.0]), m)
        }
        4 => {
            let mut m = MCal::new();
            let n = r.below(5);
            let v: Vec<Todo> = (0..n)
                .map(|_| {
                    let (c, x) = model::todo(&mut r, &d, 0);
                    m.comps.push(x);
                    c
                })
                .collect();
            (v.into_iter().collect(), m)
        }
        5 => {
            let mut m = MCal::new();
            let n = r.below(5);
            let v: Vec<CalendarComponent> = (0..n)
                .map(|_| {
                    let (c, x) = model::component(&mut r, &d);
                    m.comps.push(x);
                    c
                })
                .collect();
            (Calendar::from_iter(v), m)
        }
        6 => {
            let (c, x) = model::component(&mut r, &d);
            let mut m = MCal::new();
            m.comps.push(x);
            (Calendar::from(c), m)
        }
        _ => (Calendar::new(), MCal::new()),
    };
    c17_check(ctx, &mut r, &cal, &m, &ttl, "built");
    for _ in 0..r.small(16) {
        ctx.obs("operations");
        match r.below(18) {
            0 => {
                let (c, x) = some_event(&mut r, &d);
                let again = if r.one_in(3) { Some((c.clone(), x.clone())) } else { None };
                cal.push(c);
                m.comps.push(x);
                if let Some((c, x)) = again {
                    // the same once more
                    match r.below(3) {
                        0 => {
                            cal.push(c);
                        }
                        1 => cal.extend([c]),
                        _ => cal.append(&mut Calendar::from(c)),
                    }
                    m.comps.push(x);
                    ctx.obs("equal neighbours");
                }
            }
            1 => {
                let (c, x) = model::todo(&mut r, &d, 0);
                cal.push(c);
                m.comps.push(x);
            }
            2 => {
                let (c, x) = model::venue(&mut r, &d, 0);
                cal.push(c);
                m.comps.push(x);
            }
            3 => {
                let (c, x) = model::component(&mut r, &d);
                cal.add(c);
                m.comps.push(x);
            }
            4 => {
                let n = r.below(4);
                let v: Vec<Event> = (0..n)
                    .map(|_| {
                        let (c, x) = some_event(&mut r, &d);
                        m.comps.push(x);
                        c
                    })
                    .collect();
                cal.extend(v);
            }
            5 => {
                let n = r.below(4);
                let v: Vec<CalendarComponent> = (0..n)
                    .map(|_| {
                        let (c, x) = model::component(&mut r, &d);
                        m.comps.push(x);
                        c
                    })
                    .collect();
                cal.extend(v);
            }
            6 => {
                // append takes the components and only them
                let (mut other, props, comps) = model::calendar(&mut r, &d);
                cal.append(&mut other);
                m.comps.extend(comps);
                let mut bad = vec![];
                ctx.eq("components left by append", &other.components.len(), &0, "");
                ctx.eq("properties left by append", &t_cal(&other, &mut bad).props, &props, "");
                ctx.obs("append");
            }
            7 => {
                let v = gen::text(&mut r, ANY);
                cal.name(&v);
                m.push("NAME", None, &v);
                m.push("X-WR-CALNAME", None, &v);
            }
            8 => {
                let v = gen::text(&mut r, ANY);
                cal.description(&v);
                m.push("DESCRIPTION", None, &v);
                m.push("X-WR-CALDESC", None, &v);
            }
            9 => {
                let v = if r.one_in(2) { model::tzid(&mut r) } else { gen::text(&mut r, ANY) };
                cal.timezone(&v);
                m.push("TIMEZONE-ID", None, &v);
                m.push("X-WR-TIMEZONE", None, &v);
            }
            10 | 11 => {
                let t =
                    if r.one_in(20) { Duration::seconds(r.range(1 << 32, 1 << 40)) } else { model::duration(&mut r) };
                // the form is not given: it has to be a duration of this length (see get_ttl)
                let before = cal.properties.len();
                cal.ttl(&t);
                let added: Vec<TProp> =
                    cal.properties[before.min(cal.properties.len())..].iter().map(|p| t_prop(p, &mut vec![])).collect();
                let mut names: Vec<&str> = added.iter().map(|p| p.name.as_str()).collect();
                names.sort_unstable();
                if !ctx.eq("ttl adds", &names, &vec!["REFRESH-INTERVAL", "X-PUBLISHED-TTL"], "") {
                    return;
                }
                for p in added {
                    if p.name == "REFRESH-INTERVAL" {
                        ctx.eq(
                            "VALUE of REFRESH-INTERVAL",
                            &p.params.get("VALUE").map(String::as_str),
                            &Some("DURATION"),
                            "",
                        );
                    }
                    ctx.eq("length written by ttl", &seconds_of(&p.val), &Some(t.num_seconds()), &p.val);
                    ttl.entry(p.name.clone()).or_default().push(t);
                    m.props.push(p);
                }
                ctx.obs("ttl");
            }
            12 => {
                let t = Duration::seconds(model::seconds(&mut r));
                let name = *r.pick(&["REFRESH-INTERVAL", "X-PUBLISHED-TTL"]);
                let v = spell(&mut r, t);
                cal.append_property((name, v.as_str()));
                m.push(name, None, &v);
                ttl.entry(name.into()).or_default().push(t);
            }
            13 | 14 => {
                let name = if r.one_in(2) {
                    (*r.pick(&[
                        "NAME",
                        "X-WR-CALNAME",
                        "DESCRIPTION",
                        "X-WR-CALDESC",
                        "TIMEZONE-ID",
                        "X-WR-TIMEZONE",
                        "METHOD",
                        "VERSION",
                    ]))
                    .to_string()
                } else {
                    gen::prop_name(&mut r)
                };
                if name == "REFRESH-INTERVAL" || name == "X-PUBLISHED-TTL" {
                    continue;
                }
                let (p, t) = model::any_property(&mut r, &name, ANY);
                cal.append_property(p);
                m.props.push(t);
            }
            15 => {
                let taken = cal.done();
                ctx.obs("done");
                let (p, c) = (cal.properties.len(), cal.components.len());
                ctx.eq("left by done", &(p, c), &(0, 0), "");
                c17_check(ctx, &mut r, &cal, &MCal::default(), &BTreeMap::new(), "built");
                if r.one_in(3) {
                    c17_check(ctx, &mut r, &taken, &m, &ttl, "built");
                    m = MCal::default();
                    ttl.clear();
                } else {
                    cal = taken;
                }
            }
            16 => {
                let mut empty = Calendar::new();
                empty.append(&mut cal);
                ctx.eq("components left by append", &cal.components.len(), &0, "");
                let (got, want) = (empty.components.len(), m.comps.len());
                ctx.eq("components moved by append", &got, &want, "");
                cal.components = empty.components;
            }
            _ => {
                let v: [Event; 0] = [];
                cal.extend(v);
            }
        }
        c17_check(ctx, &mut r, &cal, &m, &ttl, "built");
        if ctx.failed() {
            return;
        }
    }
    let Some(text) = cal_text(ctx, &mut r, &cal) else {
        return;
    };
    ctx.nontrivial(&text);
    ctx.sample(|| clip(&text, 500));
    // an independent reader sees the same
    let Some(x) = read_tree(ctx, &text) else {
        return;
    };
    ctx.eq("written properties", &x.props.iter().map(t_of_xprop).collect::<Vec<_>>(), &m.props, &text);
    ctx.eq("written components", &x.comps.iter().map(t_of_x).collect::<Vec<_>>(), &t_want(&m.comps), &text);
    let Some(back) = read_cal(ctx, &mut r, &text) else {
        return;
    };
    c17_check(ctx, &mut r, &back, &m, &ttl, "parsed");
    ctx.obs("histories read back");
}

/// very many components or properties, in one call and in many
fn c17_many(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    const WAYS: u64 = 9;
    let n = scale::size(ctx.case, WAYS as usize, &mut r);
    let ttl: Ttl = BTreeMap::new();
    let (mut cal, mut m) = (Calendar::new(), MCal::new());
    for i in 0..r.below(4) {
        let (c, x) = scale::small(1000 + i);
        cal.push(c);
        m.comps.push(x);
    }
    // runs of equal components
    let run = 1 + r.below(3);
    let comps = |m: &mut MCal| -> Vec<CalendarComponent> {
        (0..n)
            .map(|i| {
                let (c, x) = scale::small(i / run);
                m.comps.push(x);
                c.into()
            })
            .collect()
    };
    match ctx.case % WAYS {
        0 => {
            for c in comps(&mut m) {
                cal.push(c);
            }
        }
        1 => cal.extend(comps(&mut m)),
        // an iterator that does not know how many there are
        2 => cal.extend(comps(&mut m).into_iter().filter(|c| c.as_event().is_some())),
        3 => {
            let mut other = Calendar::new();
            other.components = comps(&mut m);
            cal.append(&mut other);
            ctx.eq("components left by append", &other.components.len(), &0, "");
        }
        4 => {
            m = MCal::new();
            cal = comps(&mut m).into_iter().collect();
        }
        5 => {
            m = MCal::new();
            cal = comps(&mut m).into_iter().filter(|c| c.as_event().is_some()).collect();
        }
        6 => {
            for i in 0..n {
                let (name, v) = (format!("X-{}", i / 2), format!("{}", i / run));
                cal.append_property((name.as_str(), v.as_str()));
                m.push(&name, None, &v);
            }
        }
        7 => {
            for i in 0..n / 4 {
                let v = format!("{}", i / run);
                cal.name(&v);
                m.push("NAME", None, &v);
                m.push("X-WR-CALNAME", None, &v);
            }
            let v = scale::long_text(&mut r, n);
            cal.description(&v);
            m.push("DESCRIPTION", None, &v);
            m.push("X-WR-CALDESC", None, &v);
        }
        _ => {
            let mut all = comps(&mut m);
            while !all.is_empty() {
                let rest = all.split_off(all.len().min(1 + r.below(1 + n / 3)));
                match r.below(3) {
                    0 => cal.extend(all),
                    1 => cal.append(&mut Calendar::from_iter(all)),
                    _ => {
                        for c in all {
                            cal.push(c);
                        }
                    }
                }
                all = rest;
            }
        }
    }
    c17_check(ctx, &mut r, &cal, &m, &ttl, "built");
    if r.one_in(2) {
        let taken = cal.done();
        c17_check(ctx, &mut r, &cal, &MCal::default(), &ttl, "built");
        cal = taken;
    }
    let text = cal.to_string();
    ctx.nontrivial(&text);
    let Some(back) = read_cal(ctx, &mut r, &text) else {
        return;
    };
    c17_check(ctx, &mut r, &back, &m, &ttl, "parsed");
    ctx.obs("large calendars");
}

/// The length of an RFC 5545 duration, in seconds.
pub fn seconds_of(s: &str) -> Option<i64> {
    let (neg, s) = match s.strip_prefix('-') {
        Some(s) => (true, s),
        None => (false, s.strip_prefix('+').unwrap_or(s)),
    };
    let s = s.strip_prefix('P')?;
    let (date, time) = match s.split_once('T') {
        Some((d, t)) => (d, Some(t)),
        None => (s, None),
    };
    let mut total: i64 = 0;
    let mut eat = |mut s: &str, units: &[(char, i64)]| -> Option<usize> {
        let mut units = units.iter();
        let mut n = 0;
        while !s.is_empty() {
            let e = s.find(|c: char| !c.is_ascii_digit())?;
            let v: i64 = s[..e].parse().ok()?;
            let u = s[e..].chars().next()?;
            let (_, f) = units.find(|(c, _)| *c == u)?;
            total = total.checked_add(v.checked_mul(*f)?)?;
            s = &s[e + u.len_utf8()..];
            n += 1;
        }
        Some(n)
    };
    let n = eat(date, &[('W', 604_800), ('D', 86400)])?;
    let k = match time {
        Some(t) => eat(t, &[('H', 3600), ('M', 60), ('S', 1)])?,
        None => 0,
    };
    if n + k == 0 {
        return None;
    }
    Some(if neg { -total } else { total })
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        level: "exploration",
        rule: "A case is one history of container operations on a calendar, checked against a sequential model \
               after every step through every view (fields, Deref, AsRef, iter, getters), then written, read by an \
               independent reader and by the library and checked again. Non-trivial: distinct texts.",
        sections: vec![
            sec("many", 9 * scale::SIZES.len() as u64, 45 * scale::SIZES.len() as u64, c17_many),
            sec("history", 240_000, 4_800_000, c17_history),
        ],
        require: vec![
            ("equal neighbours", 1_000),
            ("large calendars", 300),
            ("operations", 50_000),
            ("calendars checked", 60_000),
            ("append", 2_000),
            ("done", 2_000),
            ("ttl", 2_000),
            ("histories read back", 10_000),
        ],
        extra: None,
        assumptions: vec!["refresh intervals are whole seconds"],
    }
}

// -------------------------------------------------------------------------------------- C19

fn c19_property(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let name = gen::prop_name(&mut r);
    let (mut p, mut t) = model::any_property(&mut r, &name, ANY);
    if r.one_in(3) {
        let n = 20 + r.below(400);
        let text = is_text(&name, t.params.get("VALUE").map(String::as_str));
        let v = gen::text_len(&mut r, gen::Alphabet { lf: text, cr: text, ..ANY }, n);
        p = Property::new(&name, &v);
        for (k, v) in &t.params {
            p.add_parameter(k, v);
        }
        t.val = v;
    }
    let Some(text) = prop_string(ctx, &p) else {
        return;
    };
    ctx.nontrivial(&text);
    ctx.sample(|| clip(&text, 300));
    if text.contains("\r\n ") {
        ctx.obs("folded properties");
    }
    if !ctx.check(text.ends_with("\r\n"), "no final line break", || text.clone()) {
        return;
    }
    let bare = &text[..text.len() - 2];
    let lf = format!("{bare}\n");
    for (label, s) in [("CRLF", text.as_str()), ("no line break", bare), ("LF", lf.as_str())] {
        if label == "LF" && bare.ends_with('\r') {
            // the end of the value would be taken for a part of the line break
            continue;
        }
        match Property::from_str(s) {
            Ok(q) => {
                let mut bad = vec![];
                ctx.eq(&format!("property ({label})"), &t_prop(&q, &mut bad), &t, s);
                ctx.check(bad.is_empty(), "map invariant", || bad.join("; "));
                ctx.check(q == p, &format!("unequal property ({label})"), || format!("{q:?}\n{p:?}\n{s:?}"));
            }
            Err(e) => return ctx.fail(format!("Property::from_str ({label})"), format!("{e}: {s:?}")),
        }
        ctx.obs("properties read back");
    }
    // inside of a calendar
    let mut cal = Calendar::empty();
    cal.append_property(p.clone());
    let mut e = Event::new();
    e.uid("u").append_property(p.clone());
    cal.push(e);
    let whole = cal.to_string();
    let Some(back) = read_cal(ctx, &mut r, &whole) else {
        return;
    };
    ctx.check(back.properties == vec![p.clone()], "in a calendar", || {
        format!("{:?}\n{p:?}\n{whole:?}", back.properties)
    });
    let found = back.components.iter().filter_map(|c| c.as_event()).any(|e| {
        e.properties().get(&name) == Some(&p)
            || e.multi_properties().get(&name).map(|v| v.as_slice()) == Some(&[p.clone()][..])
    });
    ctx.check(found, "in an event", || format!("{p:?}\n{whole:?}"));
}

fn c19_component(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let by_table = r.one_in(2);
    let d = Dom { ids: true, by_table, depth: 3, max_ops: *r.pick(&[3, 14, 30]), ..DOM };
    let (c, m) = model::component(&mut r, &d);
    c19_one(ctx, r, c, &m, by_table);
}

/// large in one direction
fn c19_scale(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let (c, m, _, _) = scale::built(&mut r, ctx.case);
    c19_one(ctx, r, c, &m, true);
    ctx.obs("large components");
}

fn c19_one(ctx: &mut Ctx, mut r: Rng, c: CalendarComponent, m: &MComp, by_table: bool) {
    let which = r.below(4);
    let Some(text) = cc_text(ctx, which, &c) else {
        return;
    };
    ctx.nontrivial(&text);
    ctx.sample(|| clip(&text, 300));
    ctx.obs_n("folded lines", text.matches("\r\n ").count() as u64);
    let want = m.tree();
    let mut one = vec![];
    for s in [text.as_str(), text.trim_end_matches("\r\n")] {
        match s.parse::<CalendarComponent>() {
            Ok(back) => {
                let mut bad = vec![];
                ctx.eq("component", &t_cc(&back, &mut bad), &want, s);
                ctx.check(bad.is_empty(), "map invariant", || bad.join("; "));
                if by_table {
                    ctx.check(back == c, "unequal component", || format!("{back:?}\n{c:?}\n{s:?}"));
                }
                one.push(back);
            }
            Err(e) => return ctx.fail("CalendarComponent::from_str", format!("{e}: {s:?}")),
        }
        ctx.obs("components read back");
    }
    // the same as inside of a calendar, or parsed by hand
    let cal = Calendar::from(c.clone());
    let whole = cal.to_string();
    let Some(back) = read_cal(ctx, &mut r, &whole) else {
        return;
    };
    ctx.check(back.components == one[..1], "in a calendar", || {
        format!("{:?}\n{:?}\n{whole:?}", back.components, one[0])
    });
    let unfolded = parser::unfold(&text);
    match parser::Component::try_from(unfolded.as_str()) {
        Ok(p) => {
            let cc = CalendarComponent::from(p);
            ctx.check(cc == one[0], "parser::Component", || format!("{cc:?}\n{:?}\n{text:?}", one[0]));
        }
        Err(e) => ctx.fail("parser::Component::try_from", format!("{e}: {text:?}")),
    }
    ctx.check(one[0] == one[1], "final line break", || text.clone());
    // every property on its own
    fn each<C: Component>(ctx: &mut Ctx, c: &C) {
        for p in c.properties().values().chain(c.multi_properties().values().flatten()) {
            let Some(s) = prop_string(ctx, p) else { return };
            match s.parse::<Property>() {
                Ok(q) => {
                    ctx.check(q == *p, "property on its own", || format!("{q:?}\n{p:?}\n{s:?}"));
                }
                Err(e) => return ctx.fail("Property::from_str", format!("{e}: {s:?}")),
            }
        }
    }
    match &one[0] {
        CalendarComponent::Event(e) => each(ctx, e),
        CalendarComponent::Todo(e) => each(ctx, e),
        CalendarComponent::Venue(e) => each(ctx, e),
        _ => {}
    }
}

/// one property whose line has every length around one, two and three folds
fn c19_lengths(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let len = (ctx.case % 240) as usize;
    let name = *r.pick(&["SUMMARY", "X-FOO", "URL", "ATTENDEE", "RRULE", "CATEGORIES"]);
    let text = is_text(name, None);
    let mut v = gen::text_len(&mut r, gen::Alphabet { lf: text, cr: text, ..ANY }, len);
    if r.one_in(3) {
        v = "x".repeat(len);
    }
    let p = Property::new(name, &v);
    let Some(s) = prop_string(ctx, &p) else {
        return;
    };
    ctx.nontrivial(&s);
    for s in [s.as_str(), s.trim_end_matches("\r\n")] {
        match s.parse::<Property>() {
            Ok(q) => {
                ctx.check(q == p, "unequal property", || format!("{q:?}\n{p:?}\n{s:?}"));
            }
            Err(e) => return ctx.fail("Property::from_str", format!("{e}: {s:?}")),
        }
    }
    let mut e = Event::new();
    e.uid("u").timestamp(Utc.timestamp_opt(0, 0).unwrap());
    if model::is_repeatable(name) {
        e.append_multi_property(p);
    } else {
        e.append_property(p);
    }
    let t = Component::to_string(&e);
    match t.parse::<CalendarComponent>() {
        Ok(CalendarComponent::Event(b)) => {
            ctx.check(b == e, "unequal component", || format!("{b:?}\n{e:?}\n{t:?}"));
        }
        other => ctx.fail("CalendarComponent::from_str", format!("{other:?}: {t:?}")),
    }
    ctx.obs("line lengths");
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        level: "exploration",
        rule: "A case is one generated property or component, written, parsed on its own (with CRLF, LF or no \
               final line break, by every parser there is for it), compared with itself, and with what the same \
               item gives inside of a whole calendar. Non-trivial: distinct texts.",
        sections: vec![
            sec("scale", scale::BUILD_SWEEP, 4 * scale::BUILD_SWEEP, c19_scale),
            sec("property", 600_000, 12_000_000, c19_property),
            sec("component", 225_000, 4_500_000, c19_component),
            sec("lengths", 180_000, 3_600_000, c19_lengths),
        ],
        require: vec![
            ("large components", 300),
            ("folded properties", 3_000),
            ("properties read back", 30_000),
            ("components read back", 10_000),
            ("folded lines", 5_000),
            ("line lengths", 5_000),
        ],
        extra: None,
        assumptions: vec!["the domain of C02; components carry UID and DTSTAMP"],
    }
}
