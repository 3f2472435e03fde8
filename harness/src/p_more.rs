//! C23 (sinks), C25 (equality and clones), C26 (places of errors).

use crate::conv::*;
use crate::gen::{self, ANY};
use crate::model::{self, Dom, DOM};
use crate::p_build::{build, build_cal, plan, plan_prop};
use crate::p_parse::{any_doc, any_layout, fault_doc, faults_at, join};
use crate::reader::{structure, Structure, XComp, XParam, XProp};
use crate::rng::Rng;
use crate::rt::*;
use crate::scale;
use icalendar::parser;
use icalendar::*;
use std::convert::TryFrom;
use std::fmt::{self, Write};
use std::panic::{catch_unwind, resume_unwind, AssertUnwindSafe};

// -------------------------------------------------------------------------------------- C23

#[derive(Clone, Copy, Debug)]
enum Limit {
    Never,
    /// not more than this many bytes
    Bytes(usize),
    /// this write and all after it fail
    Call(usize),
    /// only this write fails
    Once(usize),
    /// this write panics
    Panic(usize),
}

struct Marker;

struct Sink<'a> {
    limit: Limit,
    partial: bool,
    got: String,
    calls: usize,
    failed: bool,
    inside: Option<&'a mut dyn FnMut()>,
}

impl<'a> Sink<'a> {
    fn new(limit: Limit) -> Sink<'a> {
        Sink { limit, partial: false, got: String::new(), calls: 0, failed: false, inside: None }
    }
}

impl Write for Sink<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        self.calls += 1;
        if let Some(f) = &mut self.inside {
            f();
        }
        match self.limit {
            Limit::Bytes(n) if self.got.len() + s.len() > n => {
                if self.partial && !self.failed {
                    let mut k = n - self.got.len();
                    while !s.is_char_boundary(k) {
                        k -= 1;
                    }
                    self.got.push_str(&s[..k]);
                }
                self.failed = true;
            }
            Limit::Call(n) if self.calls > n => self.failed = true,
            Limit::Once(n) if self.calls == n + 1 => {
                self.failed = true;
                return Err(fmt::Error);
            }
            Limit::Panic(n) if self.calls > n => {
                self.failed = true;
                // no panic hook
                resume_unwind(Box::new(Marker))
            }
            _ => {}
        }
        if self.failed && !matches!(self.limit, Limit::Once(_)) {
            return Err(fmt::Error);
        }
        self.got.push_str(s);
        Ok(())
    }
}

enum Item<'a> {
    Cal(Calendar),
    Comp(CalendarComponent),
    Alarm(Alarm),
    Tree(parser::Calendar<'a>),
    Prop(parser::Property<'a>),
}

impl Item<'_> {
    fn write(&self, s: &mut Sink) -> fmt::Result {
        match self {
            Item::Cal(c) => write!(s, "{c}"),
            Item::Comp(CalendarComponent::Event(c)) => c.fmt_write(s),
            Item::Comp(CalendarComponent::Todo(c)) => c.fmt_write(s),
            Item::Comp(CalendarComponent::Venue(c)) => c.fmt_write(s),
            Item::Comp(CalendarComponent::Other(c)) => c.fmt_write(s),
            Item::Comp(c) => panic!("harness: {c:?}"),
            Item::Alarm(c) => c.fmt_write(s),
            Item::Tree(c) => write!(s, "{c}"),
            Item::Prop(p) => write!(s, "{p}"),
        }
    }
    fn text(&self) -> String {
        match self {
            Item::Cal(c) => ToString::to_string(c),
            Item::Comp(CalendarComponent::Event(c)) => Component::to_string(c),
            Item::Comp(CalendarComponent::Todo(c)) => Component::to_string(c),
            Item::Comp(CalendarComponent::Venue(c)) => Component::to_string(c),
            Item::Comp(CalendarComponent::Other(c)) => Component::to_string(c),
            Item::Comp(c) => panic!("harness: {c:?}"),
            Item::Alarm(c) => Component::to_string(c),
            Item::Tree(c) => ToString::to_string(c),
            Item::Prop(p) => ToString::to_string(p),
        }
    }
    fn kind(&self) -> &'static str {
        match self {
            Item::Cal(_) => "calendars",
            Item::Comp(_) => "components",
            Item::Alarm(_) => "alarms",
            Item::Tree(_) => "parsed calendars",
            Item::Prop(_) => "parsed properties",
        }
    }
}

fn sink_dom(r: &mut Rng) -> Dom {
    Dom { ids: true, max_ops: *r.pick(&[2, 5, 12]), ..DOM }
}

fn source(r: &mut Rng) -> String {
    let doc = any_doc(r);
    gen::lines_of(&doc).join("\n")
}

fn item<'a>(r: &mut Rng, src: &'a str) -> Item<'a> {
    let d = sink_dom(r);
    match r.below(6) {
        0 => Item::Cal(model::calendar(r, &d).0),
        1 | 2 => Item::Comp(model::component(r, &d).0),
        3 => Item::Alarm(model::alarm(r, &d, 0).0),
        n => {
            let tree =
                parser::read_calendar(src).unwrap_or(parser::Calendar { properties: vec![], components: vec![] });
            if n == 4 {
                if let Some(p) = tree.components.first().and_then(|c| c.properties.first()) {
                    return Item::Prop(p.clone());
                }
            }
            Item::Tree(tree)
        }
    }
}

/// one write into a sink that may fail; true if it did
fn into_sink(ctx: &mut Ctx, it: &Item, limit: Limit, partial: bool, full: &str) -> bool {
    let mut s = Sink { partial, ..Sink::new(limit) };
    let res = it.write(&mut s);
    ctx.obs("writes into a sink");
    ctx.obs(it.kind());
    let input =
        || format!("{limit:?} partial {partial}\n  text: {:?}\n  got: {:?}", clip(full, 2000), clip(&s.got, 2000));
    if s.failed {
        ctx.obs("failing writes");
        ctx.check(res.is_err(), "an error of the sink is not reported", input);
        ctx.check(
            full.starts_with(&s.got),
            "a sink that failed has got something else than the beginning of the text",
            input,
        );
    } else {
        ctx.check(res.is_ok(), "an error although the sink accepted everything", input);
        ctx.check(s.got == full, "a sink gets another text", input);
    }
    s.failed
}

fn still(ctx: &mut Ctx, it: &Item, full: &str, after: &str) -> bool {
    let now = it.text();
    ctx.obs("texts after a failed write");
    ctx.check(now == full, "another text after a failed write", || {
        format!("after {after}\n  before: {:?}\n  now: {:?}", clip(full, 2000), clip(&now, 2000))
    })
}

/// every byte and every call at which the sink can fail
fn c23_points(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let src = source(&mut r);
    let it = item(&mut r, &src);
    let full = it.text();
    let mut probe = Sink::new(Limit::Never);
    let ok = it.write(&mut probe).is_ok();
    if !ctx.check(ok && probe.got == full, "a sink gets another text", || format!("{:?}", clip(&full, 2000))) {
        return;
    }
    ctx.sample(|| clip(&full, 400));
    ctx.nontrivial(&full);
    let (calls, n) = (probe.calls, full.len());
    let step = 1 + n / 700;
    let start = r.below(step);
    for k in (start..=n).step_by(step) {
        into_sink(ctx, &it, Limit::Bytes(k), k % 2 == 0, &full);
        if k % 16 == 0 {
            still(ctx, &it, &full, &format!("byte {k}"));
        }
        if ctx.failed() {
            return;
        }
    }
    let step = 1 + calls / 300;
    let start = r.below(step);
    for k in (start..=calls).step_by(step) {
        into_sink(ctx, &it, Limit::Call(k), false, &full);
        into_sink(ctx, &it, Limit::Once(k), false, &full);
        still(ctx, &it, &full, &format!("call {k}"));
        if ctx.failed() {
            return;
        }
    }
}

/// sinks that fail far into a text that is large in one direction
fn c23_scale(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let src;
    let it = if ctx.case % 3 == 0 {
        let (doc, _, _) = scale::of_case(&mut r, ctx.case / 3);
        src = gen::lines_of(&doc).join("\n");
        match parser::read_calendar(&src) {
            Ok(tree) => Item::Tree(tree),
            Err(e) => return ctx.fail("read_calendar", e),
        }
    } else {
        let (c, _, _, _) = scale::built(&mut r, ctx.case / 3 * 2 + ctx.case % 3 - 1);
        if r.one_in(2) {
            Item::Comp(c)
        } else {
            Item::Cal(icalendar::Calendar::from(c))
        }
    };
    let full = it.text();
    let mut probe = Sink::new(Limit::Never);
    let ok = it.write(&mut probe).is_ok();
    if !ctx.check(ok && probe.got == full, "a sink gets another text", || format!("{:?}", clip(&full, 2000))) {
        return;
    }
    ctx.nontrivial(&full);
    let (calls, n) = (probe.calls, full.len());
    for k in [n - 1, n.saturating_sub(2), n.saturating_sub(20), n * 3 / 4, n / 2, r.below(n), r.below(n)] {
        into_sink(ctx, &it, Limit::Bytes(k), r.one_in(2), &full);
        if ctx.failed() {
            return;
        }
    }
    for k in [calls - 1, calls.saturating_sub(2), calls.saturating_sub(9), calls / 2, r.below(calls)] {
        into_sink(ctx, &it, Limit::Call(k), false, &full);
        into_sink(ctx, &it, Limit::Once(k), false, &full);
        if ctx.failed() {
            return;
        }
    }
    still(ctx, &it, &full, "failures near the end");
    ctx.obs("large texts");
}

/// many items, a few failures each, something else written right after a failure
fn c23_random(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let (src, src2) = (source(&mut r), source(&mut r));
    let (a, b) = (item(&mut r, &src), item(&mut r, &src2));
    let (fa, fb) = (a.text(), b.text());
    ctx.nontrivial(&fa);
    for _ in 0..6 {
        let limit = match r.below(3) {
            0 => Limit::Bytes(r.below(fa.len() + 2)),
            1 => Limit::Call(r.below(12)),
            _ => Limit::Once(r.below(12)),
        };
        let partial = r.one_in(2);
        if into_sink(ctx, &a, limit, partial, &fa) {
            still(ctx, &b, &fb, &format!("{limit:?} of another item"));
            still(ctx, &a, &fa, &format!("{limit:?}"));
        }
        if ctx.failed() {
            return;
        }
    }
}

/// sinks that use the library while they are written to
fn c23_inside(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let (src, src2) = (source(&mut r), source(&mut r));
    let (a, b) = (item(&mut r, &src), item(&mut r, &src2));
    let (fa, fb) = (a.text(), b.text());
    let parsed = parser::read_components(&src2).map(|c| x_comps(&c));
    ctx.nontrivial(&fa);
    let (mut n, mut bad) = (0u64, None);
    let res = catch_unwind(AssertUnwindSafe(|| {
        let mut f = || {
            n += 1;
            if n > 40 {
                return;
            }
            let t = b.text();
            if t != fb {
                bad = Some(("an item written from inside of a sink", t));
            }
            if parser::read_components(&src2).map(|c| x_comps(&c)) != parsed {
                bad = Some(("a document read from inside of a sink", String::new()));
            }
        };
        let mut s = Sink::new(Limit::Never);
        s.inside = Some(&mut f);
        let res = a.write(&mut s);
        (res, s.got)
    }));
    ctx.obs("reentrant writes");
    ctx.obs_n("calls from inside of a sink", n.min(40));
    let (res, got) = match res {
        Ok(x) => x,
        Err(_) => {
            ctx.fail(
                "panic in a write from inside of a sink",
                format!("{:?} in {:?}", clip(&fb, 2000), clip(&fa, 2000)),
            );
            return;
        }
    };
    if let Some((what, t)) = bad {
        ctx.fail(what, format!("{what}: {:?} instead of {:?}", clip(&t, 2000), clip(&fb, 2000)));
    }
    ctx.check(res.is_ok() && got == fa, "the outer text", || {
        format!("{:?} instead of {:?}", clip(&got, 2000), clip(&fa, 2000))
    });
}

/// sinks that panic
fn c23_panic(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let (src, src2) = (source(&mut r), source(&mut r));
    let (a, b) = (item(&mut r, &src), item(&mut r, &src2));
    let (fa, fb) = (a.text(), b.text());
    ctx.nontrivial(&fa);
    for k in 0..8 {
        let mut s = Sink::new(Limit::Panic(k));
        match catch_unwind(AssertUnwindSafe(|| a.write(&mut s))) {
            Err(e) if e.is::<Marker>() => {
                ctx.obs("panicking sinks");
                ctx.check(
                    fa.starts_with(&s.got),
                    "a sink that panicked has got something else than the beginning",
                    || format!("{:?} of {:?}", s.got, clip(&fa, 2000)),
                );
                still(ctx, &b, &fb, "a panic in a sink");
                still(ctx, &a, &fa, "a panic in a sink");
            }
            Err(_) => ctx.fail("panic", format!("a panic of the library, writing {:?}", clip(&fa, 2000))),
            Ok(res) => {
                ctx.check(res.is_ok() && s.got == fa, "a sink gets another text", || format!("{:?}", clip(&fa, 2000)));
                break;
            }
        }
        if ctx.failed() {
            return;
        }
    }
}

pub fn c23() -> Prop {
    Prop {
        id: "C23",
        level: "fault_enumeration",
        rule:
            "A case is an item (calendar, component, alarm, parsed calendar, parsed property) written into sinks that \
               fail: after every byte, at every call, once or for good, with a panic, or that call the library \
               themselves. Judged: the error comes back, what the sink got is a beginning of the text, what is written \
               afterwards is complete. Non-trivial: distinct texts.",
        sections: vec![
            sec("points", 2_000, 60_000, c23_points),
            sec("scale", 800, 8_000, c23_scale),
            sec("random", 30_000, 900_000, c23_random),
            sec("inside", 10_000, 300_000, c23_inside),
            sec("panic", 10_000, 300_000, c23_panic),
        ],
        require: vec![
            ("failing writes", 200_000),
            ("large texts", 700),
            ("texts after a failed write", 20_000),
            ("reentrant writes", 1_000),
            ("calls from inside of a sink", 10_000),
            ("panicking sinks", 5_000),
            ("calendars", 1_000),
            ("components", 1_000),
            ("alarms", 1_000),
            ("parsed calendars", 1_000),
            ("parsed properties", 1_000),
        ],
        extra: None,
        assumptions: vec!["the items carry UID and DTSTAMP, so that their text is the same each time"],
    }
}

// -------------------------------------------------------------------------------------- C25

/// what == is about: the maps as they are
#[derive(Clone, Debug, PartialEq)]
struct Shape {
    kind: String,
    single: Vec<(String, TProp)>,
    multi: Vec<(String, Vec<TProp>)>,
    comps: Vec<Shape>,
}

fn shape<C: Component>(c: &C) -> Shape {
    let mut bad = vec![];
    Shape {
        kind: c.component_kind(),
        single: c.properties().iter().map(|(k, p)| (k.clone(), t_prop(p, &mut bad))).collect(),
        multi: c
            .multi_properties()
            .iter()
            .map(|(k, ps)| (k.clone(), ps.iter().map(|p| t_prop(p, &mut bad)).collect()))
            .collect(),
        comps: c.components().iter().map(shape).collect(),
    }
}

fn shape_cc(c: &CalendarComponent) -> (u8, Shape) {
    match c {
        CalendarComponent::Event(c) => (0, shape(c)),
        CalendarComponent::Todo(c) => (1, shape(c)),
        CalendarComponent::Venue(c) => (2, shape(c)),
        CalendarComponent::Other(c) => (3, shape(c)),
        _ => (4, Shape { kind: String::new(), single: vec![], multi: vec![], comps: vec![] }),
    }
}

fn shape_cal(c: &Calendar) -> (Vec<TProp>, Vec<(u8, Shape)>) {
    let mut bad = vec![];
    (c.properties.iter().map(|p| t_prop(p, &mut bad)).collect(), c.components.iter().map(shape_cc).collect())
}

/// == and != in both directions against what it should be
fn equality<T: PartialEq + fmt::Debug>(ctx: &mut Ctx, what: &'static str, a: &T, b: &T, want: bool) {
    ctx.obs(if want { "equal pairs" } else { "different pairs" });
    ctx.obs(what);
    #[allow(clippy::nonminimal_bool)]
    let got = [a == b, b == a, !(a != b), !(b != a)];
    if got != [want; 4] {
        ctx.fail(
            format!("{what}: {}", if want { "equal ones compare unequal" } else { "different ones compare equal" }),
            format!(
                "== and != say {got:?}\n  a: {}\n  b: {}",
                clip(&format!("{a:?}"), 3000),
                clip(&format!("{b:?}"), 3000)
            ),
        );
    }
    #[allow(clippy::eq_op)]
    let own = a == a && b == b;
    ctx.check(own, "an item is not equal to itself", || clip(&format!("{a:?} {b:?}"), 3000));
}

/// A string that is almost the same.
fn near(r: &mut Rng, s: &str) -> String {
    let mut cs: Vec<char> = s.chars().collect();
    match r.below(9) {
        0 => cs.push(' '),
        1 => cs.insert(0, ' '),
        2 if !cs.is_empty() => {
            let i = r.below(cs.len());
            cs[i] = if cs[i].is_uppercase() { cs[i].to_lowercase().next() } else { cs[i].to_uppercase().next() }
                .unwrap_or('x');
        }
        3 => {
            cs.pop();
        }
        4 => cs.push('\n'),
        5 if cs.len() > 1 => {
            let i = r.below(cs.len() - 1);
            cs.swap(i, i + 1);
        }
        6 => cs.push('\\'),
        7 => cs.clear(),
        _ => {
            let i = r.below(cs.len() + 1);
            cs.insert(i, 'x');
        }
    }
    cs.into_iter().collect()
}

/// One small change to a component, by the builder.
fn poke<C: Component>(r: &mut Rng, c: &mut C) {
    let keys: Vec<String> = c.properties().keys().cloned().collect();
    let multi: Vec<String> = c.multi_properties().keys().cloned().collect();
    match r.below(9) {
        0..=4 if !keys.is_empty() => {
            let k = r.pick(&keys).clone();
            let mut p = c.properties()[&k].clone();
            match r.below(6) {
                0 => {
                    let v = near(r, p.value());
                    let mut q = Property::new(&k, v);
                    for x in p.params().values() {
                        q.append_parameter(x.clone());
                    }
                    p = q;
                }
                1 => {
                    let ps: Vec<Parameter> = p.params().values().cloned().collect();
                    let mut q = Property::new(&k, p.value());
                    let victim = r.below(ps.len() + 1);
                    for (i, x) in ps.iter().enumerate() {
                        if i != victim {
                            q.append_parameter(x.clone());
                        } else if r.one_in(2) {
                            let v = near(r, x.value());
                            q.add_parameter(x.key(), &v);
                        } else if r.one_in(2) {
                            let n = near(r, x.key());
                            q.add_parameter(&n, x.value());
                        }
                    }
                    p = q;
                }
                2 => {
                    p.add_parameter("X-NEW", "");
                }
                3 => {
                    let n = near(r, &k);
                    let mut q = Property::new(n, p.value());
                    for x in p.params().values() {
                        q.append_parameter(x.clone());
                    }
                    p = q;
                }
                4 => {
                    c.append_multi_property(p);
                    return;
                }
                _ => {
                    p.add_parameter("VALUE", "TEXT");
                }
            }
            c.append_property(p);
        }
        5 if !multi.is_empty() => {
            let k = r.pick(&multi).clone();
            let p = c.multi_properties()[&k][0].clone();
            if r.one_in(2) {
                c.append_multi_property(p);
            } else {
                c.append_property(p);
            }
        }
        6 => {
            if let Some(k) = c.components().first().cloned() {
                c.append_component(k);
            } else {
                c.append_component(Venue::new());
            }
        }
        7 => {
            c.add_multi_property("COMMENT", "");
        }
        _ => {
            c.add_property("X-POKED", "");
        }
    }
}

fn poke_cc(r: &mut Rng, c: &mut CalendarComponent) {
    match c {
        CalendarComponent::Event(c) => poke(r, c),
        CalendarComponent::Todo(c) => poke(r, c),
        CalendarComponent::Venue(c) => poke(r, c),
        CalendarComponent::Other(c) => poke(r, c),
        _ => {}
    }
}

fn copy<A: Component, B: Component>(a: &A, b: &mut B) {
    for p in a.properties().values() {
        b.append_property(p.clone());
    }
    for p in a.multi_properties().values().flatten() {
        b.append_multi_property(p.clone());
    }
    for k in a.components() {
        b.append_component(k.clone());
    }
}

/// The same contents, with the occurrences of repeated properties or the inner components in
/// another order or number.
fn reordered<C: Component + Default>(r: &mut Rng, a: &C) -> C {
    let mut b = C::default();
    for p in a.properties().values() {
        b.append_property(p.clone());
    }
    for ps in a.multi_properties().values() {
        let mut ps = ps.clone();
        let n = ps.len();
        match r.below(5) {
            0 => ps.reverse(),
            1 => ps.rotate_left(r.below(n)),
            2 => ps.swap(r.below(n), r.below(n)),
            3 => ps[r.below(n)] = ps[r.below(n)].clone(),
            _ => {}
        }
        for p in ps {
            b.append_multi_property(p);
        }
    }
    let mut cs = a.components().to_vec();
    match r.below(4) {
        0 => cs.reverse(),
        1 if !cs.is_empty() => {
            let n = cs.len();
            cs[r.below(n)] = cs[r.below(n)].clone();
        }
        _ => {}
    }
    for c in cs {
        b.append_component(c);
    }
    b
}

/// the same contents under another type
fn retype(c: &CalendarComponent) -> CalendarComponent {
    let (mut e, mut t) = (Event::new(), Todo::new());
    match c {
        CalendarComponent::Event(c) => {
            copy(c, &mut t);
            t.into()
        }
        CalendarComponent::Todo(c) => {
            copy(c, &mut e);
            e.into()
        }
        CalendarComponent::Venue(c) => {
            copy(c, &mut e);
            e.into()
        }
        CalendarComponent::Other(c) => {
            copy(c, &mut t);
            t.into()
        }
        _ => e.into(),
    }
}

fn c25_components(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    // the same things in two orders
    if r.one_in(3) {
        let p = plan(&mut r, 0);
        let (a, b) = (build(&mut r, &p), build(&mut r, &p));
        ctx.nontrivial(&format!("{:?}", shape_cc(&a)));
        let want = shape_cc(&a) == shape_cc(&b);
        equality(ctx, "components built in two orders", &a, &b, want);
        let props: Vec<_> = (0..3).map(|_| plan_prop(&mut r, "X-A")).collect();
        let plans = vec![p];
        let (a, b) = (build_cal(&mut r, &props, &plans), build_cal(&mut r, &props, &plans));
        let want = shape_cal(&a) == shape_cal(&b);
        equality(ctx, "calendars built in two orders", &a, &b, want);
        return;
    }
    let d = Dom { ids: r.one_in(2), ..DOM };
    let (a, _) = model::component(&mut r, &d);
    let was = shape_cc(&a);
    ctx.nontrivial(&format!("{was:?}"));
    ctx.sample(|| clip(&format!("{was:?}"), 300));
    let mut b = a.clone();
    let same = shape_cc(&b) == was;
    ctx.check(same, "a clone has other contents", || clip(&format!("{a:?}"), 3000));
    equality(ctx, "component and clone", &a, &b, true);
    poke_cc(&mut r, &mut b);
    let same = shape_cc(&a) == was;
    ctx.check(same, "a change to a clone shows in the original", || clip(&format!("{a:?}"), 3000));
    equality(ctx, "components one change apart", &a, &b, shape_cc(&b) == was);
    equality(ctx, "components of two types", &a, &retype(&a), false);
    let b: CalendarComponent = match &a {
        CalendarComponent::Event(a) => reordered(&mut r, a).into(),
        CalendarComponent::Todo(a) => reordered(&mut r, a).into(),
        CalendarComponent::Venue(a) => reordered(&mut r, a).into(),
        a => a.clone(),
    };
    equality(ctx, "components in another order", &a, &b, shape_cc(&b) == was);
    // many of one name
    let (mut x, values) = (Event::default(), ["a", "b", "c"]);
    for _ in 0..2 + r.below(3) {
        x.add_multi_property("ATTENDEE", r.pick(&values));
    }
    let y = reordered(&mut r, &x);
    equality(ctx, "occurrences in another order", &x, &y, shape(&x) == shape(&y));
    // the types themselves
    if let (CalendarComponent::Event(a), CalendarComponent::Event(b)) = (&a, &b) {
        equality(ctx, "events", a, b, shape(a) == shape(b));
    }
    if let (CalendarComponent::Todo(a), CalendarComponent::Todo(b)) = (&a, &b) {
        equality(ctx, "todos", a, b, shape(a) == shape(b));
    }
    if let (CalendarComponent::Venue(a), CalendarComponent::Venue(b)) = (&a, &b) {
        equality(ctx, "venues", a, b, shape(a) == shape(b));
    }
    let (x, _) = model::alarm(&mut r, &d, 0);
    let mut y = x.clone();
    equality(ctx, "alarm and clone", &x, &y, true);
    poke(&mut r, &mut y);
    equality(ctx, "alarms", &x, &y, shape(&x) == shape(&y));
    // calendars
    let (c, _, _) = model::calendar(&mut r, &d);
    let mut e = Calendar { properties: c.properties.clone(), components: c.components.clone() };
    equality(ctx, "calendar and copy", &c, &e, true);
    match r.below(4) {
        0 => {
            let n = usize::from(e.properties.len() > 1);
            e.properties.rotate_left(n)
        }
        1 => {
            let n = usize::from(e.components.len() > 1);
            e.components.rotate_left(n)
        }
        2 => {
            if let Some(x) = e.components.last_mut() {
                poke_cc(&mut r, x);
            }
        }
        _ => {
            if let Some(p) = e.properties.pop() {
                let v = near(&mut r, p.value());
                let k = if r.one_in(3) { near(&mut r, p.key()) } else { p.key().to_string() };
                e.append_property(Property::new(k, v));
            }
        }
    }
    let want = shape_cal(&c) == shape_cal(&e);
    equality(ctx, "calendars", &c, &e, want);
}

fn edit(r: &mut Rng, c: &mut XComp) {
    if !c.comps.is_empty() && r.one_in(2) {
        let i = r.below(c.comps.len());
        return edit(r, &mut c.comps[i]);
    }
    let n = c.props.len();
    match r.below(8) {
        0 => c.name = near(r, &c.name),
        1 if n > 1 => {
            let i = r.below(n - 1);
            c.props.swap(i, i + 1);
        }
        2 if c.comps.len() > 1 => c.comps.swap(0, 1),
        3 if n > 0 => {
            c.props.pop();
        }
        4 if n > 0 => {
            let i = r.below(n);
            let ps = &mut c.props[i].params;
            if ps.is_empty() {
                ps.push(XParam { key: "X".into(), val: None });
                return;
            }
            let j = r.below(ps.len());
            match r.below(4) {
                0 => ps[j].key = near(r, &ps[j].key),
                1 => ps[j].val = if ps[j].val.is_none() { Some(String::new()) } else { None },
                2 => ps.rotate_left(1),
                _ => ps[j].val = ps[j].val.as_deref().map(|v| near(r, v)),
            }
        }
        5 => c.comps.push(XComp { name: "X".into(), props: vec![], comps: vec![] }),
        _ if n > 0 => {
            let i = r.below(n);
            if r.one_in(4) {
                c.props[i].name = near(r, &c.props[i].name);
            } else {
                c.props[i].val = near(r, &c.props[i].val);
            }
        }
        _ => c.props.push(XProp { name: "X".into(), params: vec![], val: String::new() }),
    }
}

fn c25_trees(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let doc = any_doc(&mut r);
    let src = gen::lines_of(&doc).join("\n");
    let Ok(parsed) = parser::read_components(&src) else {
        return;
    };
    ctx.nontrivial(&src);
    for c in &parsed {
        let x = x_comp(c);
        let by_hand = hand_comp(&x);
        equality(ctx, "parsed component and one made by hand", c, &by_hand, true);
        equality(ctx, "parsed component and clone", c, &c.clone(), true);
        for _ in 0..4 {
            let mut y = x.clone();
            edit(&mut r, &mut y);
            let other = hand_comp(&y);
            equality(ctx, "parsed components one change apart", c, &other, x == y);
            for ((p, q), (a, b)) in c.properties.iter().zip(&other.properties).zip(x.props.iter().zip(&y.props)) {
                equality(ctx, "parsed properties", p, q, a == b);
                for ((p, q), (a, b)) in p.params.iter().zip(&q.params).zip(a.params.iter().zip(&b.params)) {
                    equality(ctx, "parsed parameters", p, q, a == b);
                }
                equality(ctx, "parsed strings", &p.val, &q.val, a.val == b.val);
                let v = near(&mut r, &a.val);
                let by_str = p.val == v.as_str();
                ctx.check(by_str == (v == a.val), "comparing a parsed string with a str", || {
                    format!("{:?} {v:?}", a.val)
                });
                equality(ctx, "owned and borrowed strings", &p.val.to_owned(), &p.val.clone().into_owned(), true);
                equality(ctx, "owned and borrowed strings", &p.val, &parser::ParseString::from(v.clone()), v == a.val);
            }
        }
        if ctx.failed() {
            return;
        }
    }
}

/// The last thing in a tree.
fn last(c: &mut XComp) -> &mut XComp {
    if c.comps.is_empty() {
        return c;
    }
    let i = c.comps.len() - 1;
    last(&mut c.comps[i])
}

/// large items that differ in one place, mostly the last
fn c25_scale(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let (doc, _, n) = scale::of_case(&mut r, ctx.case);
    let src = gen::lines_of(&doc).join("\n");
    let parsed = match parser::read_components(&src) {
        Ok(p) => p,
        Err(e) => return ctx.fail("read_components", e),
    };
    ctx.nontrivial(&src);
    let step = 1 + parsed.len() / 10;
    for c in parsed.iter().rev().step_by(step) {
        let x = x_comp(c);
        equality(ctx, "parsed component and one made by hand", c, &hand_comp(&x), true);
        equality(ctx, "parsed component and clone", c, &c.clone(), true);
        for i in 0..4 {
            let mut y = x.clone();
            match i {
                0 => edit(&mut r, &mut y),
                1 => {
                    let k = y.comps.len() / 2;
                    if !y.comps.is_empty() {
                        y.comps.remove(k);
                    }
                }
                2 => {
                    // what comes next to the end, where the large thing is
                    let t = last(&mut y);
                    if let Some(p) = t.props.iter_mut().max_by_key(|p| p.val.len()) {
                        p.val = near(&mut r, &p.val);
                    }
                }
                _ => {
                    let k = y.comps.len().saturating_sub(2);
                    let t = if y.comps.is_empty() { &mut y } else { &mut y.comps[k] };
                    let k = t.props.len().saturating_sub(2);
                    if let Some(p) = t.props.get_mut(k) {
                        match p.params.last_mut() {
                            Some(q) => q.val = q.val.as_deref().map(|v| format!("{v}x")),
                            None => p.val.push('x'),
                        }
                    }
                }
            }
            equality(ctx, "large components one change apart", c, &hand_comp(&y), x == y);
            if ctx.failed() {
                return;
            }
        }
    }
    // built
    let (a, _, _, _) = scale::built(&mut r, ctx.case);
    let was = shape_cc(&a);
    let mut b = a.clone();
    equality(ctx, "component and clone", &a, &b, true);
    poke_cc(&mut r, &mut b);
    equality(ctx, "components one change apart", &a, &b, shape_cc(&b) == was);
    // long strings
    let s = scale::long_text(&mut r, n);
    long_string(ctx, &mut r, &s);
    ctx.obs("large items");
}

/// owned, borrowed, unescaped and cloned strings hold the same text
fn long_string(ctx: &mut Ctx, r: &mut Rng, s: &str) {
    let p = parser::ParseString::from(s);
    let t = near(r, s);
    for (what, q) in [
        ("to_owned", p.to_owned()),
        ("into_owned", p.clone().into_owned()),
        ("clone", p.clone()),
        ("of a String", parser::ParseString::from(s.to_string())),
        ("owned twice", p.to_owned().into_owned().to_owned()),
        ("unescape_by_value_type", p.clone().unescape_by_value_type(ValueType::Uri)),
    ] {
        ctx.check(q.as_str() == s, "a string has another text", || {
            format!("{what}: {:?} for {:?}", clip(q.as_str(), 1000), clip(s, 1000))
        });
        equality(ctx, "owned and borrowed strings", &p, &q, true);
        let by_str = q == t.as_str();
        ctx.check(by_str == (t == s), "comparing a parsed string with a str", || {
            format!("{what}: {:?} {:?}", clip(s, 1000), clip(&t, 1000))
        });
        equality(ctx, "owned and borrowed strings", &q, &parser::ParseString::from(t.clone()), t == s);
        ctx.check(q.to_string() == s && q.as_ref() == s, "a string has another text", || {
            format!("{what}: Display or AsRef of {:?}", clip(s, 1000))
        });
        ctx.obs("long strings");
    }
    // pieces of one text, as the parser makes them: the place in the text is no part of the content
    let mut ends: Vec<usize> = s.char_indices().map(|(i, _)| i).chain([s.len()]).collect();
    r.shuffle(&mut ends);
    ends.truncate(5);
    ends.extend([0, s.len()]);
    for _ in 0..10 {
        let mut piece = || {
            let (a, b) = (*r.pick(&ends), *r.pick(&ends));
            &s[a.min(b)..a.max(b)]
        };
        let (a, b) = (piece(), piece());
        let (x, y) = (parser::ParseString::from(a), parser::ParseString::from(b));
        equality(ctx, "pieces of one text", &x, &y, a == b);
        let by_str = x == b;
        ctx.check(by_str == (a == b), "comparing a parsed string with a str", || format!("{a:?} {b:?}"));
        let p = parser::Property::new_ref(a, b);
        let q = parser::Property::new_ref(b, a);
        equality(ctx, "pieces of one text", &p, &q, a == b);
        let (p, q) = (parser::Parameter::new_ref(a, Some(b)), parser::Parameter::new_ref(a, Some(a)));
        equality(ctx, "pieces of one text", &p, &q, a == b);
        ctx.obs("pieces of one text");
    }
}

fn c25_values(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    // a small pool, so that equal ones meet
    let mut pool: Vec<model::When> = (0..4).map(|_| model::when(&mut r)).collect();
    let t = model::date_time(&mut r);
    pool.push(model::When::Floating(t));
    pool.push(model::When::Utc(chrono::DateTime::from_naive_utc_and_offset(t, chrono::Utc)));
    pool.push(model::When::Zoned(t, "Europe/Berlin".into()));
    pool.push(model::When::Zoned(t, "Europe/Vienna".into()));
    pool.push(model::When::Zoned(t, "UTC".into()));
    pool.push(model::When::Date(t.date()));
    let midnight = t.date().and_hms_opt(0, 0, 0).unwrap_or(t);
    pool.push(model::When::Floating(midnight));
    pool.push(model::When::Utc(chrono::DateTime::from_naive_utc_and_offset(midnight, chrono::Utc)));
    for a in &pool {
        for b in &pool {
            let (x, y) = (a.value(), b.value());
            equality(ctx, "dates and times", &x, &y, a == b);
            if let (DatePerhapsTime::DateTime(x), DatePerhapsTime::DateTime(y)) = (&x, &y) {
                equality(ctx, "date-times", x, y, a == b);
                equality(ctx, "absolute triggers", &Trigger::from(x.clone()), &Trigger::from(y.clone()), a == b);
            }
        }
    }
    ctx.nontrivial(&format!("{pool:?}"));
    let durations: Vec<chrono::Duration> =
        [0, 1, -1, 60, -60, 86_400, model::seconds(&mut r)].iter().map(|s| chrono::Duration::seconds(*s)).collect();
    let rel = [None, Some(Related::Start), Some(Related::End)];
    for a in &durations {
        for b in &durations {
            for x in rel {
                for y in rel {
                    equality(
                        ctx,
                        "relative triggers",
                        &Trigger::Duration(*a, x),
                        &Trigger::Duration(*b, y),
                        a == b && x == y,
                    );
                }
            }
        }
    }
    let (k, v) = (gen::param_name(&mut r), gen::param_value(&mut r));
    let (k2, v2) = (near(&mut r, &k), near(&mut r, &v));
    for (k2, v2) in [(&k, &v), (&k, &v2), (&k2, &v), (&k2, &v2)] {
        equality(ctx, "parameters", &Parameter::new(&k, &v), &Parameter::new(k2, v2), &k == k2 && &v == v2);
        equality(ctx, "properties", &Property::new(&k, &v), &Property::new(k2, v2), &k == k2 && &v == v2);
    }
    let (p, _) = model::any_property(&mut r, "X-P", ANY);
    let q = p.clone();
    equality(ctx, "property and clone", &p, &q, true);
}

pub fn c25() -> Prop {
    Prop {
        id: "C25",
        level: "exploration",
        rule: "A case is a pair of items: built from the same parts in two orders, item and clone, item and the same with \
               one small change (a letter, its case, a blank, a parameter, a place, a type). == and != in both \
               directions are compared with whether an independent view of the contents is the same; changes to a \
               clone must not show in the original. Non-trivial: distinct contents.",
        sections: vec![
            sec("components", 40_000, 1_200_000, c25_components),
            sec("trees", 15_000, 450_000, c25_trees),
            sec("values", 3_000, 90_000, c25_values),
            sec("scale", scale::SWEEP, 4 * scale::SWEEP, c25_scale),
        ],
        require: vec![
            ("equal pairs", 50_000),
            ("large items", 700),
            ("long strings", 4_000),
            ("different pairs", 50_000),
            ("components one change apart", 5_000),
            ("calendars", 5_000),
            ("parsed components one change apart", 5_000),
            ("parsed properties", 5_000),
            ("parsed parameters", 5_000),
            ("parsed strings", 5_000),
        ],
        extra: None,
        assumptions: vec![],
    }
}

// -------------------------------------------------------------------------------------- C26

fn lines_named(msg: &str) -> Vec<usize> {
    // every error is one paragraph, "<n>: at line <line>, ..."; the rest of it quotes the document
    let mut out = vec![];
    let msg = msg.strip_prefix("error: ").unwrap_or(msg);
    let mut n = 0usize;
    let mut at = 0;
    while let Some(i) = msg[at..].find(&format!("{n}: at line ")) {
        let i = at + i;
        if i == 0 || msg[..i].ends_with("\n\n") {
            let rest = &msg[i + format!("{n}: at line ").len()..];
            let digits: String = rest.chars().take_while(char::is_ascii_digit).collect();
            if let Ok(l) = digits.parse() {
                out.push(l);
            }
            n += 1;
        }
        at = i + 1;
    }
    out
}

fn placed(ctx: &mut Ctx, text: &str) {
    let Structure::Malformed(why, roots, at) = structure(text) else {
        ctx.obs("not malformed or not judged");
        return;
    };
    // the last line with something in it
    let last =
        text.split('\n').enumerate().filter(|(_, l)| !l.trim_end_matches('\r').is_empty()).map(|(i, _)| i + 1).last();
    let end = text.split('\n').count();
    let (lo, hi) = at.map_or((last.unwrap_or(1), end), |l| (l, l));
    ctx.obs(if at.is_some() { "faults in a line" } else { "faults at the end" });
    let mut one = |who: &'static str, msg: String| {
        ctx.obs("error messages");
        let named = lines_named(&msg);
        // the innermost error is the first
        let ok = named.first().is_some_and(|l| (lo..=hi).contains(l)) && named.iter().all(|l| *l <= hi && *l >= 1);
        ctx.check(ok, &format!("{who} names another line"), || {
            format!(
                "{who}: {why}\n  line {lo} (to {hi}), named are {named:?}\n  input: {:?}\n  message: {}",
                clip(text, 3000),
                clip(&msg, 2000)
            )
        });
    };
    if let Err(m) = parser::read_components(text) {
        one("read_components", m);
    }
    if let Err(m) = parser::read_calendar(text) {
        one("read_calendar", m);
    }
    // these read the unfolded text, there are no folds in here
    if let Err(m) = text.parse::<Calendar>() {
        one("Calendar::from_str", m);
    }
    if roots == 0 {
        if let Err(m) = parser::Component::try_from(text) {
            one("Component::try_from", m);
        }
        if let Err(m) = text.parse::<CalendarComponent>() {
            one("CalendarComponent::from_str", m);
        }
    }
    if let Err(e) = parser::read_calendar_simple(text) {
        let ok = text.ends_with(e.input) && {
            let line = text[..text.len() - e.input.len()].matches('\n').count() + 1;
            (lo..=hi).contains(&line)
        };
        ctx.obs("rests of the input");
        ctx.check(ok, "read_calendar_simple points elsewhere", || {
            format!("{why}\n  line {lo} (to {hi})\n  input: {:?}\n  rest: {:?}", clip(text, 3000), clip(e.input, 500))
        });
    }
}

fn c26_single(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let doc = fault_doc(&mut r);
    let lines = gen::lines_of(&doc);
    ctx.nontrivial(&lines.join("\n"));
    for _ in 0..8 {
        let i = r.below(lines.len());
        let faults = faults_at(&mut r, &lines, i);
        if faults.is_empty() {
            continue;
        }
        for _ in 0..4 {
            let f = r.pick(&faults).apply(&lines);
            let mut l = any_layout(&mut r);
            l.fold = 0;
            let text = gen::layout(&mut r, &f, &l);
            ctx.obs("single faults");
            placed(ctx, &text);
            if ctx.failed() {
                return;
            }
        }
    }
}

fn c26_truncate(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let doc = fault_doc(&mut r);
    let lines = gen::lines_of(&doc);
    let eol = *r.pick(&[gen::Eol::Lf, gen::Eol::Crlf, gen::Eol::Mixed]);
    let text = join(&mut r, &lines, eol);
    ctx.nontrivial(&text);
    for _ in 0..30 {
        let mut i = r.below(text.len() + 1);
        while !text.is_char_boundary(i) {
            i -= 1;
        }
        ctx.obs("truncations");
        placed(ctx, &text[..i]);
        if ctx.failed() {
            return;
        }
    }
}

/// faults far down in long documents and far to the right
fn c26_long(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let n = *r.pick(&[300usize, 1_000, 70_000]);
    let mut lines = vec!["BEGIN:VCALENDAR".to_string()];
    let wide = r.one_in(3);
    while lines.len() < if wide { 5 } else { n } {
        let summary = format!("SUMMARY:{}", r.below(1000));
        if r.one_in(4) {
            lines.extend(["BEGIN:VEVENT".into(), summary, "END:VEVENT".into()]);
        } else {
            lines.push(summary);
        }
    }
    let bad = if wide { format!("X{} Y", "x".repeat(n)) } else { "this is no content line".to_string() };
    lines.push(bad);
    lines.push("END:VCALENDAR".into());
    let l = gen::Layout {
        eol: if r.one_in(2) { gen::Eol::Lf } else { gen::Eol::Crlf },
        fold: 0,
        blank: 0,
        final_eol: true,
    };
    let text = gen::layout(&mut r, &lines, &l);
    ctx.obs("long documents");
    ctx.nontrivial(&clip(&text, 300));
    placed(ctx, &text);
}

/// faults near the end of documents that are large in one direction
fn c26_scale(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let (doc, _, _) = scale::of_case(&mut r, ctx.case);
    let lines = gen::lines_of(&doc);
    ctx.nontrivial(&lines.join("\n"));
    ctx.obs("large documents");
    let last = lines.len() - 1;
    for i in [last, last.saturating_sub(1), last.saturating_sub(4), last / 2, r.below(lines.len())] {
        let faults = faults_at(&mut r, &lines, i);
        if faults.is_empty() {
            continue;
        }
        let f = r.pick(&faults).apply(&lines);
        let l = gen::Layout { fold: 0, blank: 0, ..any_layout(&mut r) };
        placed(ctx, &gen::layout(&mut r, &f, &l));
        if ctx.failed() {
            return;
        }
    }
}

pub fn c26() -> Prop {
    Prop {
        id: "C26",
        level: "exploration",
        rule: "A case is a well-formed document and some of its faults (cut off anywhere; lines deleted, doubled, swapped, \
               glued, renamed, without colon, junk in between). An independent line reader says in which line the \
               document stops being well-formed; the innermost place in the message of each entry point has to be \
               that line, and no place later than it. Non-trivial: distinct documents.",
        sections: vec![
            sec("single", 8_000, 240_000, c26_single),
            sec("truncate", 8_000, 240_000, c26_truncate),
            sec("long", 150, 3_000, c26_long),
            sec("scale", scale::SWEEP, 4 * scale::SWEEP, c26_scale),
        ],
        require: vec![
            ("faults in a line", 50_000),
            ("faults at the end", 20_000),
            ("error messages", 300_000),
            ("rests of the input", 50_000),
            ("long documents", 50),
            ("large documents", 500),
        ],
        extra: None,
        assumptions: vec![
            "lines are counted in the unfolded text; for a document that ends early, any line from the last one with \
             content on is right",
        ],
    }
}
