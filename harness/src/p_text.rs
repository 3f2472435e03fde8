//! C03 (TEXT and other values), C04 (well-formed output), C22 (value types).

use crate::conv::*;
use crate::gen::{self, ANY};
use crate::model::{self, Dom, MComp, DOM};
use crate::reader::{self, decode_text, is_text, type_of, XComp, XProp};
use crate::rng::Rng;
use crate::rt::*;
use crate::scale;
use icalendar::parser;
use icalendar::*;
use std::collections::BTreeMap;
use std::str::FromStr;

// -------------------------------------------------------------------------------------- C03

fn text_names() -> Vec<&'static str> {
    reader::TYPE_TABLE.iter().filter(|(_, t)| *t == "TEXT").map(|(n, _)| *n).collect()
}

pub fn prop_string(ctx: &mut Ctx, p: &Property) -> Option<String> {
    let r: Result<String, std::fmt::Error> = p.clone().try_into();
    match r {
        Ok(s) => Some(s),
        Err(e) => {
            ctx.fail("serialize", format!("a property cannot be written ({e}): {p:?}"));
            None
        }
    }
}

/// the raw value on the one content line of `text`
fn raw_value(ctx: &mut Ctx, text: &str) -> Option<XProp> {
    match reader::logical_lines(text) {
        Ok(ls) if ls.len() == 1 => match reader::xprop(&ls[0], true) {
            Ok(p) => Some(p),
            Err(e) => {
                ctx.fail("unreadable line", format!("{e} in {text:?}"));
                None
            }
        },
        Ok(ls) => {
            ctx.fail("number of lines", format!("one property was written as {} content lines: {text:?}", ls.len()));
            None
        }
        Err(e) => {
            ctx.fail("malformed output", format!("{e} in {text:?}"));
            None
        }
    }
}

/// One TEXT value through every way of writing and reading it.
fn text_value(ctx: &mut Ctx, name: &str, by_param: bool, s: &str, deep: bool) {
    let mut p = Property::new(name, s);
    if by_param {
        p.add_parameter("VALUE", "TEXT");
    }
    let Some(text) = prop_string(ctx, &p) else {
        return;
    };
    if let Some(x) = raw_value(ctx, &text) {
        ctx.check(reader::properly_escaped(&x.val), "escaping", || {
            format!("value {s:?} of {name} is written as {:?}", x.val)
        });
        ctx.eq("decoded by the reference reader", &decode_text(&x.val), &s.to_string(), &text);
    }
    match text.parse::<Property>() {
        Ok(q) => {
            ctx.eq("read back as a property", &q.value(), &s, &text);
        }
        Err(e) => ctx.fail("read back as a property", format!("{e} for {text:?}")),
    }
    let unfolded = parser::unfold(&text);
    match parser::Property::try_from(unfolded.as_str()) {
        Ok(q) => {
            ctx.eq("read back by the parser", &q.val.as_str(), &s, &text);
            // and written again by the parser's own writer
            let again = q.to_string();
            match again.parse::<Property>() {
                Ok(q) => {
                    ctx.eq("rewritten by the parser", &q.value(), &s, &again);
                }
                Err(e) => ctx.fail("rewritten by the parser", format!("{e} for {again:?}")),
            }
        }
        Err(e) => ctx.fail("read back by the parser", format!("{e} for {text:?}")),
    }
    ctx.obs("text values");
    if !deep {
        return;
    }
    let mut cal = Calendar::empty();
    cal.append_property(p.clone());
    let mut e = Event::new();
    e.append_property(p.clone());
    e.append_multi_property({
        let mut q = Property::new("X-MULTI", s);
        q.add_parameter("VALUE", "TEXT");
        q
    });
    let mut inner = Todo::new();
    inner.append_property(p);
    e.append_component(inner);
    cal.push(e.done());
    let out = cal.to_string();
    match out.parse::<Calendar>() {
        Err(err) => ctx.fail("calendar does not parse", format!("{err} for {out:?}")),
        Ok(back) => {
            ctx.eq("calendar property", &back.property_value(name), &Some(s), &out);
            match back.components.first() {
                Some(CalendarComponent::Event(e)) => {
                    let get = |c: &dyn Fn(&str) -> Option<String>| c(name);
                    let from = |c: &Event| {
                        c.property_value(name).map(String::from).or_else(|| {
                            c.multi_properties().get(name).and_then(|v| v.first()).map(|p| p.value().to_string())
                        })
                    };
                    let v = get(&|_| from(e));
                    ctx.eq("component property", &v.as_deref(), &Some(s), &out);
                    let v = e
                        .properties()
                        .get("X-MULTI")
                        .or_else(|| e.multi_properties().get("X-MULTI").and_then(|v| v.first()))
                        .map(Property::value);
                    ctx.eq("repeatable property", &v, &Some(s), &out);
                    let v = e.components().first().and_then(|c| {
                        c.properties()
                            .get(name)
                            .or_else(|| c.multi_properties().get(name).and_then(|v| v.first()))
                            .map(|p| p.value().to_string())
                    });
                    ctx.eq("nested property", &v.as_deref(), &Some(s), &out);
                }
                other => ctx.fail("component lost", format!("{other:?} in {out:?}")),
            }
        }
    }
    ctx.obs("text values through a calendar");
}

fn c03_text(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let by_param = r.one_in(3);
    let name = if by_param {
        gen::prop_name(&mut r)
    } else {
        let names = text_names();
        (*r.pick(&names)).to_string()
    };
    let s = gen::text(&mut r, ANY);
    ctx.sample(|| format!("{name}{}: {s:?}", if by_param { ";VALUE=TEXT" } else { "" }));
    if s.contains(['\\', ',', ';', '\n']) {
        ctx.nontrivial(&s);
    }
    text_value(ctx, &name, by_param, &s, true);
}

const TEXT_CHARS: [char; 9] = ['\\', 'n', 'N', ',', ';', ':', '\n', 'a', '"'];

fn nth_string(mut i: u64, alphabet: &[char], len: usize) -> String {
    let mut s = String::new();
    for _ in 0..len {
        s.push(alphabet[(i % alphabet.len() as u64) as usize]);
        i /= alphabet.len() as u64;
    }
    s
}

/// every string over the nine characters that matter: 81 strings per case, by length
fn c03_text_small(ctx: &mut Ctx) {
    let names = text_names();
    let mut first = ctx.case * 81;
    let mut len = 0;
    let mut block = 1u64;
    while first >= block {
        first -= block;
        len += 1;
        block *= 9;
    }
    for k in 0..81 {
        let mut i = first + k;
        let (mut l, mut b) = (len, block);
        while i >= b {
            i -= b;
            l += 1;
            b *= 9;
        }
        let s = nth_string(i, &TEXT_CHARS, l);
        let name = names[((ctx.case + k) % names.len() as u64) as usize];
        ctx.nontrivial(&s);
        text_value(ctx, name, false, &s, k % 27 == 0);
        ctx.obs("small strings enumerated");
        if ctx.failed() {
            return;
        }
    }
}

/// every character there is
fn c03_chars(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let s = gen::chars_of(ctx.case);
    if s.is_empty() {
        return;
    }
    ctx.nontrivial(&s);
    let names = text_names();
    text_value(ctx, names[(ctx.case % names.len() as u64) as usize], r.one_in(2), &s, r.one_in(8));
    let raw: String = s.chars().filter(|c| !c.is_control() || *c == '\t').collect();
    read_raw(ctx, &mut r, &raw);
    ctx.obs_n("characters enumerated", s.chars().count() as u64);
}

/// raw spellings by other producers
fn read_raw(ctx: &mut Ctx, r: &mut Rng, raw: &str) {
    let names = text_names();
    let want = decode_text(raw);
    let name = *r.pick(&names);
    let eol = *r.pick(&["", "\n", "\r\n"]);
    let line = format!("{name}:{raw}{eol}");
    match parser::Property::try_from(line.as_str()) {
        Ok(p) => {
            ctx.eq("escapes of other producers", &p.val.as_str(), &want.as_str(), &line);
        }
        Err(e) => ctx.fail("escapes of other producers", format!("{e} for {line:?}")),
    }
    match line.parse::<Property>() {
        Ok(p) => {
            ctx.eq("escapes of other producers, typed", &p.value(), &want.as_str(), &line);
        }
        Err(e) => ctx.fail("escapes of other producers, typed", format!("{e} for {line:?}")),
    }
    let ps = parser::ParseString::from(raw).unescape_text();
    ctx.eq("unescape_text", &ps.as_str(), &want.as_str(), raw);
    let ps = parser::ParseString::from(raw).unescape_by_value_type(ValueType::Text);
    ctx.eq("unescape_by_value_type(TEXT)", &ps.as_str(), &want.as_str(), raw);
    let vt = *r.pick(&[ValueType::Uri, ValueType::Date, ValueType::Recur, ValueType::Float, ValueType::Binary]);
    let ps = parser::ParseString::from(raw).unescape_by_value_type(vt);
    ctx.eq("unescape_by_value_type(other)", &ps.as_str(), &raw, raw);
    // not TEXT: verbatim
    let other = *r.pick(&["URL", "RRULE", "GEO", "X-FOO", "ATTENDEE", "DTSTART", "SUMMARY;VALUE=URI"]);
    let line = format!("{other}:{raw}{eol}");
    match parser::Property::try_from(line.as_str()) {
        Ok(p) => {
            ctx.eq("value that is not TEXT", &p.val.as_str(), &raw, &line);
        }
        Err(e) => ctx.fail("value that is not TEXT", format!("{e} for {line:?}")),
    }
    ctx.obs("raw spellings");
}

fn c03_raw(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let s = if r.one_in(2) {
        let n = r.below(14);
        (0..n).map(|_| *r.pick(&['\\', '\\', 'n', 'N', ',', ';', ':', 'x', '"', 'é', ' '])).collect()
    } else {
        gen::text(&mut r, gen::DOC)
    };
    ctx.sample(|| format!("{s:?}"));
    if s.contains('\\') {
        ctx.nontrivial(&s);
    }
    read_raw(ctx, &mut r, &s);
}

fn c03_raw_small(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let alphabet = ['\\', 'n', 'N', ',', ';', ':', 'x', '"'];
    // length 5, 64 strings per case; the shorter ones are their prefixes
    for k in 0..64 {
        let s = nth_string(ctx.case * 64 + k, &alphabet, 5);
        for l in [5, (k % 5) as usize] {
            let s = &s[..l];
            ctx.nontrivial(s);
            read_raw(ctx, &mut r, s);
            ctx.obs("small spellings enumerated");
        }
        if ctx.failed() {
            return;
        }
    }
}

fn c03_other(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let (name, vp) = loop {
        let name = gen::prop_name(&mut r);
        let vp = if r.one_in(3) { Some(*r.pick(reader::TYPES)) } else { None };
        if !is_text(&name, vp) {
            break (name, vp);
        }
    };
    let with_lf = r.one_in(4);
    let s = gen::text(&mut r, if with_lf { ANY } else { gen::LINE });
    let mut p = Property::new(&name, &s);
    if let Some(v) = vp {
        p.add_parameter("VALUE", v);
    }
    ctx.sample(|| format!("{name} {vp:?}: {s:?}"));
    ctx.nontrivial(&format!("{name}{vp:?}{s}"));
    let Some(text) = prop_string(ctx, &p) else {
        return;
    };
    let Some(x) = raw_value(ctx, &text) else {
        return;
    };
    ctx.check(!x.val.contains('\n'), "raw line feed", || format!("{text:?}"));
    let back = match text.parse::<Property>() {
        Ok(q) => q,
        Err(e) => return ctx.fail("read back", format!("{e} for {text:?}")),
    };
    if s.contains('\n') {
        // everything apart from the line feeds is still there, in order
        let parts: Vec<&str> = s.split('\n').collect();
        let mut rest = x.val.as_str();
        for part in parts {
            match rest.find(part) {
                Some(i) => rest = &rest[i + part.len()..],
                None => return ctx.fail("value with line feeds", format!("{s:?} is written as {:?}", x.val)),
            }
        }
        ctx.obs("values with line feeds");
    } else {
        ctx.eq("written verbatim", &x.val, &s, &text);
        ctx.eq("read verbatim", &back.value(), &s.as_str(), &text);
        ctx.obs("verbatim values");
    }
}

/// long values, what matters at the end of them
fn c03_scale(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let n = scale::size(ctx.case, 6, &mut r);
    let names = text_names();
    let name = *r.pick(&names);
    let s = scale::long_text(&mut r, n);
    ctx.nontrivial(&s);
    ctx.obs("long values");
    match ctx.case % 6 {
        0 | 1 => text_value(ctx, name, false, &s, true),
        2 => text_value(ctx, name, r.one_in(2), &(0..n).map(|i| TEXT_CHARS[(i + i / 9) % 9]).collect::<String>(), true),
        3 => text_value(ctx, name, true, &format!("{}\n", ",".repeat(n)), false),
        4 => {
            let s: String = (0..n).map(|i| ["\\n", "a", "\\N", "\\\\", "\\;", "\\,", ":"][(i + i / 7) % 7]).collect();
            read_raw(ctx, &mut r, &s);
        }
        _ => read_raw(ctx, &mut r, &format!("{}\\\\\\n\\,", "x".repeat(n))),
    }
}

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        level: "exploration",
        rule: "A case is one string as the value of a TEXT property (written by the library, decoded by the \
               reference reader, read back in four ways), one spelling by another producer, or one value of \
               another type. Non-trivial: the string contains something that has to be escaped or decoded (TEXT) \
               or is of another type. The small strings over the nine significant characters are enumerated.",
        sections: vec![
            sec("scale", 6 * scale::SIZES.len() as u64, 30 * scale::SIZES.len() as u64, c03_scale),
            sec("text", 600_000, 12_000_000, c03_text),
            sec("text_small", 1_840, 36_800, c03_text_small),
            sec("chars", gen::CHAR_CASES, 4 * gen::CHAR_CASES, c03_chars),
            sec("raw", 600_000, 12_000_000, c03_raw),
            sec("raw_small", 512, 512, c03_raw_small),
            sec("other", 500_000, 10_000_000, c03_other),
        ],
        require: vec![
            ("long values", 250),
            ("text values", 1000),
            ("characters enumerated", 10_000),
            ("text values through a calendar", 1000),
            ("raw spellings", 1000),
            ("verbatim values", 1000),
            ("values with line feeds", 100),
        ],
        extra: None,
        assumptions: vec![
            "the reference decoder in harness/src/reader.rs is RFC 5545 section 3.3.11 plus `\\:` and `\\N`",
        ],
    }
}

// -------------------------------------------------------------------------------------- C04

/// Takes out the UID and DTSTAMP that were not set but added while writing.
pub fn strip_auto(ctx: &mut Ctx, got: &mut TComp, want: &TComp) {
    for name in ["UID", "DTSTAMP"] {
        if want.props.contains_key(name) {
            continue;
        }
        match got.props.get(name) {
            Some(v) if v.len() == 1 && v[0].params.is_empty() && !v[0].val.is_empty() => {
                if name == "DTSTAMP" && !is_utc_form(&v[0].val) {
                    ctx.fail("generated DTSTAMP", format!("{:?}", v[0].val));
                }
                got.props.remove(name);
            }
            other => ctx.fail(format!("generated {name}"), format!("exactly one was expected, got {other:?}")),
        }
    }
    for (g, w) in got.comps.iter_mut().zip(&want.comps) {
        strip_auto(ctx, g, w);
    }
}

pub fn t_want(comps: &[MComp]) -> Vec<TComp> {
    comps.iter().map(MComp::tree).collect()
}

/// values of other types with a line feed cannot be recovered; both sides get a placeholder
fn blur(got: &mut TComp, want: &mut TComp) -> usize {
    let mut n = 0;
    for (name, ws) in &mut want.props {
        let Some(gs) = got.props.get_mut(name) else {
            continue;
        };
        for (g, w) in gs.iter_mut().zip(ws.iter_mut()) {
            n += blur_prop(g, w);
        }
    }
    for (g, w) in got.comps.iter_mut().zip(&mut want.comps) {
        n += blur(g, w);
    }
    n
}

fn blur_prop(g: &mut TProp, w: &mut TProp) -> usize {
    if w.val.contains('\n') && !is_text(&w.name, w.params.get("VALUE").map(String::as_str)) {
        g.val = "?".into();
        w.val = "?".into();
        return 1;
    }
    0
}

/// A builder program whose values of other types may have line feeds, too.
fn c04_dom() -> Dom {
    Dom { values: ANY, ..DOM }
}

fn spoil(r: &mut Rng, cal: &mut Calendar, props: &mut Vec<TProp>) {
    // line breaks in values that are not TEXT
    for _ in 0..r.below(3) {
        let name = *r.pick(&["URL", "X-FOO", "ATTENDEE", "RRULE", "DTSTART"]);
        let v = gen::text(r, ANY);
        cal.append_property(Property::new(name, &v));
        props.push(TProp { name: name.into(), params: BTreeMap::new(), val: v });
    }
}

fn strict(ctx: &mut Ctx, text: &str) -> Option<Vec<XComp>> {
    match reader::tree(text, false) {
        Ok(t) => Some(t),
        Err(e) => {
            ctx.fail("malformed output", format!("{e}\n  output: {}", clip(&format!("{text:?}"), 4000)));
            None
        }
    }
}

fn c04_calendar(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let d = c04_dom();
    let (mut cal, mut props, comps) = model::calendar(&mut r, &d);
    spoil(&mut r, &mut cal, &mut props);
    let text = match r.below(3) {
        0 => cal.to_string(),
        1 => format!("{cal}"),
        _ => {
            let s: Result<String, _> = (&cal).try_into();
            match s {
                Ok(s) => s,
                Err(e) => return ctx.fail("serialize", format!("{e}")),
            }
        }
    };
    ctx.sample(|| clip(&text, 500));
    ctx.nontrivial(&text);
    ctx.obs_n("octets of output", text.len() as u64);
    ctx.obs_n("folded lines", text.matches("\r\n ").count() as u64);
    let Some(tree) = strict(ctx, &text) else {
        return;
    };
    if tree.len() != 1 || tree[0].name != "VCALENDAR" {
        return ctx.fail("not one VCALENDAR", clip(&format!("{text:?}"), 4000));
    }
    let mut got: Vec<TProp> = tree[0].props.iter().map(t_of_xprop).collect();
    for (g, w) in got.iter_mut().zip(props.iter_mut()) {
        blur_prop(g, w);
    }
    ctx.eq("calendar properties", &got, &props, &text);
    let mut want = t_want(&comps);
    if tree[0].comps.len() != want.len() {
        return ctx.fail("number of components", format!("{} for {}: {text:?}", tree[0].comps.len(), want.len()));
    }
    for (x, w) in tree[0].comps.iter().zip(&mut want) {
        ctx.obs_n("content lines", x.size() as u64);
        let mut g = t_of_x(x);
        strip_auto(ctx, &mut g, w);
        blur(&mut g, w);
        if !ctx.eq("component", &g, w, &text) {
            return;
        }
    }
}

fn c04_component(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let d = c04_dom();
    let (text, m) = match r.below(4) {
        0 => {
            let (c, m) = model::event(&mut r, &d, 0);
            (c.try_into_string(), m)
        }
        1 => {
            let (c, m) = model::todo(&mut r, &d, 0);
            (c.try_into(), m)
        }
        2 => {
            let (c, m) = model::venue(&mut r, &d, 0);
            (Ok(Component::to_string(&c)), m)
        }
        _ => {
            let (c, m) = model::alarm(&mut r, &d, 0);
            (c.try_into_string(), m)
        }
    };
    let text: String = match text {
        Ok(t) => t,
        Err(e) => return ctx.fail("serialize", format!("{e}")),
    };
    ctx.sample(|| clip(&text, 500));
    ctx.nontrivial(&text);
    let Some(tree) = strict(ctx, &text) else {
        return;
    };
    if tree.len() != 1 {
        return ctx.fail("not one component", clip(&format!("{text:?}"), 4000));
    }
    let mut want = m.tree();
    let mut got = t_of_x(&tree[0]);
    strip_auto(ctx, &mut got, &want);
    blur(&mut got, &mut want);
    ctx.eq("component", &got, &want, &text);
    ctx.obs("components");
}

/// every length and alignment around the fold
fn c04_fold(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    const CHARS: [char; 12] =
        ['a', 'é', '\u{4e2d}', '\u{1f600}', ' ', '\u{a0}', '\t', '\u{3000}', ',', '\\', '\n', '\u{2028}'];
    let lead = (ctx.case % 80) as usize;
    let c = CHARS[(ctx.case / 80 % 12) as usize];
    let name = *r.pick(&["SUMMARY", "X-FOO", "DESCRIPTION", "URL", "RRULE"]);
    for n in [0, 1, 2, 3, 4, 5, 18, 19, 24, 25, 36, 37, 38, 60, 73, 74, 75, 76, 77, 120, 150, 222] {
        let mut s: String = "x".repeat(lead);
        s.extend(std::iter::repeat(c).take(n));
        if r.one_in(2) {
            s.push_str(if r.one_in(2) { "z" } else { "  z" });
        }
        let p = Property::new(name, &s);
        let Some(text) = prop_string(ctx, &p) else {
            return;
        };
        let Some(x) = raw_value(ctx, &text) else {
            return;
        };
        if is_text(name, None) {
            ctx.eq("value after folding", &decode_text(&x.val), &s, &text);
        } else if c != '\n' {
            ctx.eq("value after folding", &x.val, &s, &text);
        }
        ctx.nontrivial(&text);
        ctx.obs("fold alignments");
        if text.len() > 80 && !text.contains("\r\n ") {
            ctx.fail("not folded", format!("{text:?}"));
        }
    }
}

fn c04_params(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let name = gen::prop_name(&mut r);
    let (p, t) = model::any_property(&mut r, &name, ANY);
    let extra = match r.below(3) {
        0 => gen::param_value(&mut r),
        1 => format!("a{}b", r.pick(&[":", ";", ",", "=", ":;,", " "])),
        _ => gen::text(&mut r, gen::PARAM),
    };
    let mut p = p;
    p.add_parameter("X-EXTRA", &extra);
    let mut t = t;
    t.params.insert("X-EXTRA".into(), extra);
    let Some(text) = prop_string(ctx, &p) else {
        return;
    };
    ctx.sample(|| text.clone());
    ctx.nontrivial(&text);
    let Some(x) = raw_value(ctx, &text) else {
        return;
    };
    // with colon or semicolon: in quotes
    if let Ok(ls) = reader::logical_lines(&text) {
        for (k, v) in &t.params {
            if v.contains([':', ';']) {
                ctx.check(ls[0].contains(&format!(";{k}=\"{v}\"")), "quoting", || {
                    format!("parameter {k}={v:?} is not quoted in {:?}", ls[0])
                });
                ctx.obs("quoted parameters");
            }
        }
    }
    let mut got = t_of_xprop(&x);
    if is_text(&x.name, t.params.get("VALUE").map(String::as_str)) {
        got.val = decode_text(&got.val);
    }
    blur_prop(&mut got, &mut t);
    ctx.eq("property", &got, &t, &text);
    ctx.obs("properties");
}

/// the writer of the parsed tree, given trees nobody parsed
fn c04_parser_tree(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    fn prop(r: &mut Rng) -> (parser::Property<'static>, TProp) {
        let name = gen::prop_name(r);
        let mut params = vec![];
        let mut tp = BTreeMap::new();
        for _ in 0..r.small(3) {
            let k = gen::param_name(r);
            if tp.contains_key(&k) {
                continue;
            }
            let v = match r.below(12) {
                0 | 1 => None,
                2 => Some(String::new()),
                _ => Some(gen::param_value_for(r, &k)),
            };
            tp.insert(k.clone(), v.clone().unwrap_or_default());
            params.push(parser::Parameter { key: k.into(), val: v.map(Into::into) });
        }
        let val = gen::text(r, ANY);
        (
            parser::Property { name: name.clone().into(), val: val.clone().into(), params },
            TProp { name, params: tp, val },
        )
    }
    fn comp(r: &mut Rng, depth: usize) -> (parser::Component<'static>, Vec<(String, Vec<TProp>)>) {
        // flat list of (name, properties) in the order of writing
        let name = (*r.pick(&["VEVENT", "VTODO", "VALARM", "X-COMP", "VTIMEZONE"])).to_string();
        let (mut ps, mut ts) = (vec![], vec![]);
        for _ in 0..r.small(5) {
            let (p, t) = prop(r);
            ps.push(p);
            ts.push(t);
        }
        let mut flat = vec![(name.clone(), ts)];
        let mut cs = vec![];
        if depth < 4 {
            for _ in 0..r.small(2) {
                let (c, f) = comp(r, depth + 1);
                cs.push(c);
                flat.extend(f);
            }
        }
        (parser::Component { name: name.into(), properties: ps, components: cs }, flat)
    }
    fn flatten(c: &XComp, out: &mut Vec<(String, Vec<TProp>)>) {
        out.push((c.name.clone(), c.props.iter().map(t_of_xprop).collect()));
        for c in &c.comps {
            flatten(c, out);
        }
    }
    let (mut ps, mut ts) = (vec![], vec![]);
    for _ in 0..r.small(4) {
        let (p, t) = prop(&mut r);
        ps.push(p);
        ts.push(t);
    }
    let mut flat = vec![("VCALENDAR".to_string(), ts)];
    let mut cs = vec![];
    for _ in 0..r.small(3) {
        let (c, f) = comp(&mut r, 1);
        cs.push(c);
        flat.extend(f);
    }
    let cal = parser::Calendar { properties: ps, components: cs };
    let text = cal.to_string();
    ctx.sample(|| clip(&text, 500));
    ctx.nontrivial(&text);
    let Some(tree) = strict(ctx, &text) else {
        return;
    };
    if tree.len() != 1 {
        return ctx.fail("not one VCALENDAR", clip(&format!("{text:?}"), 4000));
    }
    let mut got = vec![];
    flatten(&tree[0], &mut got);
    for (g, w) in got.iter_mut().zip(flat.iter_mut()) {
        for (g, w) in g.1.iter_mut().zip(w.1.iter_mut()) {
            blur_prop(g, w);
        }
    }
    ctx.eq("parsed tree as written", &got, &flat, &text);
    // a parameter that has a value, if an empty one, has an equals sign
    fn empties(c: &parser::Component, out: &mut Vec<String>) {
        let empty = |q: &&parser::Parameter| q.val.as_ref().is_some_and(|v| v.as_str().is_empty());
        out.extend(c.properties.iter().flat_map(|p| p.params.iter().filter(empty)).map(|q| q.key.as_str().to_string()));
        c.components.iter().for_each(|c| empties(c, out));
    }
    let mut keys = vec![];
    cal.components.iter().for_each(|c| empties(c, &mut keys));
    let lines = reader::logical_lines(&text).unwrap_or_default();
    for k in keys {
        let there = lines.iter().any(|l| [":", ";"].iter().any(|e| l.contains(&format!(";{k}={e}"))));
        let quoted = || lines.iter().any(|l| l.contains(&format!(";{k}=\"\"")));
        ctx.check(there || quoted(), "empty parameter value", || format!("{k} lacks its equals sign in {text:?}"));
        ctx.obs("empty parameter values");
    }
    ctx.obs("parsed trees");
}

/// large in one direction: built, and parsed and written again
fn c04_scale(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let (c, m, _, _) = scale::built(&mut r, ctx.case);
    let text = Calendar::from(c).to_string();
    ctx.nontrivial(&text);
    let Some(tree) = strict(ctx, &text) else {
        return;
    };
    let want = [m.tree()];
    let got: Vec<_> = tree.iter().flat_map(|c| c.comps.iter().map(t_of_x)).collect();
    if !ctx.eq("components", &got, &want.to_vec(), &text) {
        return;
    }
    let (doc, _, _) = scale::of_case(&mut r, ctx.case);
    let src = gen::lines_of(&doc).join("\n");
    match parser::read_calendar(&src) {
        Ok(tree) => {
            strict(ctx, &tree.to_string());
            strict(ctx, &Calendar::from(tree).to_string());
        }
        Err(e) => ctx.fail("read_calendar", e),
    }
    ctx.obs("large calendars");
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        level: "exploration",
        rule: "A case is one builder program (or one hand-made parsed tree, or one property at one alignment of \
               the fold) whose output is read by a strict independent RFC 5545 reader and compared with the model. \
               Non-trivial: distinct outputs.",
        sections: vec![
            sec("scale", scale::SWEEP, 4 * scale::SWEEP, c04_scale),
            sec("calendar", 120_000, 2_400_000, c04_calendar),
            sec("component", 120_000, 2_400_000, c04_component),
            sec("fold", 19_200, 384_000, c04_fold),
            sec("params", 400_000, 8_000_000, c04_params),
            sec("parser_tree", 160_000, 3_200_000, c04_parser_tree),
        ],
        require: vec![
            ("large calendars", 700),
            ("folded lines", 1000),
            ("content lines", 1000),
            ("fold alignments", 1000),
            ("quoted parameters", 100),
            ("parsed trees", 100),
        ],
        extra: None,
        assumptions: vec![
            "names are RFC 5545 names; parameter values are free of double quotes and control characters",
        ],
    }
}

// -------------------------------------------------------------------------------------- C22

fn type_name(v: ValueType) -> &'static str {
    match v {
        ValueType::Binary => "BINARY",
        ValueType::Boolean => "BOOLEAN",
        ValueType::CalAddress => "CAL-ADDRESS",
        ValueType::Date => "DATE",
        ValueType::DateTime => "DATE-TIME",
        ValueType::Duration => "DURATION",
        ValueType::Float => "FLOAT",
        ValueType::Integer => "INTEGER",
        ValueType::Period => "PERIOD",
        ValueType::Recur => "RECUR",
        ValueType::Text => "TEXT",
        ValueType::Time => "TIME",
        ValueType::Uri => "URI",
        ValueType::UtcOffset => "UTC-OFFSET",
    }
}

fn c22_one(ctx: &mut Ctx, name: &str, vp: Option<&str>) {
    let want = type_of(name, vp);
    let mut p = Property::new(name, r"a\,b\;c\nd\\e,f;g");
    // other parameters have no say, in whatever order they come
    p.add_parameter("X-VALUE", "TEXT");
    if let Some(v) = vp {
        p.add_parameter("VALUE", v);
    }
    p.add_parameter("value", "URI");
    ctx.eq("value_type", &p.value_type().map(type_name), &want, &format!("{name} VALUE={vp:?}"));
    ctx.obs("types");

    // the writer: escaped exactly if TEXT
    let Some(text) = prop_string(ctx, &p) else {
        return;
    };
    let Some(x) = raw_value(ctx, &text) else {
        return;
    };
    let text_type = want == Some("TEXT");
    let escaped = x.val != p.value();
    ctx.check(escaped == text_type, "escaped on writing", || format!("type {want:?}: {text:?}"));
    // the parser: unescaped exactly if TEXT
    let params = vp.map(|v| format!(";VALUE={v}")).unwrap_or_default();
    let line = format!("{name};X-VALUE=TEXT{params}:{}", p.value());
    match parser::Property::try_from(line.as_str()) {
        Ok(q) => {
            let unescaped = q.val.as_str() != p.value();
            ctx.check(unescaped == text_type, "unescaped on reading", || format!("type {want:?}: {line:?} -> {q:?}"));
            let t = Property::from(q.clone());
            ctx.eq("value_type after parsing", &t.value_type().map(type_name), &want, &line);
            // and the parser's writer
            let out = q.to_string();
            match parser::Property::try_from(parser::unfold(&out).as_str()) {
                Ok(again) => {
                    ctx.eq("rewritten", &x_prop(&again), &x_prop(&q), &out);
                }
                Err(e) => ctx.fail("rewritten", e),
            }
        }
        Err(e) => ctx.fail("parse", format!("{e} for {line:?}")),
    }
}

fn c22_table(ctx: &mut Ctx) {
    let names = reader::TYPE_TABLE;
    let name = names[(ctx.case % names.len() as u64) as usize].0;
    let mut variants =
        vec![name.to_string(), format!("{name}S"), format!("X-{name}"), name[..name.len() - 1].to_string()];
    let lower = name.to_lowercase();
    let mut mixed = name.to_string();
    if let Some(c) = mixed.get(..1) {
        let c = c.to_string();
        mixed = format!("{c}{}", lower.get(1..).unwrap_or(""));
    }
    variants.push(lower);
    variants.push(mixed);
    let mut types: Vec<Option<&str>> = vec![None];
    types.extend(reader::TYPES.iter().map(|t| Some(*t)));
    types.extend([
        Some("text"),
        Some("Text"),
        Some("TEXT "),
        Some("DATETIME"),
        Some("X-TEXT"),
        Some("UTC_OFFSET"),
        Some("CALADDRESS"),
    ]);
    for n in &variants {
        if n.is_empty() || n.eq_ignore_ascii_case("end") {
            continue;
        }
        for t in &types {
            ctx.nontrivial(&format!("{n}/{t:?}"));
            c22_one(ctx, n, *t);
        }
    }
    ctx.sample(|| format!("{variants:?} x {types:?}"));
}

fn c22_random(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let name = gen::prop_name(&mut r);
    let vp = match r.below(4) {
        0 => None,
        1 => Some(gen::ascii_word(&mut r, 8).to_uppercase()),
        2 => Some((*r.pick(gen::VALUE_TYPES)).to_string()),
        _ => {
            // one letter away from a type
            let mut v: Vec<char> = r.pick(gen::VALUE_TYPES).chars().collect();
            let i = r.below(v.len());
            match r.below(3) {
                0 => {
                    v.remove(i);
                }
                1 => v[i] = v[i].to_ascii_lowercase(),
                _ => v.insert(i, 'X'),
            }
            Some(v.into_iter().collect::<String>()).filter(|s: &String| !s.is_empty())
        }
    };
    ctx.nontrivial(&format!("{name}/{vp:?}"));
    c22_one(ctx, &name, vp.as_deref());
    // names of the types themselves
    let s = vp.unwrap_or_else(|| gen::text(&mut r, ANY));
    let want = reader::TYPES.iter().find(|t| **t == s).copied();
    ctx.eq("ValueType::from_str", &ValueType::from_str(&s).ok().map(type_name), &want, &s);
    let got = ValueType::try_from(Parameter::new("VALUE", &s)).ok().map(type_name);
    ctx.eq("ValueType of a VALUE parameter", &got, &want, &s);
    let got = ValueType::try_from(Parameter::new("X-VALUE", &s)).ok().map(type_name);
    ctx.eq("ValueType of another parameter", &got, &None, &s);
    if let Ok(v) = ValueType::from_str(&s) {
        let p = Parameter::from(v);
        ctx.eq("parameter of a type", &(p.key(), p.value()), &("VALUE", s.as_str()), &s);
        ctx.obs("types to parameters");
    }
}

pub fn c22() -> Prop {
    Prop {
        id: "C22",
        level: "exploration",
        rule: "A case is a property name with variants of its spelling, combined with every VALUE parameter of RFC \
               5545, unknown ones and none. Non-trivial: distinct (name, VALUE) pairs. The table of names is \
               enumerated completely.",
        sections: vec![
            sec("table", reader::TYPE_TABLE.len() as u64, reader::TYPE_TABLE.len() as u64, c22_table),
            sec("random", 1_200_000, 24_000_000, c22_random),
        ],
        require: vec![("types", 5000), ("types to parameters", 100)],
        extra: None,
        assumptions: vec!["the table in harness/src/reader.rs is RFC 5545 sections 3.7 and 3.8 plus the names of C03"],
    }
}
