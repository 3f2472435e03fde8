//! C05 (folding), C06 (line endings), C07 (exact parse), C08 (structural faults),
//! C09 (rewriting), C10 (typed conversion), C18 (JSON).

use crate::conv::*;
use crate::gen::{self, DComp, DItem, DocOpts, Eol, Layout, DEFAULT_DOC, PLAIN_LAYOUT};
use crate::reader::{self, is_text, ref_unfold, structure, Structure, XComp, XProp};
use crate::rng::Rng;
use crate::rt::*;
use crate::scale;
use icalendar::parser;
use icalendar::*;
use std::collections::BTreeMap;

// ------------------------------------------------------------------------- shared observations

/// What a document means to `read_calendar` and `Calendar::from_str`.
pub fn calendar_view(roots: &[XComp]) -> (Vec<XProp>, Vec<XComp>) {
    match roots.first() {
        Some(c) if c.name == "VCALENDAR" => (c.props.clone(), c.comps.clone()),
        _ => (vec![], roots.to_vec()),
    }
}

pub fn typed_view(roots: &[XComp]) -> TCal {
    let (props, comps) = calendar_view(roots);
    TCal { props: props.iter().map(t_of_xprop).collect(), comps: comps.iter().map(t_of_x).collect() }
}

/// All whole-document entry points give this tree.
fn reads_as(ctx: &mut Ctx, text: &str, want: &[XComp]) -> bool {
    match parser::read_components(text) {
        Ok(got) => {
            if !ctx.eq("read_components", &x_comps(&got), &want.to_vec(), text) {
                return false;
            }
        }
        Err(e) => {
            ctx.fail("read_components", format!("{e}\n  input: {}", clip(&format!("{text:?}"), 4000)));
            return false;
        }
    }
    match parser::read_calendar_simple(text) {
        Ok(got) => {
            ctx.eq("read_calendar_simple", &x_comps(&got), &want.to_vec(), text);
        }
        Err(e) => ctx.fail("read_calendar_simple", format!("{e:?}\n  input: {}", clip(&format!("{text:?}"), 4000))),
    }
    match parser::read_calendar(text) {
        Ok(got) => {
            ctx.eq("read_calendar", &x_cal(&got), &calendar_view(want), text);
        }
        Err(e) => ctx.fail("read_calendar", format!("{e}\n  input: {}", clip(&format!("{text:?}"), 4000))),
    }
    ctx.obs("documents read");
    ctx.obs_n("items compared", want.iter().map(|c| c.size() as u64).sum());
    !ctx.failed()
}

fn typed_reads_as(ctx: &mut Ctx, text: &str, want: &TCal) -> bool {
    match text.parse::<Calendar>() {
        Ok(got) => {
            let mut bad = vec![];
            let ok = ctx.eq("Calendar::from_str", &t_cal(&got, &mut bad), want, text);
            ctx.check(bad.is_empty(), "map invariant", || bad.join("; "));
            ctx.obs("calendars read");
            ok
        }
        Err(e) => {
            ctx.fail("Calendar::from_str", format!("{e}\n  input: {}", clip(&format!("{text:?}"), 4000)));
            false
        }
    }
}

pub fn any_layout(r: &mut Rng) -> Layout {
    Layout {
        eol: *r.pick(&[Eol::Lf, Eol::Crlf, Eol::Mixed]),
        fold: 0,
        blank: *r.pick(&[0, 0, 2, 5]),
        final_eol: !r.one_in(4),
    }
}

pub fn any_doc(r: &mut Rng) -> Vec<DComp> {
    match r.below(6) {
        0 => gen::realistic(r),
        1 => gen::document(r, &DocOpts { roots: 1 + r.clone().below(4), calendar_root: false, ..DEFAULT_DOC }),
        2 => gen::document(r, &DocOpts { roots: 2, ..DEFAULT_DOC }),
        _ => gen::document(r, &DEFAULT_DOC),
    }
}

// -------------------------------------------------------------------------------------- C05

fn unfolds(ctx: &mut Ctx, s: &str) -> bool {
    ctx.eq("unfold", &parser::unfold(s), &ref_unfold(s), s)
}

const FOLD_CHARS: [char; 7] = ['\r', '\n', ' ', '\t', 'a', 'é', '\u{1f600}'];

/// all strings of 7 characters over the alphabet (the shorter ones are their tails), 343 per case
fn c05_small(ctx: &mut Ctx) {
    for k in 0..343u64 {
        let mut i = ctx.case * 343 + k;
        let mut s = String::new();
        for _ in 0..7 {
            s.push(FOLD_CHARS[(i % 7) as usize]);
            i /= 7;
        }
        // tails of every length, each only once
        let mut tail = s.as_str();
        loop {
            ctx.obs("small strings enumerated");
            if !unfolds(ctx, tail) {
                return;
            }
            if tail.contains("\n ") || tail.contains("\n\t") {
                ctx.obs("small strings with a fold");
            }
            match tail.chars().next() {
                Some('\r') if tail.len() > 1 => tail = &tail[1..],
                _ => break,
            }
        }
        ctx.nontrivial(&s);
    }
}

fn c05_text(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let mut s = String::new();
    for _ in 0..r.below(30) {
        match r.below(4) {
            0 => s.push_str(r.pick(&["\r\n ", "\n ", "\r\n\t", "\n\t"])),
            1 => s.push_str(r.pick(&[
                "\r",
                "\n",
                "\r\n",
                " ",
                "\t",
                "\n\n ",
                "\r\r\n ",
                "\n \n ",
                "\n\r ",
                "\r ",
                "\r\t",
                "\n\u{a0}",
                "\n\u{3000}",
                "\u{2028} ",
                "\u{85} ",
            ])),
            _ => s.push_str(&gen::text(&mut r, gen::ANY)),
        }
    }
    ctx.sample(|| clip(&format!("{s:?}"), 400));
    if s.contains("\n ") || s.contains("\n\t") {
        ctx.nontrivial(&s);
        ctx.obs("texts with folds");
    }
    unfolds(ctx, &s);
}

fn c05_refold(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let doc = any_doc(&mut r);
    let want = gen::expect_of(&doc);
    let typed = typed_view(&want);
    let lines = gen::lines_of(&doc);
    let plain = gen::layout(&mut r, &lines, &PLAIN_LAYOUT);
    ctx.nontrivial(&plain);
    for _ in 0..4 {
        let l = Layout { fold: *r.pick(&[2, 3, 10, 40, 75]), ..any_layout(&mut r) };
        let text = gen::layout(&mut r, &lines, &l);
        ctx.sample(|| clip(&text, 500));
        ctx.obs_n("folds", (text.matches("\n ").count() + text.matches("\n\t").count()) as u64);
        let flat = parser::unfold(&text);
        if !ctx.eq("unfold", &flat, &ref_unfold(&text), &text) || !reads_as(ctx, &flat, &want) {
            return;
        }
        if !typed_reads_as(ctx, &text, &typed) {
            return;
        }
        ctx.obs("refolded documents");
    }
    // single components and properties
    let c = &doc[r.below(doc.len())];
    let mut ls = vec![];
    c.lines(&mut ls);
    let l = Layout { fold: 8, blank: 0, ..any_layout(&mut r) };
    let text = gen::layout(&mut r, &ls, &l);
    match text.parse::<CalendarComponent>() {
        Ok(got) => {
            ctx.eq("CalendarComponent::from_str", &t_cc(&got, &mut vec![]), &t_of_x(&c.expect()), &text);
            ctx.obs("refolded components");
        }
        Err(e) => ctx.fail("CalendarComponent::from_str", format!("{e} for {text:?}")),
    }
    let ps: Vec<_> = c
        .items
        .iter()
        .filter_map(|i| match i {
            DItem::Prop(p) => Some(p),
            DItem::Comp(_) => None,
        })
        .collect();
    if !ps.is_empty() {
        let p = ps[r.below(ps.len())];
        let l = Layout { fold: 6, blank: 0, ..any_layout(&mut r) };
        let text = gen::layout(&mut r, &[p.spell()], &l);
        match text.parse::<Property>() {
            Ok(got) => {
                ctx.eq("Property::from_str", &t_prop(&got, &mut vec![]), &t_of_xprop(&p.expect()), &text);
                ctx.obs("refolded properties");
            }
            Err(e) => ctx.fail("Property::from_str", format!("{e} for {text:?}")),
        }
    }
}

/// every fold position of one line, with every kind of fold
fn c05_positions(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let o = DocOpts { bare: false, ..DEFAULT_DOC };
    let p = gen::doc_prop(&mut r, &o);
    let line = p.spell();
    if line.len() > 400 {
        return;
    }
    let want = TCal {
        props: vec![],
        comps: vec![t_of_x(&XComp { name: "VEVENT".into(), props: vec![p.expect()], comps: vec![] })],
    };
    ctx.nontrivial(&line);
    for (at, _) in line.char_indices().skip(1) {
        for fold in ["\r\n ", "\n ", "\r\n\t", "\n\t"] {
            let nl = &fold[..fold.len() - 1];
            let text = format!(
                "BEGIN:VCALENDAR{nl}BEGIN:VEVENT{nl}{}{fold}{}{nl}END:VEVENT{nl}END:VCALENDAR{nl}",
                &line[..at],
                &line[at..]
            );
            ctx.obs("fold positions");
            if !typed_reads_as(ctx, &text, &want) {
                return;
            }
        }
    }
}

/// one line in very many pieces, and very many folded lines
fn c05_many(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let n = scale::size(ctx.case, 8, &mut r);
    let fold = ["\r\n ", "\n ", "\r\n\t", "\n\t"][(ctx.case % 4) as usize];
    let nl = &fold[..fold.len() - 1];
    let pieces: Vec<String> = (0..n).map(|i| ["ab", "x", "\u{4e2d}", "  y"][i % 4].to_string()).collect();
    let folded = pieces.join(fold);
    ctx.obs("texts of many pieces");
    ctx.obs_n("folds", n.saturating_sub(1) as u64);
    ctx.nontrivial(&folded);
    if ctx.case % 8 < 4 {
        // in one line
        if !unfolds(ctx, &folded) || !ctx.eq("unfold", &parser::unfold(&folded), &pieces.concat(), &folded) {
            return;
        }
        let text = format!("BEGIN:VCALENDAR{nl}X-L:{fold}{folded}{nl}X-M:1{nl}END:VCALENDAR{nl}");
        let p = |name: &str, val: String| TProp { name: name.into(), params: BTreeMap::new(), val };
        let want = TCal { props: vec![p("X-L", pieces.concat()), p("X-M", "1".into())], comps: vec![] };
        typed_reads_as(ctx, &text, &want);
    } else {
        let lines: String = pieces.iter().map(|p| format!("COMMENT:a{fold}{p}{nl}")).collect();
        let want: String = pieces.iter().map(|p| format!("COMMENT:a{p}{nl}")).collect();
        if !unfolds(ctx, &lines) {
            return;
        }
        ctx.eq("unfold", &parser::unfold(&lines), &want, &lines);
    }
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        level: "exploration",
        rule: "A case is a string given to unfold and compared with an independent unfolding, or a document in \
               several random foldings (any position between characters, CRLF or LF, space or tab, several folds \
               in one place) that all have to parse to the tree the document was generated from. Non-trivial: \
               distinct strings with a fold, distinct documents. All strings of up to 7 characters over CR, LF, \
               space, tab and characters of 1, 2 and 4 octets are enumerated.",
        sections: vec![
            sec("small", 2401, 2401, c05_small),
            sec("text", 180_000, 3_600_000, c05_text),
            sec("refold", 36_000, 720_000, c05_refold),
            sec("positions", 4_500, 90_000, c05_positions),
            sec("many", 8 * scale::SIZES.len() as u64, 40 * scale::SIZES.len() as u64, c05_many),
        ],
        require: vec![
            ("small strings with a fold", 10_000),
            ("texts with folds", 1000),
            ("folds", 10_000),
            ("fold positions", 10_000),
            ("refolded documents", 1000),
            ("refolded components", 1000),
            ("refolded properties", 500),
            ("texts of many pieces", 300),
        ],
        extra: None,
        assumptions: vec!["folds are between characters, not inside of the octets of one character"],
    }
}

// -------------------------------------------------------------------------------------- C06

fn c06_random(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let doc = any_doc(&mut r);
    let want = gen::expect_of(&doc);
    let typed = typed_view(&want);
    let lines = gen::lines_of(&doc);
    ctx.nontrivial(&lines.join("\n"));
    for k in 0..8 {
        let l = Layout {
            eol: [Eol::Lf, Eol::Crlf, Eol::Mixed, Eol::Mixed][k % 4],
            fold: 0,
            blank: *r.pick(&[0, 1, 2, 5]),
            final_eol: r.one_in(2),
        };
        let text = gen::layout(&mut r, &lines, &l);
        ctx.sample(|| clip(&format!("{text:?}"), 400));
        if text.contains("\r\n") && text.replace("\r\n", "").contains('\n') {
            ctx.obs("documents with both line endings");
        }
        ctx.obs_n("blank lines", (text.matches("\n\n").count() + text.matches("\n\r\n").count()) as u64);
        if !reads_as(ctx, &text, &want) || !typed_reads_as(ctx, &text, &typed) {
            return;
        }
        ctx.obs("layouts");
    }
}

const TINY: &[&[&str]] = &[
    &["BEGIN:VEVENT", "END:VEVENT"],
    &["BEGIN:VCALENDAR", "SUMMARY:a\\nb", "END:VCALENDAR"],
    &["BEGIN:VCALENDAR", "X-FOO;A=\"b:c\":", "END:VCALENDAR"],
    &["BEGIN:VCALENDAR", "X-BARE", "END:VCALENDAR"],
    &["BEGIN:VCALENDAR", "X-FOO;A:b", "URL:c d ", "END:VCALENDAR"],
    &["BEGIN:VCALENDAR", "BEGIN:VEVENT", "END:VEVENT", "END:VCALENDAR"],
    &["BEGIN:VEVENT", "END:VEVENT", "BEGIN:VTODO", "END:VTODO"],
    &["BEGIN:VCALENDAR", "BEGIN:VEVENT", "A: b", "END:VEVENT", "END:VCALENDAR"],
    &["BEGIN:VCALENDAR", "BEGIN:VEVENT", "ENDS", "END:VEVENT", "END:VCALENDAR"],
];

fn tiny_tree(lines: &[&str]) -> Vec<XComp> {
    match structure(&lines.join("\n")) {
        Structure::WellFormed(t) => t,
        _ => panic!("harness: tiny document {lines:?} is not well-formed"),
    }
}

/// every assignment of line endings (LF, CRLF; the last line also none) and blank lines (none, LF, CRLF)
fn c06_tiny(ctx: &mut Ctx) {
    let doc = TINY[(ctx.case % TINY.len() as u64) as usize];
    let part = ctx.case / TINY.len() as u64; // 32 parts
    let want = tiny_tree(doc);
    let n = doc.len();
    let total = 2u64.pow(n as u32 - 1) * 3 * 3u64.pow(n as u32);
    // the blank line after an unterminated last line would be its terminator
    let mut i = part;
    while i < total {
        let mut k = i;
        i += 32;
        let mut take = |b: u64| {
            let v = k % b;
            k /= b;
            v
        };
        let mut text = String::new();
        let blank = |t: &mut String, v: u64| match v {
            1 => t.push('\n'),
            2 => t.push_str("\r\n"),
            _ => {}
        };
        blank(&mut text, take(3));
        for (j, l) in doc.iter().enumerate() {
            text.push_str(l);
            if j + 1 < n {
                text.push_str(if take(2) == 0 { "\n" } else { "\r\n" });
                blank(&mut text, take(3));
            } else {
                blank(&mut text, take(3));
            }
        }
        ctx.obs("assignments enumerated");
        ctx.nontrivial(&text);
        if !reads_as(ctx, &text, &want) {
            return;
        }
    }
}

fn c06_property(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let p = gen::doc_prop(&mut r, &DEFAULT_DOC);
    let want = p.expect();
    for end in ["", "\n", "\r\n", "\n\n", "\r\n\r\n", "\r\n\n"] {
        let text = format!("{}{end}", p.spell());
        match parser::Property::try_from(text.as_str()) {
            Ok(got) => {
                ctx.eq("Property::try_from", &x_prop(&got), &want, &text);
            }
            Err(e) => ctx.fail("Property::try_from", format!("{e} for {text:?}")),
        }
        match text.parse::<Property>() {
            Ok(got) => {
                ctx.eq("Property::from_str", &t_prop(&got, &mut vec![]), &t_of_xprop(&want), &text);
            }
            Err(e) => ctx.fail("Property::from_str", format!("{e} for {text:?}")),
        }
        ctx.obs("property endings");
    }
    ctx.nontrivial(&p.spell());
    let o = DocOpts { max_items: 4, ..DEFAULT_DOC };
    let c = gen::doc_comp(&mut r, &o, "VTODO");
    let mut ls = vec![];
    c.lines(&mut ls);
    for eol in [Eol::Lf, Eol::Crlf, Eol::Mixed] {
        let l = Layout { eol, fold: 0, blank: *r.pick(&[0, 2]), final_eol: r.one_in(2) };
        let text = gen::layout(&mut r, &ls, &l);
        match parser::Component::try_from(text.as_str()) {
            Ok(got) => {
                ctx.eq("Component::try_from", &x_comp(&got), &c.expect(), &text);
            }
            Err(e) => ctx.fail("Component::try_from", format!("{e} for {text:?}")),
        }
        match text.parse::<CalendarComponent>() {
            Ok(got) => {
                ctx.eq("CalendarComponent::from_str", &t_cc(&got, &mut vec![]), &t_of_x(&c.expect()), &text);
            }
            Err(e) => ctx.fail("CalendarComponent::from_str", format!("{e} for {text:?}")),
        }
        ctx.obs("component layouts");
    }
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        level: "exploration",
        rule: "A case is a document in several layouts - LF, CRLF or both, blank lines before, between and after \
               content lines, last line terminated or not - all of which have to parse to the tree the document \
               was generated from. Non-trivial: distinct documents. For nine tiny documents every assignment of \
               line endings and blank lines is enumerated.",
        sections: vec![
            sec("random", 32_000, 640_000, c06_random),
            sec("tiny", 32 * TINY.len() as u64, 32 * TINY.len() as u64, c06_tiny),
            sec("single", 60_000, 1_200_000, c06_property),
        ],
        require: vec![
            ("assignments enumerated", 10_000),
            ("documents with both line endings", 1000),
            ("blank lines", 1000),
            ("layouts", 1000),
            ("property endings", 1000),
            ("component layouts", 1000),
        ],
        extra: None,
        assumptions: vec!["a blank line is an empty one"],
    }
}

// -------------------------------------------------------------------------------------- C07

fn c07_doc(ctx: &mut Ctx, r: &mut Rng, doc: &[DComp]) {
    let want = gen::expect_of(doc);
    let lines = gen::lines_of(doc);
    let l = any_layout(r);
    let text = gen::layout(r, &lines, &l);
    ctx.sample(|| clip(&text, 600));
    ctx.nontrivial(&text);
    if !reads_as(ctx, &text, &want) {
        return;
    }
    if !typed_reads_as(ctx, &text, &typed_view(&want)) {
        return;
    }
    // the string parsers of single components
    for (c, w) in doc.iter().zip(&want) {
        let mut ls = vec![];
        c.lines(&mut ls);
        let l = any_layout(r);
        let text = gen::layout(r, &ls, &l);
        match parser::Component::try_from(text.as_str()) {
            Ok(got) => {
                if !ctx.eq("Component::try_from", &x_comp(&got), w, &text) {
                    return;
                }
                find_props(ctx, &got, w);
                ctx.obs("single components");
            }
            Err(e) => return ctx.fail("Component::try_from", format!("{e} for {text:?}")),
        }
        match text.parse::<CalendarComponent>() {
            Ok(got) => {
                ctx.eq("CalendarComponent::from_str", &t_cc(&got, &mut vec![]), &t_of_x(w), &text);
            }
            Err(e) => return ctx.fail("CalendarComponent::from_str", format!("{e} for {text:?}")),
        }
        single_items(ctx, r, c);
        if ctx.failed() {
            return;
        }
    }
}

/// find_prop gives the first of that name
fn find_props(ctx: &mut Ctx, c: &parser::Component, w: &XComp) {
    let mut find = |name: &str| {
        let first = w.props.iter().find(|q| q.name == name);
        let got = c.find_prop(name).map(x_prop);
        ctx.check(got.as_ref() == first, "find_prop", || format!("{name:?}: {got:?}, the first is {first:?}"));
        ctx.obs("find_prop");
    };
    for p in w.props.iter().step_by(1 + w.props.len() / 100) {
        find(&p.name);
        find(&p.name.to_lowercase());
        find(&p.name.to_uppercase());
    }
    for n in ["X-NOT-THERE", "", "SUMMAR"] {
        if w.props.iter().all(|p| p.name != n) && c.find_prop(n).is_some() {
            ctx.fail("find_prop", format!("{n:?} was found"));
        }
    }
    for (c, w) in c.components.iter().zip(&w.comps) {
        find_props(ctx, c, w);
    }
}

/// the string parsers of single properties and parameters
fn single_items(ctx: &mut Ctx, r: &mut Rng, c: &DComp) {
    for i in &c.items {
        match i {
            DItem::Comp(c) => single_items(ctx, r, c),
            DItem::Prop(p) => {
                let text = format!("{}{}", p.spell(), r.pick(&["", "\n", "\r\n"]));
                match parser::Property::try_from(text.as_str()) {
                    Ok(got) => {
                        ctx.eq("Property::try_from", &x_prop(&got), &p.expect(), &text);
                        let t: Property = got.into();
                        ctx.eq("Property::from", &t_prop(&t, &mut vec![]), &t_of_xprop(&p.expect()), &text);
                    }
                    Err(e) => ctx.fail("Property::try_from", format!("{e} for {text:?}")),
                }
                match text.parse::<Property>() {
                    Ok(got) => {
                        ctx.eq("Property::from_str", &t_prop(&got, &mut vec![]), &t_of_xprop(&p.expect()), &text);
                    }
                    Err(e) => ctx.fail("Property::from_str", format!("{e} for {text:?}")),
                }
                ctx.obs("single properties");
                for q in &p.params {
                    let text = q.spell();
                    match parser::Parameter::try_from(text.as_str()) {
                        Ok(got) => {
                            ctx.eq(
                                "Parameter::try_from",
                                &(x_param(&got).key, x_param(&got).val),
                                &(q.key.clone(), q.expect()),
                                &text,
                            );
                            let t: Parameter = got.into();
                            ctx.eq(
                                "Parameter::from",
                                &(t.key(), t.value()),
                                &(q.key.as_str(), q.expect().unwrap_or_default().as_str()),
                                &text,
                            );
                        }
                        Err(e) => ctx.fail("Parameter::try_from", format!("{e} for {text:?}")),
                    }
                    ctx.obs("single parameters");
                }
            }
        }
        if ctx.failed() {
            return;
        }
    }
}

fn c07_random(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let doc = any_doc(&mut r);
    c07_doc(ctx, &mut r, &doc);
}

fn c07_deep(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let max_depth = r.range(6, 64) as usize;
    let o = DocOpts { max_depth, deep: true, calendar_root: r.one_in(2), ..DEFAULT_DOC };
    let doc = gen::document(&mut r, &o);
    let d = doc.iter().map(DComp::depth).max().unwrap_or(0);
    ctx.obs_n("levels", d as u64);
    if d == 64 {
        ctx.obs("documents of 64 levels");
    }
    c07_doc(ctx, &mut r, &doc);
}

fn c07_roots(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let o = DocOpts { roots: 2 + r.below(12), calendar_root: r.one_in(2), max_items: 4, max_depth: 3, ..DEFAULT_DOC };
    let doc = gen::document(&mut r, &o);
    ctx.obs_n("roots", doc.len() as u64);
    c07_doc(ctx, &mut r, &doc);
}

fn c07_wide(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let o = DocOpts { max_items: 60, max_depth: 4, ..DEFAULT_DOC };
    let mut doc = gen::document(&mut r, &o);
    // many children and many properties in one place
    if let Some(c) = doc.first_mut() {
        for _ in 0..r.below(200) {
            let item = if r.one_in(2) {
                DItem::Comp(gen::doc_comp(&mut r, &DocOpts { max_depth: 1, max_items: 2, ..DEFAULT_DOC }, "VEVENT"))
            } else {
                DItem::Prop(gen::doc_prop(&mut r, &DEFAULT_DOC))
            };
            let at = r.below(c.items.len() + 1);
            c.items.insert(at, item);
        }
    }
    c07_doc(ctx, &mut r, &doc);
}

/// large in one direction
fn c07_scale(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let (doc, _, n) = scale::of_case(&mut r, ctx.case);
    ctx.obs("large documents");
    ctx.obs_n("sizes", n as u64);
    c07_doc(ctx, &mut r, &doc);
}

/// every character there is, in values, quoted and plain parameters and lists
fn c07_chars(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let doc = gen::chars_doc(&mut r, ctx.case);
    ctx.obs_n("characters enumerated", gen::chars_of(ctx.case).chars().count() as u64);
    c07_doc(ctx, &mut r, &[doc]);
}

/// properties alone, many parameters
fn c07_property(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let mut p = gen::doc_prop(&mut r, &DEFAULT_DOC);
    if p.raw.is_some() && r.one_in(3) {
        for _ in 0..r.below(12) {
            p.params.push(gen::doc_param(&mut r));
        }
    }
    let c = DComp { name: "X-ONE".into(), items: vec![DItem::Prop(p)] };
    ctx.obs("property lines");
    c07_doc(ctx, &mut r, &[c]);
}

pub fn fixtures() -> Vec<(String, String)> {
    fn walk(dir: &std::path::Path, out: &mut Vec<(String, String)>) {
        let Ok(rd) = std::fs::read_dir(dir) else {
            return;
        };
        for e in rd.flatten() {
            let p = e.path();
            if p.is_dir() {
                walk(&p, out);
            } else if p.extension().is_some_and(|x| x == "ics") {
                if let Ok(s) = std::fs::read_to_string(&p) {
                    out.push((p.display().to_string(), s));
                }
            }
        }
    }
    let mut out = vec![];
    walk(std::path::Path::new("/repo/fixtures"), &mut out);
    walk(std::path::Path::new("/repo/tests"), &mut out);
    out.sort();
    out
}

fn c07_fixtures(ctx: &mut Ctx) {
    for (name, text) in fixtures() {
        for text in [text.clone(), text.replace("\r\n", "\n"), text.replace("\r\n", "\n").replace('\n', "\r\n")] {
            let flat = ref_unfold(&text);
            match structure(&flat) {
                Structure::WellFormed(want) => {
                    ctx.obs("fixtures compared");
                    ctx.nontrivial(&text);
                    if !reads_as(ctx, &flat, &want) || !typed_reads_as(ctx, &text, &typed_view(&want)) {
                        return;
                    }
                }
                Structure::Malformed(why, _, _) => {
                    ctx.obs("fixtures malformed");
                    if parser::read_components(&flat).is_ok() {
                        ctx.fail("fixture", format!("{name} is malformed ({why}) but accepted"));
                    }
                }
                Structure::NotApplicable => ctx.obs("fixtures out of scope"),
            }
        }
    }
}

pub fn c07() -> Prop {
    Prop {
        id: "C07",
        level: "exploration",
        rule: "A case is a document generated together with the tree it stands for; every entry point has to give \
               exactly that tree. Non-trivial: distinct documents. Shapes: random, realistic, nested up to 64 \
               levels, many roots, wide, single lines with many parameters, the fixtures of the repository \
               (against an independent reader).",
        sections: vec![
            sec("random", 50_000, 1_200_000, c07_random),
            sec("deep", 6_000, 120_000, c07_deep),
            sec("roots", 6_000, 120_000, c07_roots),
            sec("wide", 2_000, 40_000, c07_wide),
            sec("property", 80_000, 2_000_000, c07_property),
            sec("chars", gen::CHAR_CASES, 2 * gen::CHAR_CASES, c07_chars),
            sec("scale", scale::SWEEP, 4 * scale::SWEEP, c07_scale),
            sec("fixtures", 1, 1, c07_fixtures),
        ],
        require: vec![
            ("documents read", 10_000),
            ("documents of 64 levels", 5),
            ("roots", 5000),
            ("single components", 10_000),
            ("single properties", 10_000),
            ("single parameters", 5_000),
            ("find_prop", 1000),
            ("fixtures compared", 6),
            ("characters enumerated", 10_000),
            ("large documents", 500),
        ],
        extra: None,
        assumptions: vec![
            "parameters are written without blanks around their name",
            "values are free of control characters",
        ],
    }
}

// -------------------------------------------------------------------------------------- C08

/// The judge: what does the document say, what does the library make of it?
fn judge(ctx: &mut Ctx, text: &str) {
    match structure(text) {
        Structure::NotApplicable => ctx.obs("out of scope"),
        Structure::Malformed(why, roots, _) => {
            ctx.obs("malformed documents");
            let mut bad = |who: &str, got: String| {
                ctx.fail(
                    format!("{who} accepts a malformed document"),
                    format!("{why}\n  input: {}\n  got: {}", clip(&format!("{text:?}"), 4000), clip(&got, 2000)),
                )
            };
            if let Ok(c) = parser::read_components(text) {
                bad("read_components", format!("{c:?}"));
            }
            if let Ok(c) = parser::read_calendar_simple(text) {
                bad("read_calendar_simple", format!("{c:?}"));
            }
            if let Ok(c) = parser::read_calendar(text) {
                bad("read_calendar", format!("{c:?}"));
            }
            if let Ok(c) = text.parse::<Calendar>() {
                bad("Calendar::from_str", format!("{c:?}"));
            }
            if roots == 0 {
                if let Ok(c) = parser::Component::try_from(text) {
                    bad("Component::try_from", format!("{c:?}"));
                }
                if let Ok(c) = text.parse::<CalendarComponent>() {
                    bad("CalendarComponent::from_str", format!("{c:?}"));
                }
                ctx.obs("malformed first components");
            }
        }
        Structure::WellFormed(want) => {
            ctx.obs("faults that leave a well-formed document");
            if let Ok(c) = parser::read_components(text) {
                ctx.eq("read_components", &x_comps(&c), &want, text);
            }
            if let Ok(c) = parser::read_calendar_simple(text) {
                ctx.eq("read_calendar_simple", &x_comps(&c), &want, text);
            }
            if let Ok(c) = parser::read_calendar(text) {
                ctx.eq("read_calendar", &x_cal(&c), &calendar_view(&want), text);
            }
            if let Ok(c) = text.parse::<Calendar>() {
                ctx.eq("Calendar::from_str", &t_cal(&c, &mut vec![]), &typed_view(&want), text);
            }
            if let (Ok(c), Some(w)) = (parser::Component::try_from(text), want.first()) {
                ctx.eq("Component::try_from", &x_comp(&c), w, text);
            }
        }
    }
}

pub fn fault_doc(r: &mut Rng) -> Vec<DComp> {
    let o = match r.below(5) {
        0 => DocOpts { max_items: 3, max_depth: 3, ..DEFAULT_DOC },
        1 => DocOpts { roots: 2, max_items: 3, max_depth: 2, calendar_root: r.one_in(2), ..DEFAULT_DOC },
        2 => DocOpts { deep: true, max_depth: 8, ..DEFAULT_DOC },
        3 => return gen::realistic(r),
        _ => DocOpts { max_items: 5, ..DEFAULT_DOC },
    };
    gen::document(r, &o)
}

pub fn join(r: &mut Rng, lines: &[String], eol: Eol) -> String {
    let l = Layout { eol, fold: 0, blank: 0, final_eol: true };
    gen::layout(r, lines, &l)
}

/// every truncation point
fn c08_truncate(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let doc = fault_doc(&mut r);
    let lines = gen::lines_of(&doc);
    let eol = *r.pick(&[Eol::Lf, Eol::Crlf, Eol::Mixed]);
    let text = join(&mut r, &lines, eol);
    if text.len() > 4000 {
        return;
    }
    ctx.sample(|| clip(&text, 500));
    ctx.nontrivial(&text);
    for (i, _) in text.char_indices() {
        judge(ctx, &text[..i]);
        ctx.obs("truncations");
        if ctx.failed() {
            return;
        }
    }
}

const JUNK: &[&str] = &[
    "junk line",
    "JUNK LINE WITHOUT COLON",
    "JUNK;",
    "JUNK;A",
    "JUNK;A=",
    "JUNK;A=b",
    "JUNK;A=\"b:c\"",
    "JUNK;A=b,c",
    "=",
    ";",
    "\"",
    "\"junk\"",
    "JUNK=1",
    "@",
    "SUMMARY",
    "X-JUNK",
    "JUNK;A=\"b",
    "SUMMARY;X",
    "\\",
    "\\n",
    "J\u{fc}NK X",
    "SUMMARY text",
    "BEGIN",
    "END",
    "BEGIN VEVENT",
    "END VEVENT",
    "BEGIN;VEVENT",
    "END;VEVENT",
    "BEGIN=VEVENT",
    "---",
    "*",
    "END:",
    "BEGIN:",
    "END: VEVENT",
    "BEGIN: VEVENT",
    "END:VEVENT",
    "BEGIN:VEVENT",
    "END:VCALENDAR",
    "BEGIN:VCALENDAR",
    "END:VEVENT;X",
    "END:VEVENT:",
    "BEGIN:VEVENT;X=1",
    "END:VEVENT END:VCALENDAR",
    "END:VEVENT X:y",
    "END:VCALENDAR X:y",
    "BEGIN:VEVENT X:y",
    "END:VEVENT\u{a0}",
];

fn without_colon(line: &str) -> Option<String> {
    let mut quoted = false;
    let at = line.find(|c: char| {
        if c == '"' {
            quoted = !quoted;
        }
        c == ':' && !quoted
    })?;
    Some(format!("{}{}", &line[..at], &line[at + 1..]))
}

/// A fault: the lines from..to are replaced.
#[derive(Clone)]
pub struct Fault {
    from: usize,
    to: usize,
    new: Vec<String>,
}

impl Fault {
    pub fn apply(&self, lines: &[String]) -> Vec<String> {
        let mut v = lines[..self.from].to_vec();
        v.extend(self.new.iter().cloned());
        v.extend(lines[self.to..].iter().cloned());
        v
    }
}

fn with(at: usize, new: &[String]) -> Fault {
    Fault { from: at, to: at + 1, new: new.to_vec() }
}

/// The single faults of a document at one line.
pub fn faults_at(r: &mut Rng, lines: &[String], i: usize) -> Vec<Fault> {
    let l = &lines[i];
    let mut out = vec![];
    // gone, twice, swapped
    out.push(with(i, &[]));
    out.push(with(i, &[l.clone(), l.clone()]));
    if i + 1 < lines.len() {
        out.push(Fault { from: i, to: i + 2, new: vec![lines[i + 1].clone(), l.clone()] });
    }
    if i > 0 {
        // glued to the line before
        out.push(Fault { from: i - 1, to: i + 1, new: vec![format!("{}{l}", lines[i - 1])] });
    }
    if let Some((head, name)) = l.split_once(':').filter(|(h, _)| *h == "BEGIN" || *h == "END") {
        let mut names = vec![
            format!("{name}X"),
            format!("X{name}"),
            format!("{name}-"),
            format!("{name} "),
            format!("{name}  x"),
            format!("{name} X:y"),
            format!(" {name}"),
            format!("{name};X=1"),
            format!("{name}:"),
            String::new(),
            "VEVENT".into(),
            "VCALENDAR".into(),
            "VALARM".into(),
            "V".into(),
        ];
        let mut chars: Vec<char> = name.chars().collect();
        chars.pop();
        names.push(chars.iter().collect());
        if !chars.is_empty() {
            chars.remove(0);
            names.push(chars.iter().collect());
        }
        for n in names {
            if n != name {
                out.push(with(i, &[format!("{head}:{n}")]));
            }
        }
        out.push(with(i, &[format!("{head}{name}")]));
        out.push(with(i, &[format!("{head} {name}")]));
        out.push(with(i, &[format!("{head};X=1:{name}")]));
        let other = if head == "BEGIN" { "END" } else { "BEGIN" };
        out.push(with(i, &[format!("{other}:{name}")]));
    } else if let Some(x) = without_colon(l) {
        out.push(with(i, &[x]));
        // the rest of the line is lost
        let cut = r.below(l.chars().count() + 1);
        out.push(with(i, &[l.chars().take(cut).collect()]));
    }
    for j in JUNK {
        // before this line
        out.push(with(i, &[(*j).to_string(), l.clone()]));
    }
    if i + 1 == lines.len() {
        for j in JUNK {
            out.push(with(i, &[l.clone(), (*j).to_string()]));
        }
    }
    out
}

/// every single structural fault
fn c08_single(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let doc = fault_doc(&mut r);
    let lines = gen::lines_of(&doc);
    if lines.len() > 60 {
        return;
    }
    let eol = *r.pick(&[Eol::Lf, Eol::Crlf, Eol::Mixed]);
    ctx.sample(|| clip(&lines.join("|"), 500));
    ctx.nontrivial(&lines.join("\n"));
    for i in 0..lines.len() {
        for f in faults_at(&mut r, &lines, i) {
            let mut text = join(&mut r, &f.apply(&lines), eol);
            if r.one_in(4) {
                while text.ends_with(['\r', '\n']) {
                    text.pop();
                }
            }
            judge(ctx, &text);
            ctx.obs("single faults");
            if ctx.failed() {
                return;
            }
        }
    }
}

/// two to five faults, other layouts
fn c08_multi(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let doc = fault_doc(&mut r);
    let mut lines = gen::lines_of(&doc);
    for _ in 0..2 + r.below(4) {
        if lines.is_empty() {
            break;
        }
        let i = r.below(lines.len());
        let all = faults_at(&mut r, &lines, i);
        lines = r.pick(&all).apply(&lines);
    }
    let l = any_layout(&mut r);
    let text = gen::layout(&mut r, &lines, &l);
    ctx.nontrivial(&text);
    ctx.obs("multiple faults");
    judge(ctx, &text);
}

/// faults at the far end of a document that is large in one direction
fn c08_scale(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let (doc, _, _) = scale::of_case(&mut r, ctx.case);
    let lines = gen::lines_of(&doc);
    let text = join(&mut r, &lines, Eol::Lf);
    ctx.nontrivial(&text);
    ctx.obs("large documents");
    judge(ctx, &text);
    let last = lines.len() - 1;
    for i in [last, last.saturating_sub(1), last.saturating_sub(4), last / 2] {
        let faults = faults_at(&mut r, &lines, i);
        let f = r.pick(&faults).apply(&lines);
        let text = join(&mut r, &f, Eol::Lf);
        judge(ctx, &text);
        if ctx.failed() {
            return;
        }
    }
}

/// line soup: random sequences of delimiters and content lines
fn c08_soup(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let pool = [
        "BEGIN:A",
        "END:A",
        "BEGIN:A",
        "END:A",
        "BEGIN:AB",
        "END:AB",
        "BEGIN:VCALENDAR",
        "END:VCALENDAR",
        "P:v",
        "P;Q=r:v",
        "BARE",
        "P;Q=\"r:s\":v",
        "no colon",
        "P;Q",
        "END:B",
        "BEGIN:B",
    ];
    let n = 1 + r.below(9);
    let mut lines = vec!["BEGIN:A".to_string()];
    for _ in 0..n {
        lines.push((*r.pick(&pool)).to_string());
    }
    let l = any_layout(&mut r);
    let text = gen::layout(&mut r, &lines, &l);
    ctx.nontrivial(&text);
    ctx.obs("line sequences");
    judge(ctx, &text);
}

/// all sequences of up to six delimiter and content lines after BEGIN:A
fn c08_sequences(ctx: &mut Ctx) {
    const POOL: [&str; 8] = ["BEGIN:A", "END:A", "BEGIN:AB", "END:AB", "P:v", "BARE", "no colon", "P;Q=r"];
    // 512 sequences per case: the last three lines
    let mut i = ctx.case;
    let mut head = vec!["BEGIN:A"];
    for _ in 0..3 {
        let k = (i % 9) as usize;
        i /= 9;
        if k < 8 {
            head.push(POOL[k]);
        }
    }
    for k in 0..729usize {
        let mut lines = head.clone();
        let mut k = k;
        for _ in 0..3 {
            if k % 9 < 8 {
                lines.push(POOL[k % 9]);
            }
            k /= 9;
        }
        let text = lines.join(if ctx.case % 2 == 0 { "\n" } else { "\r\n" });
        ctx.obs("line sequences enumerated");
        judge(ctx, &text);
        if ctx.failed() {
            return;
        }
    }
    ctx.nontrivial(&head.join("\n"));
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        level: "fault_enumeration",
        rule: "A case is a well-formed document and the enumeration of its faults: every truncation point; at every \
               line: deletion, duplication, swap, gluing, every delimiter renamed in 15 ways, colon lost, 42 junk \
               lines inserted; or several faults at once; or a sequence of delimiter lines (all of length up to 7 \
               over 8 lines). An independent line reader judges each: malformed has to be an error at every entry \
               point, well-formed must not give another tree. Non-trivial: distinct documents.",
        sections: vec![
            sec("truncate", 800, 40_000, c08_truncate),
            sec("single", 600, 25_000, c08_single),
            sec("multi", 40_000, 2_000_000, c08_multi),
            sec("soup", 40_000, 2_000_000, c08_soup),
            sec("sequences", 729, 729, c08_sequences),
            sec("scale", scale::SWEEP, 4 * scale::SWEEP, c08_scale),
        ],
        require: vec![
            ("truncations", 50_000),
            ("single faults", 50_000),
            ("malformed documents", 100_000),
            ("malformed first components", 50_000),
            ("faults that leave a well-formed document", 1000),
            ("line sequences enumerated", 100_000),
            ("large documents", 500),
        ],
        extra: None,
        assumptions: vec![
            "documents whose meaning the contract leaves open are not judged: lines that begin with a blank, \
             delimiters that differ in case only, blanks at the end of a line without a colon",
        ],
    }
}

// -------------------------------------------------------------------------------------- C09

fn raw_sequence(c: &DComp, out: &mut Vec<(String, String)>) {
    for i in &c.items {
        if let DItem::Prop(p) = i {
            if !is_text(&p.name, p.value_param().as_deref()) {
                out.push((p.name.clone(), p.raw.clone().unwrap_or_default()));
            }
        }
    }
}

fn raw_of(c: &XComp, out: &mut Vec<(String, String)>) {
    for p in &c.props {
        let vp = p.params.iter().find(|q| q.key == "VALUE").and_then(|q| q.val.clone());
        if !is_text(&p.name, vp.as_deref()) {
            out.push((p.name.clone(), p.val.clone()));
        }
    }
}

fn raws_agree(ctx: &mut Ctx, d: &DComp, x: &XComp, sorted: bool, out: &str) {
    let (mut want, mut got) = (vec![], vec![]);
    raw_sequence(d, &mut want);
    raw_of(x, &mut got);
    if sorted {
        // stable: the order within one name stays
        want.sort_by(|a, b| a.0.cmp(&b.0));
        got.sort_by(|a, b| a.0.cmp(&b.0));
    }
    ctx.obs_n("raw values compared", want.len() as u64);
    if !ctx.eq("value that is not TEXT", &got, &want, out) {
        return;
    }
    let kids: Vec<&DComp> = d
        .items
        .iter()
        .filter_map(|i| match i {
            DItem::Comp(c) => Some(c),
            DItem::Prop(_) => None,
        })
        .collect();
    if kids.len() != x.comps.len() {
        return ctx.fail("children", format!("{} for {}: {out:?}", x.comps.len(), kids.len()));
    }
    for (d, x) in kids.iter().zip(&x.comps) {
        raws_agree(ctx, d, x, sorted, out);
    }
}

/// Only names the strict reader of the output knows.
fn strict_names(c: &DComp) -> bool {
    c.items.iter().all(|i| match i {
        DItem::Prop(p) => reader::is_name(&p.name) && p.params.iter().all(|q| reader::is_name(&q.key)),
        DItem::Comp(c) => strict_names(c),
    })
}

fn c09_tree(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let doc = any_doc(&mut r);
    let lines = gen::lines_of(&doc);
    let l = any_layout(&mut r);
    let text = gen::layout(&mut r, &lines, &l);
    c09_tree_of(ctx, &doc, text);
}

/// large in one direction
fn c09_scale(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let (doc, _, _) = scale::of_case(&mut r, ctx.case);
    let text = scale::text(&mut r, &doc);
    ctx.obs("large documents");
    c09_tree_of(ctx, &doc, text.clone());
    if !ctx.failed() && doc.len() == 1 && doc[0].name == "VCALENDAR" {
        c09_typed_of(ctx, &doc, text);
    }
}

fn c09_tree_of(ctx: &mut Ctx, doc: &[DComp], text: String) {
    ctx.nontrivial(&text);
    let cal = match parser::read_calendar(&text) {
        Ok(c) => c,
        Err(e) => return ctx.fail("read_calendar", format!("{e} for {text:?}")),
    };
    let out = cal.to_string();
    ctx.sample(|| clip(&out, 500));
    let flat = parser::unfold(&out);
    match parser::read_calendar(&flat) {
        Ok(again) => {
            if !ctx.eq("rewritten tree", &x_cal(&again), &x_cal(&cal), &out) {
                return;
            }
        }
        Err(e) => return ctx.fail("rewritten tree", format!("{e} for {out:?}")),
    }
    ctx.obs("trees rewritten");
    // every single property
    let roots = match parser::read_components(&text) {
        Ok(c) => c,
        Err(e) => return ctx.fail("read_components", e),
    };
    fn props(ctx: &mut Ctx, c: &parser::Component) {
        for p in &c.properties {
            let out = p.to_string();
            match parser::Property::try_from(parser::unfold(&out).as_str()) {
                Ok(again) => {
                    ctx.eq("rewritten property", &x_prop(&again), &x_prop(p), &out);
                }
                Err(e) => ctx.fail("rewritten property", format!("{e} for {out:?}")),
            }
            ctx.obs("properties rewritten");
        }
        for c in &c.components {
            props(ctx, c);
        }
    }
    for c in &roots {
        props(ctx, c);
        // the same tree made of its parts
        let x = x_comp(c);
        let hand = hand_comp(&x);
        ctx.check(hand == *c, "tree made by hand", || format!("{hand:?}\n{c:?}"));
        let of = |c: parser::Component| parser::Calendar { properties: vec![], components: vec![c] }.to_string();
        ctx.eq("text of a tree made by hand", &of(hand), &of(c.clone()), "parts of the parsed one");
        for (h, p) in x.props.iter().zip(&c.properties) {
            ctx.eq("text of a property made by hand", &hand_prop(h).to_string(), &p.to_string(), &h.name);
            for (ps, s) in [(&p.name, &h.name), (&p.val, &h.val)] {
                if let Err(how) = same_string(ps, s) {
                    ctx.fail("ParseString", format!("{how} of {s:?}"));
                }
            }
        }
        ctx.obs("trees made by hand");
    }
    // the bytes of values that are not TEXT
    if doc.iter().all(strict_names) {
        match reader::tree(&out, true) {
            Ok(t) if t.len() == 1 => {
                if doc[0].name == "VCALENDAR" {
                    raws_agree(ctx, &doc[0], &t[0], false, &out);
                } else {
                    let d = DComp { name: "VCALENDAR".into(), items: doc.iter().cloned().map(DItem::Comp).collect() };
                    raws_agree(ctx, &d, &t[0], false, &out);
                }
            }
            Ok(t) => ctx.fail("rewritten document", format!("{} roots in {out:?}", t.len())),
            Err(e) => ctx.fail("rewritten document", format!("{e} in {out:?}")),
        }
    }
}

fn c09_typed(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let o = DocOpts { ids: true, distinct_params: true, ..DEFAULT_DOC };
    let doc = if r.one_in(4) { gen::realistic(&mut r) } else { gen::document(&mut r, &o) };
    // the calendar itself has no UID and the time zones of the realistic one have neither
    let lines = gen::lines_of(&doc);
    let l = Layout { fold: *r.pick(&[0, 30]), ..any_layout(&mut r) };
    let text = gen::layout(&mut r, &lines, &l);
    c09_typed_of(ctx, &doc, text);
}

fn c09_typed_of(ctx: &mut Ctx, doc: &[DComp], text: String) {
    ctx.nontrivial(&text);
    let cal = match text.parse::<Calendar>() {
        Ok(c) => c,
        Err(e) => return ctx.fail("Calendar::from_str", format!("{e} for {text:?}")),
    };
    let out = cal.to_string();
    ctx.sample(|| clip(&out, 500));
    let again = match out.parse::<Calendar>() {
        Ok(c) => c,
        Err(e) => return ctx.fail("rewritten calendar", format!("{e} for {out:?}")),
    };
    let mut want = t_cal(&cal, &mut vec![]);
    let mut got = t_cal(&again, &mut vec![]);
    // what the serializer adds where the document has no UID or DTSTAMP
    for (g, w) in got.comps.iter_mut().zip(&want.comps) {
        crate::p_text::strip_auto(ctx, g, w);
    }
    if !ctx.eq("rewritten calendar", &got, &want, &out) {
        return;
    }
    ctx.obs("calendars rewritten");
    if again.to_string() == out {
        ctx.obs("second output equal");
    }
    // against the document
    let roots = gen::expect_of(doc);
    let view = typed_view(&roots);
    if !ctx.eq("calendar", &want, &view, &text) {
        return;
    }
    want.comps.clear();
    if doc.iter().all(strict_names) {
        match reader::tree(&out, true) {
            Ok(t) if t.len() == 1 => {
                let mut t = t;
                drop_added(&doc[0], &mut t[0], 0);
                raws_agree(ctx, &doc[0], &t[0], true, &out);
            }
            Ok(t) => ctx.fail("rewritten document", format!("{} roots in {out:?}", t.len())),
            Err(e) => ctx.fail("rewritten document", format!("{e} in {out:?}")),
        }
    }
}

/// DTSTAMPs the serializer added
fn drop_added(d: &DComp, x: &mut XComp, level: usize) {
    let has = d.items.iter().any(|i| matches!(i, DItem::Prop(p) if p.name == "DTSTAMP"));
    if !has && level > 0 {
        x.props.retain(|p| p.name != "DTSTAMP");
    }
    let kids: Vec<&DComp> = d
        .items
        .iter()
        .filter_map(|i| match i {
            DItem::Comp(c) => Some(c),
            DItem::Prop(_) => None,
        })
        .collect();
    for (d, x) in kids.iter().zip(x.comps.iter_mut()) {
        drop_added(d, x, level + 1);
    }
}

/// Separators of TEXT lists.
fn c09_lists(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    // (property, separator, other)
    for (name, sep) in [("CATEGORIES", ','), ("RESOURCES", ','), ("REQUEST-STATUS", ';')] {
        let n = 1 + r.below(4);
        let items: Vec<String> = (0..n).map(|_| gen::ascii_word(&mut r, 8)).collect();
        let raw = items.join(&sep.to_string());
        let doc = format!("BEGIN:VCALENDAR\r\nBEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20200101T000000Z\r\n{name}:{raw}\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n");
        ctx.nontrivial(&doc);
        let line = format!("{name}:{raw}\r\n");
        // the parsed tree keeps separators as separators
        match parser::read_calendar(&doc) {
            Ok(c) => {
                let out = c.to_string();
                ctx.check(out.contains(&line), "list separator", || format!("{line:?} became {out:?}"));
                ctx.obs("lists through the parsed tree");
            }
            Err(e) => ctx.fail("read_calendar", e),
        }
        match doc.parse::<Calendar>() {
            Ok(c) => {
                let out = c.to_string();
                if !out.contains(&line) {
                    let escaped = format!("{name}:{}\r\n", raw.replace(sep, &format!("\\{sep}")));
                    if out.contains(&escaped) {
                        ctx.known(
                            "typed-list-separator",
                            "the typed Calendar writes the list separators of CATEGORIES, RESOURCES and REQUEST-STATUS \
                             escaped (CATEGORIES:a,b becomes CATEGORIES:a\\,b)",
                        );
                    } else {
                        ctx.fail("list separator, typed", format!("{line:?} became {out:?}"));
                    }
                }
                ctx.obs("lists through the calendar");
            }
            Err(e) => ctx.fail("Calendar::from_str", e),
        }
        // an escaped separator inside of an item
        let raw = format!("{}\\{sep}{}", items[0], items[0]);
        let line = format!("{name}:{raw}");
        match parser::Property::try_from(line.as_str()) {
            Ok(p) => {
                let out = p.to_string();
                if out != format!("{line}\r\n") {
                    if out == format!("{name}:{}{sep}{}\r\n", items[0], items[0]) {
                        ctx.known(
                            "escaped-separator-in-list-item",
                            "the parsed tree holds TEXT lists unescaped, so an escaped separator inside of an item of \
                             CATEGORIES, RESOURCES or REQUEST-STATUS is written as a separator (CATEGORIES:a\\,b becomes \
                             CATEGORIES:a,b)",
                        );
                    } else {
                        ctx.fail("escaped list separator", format!("{line:?} became {out:?}"));
                    }
                }
                ctx.obs("escaped separators");
            }
            Err(e) => ctx.fail("Property::try_from", e),
        }
    }
}

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        level: "exploration",
        rule: "A case is a generated document that is parsed, written and parsed again, through the parsed tree and \
               through the typed calendar; the trees have to be equal and the raw values that are not TEXT have to be \
               the bytes of the document, as seen by an independent reader of the output. Non-trivial: distinct \
               documents.",
        sections: vec![
            sec("tree", 100_000, 2_000_000, c09_tree),
            sec("typed", 100_000, 2_000_000, c09_typed),
            sec("lists", 1_000, 20_000, c09_lists),
            sec("scale", scale::SWEEP, 4 * scale::SWEEP, c09_scale),
        ],
        require: vec![
            ("trees rewritten", 5000),
            ("trees made by hand", 10_000),
            ("properties rewritten", 10_000),
            ("calendars rewritten", 5000),
            ("raw values compared", 10_000),
            ("lists through the parsed tree", 100),
            ("lists through the calendar", 100),
            ("large documents", 500),
        ],
        extra: None,
        assumptions: vec![
            "parameters have balanced quotes, none occurs twice in one property (typed path)",
            "documents are free of control characters",
        ],
    }
}

// -------------------------------------------------------------------------------------- C10

fn placement<C: Component>(ctx: &mut Ctx, c: &C, w: &XComp, input: &str) {
    let mut seen = std::collections::HashSet::new();
    for p in w.props.iter().step_by(1 + w.props.len() / 200) {
        if !seen.insert(&p.name) {
            continue;
        }
        let first = w.props.iter().find(|q| q.name == p.name).map(t_of_xprop);
        if crate::model::REPEATABLE.contains(&p.name.as_str()) {
            let got: Vec<TProp> = c
                .multi_properties()
                .get(&p.name)
                .map(|v| v.iter().map(|p| t_prop(p, &mut vec![])).collect())
                .unwrap_or_default();
            let want: Vec<TProp> = w.props.iter().filter(|q| q.name == p.name).map(t_of_xprop).collect();
            if !ctx.eq("repeatable property", &got, &want, input) {
                return;
            }
            ctx.obs("repeatable properties");
        } else if !crate::model::REPEATABLE_TOO.contains(&p.name.as_str()) {
            let got = c.properties().get(&p.name).map(|p| t_prop(p, &mut vec![]));
            if !ctx.eq("first occurrence", &got, &first, input) {
                return;
            }
            let got = c.property_value(&p.name).map(String::from);
            if !ctx.eq("property_value", &got, &first.map(|p| p.val), input) {
                return;
            }
            ctx.obs("single properties");
            if w.props.iter().filter(|q| q.name == p.name).count() > 1 {
                ctx.obs("repeated properties of other names");
            }
        }
    }
    let got = c.get_summary().map(String::from);
    let first = w.props.iter().find(|q| q.name == "SUMMARY").map(|p| p.val.clone());
    ctx.eq("get_summary", &got, &first, input);
    for (c, w) in c.components().iter().zip(&w.comps) {
        placement(ctx, c, w, input);
        if ctx.failed() {
            return;
        }
    }
}

fn c10_cc(ctx: &mut Ctx, c: &CalendarComponent, w: &XComp, input: &str) {
    let mut bad = vec![];
    if !ctx.eq("component", &t_cc(c, &mut bad), &t_of_x(w), input) {
        return;
    }
    ctx.check(bad.is_empty(), "map invariant", || bad.join("; "));
    match c {
        CalendarComponent::Event(c) => placement(ctx, c, w, input),
        CalendarComponent::Todo(c) => placement(ctx, c, w, input),
        CalendarComponent::Venue(c) => placement(ctx, c, w, input),
        CalendarComponent::Other(c) => placement(ctx, c, w, input),
        _ => ctx.fail("component", "unknown kind"),
    }
    ctx.obs("components converted");
}

fn c10_random(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let o = DocOpts {
        distinct_params: true,
        roots: if r.one_in(4) { 1 + r.below(4) } else { 1 },
        calendar_root: !r.one_in(5),
        max_items: if r.one_in(5) { 40 } else { 10 },
        ..DEFAULT_DOC
    };
    let mut doc = gen::document(&mut r, &o);
    // repeat some properties, anywhere
    fn repeat(r: &mut Rng, c: &mut DComp) {
        let props: Vec<DItem> = c.items.iter().filter(|i| matches!(i, DItem::Prop(_))).cloned().collect();
        if !props.is_empty() && r.one_in(2) {
            for _ in 0..1 + r.below(3) {
                let mut p = r.pick(&props).clone();
                if let DItem::Prop(p) = &mut p {
                    if r.one_in(2) && p.raw.is_some() {
                        p.raw = Some(gen::text(r, gen::DOC));
                    }
                }
                let at = r.below(c.items.len() + 1);
                c.items.insert(at, p);
            }
        }
        for i in &mut c.items {
            if let DItem::Comp(c) = i {
                repeat(r, c);
            }
        }
    }
    for c in &mut doc {
        repeat(&mut r, c);
    }
    let lines = gen::lines_of(&doc);
    let l = any_layout(&mut r);
    let text = gen::layout(&mut r, &lines, &l);
    c10_doc(ctx, &doc, text);
}

/// large in one direction
fn c10_scale(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let (doc, _, _) = scale::of_case(&mut r, ctx.case);
    let text = scale::text(&mut r, &doc);
    ctx.obs("large documents");
    c10_doc(ctx, &doc, text);
}

fn c10_doc(ctx: &mut Ctx, doc: &[DComp], text: String) {
    let roots = gen::expect_of(doc);
    ctx.sample(|| clip(&text, 500));
    ctx.nontrivial(&text);
    let (props, comps) = calendar_view(&roots);
    let want = typed_view(&roots);

    let check = |ctx: &mut Ctx, cal: Calendar, label: &str| {
        let mut bad = vec![];
        ctx.eq(&format!("calendar properties ({label})"), &t_cal(&cal, &mut bad).props, &want.props, &text);
        if cal.components.len() != comps.len() {
            return ctx.fail(
                format!("number of components ({label})"),
                format!("{} for {}: {text:?}", cal.components.len(), comps.len()),
            );
        }
        for (c, w) in cal.components.iter().zip(&comps) {
            c10_cc(ctx, c, w, &text);
            if ctx.failed() {
                return;
            }
        }
        for p in props.iter().step_by(1 + props.len() / 100) {
            let first = props.iter().find(|q| q.name == p.name).map(|p| p.val.as_str());
            ctx.eq("calendar property_value", &cal.property_value(&p.name), &first, &text);
        }
        ctx.obs("calendars converted");
    };
    match parser::read_calendar(&text) {
        Ok(p) => check(ctx, Calendar::from(p), "parser::Calendar"),
        Err(e) => return ctx.fail("read_calendar", e),
    }
    if ctx.failed() {
        return;
    }
    let parsed = match parser::read_components(&text) {
        Ok(p) => p,
        Err(e) => return ctx.fail("read_components", e),
    };
    if roots[0].name == "VCALENDAR" {
        check(ctx, Calendar::from(parsed.clone()), "Vec<Component>");
    } else {
        // a calendar made of loose components is a new one
        let mut cal = Calendar::from(parsed.clone());
        let mut bad = vec![];
        ctx.eq("new calendar", &t_cal(&cal, &mut bad).props, &crate::model::default_props(), &text);
        cal.properties.clear();
        check(ctx, cal, "Vec<Component>");
    }
    for (c, w) in parsed.into_iter().zip(&roots) {
        let cc = CalendarComponent::from(c.clone());
        c10_cc(ctx, &cc, w, &text);
        // as a child of a typed component
        let mut e = Event::new();
        e.append_component(c);
        match e.components() {
            [one] => {
                ctx.eq("child", &t_comp(one, &mut vec![]), &t_of_x(w), &text);
                placement(ctx, one, w, &text);
            }
            other => ctx.fail("child", format!("{} children", other.len())),
        }
        if ctx.failed() {
            return;
        }
    }
}

/// each name, once to four times, at three levels
fn c10_names(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let name = gen::PROP_NAMES[(ctx.case % gen::PROP_NAMES.len() as u64) as usize];
    let kind = *r.pick(gen::COMP_NAMES);
    let mut items = vec![];
    for _ in 0..1 + r.below(4) {
        items.push(DItem::Prop(gen::doc_prop_named(
            &mut r,
            &DocOpts { distinct_params: true, bare: false, ..DEFAULT_DOC },
            name.to_string(),
        )));
        if r.one_in(3) {
            items.push(DItem::Prop(gen::doc_prop(&mut r, &DocOpts { distinct_params: true, ..DEFAULT_DOC })));
        }
    }
    let inner = DComp { name: (*r.pick(gen::COMP_NAMES)).into(), items: items.clone() };
    items.push(DItem::Comp(inner));
    let c = DComp { name: kind.into(), items };
    let mut ls = vec![];
    c.lines(&mut ls);
    let text = ls.join("\n");
    ctx.nontrivial(&text);
    match text.parse::<CalendarComponent>() {
        Ok(cc) => c10_cc(ctx, &cc, &c.expect(), &text),
        Err(e) => ctx.fail("CalendarComponent::from_str", format!("{e} for {text:?}")),
    }
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        level: "exploration",
        rule: "A case is a generated document with repeated properties, converted to the typed calendar in every \
               way there is; every property line of the document has to be found once, with its parameters, in \
               order, at its level, in a component of the right kind, and where the getters look. Non-trivial: \
               distinct documents.",
        sections: vec![
            sec("random", 100_000, 2_000_000, c10_random),
            sec("names", 100_000, 2_000_000, c10_names),
            sec("scale", scale::SWEEP, 4 * scale::SWEEP, c10_scale),
        ],
        require: vec![
            ("calendars converted", 10_000),
            ("components converted", 10_000),
            ("repeatable properties", 2_000),
            ("single properties", 10_000),
            ("repeated properties of other names", 2_000),
            ("large documents", 500),
        ],
        extra: None,
        assumptions: vec!["no parameter name occurs twice in one property"],
    }
}

// -------------------------------------------------------------------------------------- C18

fn json_rt<T: serde::Serialize + serde::de::DeserializeOwned>(ctx: &mut Ctx, r: &mut Rng, v: &T) -> Option<T> {
    let back = match r.below(4) {
        0 => serde_json::to_string(v).and_then(|s| serde_json::from_str::<T>(&s)),
        1 => serde_json::to_string_pretty(v).and_then(|s| serde_json::from_str::<T>(&s)),
        2 => serde_json::to_vec(v).and_then(|s| serde_json::from_slice::<T>(&s)),
        _ => serde_json::to_value(v).and_then(|s| serde_json::from_value::<T>(s)),
    };
    match back {
        Ok(v) => Some(v),
        Err(e) => {
            ctx.fail("JSON", format!("{e}"));
            None
        }
    }
}

fn c18_doc(ctx: &mut Ctx, r: &mut Rng, doc: &[DComp]) {
    let lines = gen::lines_of(doc);
    let l = any_layout(r);
    let text = gen::layout(r, &lines, &l);
    ctx.sample(|| clip(&text, 400));
    ctx.nontrivial(&text);
    let cal: parser::Calendar = match parser::read_calendar(&text) {
        Ok(c) => c,
        Err(e) => return ctx.fail("read_calendar", e),
    };
    let json = match serde_json::to_string(&cal) {
        Ok(j) => j,
        Err(e) => return ctx.fail("to JSON", format!("{e}")),
    };
    ctx.obs_n("octets of JSON", json.len() as u64);
    match serde_json::from_str::<parser::Calendar>(&json) {
        Ok(back) => {
            if !ctx.eq("calendar through JSON", &x_cal(&back), &x_cal(&cal), &json) {
                return;
            }
            ctx.eq("text after JSON", &back.to_string(), &cal.to_string(), &json);
            let json2 = serde_json::to_string(&back).unwrap_or_default();
            ctx.eq("JSON again", &json2, &json, &text);
            let (a, b) = (Calendar::from(back), Calendar::from(cal.clone()));
            ctx.eq("typed after JSON", &t_cal(&a, &mut vec![]), &t_cal(&b, &mut vec![]), &json);
        }
        Err(e) => return ctx.fail("from JSON", format!("{e} for {json}")),
    }
    ctx.obs("calendars through JSON");
    if let Some(back) = json_rt(ctx, r, &cal) {
        ctx.eq("calendar through JSON", &x_cal(&back), &x_cal(&cal), &json);
    }
    for c in &cal.components {
        if let Some(back) = json_rt::<parser::Component<'_>>(ctx, r, &own(c)) {
            ctx.eq("component through JSON", &x_comp(&back), &x_comp(c), &json);
            ctx.obs("components through JSON");
        }
        for p in &c.properties {
            let p = own_prop(p);
            if let Some(back) = json_rt(ctx, r, &p) {
                ctx.eq("property through JSON", &x_prop(&back), &x_prop(&p), &json);
                ctx.obs("properties through JSON");
            }
        }
        if ctx.failed() {
            return;
        }
    }
}

fn own_prop(p: &parser::Property) -> parser::Property<'static> {
    parser::Property {
        name: p.name.to_owned(),
        val: p.val.clone().into_owned(),
        params: p
            .params
            .iter()
            .map(|q| parser::Parameter {
                key: q.key.to_owned(),
                val: q.val.as_ref().map(parser::ParseString::to_owned),
            })
            .collect(),
    }
}

fn own(c: &parser::Component) -> parser::Component<'static> {
    parser::Component {
        name: c.name.to_owned(),
        properties: c.properties.iter().map(own_prop).collect(),
        components: c.components.iter().map(own).collect(),
    }
}

fn c18_random(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let doc = any_doc(&mut r);
    c18_doc(ctx, &mut r, &doc);
}

/// every character there is
fn c18_chars(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let doc = gen::chars_doc(&mut r, ctx.case);
    ctx.obs_n("characters enumerated", gen::chars_of(ctx.case).chars().count() as u64);
    c18_doc(ctx, &mut r, &[doc]);
}

fn c18_deep(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let max_depth = r.range(4, 32) as usize;
    let o = DocOpts { max_depth, deep: true, calendar_root: r.one_in(2), ..DEFAULT_DOC };
    let doc = gen::document(&mut r, &o);
    if doc.iter().any(|d| d.depth() == 32) {
        ctx.obs("documents of 32 levels");
    }
    c18_doc(ctx, &mut r, &doc);
}

/// large in one direction
fn c18_scale(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let (doc, what, n) = scale::of_case(&mut r, ctx.case);
    if what == "levels" && n % 98 > 29 {
        return;
    }
    ctx.obs("large documents");
    c18_doc(ctx, &mut r, &doc);
}

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        level: "exploration",
        rule: "A case is a generated document whose parsed tree goes through JSON (string, pretty, bytes, value) and \
               comes back; trees, texts and typed calendars have to be equal. Non-trivial: distinct documents.",
        sections: vec![
            sec("random", 90_000, 1_800_000, c18_random),
            sec("chars", gen::CHAR_CASES, 2 * gen::CHAR_CASES, c18_chars),
            sec("deep", 18_000, 360_000, c18_deep),
            sec("scale", scale::SWEEP, 4 * scale::SWEEP, c18_scale),
        ],
        require: vec![
            ("calendars through JSON", 5000),
            ("characters enumerated", 10_000),
            ("components through JSON", 5000),
            ("properties through JSON", 5000),
            ("documents of 32 levels", 5),
            ("large documents", 500),
        ],
        extra: None,
        assumptions: vec!["serde_json as the JSON library, built with the features serde and serde_json"],
    }
}
