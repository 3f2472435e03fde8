//! C01 (totality), C20 (cost), C21 (results depend only on the input).

use crate::gen::{self, DocOpts, Eol, Layout};
use crate::model;
use crate::p_parse::fixtures;
use crate::rng::Rng;
use crate::rt::*;
use crate::walk::{self, Plan, Seen, FULL};
use chrono::{Duration, NaiveDate, NaiveDateTime, NaiveTime};
use icalendar::*;
use std::convert::{TryFrom, TryInto};
use std::sync::OnceLock;

// -------------------------------------------------------------------------------------- C01

/// Runs everything on one string; what comes out of the library as a panic is a violation.
fn drive(ctx: &mut Ctx, s: &str, plan: Plan) {
    let mut seen = Seen::new(false);
    let r = guarded(|| walk::everything(s, plan, &mut seen));
    if let Caught::Library(msg) = r {
        ctx.fail("panic", format!("{msg}\n  input ({} bytes): {:?}", s.len(), clip(s, 3000)));
        return;
    }
    ctx.obs("strings");
    ctx.obs_n("bytes", s.len() as u64);
    ctx.obs_n("calls that accepted", seen.accepted);
    ctx.obs_n("calls that returned an error", seen.rejected);
    ctx.obs_n("components visited", seen.components);
    ctx.obs_n("properties visited", seen.properties);
    ctx.obs_n("dates read", seen.dates);
    ctx.obs_n("conversions to UTC that gave an instant", seen.instants);
    ctx.obs_n("triggers read", seen.triggers);
    ctx.obs_n("durations read", seen.durations);
    ctx.obs_n("texts written", seen.written);
    ctx.obs_n("JSON texts", seen.json);
    if seen.accepted > 0 || s.contains("BEGIN:") {
        ctx.nontrivial(s);
    }
}

fn fixture_texts() -> &'static [(String, String)] {
    static F: OnceLock<Vec<(String, String)>> = OnceLock::new();
    F.get_or_init(|| fixtures().into_iter().filter(|(_, t)| t.len() < 20_000).collect())
}

fn base_text(r: &mut Rng) -> String {
    if r.one_in(8) {
        let f = fixture_texts();
        if !f.is_empty() {
            return r.pick(f).1.clone();
        }
    }
    let doc = if r.one_in(3) {
        gen::realistic(r)
    } else {
        let (roots, calendar_root) = (1 + r.below(3), r.pct(70));
        gen::document(r, &DocOpts { roots, calendar_root, max_depth: 4, max_items: 7, ..gen::DEFAULT_DOC })
    };
    let l = Layout {
        eol: *r.pick(&[Eol::Lf, Eol::Crlf, Eol::Mixed]),
        fold: *r.pick(&[0, 0, 5, 40]),
        blank: *r.pick(&[0, 0, 0, 6]),
        final_eol: r.pct(90),
    };
    gen::layout(r, &gen::lines_of(&doc), &l)
}

const TOKENS: &[&str] = &[
    "BEGIN:",
    "END:",
    "begin:",
    "end:",
    "BEGIN",
    "END",
    "VCALENDAR",
    "VEVENT",
    "VALARM",
    "A",
    "\r\n",
    "\n",
    "\r",
    "\r\n ",
    "\n\t",
    " ",
    "\t",
    ":",
    ";",
    ",",
    "=",
    "\"",
    "\\",
    "\\n",
    "\\,",
    "X-A",
    "DTSTART",
    "DTSTART:",
    "TRIGGER:",
    "DURATION:",
    ";VALUE=",
    ";TZID=",
    "VALUE",
    "DATE",
    "DATE-TIME",
    "TEXT",
    "Europe/Berlin",
    "20200101",
    "T",
    "T000000",
    "Z",
    "P",
    "PT",
    "-",
    "+",
    "1",
    "0",
    "99999999999999999999",
    "W",
    "D",
    "H",
    "M",
    "S",
    ".",
    "/",
    "_",
    "\u{0}",
    "\u{7f}",
    "é",
    "😀",
    "\u{feff}",
    "\u{2028}",
    "\u{85}",
    "ß",
    "İ",
    "\u{301}",
    "\u{10ffff}",
    "SUMMARY:",
    "ATTENDEE;CN=",
    "CATEGORIES:a,b",
    "BEGIN:VEVENT\r\n",
    "END:VEVENT\r\n",
    "BEGIN:VCALENDAR\r\n",
    "END:VCALENDAR\r\n",
    "UID:1\r\n",
    "X;A=B:c\r\n",
    "REFRESH-INTERVAL;VALUE=DURATION:",
    "TZID",
    "PRIORITY:",
];

fn boundary(r: &mut Rng, s: &str) -> usize {
    let mut i = r.below(s.len() + 1);
    while !s.is_char_boundary(i) {
        i -= 1;
    }
    i
}

fn mutate(r: &mut Rng, s: &mut String) {
    match r.below(13) {
        0 => {
            let i = boundary(r, s);
            s.truncate(i);
        }
        1 => {
            let (a, b) = (boundary(r, s), boundary(r, s));
            s.replace_range(a.min(b)..a.max(b), "");
        }
        2 => {
            let (a, b) = (boundary(r, s), boundary(r, s));
            let (a, b) = (a.min(b), a.max(b).min(a.min(b) + 3000));
            let b = (a..=b).rev().find(|i| s.is_char_boundary(*i)).unwrap_or(a);
            let part = s[a..b].to_string();
            let at = boundary(r, s);
            for _ in 0..1 + r.below(3) {
                s.insert_str(at, &part);
            }
        }
        3 | 4 => {
            let at = boundary(r, s);
            s.insert_str(at, r.pick(TOKENS));
        }
        5 => {
            let at = boundary(r, s);
            if let Some(c) = s[at..].chars().next() {
                s.replace_range(at..at + c.len_utf8(), r.pick(TOKENS));
            }
        }
        6 => {
            // a whole line goes, moves or comes twice
            let mut lines: Vec<&str> = s.split_inclusive('\n').collect();
            if !lines.is_empty() {
                let i = r.below(lines.len());
                let l = lines[i];
                match r.below(3) {
                    0 => {
                        lines.remove(i);
                    }
                    1 => lines.insert(r.below(lines.len() + 1), l),
                    _ => {
                        lines.remove(i);
                        lines.insert(r.below(lines.len() + 1), l);
                    }
                }
                *s = lines.concat();
            }
        }
        7 => {
            let other = base_text(r);
            let (a, b) = (boundary(r, s), boundary(r, &other));
            s.truncate(a);
            s.push_str(&other[b..]);
        }
        8 => {
            let t = *r.pick(TOKENS);
            let n = 1 << r.below(10);
            let at = boundary(r, s);
            s.insert_str(at, &t.repeat(n));
        }
        9 => *s = if r.one_in(2) { s.to_lowercase() } else { s.to_uppercase() },
        10 => {
            let t = s.replace("\r\n", "\n");
            *s = match r.below(4) {
                0 => t.replace('\n', "\r"),
                1 => t.replace('\n', "\n\r"),
                2 => t.replace('\n', "\n\n"),
                _ => t.replace('\n', "\r\r\n"),
            };
        }
        11 => {
            let c = *r.pick(&[':', ';', ',', '"', '=', '\\', '\n', ' ']);
            let d = r.pick(TOKENS);
            *s = if r.one_in(2) { s.replace(c, d) } else { s.replacen(c, d, 1) };
        }
        _ => {
            let v = gen::text(r, gen::ANY);
            let at = boundary(r, s);
            s.insert_str(at, &v);
        }
    }
}

fn c01_mutated(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let mut s = base_text(&mut r);
    for _ in 0..r.below(5) {
        mutate(&mut r, &mut s);
        if s.len() > 60_000 {
            break;
        }
    }
    ctx.sample(|| s.clone());
    drive(ctx, &s, FULL);
}

fn c01_soup(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let n = 1 + r.small(40);
    let mut s = String::new();
    if r.one_in(3) {
        s.push_str("BEGIN:VCALENDAR\n");
    }
    for _ in 0..n {
        match r.below(12) {
            0 => s.push_str(&gen::text(&mut r, gen::ANY)),
            1 => s.push(char::from_u32(r.below(0x11_0000) as u32).unwrap_or('\u{fffd}')),
            2 => s.push(r.below(128) as u8 as char),
            _ => s.push_str(r.pick(TOKENS)),
        }
    }
    if r.one_in(3) {
        s.push_str("\nEND:VCALENDAR\n");
    }
    ctx.sample(|| s.clone());
    drive(ctx, &s, FULL);
}

const TINY: &[&str] = &[
    "BEGIN:", "END:", "A", "\r\n", "\n", "\r", " ", ":", ";", ",", "=", "\"", "\\", "é", "1", "P", "T", "Z", "-",
    "DTSTART", "\u{0}",
];

/// every sequence of up to `len` tokens, alone and inside a calendar
fn tiny(ctx: &mut Ctx, len: u32) {
    let n = TINY.len() as u64;
    let mut i = ctx.case;
    let mut l = 0;
    while i >= n.pow(l) {
        i -= n.pow(l);
        l += 1;
        if l > len {
            return;
        }
    }
    let mut s = String::new();
    for _ in 0..l {
        s.push_str(TINY[(i % n) as usize]);
        i /= n;
    }
    let plan = Plan { json: false, ..FULL };
    drive(ctx, &s, plan);
    drive(ctx, &format!("BEGIN:VCALENDAR\nBEGIN:VEVENT\n{s}\nEND:VEVENT\nEND:VCALENDAR\n"), plan);
}

fn c01_tiny(ctx: &mut Ctx) {
    tiny(ctx, 5);
}

const fn tiny_count(len: u32) -> u64 {
    let n = TINY.len() as u64;
    let mut total = 0;
    let mut l = 0;
    while l <= len {
        total += n.pow(l);
        l += 1;
    }
    total
}

const VALUE_NAMES: &[&str] = &[
    "DTSTART",
    "DTEND",
    "DUE",
    "COMPLETED",
    "CREATED",
    "LAST-MODIFIED",
    "DTSTAMP",
    "RECURRENCE-ID",
    "EXDATE",
    "RDATE",
    "PRIORITY",
    "SEQUENCE",
    "PERCENT-COMPLETE",
    "STATUS",
    "CLASS",
    "TRIGGER",
    "DURATION",
    "REPEAT",
    "REFRESH-INTERVAL",
    "X-PUBLISHED-TTL",
    "URL",
    "SUMMARY",
    "CATEGORIES",
    "GEO",
    "RRULE",
    "FREEBUSY",
    "TZOFFSETTO",
    "ATTACH",
    "ATTENDEE",
    "X-WR-CALNAME",
    "X-WR-TIMEZONE",
    "TIMEZONE-ID",
    "X-ANY",
];
const VALUE_SEEDS: &[&str] = &[
    "20240229",
    "20240229T235959",
    "20240229T235959Z",
    "20240229T235960Z",
    "00000101",
    "99991231T235959Z",
    "20230229",
    "20241301",
    "20240100",
    "20240101T250000",
    "-20240101",
    "+2621421231T235959",
    "-2621430101T000000Z",
    "+99999999990101",
    "2024-02-29",
    "2024-02-29T23:59:59Z",
    "PT15M",
    "-PT15M",
    "+P1W",
    "P1DT2H3M4S",
    "P99999999999999999999W",
    "PT",
    "P",
    "-P",
    "P1W2D",
    "PT18446744073709551615S",
    "P4294967296D",
    "PT9223372036854775807S",
    "-PT9223372036854775808S",
    "PT4294967295H",
    "P1Y2M3D",
    "P0001-00-00",
    "P584554531W",
    "PT1.5S",
    "PT0.0000000000001S",
    "P106751991167300D",
    "P106751991167301D",
    "P15250284452471W",
    "P15250284452472W",
    "-P15250284452472W",
    "PT2562047788015215H",
    "0",
    "9",
    "10",
    "-1",
    "+5",
    "255",
    "256",
    "4294967295",
    "4294967296",
    "18446744073709551616",
    "1e3",
    "٣",
    "",
    " 5",
    "CONFIRMED",
    "NEEDS-ACTION",
    "confirmed",
    "PUBLIC",
    "TRUE",
    "52.5;13.4",
    "FREQ=DAILY;COUNT=3",
    "19970308T160000Z/PT3H",
    "mailto:a@example.com",
    "a\\,b\\;c\\nd\\\\",
    "\\",
    "\\\\\\",
    "\u{feff}20240229",
    "２０２４０２２９",
];
const ZONES: &[&str] = &[
    "Europe/Berlin",
    "UTC",
    "America/New_York",
    "Etc/GMT+12",
    "Pacific/Kiritimati",
    "Asia/Kathmandu",
    "Nowhere/City",
    "",
    "europe/berlin",
    "Africa/Monrovia",
    "/freeassociation.sourceforge.net/Europe/Berlin",
    "\u{e9}",
    "LMT",
    "EST5EDT",
];

fn hostile_value(r: &mut Rng) -> String {
    let mut v = (*r.pick(VALUE_SEEDS)).to_string();
    for _ in 0..r.small(4) {
        let at = boundary(r, &v);
        match r.below(7) {
            0 => v.truncate(at),
            1 => v.insert_str(
                at,
                r.pick(&["é", "😀", "\u{0}", "-", "+", "T", "Z", "P", "9", "0", " ", "\u{301}", ".", ":"]),
            ),
            2 | 3 => {
                // same number of characters, or the same number of bytes
                if let Some(c) = v[at..].chars().next() {
                    v.replace_range(at..at + c.len_utf8(), r.pick(&["é", "😀", "x", "9", "0", "٣", " ", "-", "\\"]));
                }
            }
            4 => {
                let end = boundary(r, &v);
                if end >= at + 2 && v.is_char_boundary(at + 2) {
                    v.replace_range(at..at + 2, "é");
                }
            }
            5 => v.insert_str(at, &"9".repeat(1 + r.below(25))),
            _ => v.push_str(r.pick(VALUE_SEEDS)),
        }
    }
    v
}

fn c01_values(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let mut lines = String::new();
    for _ in 0..1 + r.below(5) {
        let name = *r.pick(VALUE_NAMES);
        let mut line = name.to_string();
        if r.one_in(3) {
            line.push_str(&format!(";VALUE={}", r.pick(gen::VALUE_TYPES)));
        }
        if r.one_in(3) {
            let z = if r.one_in(4) {
                chrono_tz::TZ_VARIANTS[r.below(chrono_tz::TZ_VARIANTS.len())].name()
            } else {
                *r.pick(ZONES)
            };
            line.push_str(&format!(";TZID={z}"));
        }
        if r.one_in(8) {
            line.push_str(";RELATED=");
            line.push_str(r.pick(&["START", "END", "start", "", "é"]));
        }
        line.push(':');
        line.push_str(&hostile_value(&mut r));
        line.push_str("\r\n");
        lines.push_str(&line);
    }
    let kind = *r.pick(&["VEVENT", "VTODO", "VVENUE", "VALARM", "VJOURNAL"]);
    let s = match r.below(4) {
        0 => lines,
        1 => format!("BEGIN:VCALENDAR\r\n{lines}END:VCALENDAR\r\n"),
        2 => format!("BEGIN:{kind}\r\n{lines}END:{kind}\r\n"),
        _ => format!("BEGIN:VCALENDAR\r\nBEGIN:{kind}\r\n{lines}END:{kind}\r\nEND:VCALENDAR\r\n"),
    };
    ctx.sample(|| s.clone());
    let plan = Plan { json: r.one_in(4), ..FULL };
    drive(ctx, &s, plan);
    let v = hostile_value(&mut r);
    drive(ctx, &v, plan);
}

/// (head, unit, tail): the unit is repeated
const REPEATS: &[(&str, &str, &str)] = &[
    ("", "BEGIN:A\n", ""),
    ("", "BEGIN:A\r\n", ""),
    ("", "BEGIN:VEVENT\r\nUID:1\r\n", ""),
    ("BEGIN:VCALENDAR\n", "BEGIN:A\n", "END:VCALENDAR\n"),
    ("", "begin:a\n", ""),
    ("", "BEGIN:", ""),
    ("", "BEGIN:\n", ""),
    ("", "BEGIN:A", ""),
    ("", "BEGIN:A\n\n \n", ""),
    ("", "BEGIN:A\nBEGIN:B\nEND:A\nEND:B\n", ""),
    ("", "END:A\n", ""),
    ("", "END:", ""),
    ("BEGIN:A\n", "END:A\n", ""),
    ("BEGIN:A\n", "BEGIN:B\nEND:B\n", "END:A\n"),
    ("", "BEGIN:B\nEND:B\n", ""),
    ("BEGIN:A\n", "BEGIN:B\nBEGIN:C\nEND:C\nEND:B\n", ""),
    ("BEGIN:A\n", "X:1\n", "END:A\n"),
    ("BEGIN:A\n", "X:1\r\n", "END:A\r\n"),
    ("BEGIN:A\n", "ATTENDEE:1\n", "END:A\n"),
    ("BEGIN:A\n", "X:1\n", ""),
    ("BEGIN:A\n", "X\n", "END:A\n"),
    ("BEGIN:A\n", "\n", "END:A\n"),
    ("BEGIN:A\n", "\r\n", "END:A\n"),
    ("BEGIN:A\n", " \n", "END:A\n"),
    ("BEGIN:A\nX:1\n", "\n", "END:A\n"),
    ("\n", "\n", "BEGIN:A\nEND:A\n"),
    ("BEGIN:A\nX:", "\n ", "END\nEND:A\n"),
    ("BEGIN:A\nX:", "a\r\n ", "\nEND:A\n"),
    ("BEGIN:A\nX:", "a\n\t", "\nEND:A\n"),
    ("BEGIN:A\nX:", "a", "\nEND:A\n"),
    ("BEGIN:A\nX:", "\\", "\nEND:A\n"),
    ("BEGIN:A\nSUMMARY:", "\\n", "\nEND:A\n"),
    ("BEGIN:A\nSUMMARY:", "\\", "\nEND:A\n"),
    ("BEGIN:A\nSUMMARY:", "é", "\nEND:A\n"),
    ("BEGIN:A\nX:", "😀", "\nEND:A\n"),
    ("BEGIN:A\nX:", "\r", "\nEND:A\n"),
    ("BEGIN:A\nX:", "a\r", "\nEND:A\n"),
    ("BEGIN:A\nX", ";", ":1\nEND:A\n"),
    ("BEGIN:A\nX", ";P=1", ":1\nEND:A\n"),
    ("BEGIN:A\nX", ";P", ":1\nEND:A\n"),
    ("BEGIN:A\nX", ";P=", ":1\nEND:A\n"),
    ("BEGIN:A\nX", ";P=\"a\"", ":1\nEND:A\n"),
    ("BEGIN:A\nX;P=", "\"a\",", "\"b\":1\nEND:A\n"),
    ("BEGIN:A\nX;P=", ",", ":1\nEND:A\n"),
    ("BEGIN:A\nX;P=", "\"", ":1\nEND:A\n"),
    ("BEGIN:A\nX;P=\"", "a", "\":1\nEND:A\n"),
    ("BEGIN:A\nX;P=\"", "a", ":1\nEND:A\n"),
    ("BEGIN:A\nX;P=", "=", ":1\nEND:A\n"),
    ("BEGIN:A\n", ":", "\nEND:A\n"),
    ("BEGIN:A\n", ";", "\nEND:A\n"),
    ("BEGIN:A\n", "X", ":1\nEND:A\n"),
    ("BEGIN:", "A", "\nEND:A\n"),
    ("BEGIN:A\n", "END", "\nEND:A\n"),
    ("", ":", ""),
    ("", ";", ""),
    ("", "\"", ""),
    ("", "\\", ""),
    ("", "\r", ""),
    ("", " ", ""),
    ("", "\n ", ""),
    ("", "9", ""),
    ("P", "9", "D"),
    ("TRIGGER:P", "1", "W"),
    ("TRIGGER:", "-", "P1D"),
    ("DTSTART:", "2", ""),
    ("PRIORITY:", "0", "5"),
    ("X;A=", "\"", ":"),
    ("X", ";A=B", ""),
    // errors far to the right
    ("BEGIN:A\n", "X", "\nEND:A\n"),
    ("BEGIN:A\n", "X", ""),
    ("", "X", ""),
    ("", "X", "\n"),
    ("", "é", "\n"),
    ("", "X", "?:1\n"),
    ("BEGIN:A\nX;", "P", "\nEND:A\n"),
    ("BEGIN:A\nX;", "P", "?=1:2\nEND:A\n"),
    ("BEGIN:A\nX;P=", "P", "\nEND:A\n"),
    ("BEGIN:A\nX", ";P=1", "\nEND:A\n"),
    ("BEGIN:A\nX", ";P", ""),
    ("BEGIN:A\nX;P=\"", "P", "\n\":1\nEND:A\n"),
    ("BEGIN:", "A", " ?\nEND:A\n"),
    ("BEGIN:", "A", ""),
    ("BEGIN:A\nEND:", "A", "\n"),
    ("BEGIN:A\nEND:A", " ", "x\n"),
    ("", " ", "BEGIN:A\nEND:B\n"),
    ("BEGIN:A\nX;P=", "é", "\nEND:A\n"),
];

fn c01_repeat(ctx: &mut Ctx) {
    let i = ctx.case as usize;
    let shape = REPEATS[i % REPEATS.len()];
    let sizes: &[usize] = if ctx.tier == Tier::Quick {
        &[2, 99, 100, 101, 102, 5_000, 70_000]
    } else {
        &[2, 3, 50, 98, 99, 100, 101, 102, 103, 127, 128, 129, 1_000, 20_000, 200_000, 600_000]
    };
    let size = sizes[i / REPEATS.len() % sizes.len()];
    let s = format!("{}{}{}", shape.0, shape.1.repeat(size), shape.2);
    ctx.sample(|| format!("{:?} x {size}", shape));
    let small = size < 1000;
    drive(ctx, &s, Plan { json: small, again: true, debug: small });
    ctx.nontrivial(&format!("{shape:?}{size}"));
    ctx.obs("repetitions");
}

/// nested to `depth`, with what a level can look like
fn c01_deep(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let sizes: &[usize] = &[3, 60, 97, 98, 99, 100, 101, 102, 103, 150, 1_000, 8_000, 50_000];
    let depth = sizes[ctx.case as usize % sizes.len()];
    let eol = if r.one_in(2) { "\n" } else { "\r\n" };
    let kind = r.below(6);
    let name = |i: usize| match kind {
        0 => "A".to_string(),
        1 => format!("A{i}"),
        2 => "VEVENT".to_string(),
        3 => (if i == 0 { "VCALENDAR" } else { "VTODO" }).to_string(),
        4 => "VALARM".to_string(),
        _ => "X".repeat(1 + i % 7),
    };
    let mut s = String::new();
    let extra = r.below(4);
    for i in 0..depth {
        s.push_str("BEGIN:");
        s.push_str(&name(i));
        s.push_str(eol);
        match extra {
            1 => s.push_str(&format!("UID:{i}{eol}")),
            2 => s.push_str(&format!("BEGIN:S{eol}END:S{eol}")),
            3 => s.push_str(eol),
            _ => {}
        }
    }
    match r.below(5) {
        0 => {}
        1 => s.push_str("END:NOPE\n"),
        2 => s.push_str("X;\n"),
        3 => {
            for i in (depth / 2..depth).rev() {
                s.push_str(&format!("END:{}{eol}", name(i)));
            }
        }
        _ => {
            for i in (0..depth).rev() {
                s.push_str(&format!("END:{}{eol}", name(i)));
            }
        }
    }
    ctx.sample(|| clip(&s, 200));
    let small = depth < 1000;
    drive(ctx, &s, Plan { json: small, again: true, debug: small });
    ctx.obs("deep documents");
}

/// what the builders accept beyond what a text can hold
fn c01_extremes(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let durations = [
        Duration::MAX,
        Duration::MIN,
        Duration::zero(),
        Duration::nanoseconds(1),
        Duration::nanoseconds(-1),
        Duration::milliseconds(i64::MAX),
        Duration::milliseconds(-i64::MAX),
        Duration::seconds(i64::MAX / 1000),
        Duration::seconds(-i64::MAX / 1000),
        Duration::seconds(model::seconds(&mut r)),
        Duration::weeks(r.range(-15_000_000_000, 15_000_000_000)),
    ];
    let times = [
        NaiveDateTime::MAX,
        NaiveDateTime::MIN,
        NaiveDate::MAX.and_time(NaiveTime::MIN),
        NaiveDate::from_ymd_opt(-1, 12, 31).unwrap_or_default().and_time(NaiveTime::MIN),
        NaiveDate::from_ymd_opt(10_000, 1, 1).unwrap_or_default().and_time(NaiveTime::MIN),
        NaiveDate::from_ymd_opt(0, 1, 1).unwrap_or_default().and_time(NaiveTime::MIN),
        model::date_time(&mut r),
    ];
    let d = *r.pick(&durations);
    let t = *r.pick(&times);
    let zone = *r.pick(ZONES);
    let tz = chrono_tz::TZ_VARIANTS[r.below(chrono_tz::TZ_VARIANTS.len())];
    let days = [i32::MIN, -262_144, -1, 0, 2024, 9999, 10_000, 262_143, i32::MAX];
    let ymd = (*r.pick(&days), r.below(15) as u32, r.below(34) as u32, r.below(26) as u32, r.below(62) as u32);
    let big = *r.pick(&[0u32, 1, 9, 10, 100, u32::MAX]);
    let what = format!("{d:?} {t:?} {zone} {tz} {ymd:?} {big}");
    let mut seen = Seen::new(false);
    let run = guarded(|| {
        let mut e = Event::new();
        e.priority(big).sequence(big).uid("u").starts(CalendarDateTime::from(t)).ends(t.date());
        e.append_property(Property::from(d));
        e.timestamp(t.and_utc()).created(t.and_utc()).last_modified(t.and_utc());
        e.alarm(Alarm::display("x", Trigger::before_start(d)));
        e.alarm(Alarm::audio(Trigger::after_end(d)).duration_and_repeat(d, big).done());
        e.alarm(Alarm::audio(CalendarDateTime::from((t, tz))));
        if let Ok(z) = DatePerhapsTime::try_from((t, zone)) {
            e.append_property(z.to_property("DUE"));
        }
        if let Some(x) = CalendarDateTime::from_ymd_hm_tzid(ymd.0, ymd.1, ymd.2, ymd.3, ymd.4, tz) {
            e.starts(x);
        }
        if let Some(x) = icalendar::ymd_hm_tzid(ymd.0, ymd.1, ymd.2, ymd.3, ymd.4, tz) {
            e.ends(x);
        }
        let mut todo = Todo::new();
        todo.percent_complete(big as u8).due(CalendarDateTime::WithTimezone { date_time: t, tzid: zone.into() });
        todo.completed(t.and_utc());
        todo.alarm(Alarm::display("y", Trigger::from(d)));
        let mut c = Calendar::new();
        c.ttl(&d).timezone(zone).push(e.done()).push(todo.done());
        walk::calendar(&c, FULL, &mut seen);
        let text: Result<String, std::fmt::Error> = (&c).try_into();
        text.map(|t| t.len())
    });
    if let Caught::Library(msg) = run {
        ctx.fail("panic", format!("{msg}\n  input: {what}"));
        return;
    }
    ctx.obs("extreme programs");
    ctx.obs_n("texts written", seen.written);
    ctx.nontrivial(&what);
    ctx.sample(|| what.clone());
}

/// every prefix of a document, and the document with every single byte-sized hole
fn c01_prefixes(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let mut s = base_text(&mut r);
    if s.len() > 1500 {
        let mut e = 1500;
        while !s.is_char_boundary(e) {
            e -= 1;
        }
        s.truncate(e);
    }
    let plan = Plan { json: false, again: false, debug: false };
    let step = if ctx.tier == Tier::Quick { 1 + s.len() / 150 } else { 1 };
    let mut i = r.below(step);
    while i <= s.len() {
        if s.is_char_boundary(i) {
            drive(ctx, &s[..i], plan);
            drive(ctx, &s[i..], plan);
            if let Some(c) = s[i..].chars().next() {
                drive(ctx, &format!("{}{}", &s[..i], &s[i + c.len_utf8()..]), plan);
            }
        }
        if ctx.failed() {
            return;
        }
        i += step;
    }
}

fn c01_fixtures(ctx: &mut Ctx) {
    for (name, text) in fixtures() {
        ctx.obs("fixtures");
        drive(ctx, &text, FULL);
        if ctx.failed() {
            ctx.fail("fixture", name);
            return;
        }
    }
}

/// JSON that a program may be handed: what is accepted can be shown and converted
fn c01_json(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let doc = gen::document(&mut r, &DocOpts { max_depth: 3, max_items: 4, ..gen::DEFAULT_DOC });
    let text = gen::layout(&mut r, &gen::lines_of(&doc), &gen::PLAIN_LAYOUT);
    let flat = icalendar::parser::unfold(&text);
    let Ok(cal) = icalendar::parser::read_calendar(&flat) else {
        return;
    };
    let Ok(mut j) = serde_json::to_string(&cal) else {
        return;
    };
    for _ in 0..r.below(4) {
        let at = boundary(&mut r, &j);
        match r.below(5) {
            0 => j.insert_str(
                at,
                r.pick(&["null", "\"\"", "{}", "[]", "\\n", "\\r\\n", "\\u0000", "\"", ",", "1", ":", ";"]),
            ),
            1 => {
                if let Some(c) = j[at..].chars().next() {
                    j.replace_range(at..at + c.len_utf8(), r.pick(&["x", "\\n", "\\\\", ";", ":", "é", "null"]));
                }
            }
            2 => j = j.replacen("\"DTSTART\"", "\"DUE\\n\"", 1),
            3 => j = j.replacen("\"name\":\"", "\"name\":\"\\r\\nEND:", 1),
            _ => j = j.replacen("\"val\":\"", "\"val\":\"\\n\\r\\u0000😀", 1),
        }
    }
    let mut seen = Seen::new(false);
    let run = guarded(|| {
        if let Ok(c) = serde_json::from_str::<icalendar::parser::Calendar>(&j) {
            let shown = c.to_string();
            walk::calendar(&Calendar::from(c), FULL, &mut seen);
            return shown.len();
        }
        0
    });
    match run {
        Caught::Library(msg) => ctx.fail("panic", format!("{msg}\n  JSON: {:?}", clip(&j, 3000))),
        Caught::Ok(n) => {
            if n > 0 {
                ctx.obs("JSON calendars accepted");
                ctx.nontrivial(&j);
            } else {
                ctx.obs("JSON calendars rejected");
            }
        }
    }
}

pub fn c01() -> Prop {
    Prop {
        id: "C01",
        level: "exploration",
        rule: "distinct strings that some entry point accepted or that open a component, and distinct builder programs with extreme arguments",
        sections: vec![
            sec("fixtures", 1, 1, c01_fixtures),
            sec("repeat", (REPEATS.len() * 7) as u64, (REPEATS.len() * 16) as u64, c01_repeat),
            sec("deep", 13 * 16, 13 * 200, c01_deep),
            sec("mutated", 24_000, 1_500_000, c01_mutated),
            sec("soup", 60_000, 3_000_000, c01_soup),
            sec("values", 60_000, 3_000_000, c01_values),
            sec("prefixes", 100, 2_000, c01_prefixes),
            sec("extremes", 6_000, 200_000, c01_extremes),
            sec("json", 6_000, 200_000, c01_json),
            sec("tiny", tiny_count(3), tiny_count(5), c01_tiny),
        ],
        require: vec![
            ("calls that accepted", 10_000),
            ("calls that returned an error", 10_000),
            ("properties visited", 10_000),
            ("conversions to UTC that gave an instant", 1_000),
            ("triggers read", 1_000),
            ("deep documents", 100),
            ("repetitions", 100),
            ("extreme programs", 1_000),
        ],
        extra: Some(c01_extra),
        assumptions: vec![
            "threads with 2 MiB of stack (the default of Rust threads), one case at most 90 s of CPU time",
            "the harness is built with overflow checks and debug assertions on",
        ],
    }
}

// -------------------------------------------------------------------------------------- C20

/// A document of about `size` bytes: a head, numbered units, a tail.
struct Shape {
    name: String,
    head: String,
    /// `#` stands for the number of the unit
    unit: String,
    tail: String,
}

fn shapes() -> Vec<Shape> {
    let mut out: Vec<Shape> = vec![];
    let mut add = |name: &str, head: &str, unit: &str, tail: &str| {
        out.push(Shape { name: name.into(), head: head.into(), unit: unit.into(), tail: tail.into() });
    };
    let event = "BEGIN:VEVENT\nUID:#\nDTSTAMP:20240101T000000Z\nDTSTART;TZID=Europe/Berlin:20240229T093000\n\
        SUMMARY:Planning\\, part #\nATTENDEE;CN=\"Doe; J\";RSVP=TRUE:mailto:#@example.com\nATTENDEE:mailto:b@example.com\n\
        BEGIN:VALARM\nUID:a#\nDTSTAMP:20240101T000000Z\nACTION:DISPLAY\nTRIGGER:-PT15M\nEND:VALARM\nEND:VEVENT\n";
    for (eol, n) in [("\n", "lf"), ("\r\n", "crlf")] {
        let with = |s: &str| s.replace('\n', eol);
        let mut add = |name: &str, head: &str, unit: &str, tail: &str| {
            add(&format!("{name} {n}"), &with(head), &with(unit), &with(tail));
        };
        add("events", "BEGIN:VCALENDAR\nVERSION:2.0\n", event, "END:VCALENDAR\n");
        add("events, end missing", "BEGIN:VCALENDAR\nVERSION:2.0\n", event, "");
        add("events, bad last line", "BEGIN:VCALENDAR\nVERSION:2.0\n", event, "X;\nEND:VCALENDAR\n");
        add("events, wrong last end", "BEGIN:VCALENDAR\nVERSION:2.0\n", event, "END:NOPE\n");
        add("events, junk after the end", "BEGIN:VCALENDAR\n", event, "END:VCALENDAR\njunk\n");
        add("events without a calendar", "", event, "");
        add("calendars", "", "BEGIN:VCALENDAR\nVERSION:2.0\nBEGIN:VEVENT\nUID:#\nEND:VEVENT\nEND:VCALENDAR\n", "");
        add("empty components", "BEGIN:VCALENDAR\n", "BEGIN:B\nEND:B\n", "END:VCALENDAR\n");
        add("components of many names", "BEGIN:VCALENDAR\n", "BEGIN:B#\nEND:B#\n", "END:VCALENDAR\n");
        add("one property, many times", "BEGIN:VEVENT\nUID:1\n", "X-A:#\n", "END:VEVENT\n");
        add("calendar properties", "BEGIN:VCALENDAR\n", "X-A#:#\n", "END:VCALENDAR\n");
        add("properties of many names", "BEGIN:VEVENT\nUID:1\n", "X-#:a\n", "END:VEVENT\n");
        add("list properties", "BEGIN:VEVENT\nUID:1\n", "ATTENDEE;CN=#:mailto:#\n", "END:VEVENT\n");
        add("list property of one value", "BEGIN:VEVENT\nUID:1\n", "CATEGORIES:A\n", "END:VEVENT\n");
        add("properties, end missing", "BEGIN:VEVENT\nUID:1\n", "X-A:#\n", "");
        add("properties without a component", "", "X-A:#\n", "");
        add("text properties", "BEGIN:VEVENT\nUID:1\n", "SUMMARY:a\\,b\\;c\\nd\n", "END:VEVENT\n");
        add("empty lines", "BEGIN:VEVENT\nUID:1\n", "\n", "END:VEVENT\n");
        add("empty lines between properties", "BEGIN:VEVENT\nUID:1\n", "X:1\n\n\n\n", "END:VEVENT\n");
        add("empty lines before", "", "\n", "BEGIN:VEVENT\nUID:1\nEND:VEVENT\n");
        add("empty lines after", "BEGIN:VEVENT\nUID:1\nEND:VEVENT\n", "\n", "");
        add("empty lines only", "", "\n", "");
        add("names without a value", "BEGIN:VEVENT\nUID:1\n", "X-A\n", "END:VEVENT\n");
        add("folded value", "BEGIN:VEVENT\nUID:1\nX-A:", "abc # def\n ", "\nEND:VEVENT\n");
        add("value folded with tabs", "BEGIN:VEVENT\nUID:1\nX-A:", "abc # def\n\t", "\nEND:VEVENT\n");
        add("text folded everywhere", "BEGIN:VEVENT\nUID:1\nSUMMARY:", "a\n ", "\nEND:VEVENT\n");
        add("long value", "BEGIN:VEVENT\nUID:1\nX-A:", "abc # def", "\nEND:VEVENT\n");
        add("long text", "BEGIN:VEVENT\nUID:1\nSUMMARY:", "abc # def", "\nEND:VEVENT\n");
        add("long escaped text", "BEGIN:VEVENT\nUID:1\nSUMMARY:", "a\\,\\n\\\\", "\nEND:VEVENT\n");
        add("long text of commas", "BEGIN:VEVENT\nUID:1\nSUMMARY:", ",", "\nEND:VEVENT\n");
        add("long wide text", "BEGIN:VEVENT\nUID:1\nSUMMARY:", "é😀", "\nEND:VEVENT\n");
        add("long wide value", "BEGIN:VEVENT\nUID:1\nX-A:", "é😀", "\nEND:VEVENT\n");
        add("long backslashes", "BEGIN:VEVENT\nUID:1\nSUMMARY:", "\\", "\nEND:VEVENT\n");
        add("carriage returns in a value", "BEGIN:VEVENT\nUID:1\nX-A:", "ab\r", "\nEND:VEVENT\n");
        add("long value, end missing", "BEGIN:VEVENT\nUID:1\nX-A:", "abc # def", "");
        add("long calendar property", "BEGIN:VCALENDAR\nX-WR-CALNAME:", "abc # def", "\nEND:VCALENDAR\n");
        add("long parameter", "BEGIN:VEVENT\nUID:1\nX-A;P=\"", "abc # def", "\":1\nEND:VEVENT\n");
        add("long parameter, no quote at the end", "BEGIN:VEVENT\nUID:1\nX-A;P=\"", "abc # def", ":1\nEND:VEVENT\n");
        add("long bare parameter", "BEGIN:VEVENT\nUID:1\nX-A;P=", "abc#", ":1\nEND:VEVENT\n");
        add("parameters of many names", "BEGIN:VEVENT\nUID:1\nX-A", ";P#=v", ":1\nEND:VEVENT\n");
        add("one parameter, many times", "BEGIN:VEVENT\nUID:1\nX-A", ";P=#", ":1\nEND:VEVENT\n");
        add("quoted parameters", "BEGIN:VEVENT\nUID:1\nX-A", ";P#=\"a;b\"", ":1\nEND:VEVENT\n");
        add("parameters without a value", "BEGIN:VEVENT\nUID:1\nX-A", ";P#", ":1\nEND:VEVENT\n");
        add("parameters, no value", "BEGIN:VEVENT\nUID:1\nX-A", ";P#=v", "\nEND:VEVENT\n");
        add("parameters on many lines", "BEGIN:VEVENT\nUID:1\n", "X-A;P=v;Q=\"w\";R=x:#\n", "END:VEVENT\n");
        add("parameter list", "BEGIN:VEVENT\nUID:1\nX-A;P=", "\"a#\",", "\"b\":1\nEND:VEVENT\n");
        add("semicolons", "BEGIN:VEVENT\nUID:1\nX-A", ";", ":1\nEND:VEVENT\n");
        add("long property name", "BEGIN:VEVENT\nUID:1\nX-", "A", ":1\nEND:VEVENT\n");
        add("long component name", "BEGIN:X", "A", "\nUID:1\nEND:X\n");
        add("junk", "BEGIN:VEVENT\n", "?#", "\nEND:VEVENT\n");
        add("opens only", "BEGIN:VCALENDAR\n", "BEGIN:A\n", "");
        add("closes only", "BEGIN:VCALENDAR\n", "END:A\n", "");
        add("list value", "BEGIN:VEVENT\nUID:1\nCATEGORIES:", "AB#,", "C\nEND:VEVENT\n");
        // as deep as it goes, then long
        let down: String = (0..98).map(|i| format!("BEGIN:N{i}\nUID:{i}\n")).collect();
        let up: String = (0..98).rev().map(|i| format!("END:N{i}\n")).collect();
        add("deep, then long", &down, "X-A:#\n", &up);
        add("deep, then long, end missing", &down, "X-A:#\n", "");
        add("deep, then long, bad line", &down, "X-A:#\n", "X;\n");
    }
    // deep repetitions
    let down: String = (0..98).map(|i| format!("BEGIN:N{i}\nUID:{i}\n")).collect();
    let up: String = (0..98).rev().map(|i| format!("END:N{i}\n")).collect();
    add("deep components", "", &format!("{down}{up}"), "");
    add("deep components, end missing", "", &format!("{down}{up}"), &down);
    out
}

fn shape_text(s: &Shape, size: usize) -> String {
    let mut t = s.head.clone();
    let mut i = 0;
    while t.len() + s.tail.len() < size {
        t.push_str(&s.unit.replace('#', &format!("{i:07}")));
        i += 1;
    }
    t.push_str(&s.tail);
    t
}

/// runs one operation between `on` and `off`
fn measured(text: &str, mut on: impl FnMut(), mut off: impl FnMut(&'static str)) {
    use icalendar::parser;
    on();
    let flat = parser::unfold(text);
    off("unfold");
    on();
    let r = parser::read_calendar_simple(&flat);
    drop(r);
    off("read_calendar_simple");
    on();
    let r = parser::read_components(&flat);
    drop(r);
    off("read_components");
    on();
    let r = parser::read_calendar(&flat);
    off("read_calendar");
    if let Ok(c) = r {
        on();
        let out = c.to_string();
        off("write parsed");
        drop(out);
        on();
        let typed = Calendar::from(c);
        off("convert");
        on();
        let out = typed.to_string();
        off("write");
        drop(out);
    }
    on();
    let r = text.parse::<Calendar>();
    drop(r);
    off("parse");
    // the longest line of the document alone
    if let Some(line) = flat.lines().max_by_key(|l| l.len()) {
        if line.len() > flat.len() / 2 {
            on();
            let r = line.parse::<Property>();
            drop(r);
            off("property");
        }
    }
}

type Program = fn(usize, &mut dyn FnMut(), &mut dyn FnMut(&'static str));

/// what is done with a component that was built
fn operate<C: Component + Clone + PartialEq>(c: &C, on: &mut dyn FnMut(), off: &mut dyn FnMut(&'static str)) {
    on();
    let text = Component::to_string(c);
    off("write");
    drop(text);
    on();
    let d = c.clone();
    off("clone");
    on();
    let same = *c == d;
    off("compare");
    assert!(same);
    on();
    let n = c.properties().keys().filter(|k| c.property_value(k).is_some()).count();
    off("look up");
    assert_eq!(n, c.properties().len());
    on();
    drop(d);
    off("drop");
}

fn operate_calendar(c: &Calendar, on: &mut dyn FnMut(), off: &mut dyn FnMut(&'static str)) {
    on();
    let text = c.to_string();
    off("write");
    on();
    let r: Result<String, _> = c.try_into();
    off("into string");
    drop((text, r));
    on();
    let d = Calendar { properties: c.properties.clone(), components: c.components.clone() };
    off("clone");
    on();
    let same = *c == d;
    off("compare");
    assert!(same);
    on();
    let n = c.iter().filter(|x| x.as_event().is_some()).count();
    let n = n + c.properties.iter().filter(|p| p.value_type().is_some()).count();
    off("iterate");
    std::hint::black_box(n);
    on();
    let _ = (c.get_name(), c.get_description(), c.get_timezone(), c.get_ttl());
    off("getters");
    on();
    drop(d);
    off("drop");
}

/// programs that build something of `n` parts, by name
fn programs() -> Vec<(&'static str, Program)> {
    fn small(i: usize) -> Event {
        let mut e = Event::new();
        e.uid(&format!("{i:07}")).summary("Planning, part").starts(NaiveDate::MIN);
        e.add_property("DTSTAMP", "20240101T000000Z").done()
    }
    fn alarm() -> Alarm {
        let mut a = Alarm::display("Reminder", -Duration::minutes(15));
        a.uid("a").add_property("DTSTAMP", "20240101T000000Z");
        a
    }
    vec![
        ("events pushed", |n, on, off| {
            let all: Vec<Event> = (0..n).map(small).collect();
            on();
            let mut c = Calendar::new();
            for e in all {
                c.push(e);
            }
            off("build");
            operate_calendar(&c, on, off);
            on();
            let d = c.done();
            off("done");
            drop(d);
        }),
        ("events built", |n, on, off| {
            on();
            let mut c = Calendar::new();
            for i in 0..n {
                c.add(small(i));
            }
            off("build");
        }),
        ("calendars appended", |n, on, off| {
            let mut all: Vec<Calendar> = (0..n).map(|i| Calendar::from([small(i)])).collect();
            on();
            let mut c = Calendar::new();
            for d in &mut all {
                c.append(d);
            }
            off("build");
        }),
        ("calendars extended", |n, on, off| {
            let all: Vec<Vec<Event>> = (0..n).map(|i| vec![small(i)]).collect();
            on();
            let mut c = Calendar::new();
            for d in all {
                c.extend(d);
            }
            off("build");
        }),
        ("two calendars appended", |n, on, off| {
            let mut c: Calendar = (0..n / 2).map(small).collect();
            let mut d: Calendar = (0..n - n / 2).map(small).collect();
            on();
            c.append(&mut d);
            off("append");
            let all: Vec<CalendarComponent> = d.components.into_iter().chain(c.components).collect();
            let mut e = Calendar::new();
            on();
            e.extend(all);
            off("extend");
        }),
        ("events collected", |n, on, off| {
            let all: Vec<Event> = (0..n).map(small).collect();
            on();
            let c: Calendar = all.into_iter().collect();
            off("collect");
            on();
            let d: Calendar = c.components.into_iter().collect();
            off("collect again");
            drop(d);
        }),
        ("calendar properties", |n, on, off| {
            on();
            let mut c = Calendar::new();
            for i in 0..n {
                c.append_property((format!("X-{i:07}").as_str(), "v"));
            }
            off("build");
            operate_calendar(&c, on, off);
        }),
        ("one calendar property", |n, on, off| {
            on();
            let mut c = Calendar::new();
            for _ in 0..n {
                c.append_property(("X-A", "v"));
            }
            off("build");
            operate_calendar(&c, on, off);
        }),
        ("properties", |n, on, off| {
            on();
            let mut c = small(0);
            for i in 0..n {
                c.add_property(format!("X-{i:07}"), "v");
            }
            off("build");
            operate(&c, on, off);
            on();
            let d = c.done();
            off("done");
            on();
            let d = CalendarComponent::from(d);
            off("convert");
            drop(d);
        }),
        ("one property", |n, on, off| {
            on();
            let mut c = small(0);
            for _ in 0..n {
                c.add_property("X-A", "v").summary("s").starts(NaiveDate::MIN).priority(3).class(Class::Private);
            }
            off("build");
        }),
        ("multi properties", |n, on, off| {
            on();
            let mut c = small(0);
            for _ in 0..n {
                c.add_multi_property("ATTENDEE", "mailto:a@example.com");
            }
            off("build");
            operate(&c, on, off);
        }),
        ("multi properties of many names", |n, on, off| {
            on();
            let mut c = small(0);
            for i in 0..n {
                c.append_multi_property((format!("X-{i:07}").as_str(), "v"));
            }
            off("build");
            operate(&c, on, off);
        }),
        ("alarms", |n, on, off| {
            let all: Vec<Alarm> = (0..n).map(|_| alarm()).collect();
            on();
            let mut c = small(0);
            for a in all {
                c.alarm(a);
            }
            off("build");
            operate(&c, on, off);
        }),
        ("components in a todo", |n, on, off| {
            let all: Vec<Event> = (0..n).map(small).collect();
            on();
            let mut c = Todo::new();
            c.uid("u").add_property("DTSTAMP", "20240101T000000Z");
            for e in all {
                c.append_component(e);
            }
            off("build");
            operate(&c, on, off);
        }),
        ("nested", |n, on, off| {
            // never deeper than this, many times
            on();
            let mut c = small(0);
            for _ in 0..n / 50 {
                let mut inner = small(1);
                for i in 0..49 {
                    let mut outer = small(i);
                    outer.append_component(inner);
                    inner = outer;
                }
                c.append_component(inner);
            }
            off("build");
            operate(&c, on, off);
        }),
        ("parameters", |n, on, off| {
            on();
            let mut p = Property::new("X-A", "v");
            for i in 0..n {
                p.add_parameter(&format!("P{i:07}"), "v");
            }
            off("build");
            operate_property(&p, on, off);
        }),
        ("one parameter", |n, on, off| {
            on();
            let mut p = Property::new("X-A", "v");
            for _ in 0..n {
                p.append_parameter(Parameter::new("P", "v"));
            }
            off("build");
        }),
        ("long value", |n, on, off| {
            let v = "ab, c\u{e9};".repeat(n);
            on();
            let mut c = small(0);
            c.summary(&v).description(&v).url(&v).add_property("X-A", v.as_str()).add_multi_property("COMMENT", &v);
            off("build");
            operate(&c, on, off);
        }),
        ("long text property", |n, on, off| {
            let p = Property::new("SUMMARY", "ab, c\u{e9};".repeat(n));
            operate_property(&p, on, off);
        }),
        ("long URL property", |n, on, off| {
            let p = Property::new("URL", "ab, c\u{e9};".repeat(n));
            operate_property(&p, on, off);
        }),
        ("long parameter", |n, on, off| {
            let v = "ab, c\u{e9};".repeat(n);
            on();
            let mut p = Property::new("X-A", "v");
            p.add_parameter("P", &v);
            off("build");
            operate_property(&p, on, off);
        }),
        ("long calendar name", |n, on, off| {
            let v = "ab, c\u{e9};".repeat(n);
            on();
            let mut c = Calendar::new();
            c.name(&v).description(&v).timezone(&v);
            off("build");
            operate_calendar(&c, on, off);
        }),
        ("properties of an array", |n, on, off| {
            let all: Vec<Property> = (0..n).map(|i| Property::new(format!("X-{i:07}"), "v")).collect();
            on();
            let mut c = small(0);
            for p in all {
                c.append_property(p.done_of());
            }
            off("build");
        }),
    ]
}

trait DoneOf {
    fn done_of(self) -> Property;
}

impl DoneOf for Property {
    fn done_of(mut self) -> Property {
        self.done()
    }
}

fn operate_property(p: &Property, on: &mut dyn FnMut(), off: &mut dyn FnMut(&'static str)) {
    let mut q = p.clone();
    on();
    let text: Result<String, std::fmt::Error> = p.clone().try_into();
    off("write");
    let text = text.expect("a property is written");
    on();
    let back = text.parse::<Property>();
    off("parse");
    on();
    let same = back.as_ref().ok() == Some(p);
    off("compare");
    std::hint::black_box(same);
    on();
    let d = q.done();
    off("done");
    on();
    let n = d.params().values().filter(|x| !x.value().is_empty()).count();
    off("parameters");
    std::hint::black_box(n);
}

fn all_names() -> Vec<String> {
    shapes().iter().map(|s| s.name.clone()).chain(programs().iter().map(|p| format!("program: {}", p.0))).collect()
}

/// sizes in bytes for the documents, in parts for the programs
fn part_sizes(sizes: &[usize], program: bool) -> Vec<usize> {
    sizes.iter().map(|s| if program { s / 20 } else { *s }).collect()
}

/// A request to the valgrind the process may run under.
#[cfg(target_arch = "x86_64")]
fn valgrind(request: u64, arg: u64) -> u64 {
    let args: [u64; 6] = [request, arg, 0, 0, 0, 0];
    let mut result: u64 = 0;
    unsafe {
        std::arch::asm!(
            "rol rdi, 3",
            "rol rdi, 13",
            "rol rdi, 61",
            "rol rdi, 51",
            "xchg rbx, rbx",
            inout("rdx") result,
            in("rax") args.as_ptr(),
            options(nostack)
        );
    }
    result
}

#[cfg(not(target_arch = "x86_64"))]
fn valgrind(_: u64, _: u64) -> u64 {
    0
}

const CALLGRIND: u64 = ((b'C' as u64) << 24) | ((b'T' as u64) << 16);

/// `mon measure <shape> <size>...`, run under callgrind
pub fn measure(shape: usize, sizes: &[usize]) {
    let all = shapes();
    let mut on = || {
        valgrind(CALLGRIND + 4, 0);
        valgrind(CALLGRIND + 1, 0);
    };
    fn off(size: usize, op: &str) {
        let name = format!("{size} {op}\0");
        valgrind(CALLGRIND + 3, name.as_ptr() as u64);
        valgrind(CALLGRIND + 5, 0);
    }
    for &size in sizes {
        match all.get(shape) {
            Some(s) => {
                let text = shape_text(s, size);
                measured(&text, on, |op| off(text.len(), op));
            }
            None => programs()[shape - all.len()].1(size, &mut on, &mut |op| off(size, op)),
        }
    }
}

type Costs = std::collections::BTreeMap<String, Vec<(u64, u64)>>;

/// operation -> (bytes of the document, instructions)
fn callgrind(exe: &std::path::Path, dir: &std::path::Path, shape: usize, sizes: &[usize]) -> Result<Costs, String> {
    let out = dir.join(format!("cg-{shape}"));
    let result = std::process::Command::new("valgrind")
        .args(["-q", "--tool=callgrind", "--instr-atstart=no", "--combine-dumps=no", "--error-limit=no"])
        .arg(format!("--callgrind-out-file={}", out.display()))
        .arg(exe)
        .arg("measure")
        .arg(shape.to_string())
        .args(sizes.iter().map(|s| s.to_string()))
        .output()
        .map_err(|e| format!("cannot start valgrind: {e}"))?;
    if !result.status.success() {
        return Err(format!("callgrind ended with {}: {}", result.status, String::from_utf8_lossy(&result.stderr)));
    }
    let mut costs = Costs::new();
    let mut i = 1;
    loop {
        let file = dir.join(format!("cg-{shape}.{i}"));
        let Ok(text) = std::fs::read_to_string(&file) else {
            break;
        };
        let _ = std::fs::remove_file(&file);
        i += 1;
        let Some(name) = text.lines().find_map(|l| l.strip_prefix("desc: Trigger: Client Request: ")) else {
            continue;
        };
        let Some(total) = text
            .lines()
            .find_map(|l| l.strip_prefix("totals: ").or_else(|| l.strip_prefix("summary: ")))
            .and_then(|v| v.trim().parse::<u64>().ok())
        else {
            continue;
        };
        let Some((size, op)) = name.trim().split_once(' ') else {
            continue;
        };
        costs.entry(op.to_string()).or_default().push((size.parse().unwrap_or(0), total));
    }
    let _ = std::fs::remove_file(&out);
    Ok(costs)
}

/// Cost per additional byte, at the beginning and at the end. What the smallest one costs per byte counts as the
/// beginning, too: from some length on, a document may cost less (no excerpt of a long line in an error).
fn slopes(v: &[(u64, u64)]) -> Option<(f64, f64)> {
    if v.len() < 3 {
        return None;
    }
    let d = |a: (u64, u64), b: (u64, u64)| (b.1 as f64 - a.1 as f64) / (b.0 as f64 - a.0 as f64);
    let smallest = v[0].1 as f64 / v[0].0.max(1) as f64;
    Some((d(v[0], v[1]).max(smallest), d(v[v.len() - 2], v[v.len() - 1])))
}

fn c20_extra(e: &mut Extra) {
    let sizes: &[usize] = if e.tier == Tier::Quick { &[5_000, 25_000, 125_000] } else { &[16_000, 160_000, 1_600_000] };
    let (names, docs) = (all_names(), shapes().len());
    let next = std::sync::atomic::AtomicUsize::new(0);
    let results = std::sync::Mutex::new(vec![]);
    let (exe, work) = (e.exe.clone(), e.work.clone());
    std::thread::scope(|scope| {
        for _ in 0..std::thread::available_parallelism().map_or(4, |n| n.get()).min(16) {
            scope.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= names.len() {
                    break;
                }
                let r = callgrind(&exe, &work, i, &part_sizes(sizes, i >= docs));
                results.lock().unwrap().push((i, r));
            });
        }
    });
    let mut results = results.into_inner().unwrap();
    results.sort_by_key(|r| r.0);
    let mut table = serde_json::Map::new();
    let mut worst: f64 = 0.0;
    for (i, r) in results {
        let unit = if i < docs { "byte" } else { "part" };
        let costs = match r {
            Ok(c) => c,
            Err(err) => {
                e.errors.push(format!("{}: {err}", names[i]));
                continue;
            }
        };
        for (op, points) in &costs {
            if points.len() != sizes.len() {
                e.errors.push(format!("{}: {op}: {} measurements", names[i], points.len()));
                continue;
            }
            let Some((first, last)) = slopes(points) else {
                continue;
            };
            e.evaluations += points.len() as u64;
            e.distinct += points.len() as u64;
            *e.counters.entry("instruction counts".into()).or_insert(0) += points.len() as u64;
            *e.counters.entry("instructions counted".into()).or_insert(0) += points.iter().map(|p| p.1).sum::<u64>();
            let ratio = last.max(0.0) / first.max(3.0);
            worst = worst.max(ratio);
            table.insert(
                format!("{}: {op}", names[i]),
                serde_json::json!(format!("{first:.1} -> {last:.1} instructions per {unit}")),
            );
            // a program makes calls, each with a lookup by name
            if ratio > if i < docs { 1.5 } else { 2.0 } {
                let what = match shapes().get(i) {
                    Some(s) => format!("document: {:?} + {:?}... + {:?}", clip(&s.head, 80), s.unit, clip(&s.tail, 80)),
                    None => "a program of the harness".to_string(),
                };
                e.fails.push(Fail {
                    section: "extra".into(),
                    case: i as u64,
                    sig: format!("cost of {op}"),
                    detail: format!(
                        "{:?}: {op} costs {first:.1} instructions per {unit} in small ones and {last:.1} per additional one in large ones\n  ({unit}s, instructions): {points:?}\n  {what}",
                        names[i]
                    ),
                });
            }
        }
    }
    e.notes.insert("largest growth of the cost per byte".into(), serde_json::json!(format!("{worst:.2}")));
    e.notes.insert("instructions per byte".into(), serde_json::Value::Object(table));
}

/// bytes allocated and the peak, one shape
fn c20_memory(ctx: &mut Ctx) {
    let all = shapes();
    let name = &all_names()[ctx.case as usize];
    let sizes: &[usize] =
        if ctx.tier == Tier::Quick { &[16_000, 128_000, 1_024_000] } else { &[32_000, 256_000, 2_048_000, 16_384_000] };
    let mut total: std::collections::BTreeMap<&'static str, Vec<(u64, u64)>> = Default::default();
    let mut peak: std::collections::BTreeMap<&'static str, Vec<(u64, u64)>> = Default::default();
    let i = ctx.case as usize;
    for size in part_sizes(sizes, i >= all.len()) {
        let mut off = |n: usize, op| {
            let (t, p) = crate::alloc::stop();
            total.entry(op).or_default().push((n as u64, t));
            peak.entry(op).or_default().push((n as u64, p));
        };
        match all.get(i) {
            Some(s) => {
                let text = shape_text(s, size);
                measured(&text, crate::alloc::start, |op| off(text.len(), op));
            }
            None => programs()[i - all.len()].1(size, &mut crate::alloc::start, &mut |op| off(size, op)),
        }
    }
    for (what, table) in [("bytes allocated", &total), ("peak memory", &peak)] {
        for (op, points) in table {
            if points.len() != sizes.len() {
                ctx.fail("harness", format!("{op}: {} measurements", points.len()));
                return;
            }
            ctx.obs_n("allocation measurements", points.len() as u64);
            let Some((first, last)) = slopes(points) else {
                continue;
            };
            ctx.nontrivial(&format!("{name} {op} {what}"));
            // a growing vector doubles, so a factor of two is not growth
            if last > 3.0 * first.max(4.0) {
                ctx.fail(
                    format!("{what} of {op}"),
                    format!(
                        "{name:?}: {op}: {what} per additional byte or part: {first:.1} in small ones, {last:.1} in large ones\n  (size, {what}): {points:?}"
                    ),
                );
            }
        }
    }
    ctx.sample(|| format!("{name}: {total:?}"));
}

pub fn c20() -> Prop {
    let n = all_names().len() as u64;
    Prop {
        id: "C20",
        level: "exploration",
        rule: "(document shape or building program, size, operation) triples whose executed instructions or allocated bytes were counted",
        sections: vec![sec("memory", n, n, c20_memory)],
        require: vec![("instruction counts", 1_000), ("allocation measurements", 1_000)],
        extra: Some(c20_extra),
        assumptions: vec![
            "executed instructions (callgrind) stand for work; growth is judged by the cost per additional byte at three sizes",
            "the factor allowed between small and large is 1.5 for the instructions of documents, 2 for those of building programs, which covers the logarithm of the lookups by name, and 3 for allocated bytes, which covers vectors that double",
        ],
    }
}

// -------------------------------------------------------------------------------------- C21

/// A text whose results are looked at: whole, broken, with values of every kind.
fn any_text(r: &mut Rng) -> String {
    match r.below(6) {
        0 | 1 => {
            let doc = gen::document(r, &DocOpts { ids: true, max_depth: 4, ..gen::DEFAULT_DOC });
            let l = Layout { eol: *r.pick(&[Eol::Lf, Eol::Crlf]), fold: *r.pick(&[0, 30]), blank: 0, final_eol: true };
            gen::layout(r, &gen::lines_of(&doc), &l)
        }
        2 | 3 => {
            // dates, triggers, durations in components that are written as they are
            let mut s = String::from("BEGIN:VCALENDAR\r\nVERSION:2.0\r\nREFRESH-INTERVAL;VALUE=DURATION:PT1H\r\n");
            for i in 0..1 + r.below(3) {
                let kind = *r.pick(&["VEVENT", "VTODO", "VVENUE", "VJOURNAL"]);
                s.push_str(&format!("BEGIN:{kind}\r\nUID:{}-{i}\r\nDTSTAMP:20240101T000000Z\r\n", r.u64()));
                for _ in 0..r.below(6) {
                    s.push_str(r.pick(VALUE_NAMES));
                    if r.one_in(3) {
                        s.push_str(&format!(";TZID={}", r.pick(ZONES)));
                    }
                    s.push_str(&format!(":{}\r\n", r.pick(VALUE_SEEDS)));
                }
                s.push_str(&format!("END:{kind}\r\n"));
            }
            s + "END:VCALENDAR\r\n"
        }
        4 => {
            let mut s = base_text(r);
            mutate(r, &mut s);
            s
        }
        _ => {
            let doc = gen::realistic(r);
            gen::layout(r, &gen::lines_of(&doc), &gen::PLAIN_LAYOUT)
        }
    }
}

fn transcript(s: &str, steps: bool) -> Result<Seen, String> {
    let mut seen = Seen::new(steps);
    match guarded(|| walk::everything(s, FULL, &mut seen)) {
        Caught::Ok(()) => Ok(seen),
        Caught::Library(m) => Err(m),
    }
}

fn first_difference(a: &Seen, b: &Seen) -> String {
    for (i, (x, y)) in a.steps.iter().zip(&b.steps).enumerate() {
        if x != y {
            return format!("step {i}, {:?} (and {:?})", x.0, y.0);
        }
    }
    format!("{} and {} steps", a.steps.len(), b.steps.len())
}

fn differ(ctx: &mut Ctx, sig: &str, a: &Seen, b: &Seen, s: &str) {
    ctx.fail(sig, format!("{sig}: {}\n  input: {:?}", first_difference(a, b), clip(s, 3000)));
}

/// the same strings from several threads at once, in different orders, more than once
fn c21_threads(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let texts: Vec<String> = (0..3 + r.below(5)).map(|_| any_text(&mut r)).filter(|t| t.len() < 30_000).collect();
    let mut want = vec![];
    for t in &texts {
        match transcript(t, true) {
            Ok(s) => want.push(s),
            Err(m) => {
                ctx.fail("panic", format!("{m}\n  input: {:?}", clip(t, 2000)));
                return;
            }
        }
    }
    let threads = 2 + r.below(4);
    let rounds = 1 + r.below(3);
    let barrier = std::sync::Barrier::new(threads);
    let orders: Vec<Vec<usize>> = (0..threads)
        .map(|_| {
            let mut o: Vec<usize> = (0..texts.len()).chain(0..texts.len()).collect();
            r.shuffle(&mut o);
            o
        })
        .collect();
    let results: Vec<Vec<(usize, Result<Seen, String>)>> = std::thread::scope(|scope| {
        let hs: Vec<_> = orders
            .iter()
            .map(|order| {
                let (texts, barrier) = (&texts, &barrier);
                scope.spawn(move || {
                    let mut out = vec![];
                    for _ in 0..rounds {
                        barrier.wait();
                        for i in order {
                            out.push((*i, transcript(&texts[*i], true)));
                        }
                    }
                    out
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    for (i, got) in results.into_iter().flatten() {
        match got {
            Ok(got) => {
                ctx.obs("concurrent runs compared");
                ctx.obs_n("results compared", got.steps.len() as u64);
                if got.hash != want[i].hash {
                    differ(ctx, "another thread gets another result", &want[i], &got, &texts[i]);
                    return;
                }
            }
            Err(m) => {
                ctx.fail("panic in a thread", format!("{m}\n  input: {:?}", clip(&texts[i], 2000)));
                return;
            }
        }
    }
    for (i, t) in texts.iter().enumerate() {
        if let Ok(again) = transcript(t, true) {
            ctx.obs("repeated runs compared");
            if again.hash != want[i].hash {
                differ(ctx, "another result after other documents", &want[i], &again, t);
                return;
            }
        }
        ctx.nontrivial(t);
    }
    ctx.nontrivial(&format!("{:?}", orders));
    ctx.sample(|| format!("{} texts, {threads} threads, {rounds} rounds", texts.len()));
}

/// one calendar, read by several threads at once
fn c21_shared(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let text = any_text(&mut r);
    let flat = icalendar::parser::unfold(&text);
    let (Ok(cal), Ok(parsed)) = (text.parse::<Calendar>(), icalendar::parser::read_calendar(&flat)) else {
        ctx.obs("broken documents");
        return;
    };
    let look = |steps: bool| {
        let mut seen = Seen::new(steps);
        match guarded(|| {
            walk::calendar(&cal, FULL, &mut seen);
            walk::parsed_calendar(&parsed, FULL, &mut seen);
        }) {
            Caught::Ok(()) => Ok(seen),
            Caught::Library(m) => Err(m),
        }
    };
    let want = match look(true) {
        Ok(s) => s,
        Err(m) => {
            ctx.fail("panic", format!("{m}\n  input: {:?}", clip(&text, 2000)));
            return;
        }
    };
    let threads = 2 + r.below(5);
    let barrier = std::sync::Barrier::new(threads);
    let results: Vec<Result<Seen, String>> = std::thread::scope(|scope| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (look, barrier) = (&look, &barrier);
                scope.spawn(move || {
                    barrier.wait();
                    let mut last = look(true);
                    for _ in 0..2 {
                        if last.is_ok() {
                            last = look(true);
                        }
                    }
                    last
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    for got in results {
        match got {
            Ok(got) => {
                ctx.obs("shared reads compared");
                if got.hash != want.hash {
                    differ(ctx, "a shared calendar is read differently", &want, &got, &text);
                    return;
                }
            }
            Err(m) => {
                ctx.fail("panic in a thread", format!("{m}\n  input: {:?}", clip(&text, 2000)));
                return;
            }
        }
    }
    ctx.nontrivial(&text);
}

/// the same thing very often, other things in between
fn c21_often(ctx: &mut Ctx) {
    let mut r = ctx.rng.clone();
    let texts: Vec<String> = (0..4).map(|_| any_text(&mut r)).filter(|t| t.len() < 4_000).collect();
    let mut want: Vec<Seen> = vec![];
    for t in &texts {
        match transcript(t, true) {
            Ok(s) => want.push(s),
            Err(_) => return,
        }
    }
    if texts.is_empty() {
        return;
    }
    let n = if ctx.tier == Tier::Quick { 300 } else { 3_000 };
    for _ in 0..n {
        let i = r.below(texts.len());
        match transcript(&texts[i], false) {
            Ok(got) if got.hash == want[i].hash => ctx.obs("repeated runs compared"),
            Ok(_) => {
                ctx.fail("another result after other documents", format!("input: {:?}", clip(&texts[i], 3000)));
                return;
            }
            Err(m) => {
                ctx.fail("panic", m);
                return;
            }
        }
    }
    ctx.nontrivial(&texts.concat());
}

/// One small thing done again and again in one thread of one process: the last result is the first one.
fn c21_long(ctx: &mut Ctx) {
    type Op = fn(&mut String);
    let ops: &[(&str, Op)] = &[
        ("TEXT property parsed", |o| {
            o.push_str(&format!("{:?}", parser::Property::try_from("SUMMARY;A=\"b:c\":a\\,b\\n\n")))
        }),
        ("parsed property written", |o| {
            let p = parser::Property::new_ref("CATEGORIES", "a,b;c\nd");
            o.push_str(&p.to_string());
        }),
        ("property built and written", |o| {
            let p = Property::new("DESCRIPTION", "a,b;c\nd").add_parameter("B", "x:y").add_parameter("A", "z").done();
            let text: Result<String, _> = p.try_into();
            o.push_str(&format!("{text:?}"));
        }),
        ("unfolded", |o| o.push_str(&parser::unfold("DESC\r\n RIPTION\n\t:a b\r\n  c"))),
        ("component parsed", |o| {
            let c: Result<CalendarComponent, _> = "BEGIN:VEVENT\r\nUID:u\r\nX-A;B:c\\,d\r\nEND:VEVENT\r\n".parse();
            o.push_str(&format!("{c:?}"));
        }),
        ("refused", |o| {
            o.push_str(&format!("{:?}", parser::read_calendar("BEGIN:VEVENT\nA:b\n;c\nEND:VEVENT\n").err()))
        }),
        ("event written", |o| {
            let e = Event::new().uid("u").timestamp(Default::default()).summary("a;b").priority(3).done();
            o.push_str(&Component::to_string(&e));
        }),
        ("dates read", |o| {
            let e = Event::new().starts(NaiveDate::MIN).add_property("DTEND", "20240229T235959Z").done();
            o.push_str(&format!("{:?} {:?} {:?}", e.get_start(), e.get_end(), e.get_timestamp()));
        }),
        ("trigger read", |o| {
            let p = Property::from(Trigger::before_end(Duration::seconds(100)));
            o.push_str(&format!("{:?}", Trigger::try_from(&p)));
        }),
        ("converted to UTC", |o| {
            for tzid in ["Europe/Berlin", "America/Argentina/Salta", "Nowhere", "UTC"] {
                let date_time = NaiveDate::default().and_hms_opt(1, 2, 3).unwrap_or_default();
                let t = CalendarDateTime::WithTimezone { date_time, tzid: tzid.into() };
                o.push_str(&format!("{:?}", t.try_into_utc()));
            }
        }),
        ("value types", |o| {
            for name in ["SUMMARY", "DTSTART", "ATTENDEE", "X-A", "summary"] {
                o.push_str(&format!("{:?}", Property::new(name, "v").value_type()));
            }
        }),
        ("calendar of components", |o| {
            let c = Calendar::from([Event::new().uid("u").done()]).name("n").ttl(&Duration::hours(1)).done();
            o.push_str(&format!("{:?} {:?} {:?}", c.len(), c.get_name(), c.get_ttl()));
        }),
        ("JSON", |o| {
            let c = parser::read_calendar("BEGIN:VCALENDAR\nA;B=c:d\nEND:VCALENDAR\n");
            o.push_str(&serde_json::to_string(&c.ok()).unwrap_or_default());
        }),
    ];
    let (what, op) = ops[ctx.case as usize % ops.len()];
    let n = if ctx.tier == Tier::Quick { 150_000 } else { 2_000_000 };
    let mut want = String::new();
    op(&mut want);
    let mut got = String::with_capacity(want.len());
    for i in 0..n {
        got.clear();
        op(&mut got);
        if got != want {
            ctx.fail(
                "another result the more often it is done",
                format!("{what}: the {i}th time {got:?} instead of {want:?}"),
            );
            return;
        }
    }
    ctx.obs_n("repetitions of small things compared", n);
    ctx.nontrivial(what);
}

/// `mon transcript <seed> <n>`: digests, for another process to compare
pub fn emit_transcripts(seed: u64, n: u64) {
    install_panic_hook();
    for i in 0..n {
        let mut r = Rng::new(&[seed, 0x7ace, i]);
        let t = any_text(&mut r);
        match transcript(&t, false) {
            Ok(s) => println!("{i} {:016x} {}", s.hash, s.written),
            Err(m) => println!("{i} {}", m.replace('\n', " ")),
        }
    }
}

fn processes(e: &mut Extra) {
    let n: u64 = if e.tier == Tier::Quick { 150 } else { 3_000 };
    let settings: &[&[(&str, &str)]] = &[
        &[("TZ", "UTC")],
        &[("TZ", "Asia/Tokyo"), ("LANG", "tr_TR.UTF-8"), ("LC_ALL", "tr_TR.UTF-8")],
        &[("TZ", "America/New_York"), ("LANG", "C")],
        &[("TZ", "<+0545>-5:45"), ("HOME", "/nonexistent")],
        &[("TZ", ":/nonexistent"), ("RUST_BACKTRACE", "1")],
    ];
    let mut first: Option<String> = None;
    for env in settings {
        let out = std::process::Command::new(&e.exe)
            .args(["transcript", &e.seed.to_string(), &n.to_string()])
            .envs(env.iter().copied())
            .output();
        let text = match out {
            Ok(o) if o.status.success() => String::from_utf8_lossy(&o.stdout).into_owned(),
            Ok(o) => {
                e.fails.push(Fail {
                    section: "extra".into(),
                    case: 0,
                    sig: "a process died".into(),
                    detail: format!("{env:?} {} {}", o.status, String::from_utf8_lossy(&o.stderr)),
                });
                return;
            }
            Err(err) => {
                e.errors.push(format!("cannot start {}: {err}", e.exe.display()));
                return;
            }
        };
        e.evaluations += n;
        *e.counters.entry("documents compared between processes".into()).or_insert(0) += n;
        match &first {
            None => first = Some(text),
            Some(f) if *f == text => {}
            Some(f) => {
                let d = f.lines().zip(text.lines()).find(|(a, b)| a != b);
                let i = d.and_then(|d| d.0.split(' ').next()).and_then(|i| i.parse::<u64>().ok()).unwrap_or(0);
                let input = any_text(&mut Rng::new(&[e.seed, 0x7ace, i]));
                e.fails.push(Fail {
                    section: "extra".into(),
                    case: i,
                    sig: "another process gets another result".into(),
                    detail: format!("{d:?} with {env:?}\n  input: {:?}", clip(&input, 3000)),
                });
                return;
            }
        }
    }
    e.notes.insert("environments of the processes".into(), serde_json::json!(format!("{settings:?}")));
}

fn verif_dir() -> std::path::PathBuf {
    std::env::var("MON_VERIF").unwrap_or_else(|_| "/verif".into()).into()
}

/// What is left in `target` from other sources than the ones this binary was built from goes.
fn fresh_target(target: &std::path::Path, krate: &std::path::Path, packages: &[&str]) {
    let built = std::fs::read_to_string(verif_dir().join("target/.mon-built")).unwrap_or_default();
    let mark = target.join(".mon-built");
    if !built.is_empty() && std::fs::read_to_string(&mark).unwrap_or_default() == built {
        return;
    }
    let _ = std::fs::remove_file(&mark);
    for p in packages {
        let _ = std::process::Command::new("cargo")
            .args(["+nightly", "clean", "-q", "--offline", "-p", p])
            .arg("--target-dir")
            .arg(target)
            .current_dir(krate)
            .output();
    }
    let _ = std::fs::create_dir_all(target);
    let _ = std::fs::write(&mark, built);
}

/// The same calls in the interpreter that sees undefined behaviour and data races.
fn miri(e: &mut Extra) {
    let krate = verif_dir().join("miri");
    let target = verif_dir().join("target/miri");
    fresh_target(&target.join("miri"), &krate, &["icalendar", "mon-miri"]);
    let command = |mode: &str, flags: &str| {
        std::process::Command::new("timeout")
            .args(["-k", "5", if mode == "full" { "3000" } else { "250" }])
            .args(["cargo", "+nightly", "miri", "run", "-q", "--offline", "--", mode])
            .env("CARGO_TARGET_DIR", &target)
            .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-ignore-leaks {flags}"))
            .env("RUST_BACKTRACE", "0")
            .env_remove("RUSTFLAGS")
            .current_dir(&krate)
            .output()
    };
    let first = format!("-Zmiri-seed={}", e.seed);
    let mut runs: Vec<(&str, String)> = vec![("light", first)];
    if e.tier == Tier::Quick {
        for i in 0..3 {
            runs.push(("light", format!("-Zmiri-seed={} -Zmiri-preemption-rate=0.1", e.seed * 1000 + i)));
        }
    } else {
        runs.push(("full", String::new()));
        runs.push(("light", "-Zmiri-tree-borrows".into()));
        for i in 0..60 {
            runs.push(("light", format!("-Zmiri-seed={} -Zmiri-preemption-rate=0.{}", e.seed * 1000 + i, 1 + i % 9)));
        }
    }
    // the first one builds
    let next = std::sync::atomic::AtomicUsize::new(1);
    let results = std::sync::Mutex::new(vec![]);
    let one = |i: usize| {
        let r = command(runs[i].0, &runs[i].1);
        results.lock().unwrap().push((i, r));
    };
    one(0);
    std::thread::scope(|scope| {
        for _ in 0..7 {
            scope.spawn(|| loop {
                let i = next.fetch_add(1, std::sync::atomic::Ordering::Relaxed);
                if i >= runs.len() {
                    break;
                }
                one(i);
            });
        }
    });
    let mut problems = vec![];
    for (i, r) in results.into_inner().unwrap() {
        let o = match r {
            Ok(o) => o,
            Err(err) => {
                problems.push(format!("{err}"));
                continue;
            }
        };
        let err = String::from_utf8_lossy(&o.stderr).into_owned();
        if o.status.success() && String::from_utf8_lossy(&o.stdout).contains("MIRI-OK") {
            *e.counters.entry("schedules run under Miri without a report".into()).or_insert(0) += 1;
            e.evaluations += 1;
        } else if let Some(at) =
            ["Undefined Behavior", "DIFFERENT-RESULT", "Data race detected"].iter().find_map(|w| err.find(w))
        {
            let mut from = at.saturating_sub(300);
            while !err.is_char_boundary(from) {
                from -= 1;
            }
            e.fails.push(Fail {
                section: "extra".into(),
                case: i as u64,
                sig: "Miri".into(),
                detail: format!("Miri reports, with {:?}: {}", runs[i], clip(&err[from..], 3000)),
            });
        } else {
            let tail: String = err.lines().rev().take(6).collect::<Vec<_>>().join(" / ");
            problems.push(format!("{}: {}", o.status, clip(&tail, 500)));
        }
    }
    // where Miri cannot run, the evidence says so; the other monitors have decided
    problems.dedup();
    problems.truncate(3);
    e.notes.insert("Miri runs".into(), serde_json::json!(runs.len()));
    e.notes.insert("Miri gave no answer".into(), serde_json::json!(problems));
}

/// Builds the monitors with AddressSanitizer and runs one property again.
fn asan(e: &mut Extra, prop: &str) {
    let verif = verif_dir();
    let (krate, target) = (verif.join("harness"), verif.join("target/asan"));
    fresh_target(&target, &krate, &["icalendar", "mon"]);
    let triple = "x86_64-unknown-linux-gnu";
    let build = std::process::Command::new("cargo")
        .args(["+nightly", "build", "-q", "--offline", "--target", triple])
        .env("CARGO_TARGET_DIR", &target)
        .env("RUSTFLAGS", "-Zsanitizer=address")
        .current_dir(&krate)
        .output();
    let built = matches!(&build, Ok(o) if o.status.success());
    if !built {
        e.notes.insert("AddressSanitizer".into(), serde_json::json!("cannot be built here"));
        return;
    }
    let out = std::process::Command::new(target.join(triple).join("debug/mon"))
        .args(["run", prop, "quick"])
        .env("MON_ASAN", "1")
        .env("MON_VERIF", &verif)
        .env("MON_SCALE", "0.5")
        .env("VERIF_SEED", e.seed.to_string())
        .env("ASAN_OPTIONS", "exitcode=99:abort_on_error=0:detect_leaks=0:allocator_may_return_null=1")
        .output();
    match out {
        Ok(o) => {
            let text = String::from_utf8_lossy(&o.stdout).into_owned();
            if o.status.code() == Some(1) {
                e.fails.push(Fail {
                    section: "extra".into(),
                    case: 0,
                    sig: "AddressSanitizer".into(),
                    detail: clip(&text, 3000),
                });
            } else {
                let line = text.lines().last().unwrap_or_default().to_string();
                e.notes.insert("AddressSanitizer".into(), serde_json::json!(format!("{}: {line}", o.status)));
            }
        }
        Err(err) => {
            e.notes.insert("AddressSanitizer".into(), serde_json::json!(err.to_string()));
        }
    }
}

fn c01_extra(e: &mut Extra) {
    if e.tier == Tier::Thorough {
        asan(e, "C01");
    }
}

fn c21_extra(e: &mut Extra) {
    processes(e);
    if e.fails.is_empty() {
        miri(e);
    }
    if e.tier == Tier::Thorough && e.fails.is_empty() {
        asan(e, "C21");
    }
}

pub fn c21() -> Prop {
    Prop {
        id: "C21",
        level: "exploration",
        rule: "distinct documents and orders of documents whose results were compared between threads, repetitions and processes",
        sections: vec![
            sec("threads", 400, 20_000, c21_threads),
            sec("shared", 600, 30_000, c21_shared),
            sec("often", 30, 300, c21_often),
            sec("long", 13, 26, c21_long),
        ],
        require: vec![
            ("concurrent runs compared", 1_000),
            ("shared reads compared", 500),
            ("repeated runs compared", 1_000),
            ("repetitions of small things compared", 1_000_000),
            ("documents compared between processes", 100),
        ],
        extra: Some(c21_extra),
        assumptions: vec![],
    }
}
