//! Generators: hostile text, names, and documents with the tree they stand for.

use crate::reader::{decode_text, is_text, XComp, XParam, XProp};
use crate::rng::Rng;

/// Property names of RFC 5545 / 7986 and of the library, X names, names without a type.
pub const PROP_NAMES: &[&str] = &[
    "CALSCALE",
    "METHOD",
    "PRODID",
    "VERSION",
    "ATTACH",
    "CATEGORIES",
    "CLASS",
    "COMMENT",
    "DESCRIPTION",
    "GEO",
    "LOCATION",
    "PERCENT-COMPLETE",
    "PRIORITY",
    "RESOURCES",
    "STATUS",
    "SUMMARY",
    "COMPLETED",
    "DTEND",
    "DUE",
    "DTSTART",
    "DURATION",
    "FREEBUSY",
    "TRANSP",
    "TZID",
    "TZNAME",
    "TZOFFSETFROM",
    "TZOFFSETTO",
    "TZURL",
    "ATTENDEE",
    "CONTACT",
    "ORGANIZER",
    "RECURRENCE-ID",
    "RELATED-TO",
    "URL",
    "EXDATE",
    "RDATE",
    "RRULE",
    "ACTION",
    "REPEAT",
    "TRIGGER",
    "CREATED",
    "LAST-MODIFIED",
    "SEQUENCE",
    "REQUEST-STATUS",
    "NAME",
    "X-WR-CALNAME",
    "X-WR-CALDESC",
    "TIMEZONE-ID",
    "X-WR-TIMEZONE",
    "STREET-ADDRESS",
    "EXTENDED-ADDRESS",
    "LOCALITY",
    "REGION",
    "COUNTRY",
    "POSTAL-CODE",
    "REFRESH-INTERVAL",
    "X-PUBLISHED-TTL",
    "COLOR",
    "IMAGE",
    "CONFERENCE",
    "SOURCE",
    "X-PROP",
    "IANA-PROP",
    "RSTATUS",
    "RELATED",
    "X-APPLE-STRUCTURED-LOCATION",
    "X-LIC-LOCATION",
    "ENDS",
    "END-DATE",
    "BEGINNING",
    "BEGIN-X",
    "ENDDATE",
    "X-END",
    "E",
    "B",
    "X",
    "EN",
    "BEGI",
    "X-ALT-DESC",
    "X-MICROSOFT-CDO-BUSYSTATUS",
    "0",
    "42",
    "A-1",
    "X-MICROSOFT-CDO-ALLDAYEVENT",
    "X-MICROSOFT-CDO-IMPORTANCE",
    "X-MICROSOFT-CDO-INTENDEDSTATUS",
    "X-MICROSOFT-DISALLOW-COUNTER",
    "X-GOOGLE-CONFERENCE",
    "X-APPLE-TRAVEL-ADVISORY-BEHAVIOR",
    "X-APPLE-CALENDAR-COLOR",
    "X-APPLE-DEFAULT-ALARM",
    "X-MOZ-LASTACK",
    "X-MOZ-GENERATION",
    "X-WR-RELCALID",
    "X-WR-ALARMUID",
    "X-LIC-ERROR",
    "X-EVOLUTION-CALDAV-HREF",
    "X-HTML-DESCRIPTION",
    "ACKNOWLEDGED",
    "PROXIMITY",
    "STYLED-DESCRIPTION",
    "STRUCTURED-DATA",
    "LOCATION-TYPE",
    "PARTICIPANT-TYPE",
    "CALENDAR-ADDRESS",
    "RESOURCE-TYPE",
    "LINK",
    "CONCEPT",
    "REFID",
    "TZUNTIL",
    "TZID-ALIAS-OF",
    "BUSYTYPE",
    "EXRULE",
    "DALARM",
    "AALARM",
    "DCREATED",
    "RNUM",
    "TZ",
    "DAYLIGHT",
    "X-URL",
    "X-SUMMARY",
    "X-PRIORITY",
    "X-DTSTART",
];

pub const PARAM_NAMES: &[&str] = &[
    "ALTREP",
    "CN",
    "CUTYPE",
    "DELEGATED-FROM",
    "DELEGATED-TO",
    "DIR",
    "ENCODING",
    "FMTTYPE",
    "FBTYPE",
    "LANGUAGE",
    "MEMBER",
    "PARTSTAT",
    "RANGE",
    "RELATED",
    "RELTYPE",
    "ROLE",
    "RSVP",
    "SENT-BY",
    "TZID",
    "VALUE",
    "X-FOO",
    "X-ADDRESS",
    "X-APPLE-RADIUS",
    "EMAIL",
    "LABEL",
    "VVENUE",
    "X-A",
    "A",
    "x-lower",
    "foo",
    "END",
    "BEGIN",
    "X-1",
    "CHARSET",
    "TYPE",
    "X-TITLE",
    "X-FILENAME",
    "FILENAME",
    "FEATURE",
    "DISPLAY",
    "SCHEDULE-AGENT",
    "SCHEDULE-STATUS",
    "SCHEDULE-FORCE-SEND",
    "MANAGED-ID",
    "SIZE",
    "GAP",
    "ORDER",
    "SCHEMA",
    "DERIVED",
    "LINKREL",
    "X-VOBJ-ORIGINAL-TZID",
    "X-NUM-GUESTS",
];

pub const VALUE_TYPES: &[&str] = &[
    "BINARY",
    "BOOLEAN",
    "CAL-ADDRESS",
    "DATE",
    "DATE-TIME",
    "DURATION",
    "FLOAT",
    "INTEGER",
    "PERIOD",
    "RECUR",
    "TEXT",
    "TIME",
    "URI",
    "UTC-OFFSET",
];

pub const COMP_NAMES: &[&str] = &[
    "VEVENT",
    "VTODO",
    "VVENUE",
    "VALARM",
    "VJOURNAL",
    "VFREEBUSY",
    "VTIMEZONE",
    "STANDARD",
    "DAYLIGHT",
    "VAVAILABILITY",
    "AVAILABLE",
    "X-COMP",
    "VLOCATION",
    "PARTICIPANT",
    "VCALENDAR",
    "VEVENTS",
    "VEVEN",
    "X",
    "X-1",
    "vevent",
    "Mixed-Case",
    "V",
    "CALENDAR",
    "calendar",
    "VEVENT1",
    "EVENT",
];

const PIECES: &[&str] = &[
    "\\",
    "\\\\",
    "\\n",
    "\\N",
    "\\,",
    "\\;",
    "\\:",
    "\\\\n",
    "\\\\N",
    "\\\\,",
    "\\\\;",
    "\\x",
    "\\\"",
    "\\\\\\",
    ",",
    ";",
    ":",
    "\"",
    "'",
    "=",
    "^",
    "^n",
    "%",
    "%0A",
    "&amp;",
    "\t",
    " ",
    "  ",
    "   ",
    "n",
    "N",
    "a",
    "é",
    "ß",
    "\u{4e2d}",
    "\u{6587}",
    "\u{1f600}",
    "\u{1f468}\u{200d}\u{1f469}\u{200d}\u{1f467}",
    "e\u{301}",
    "\u{5d0}",
    "\u{202e}",
    "\u{feff}",
    "\u{fffd}",
    "\u{10ffff}",
    "\u{a0}",
    "\u{3000}",
    "\u{2028}",
    "\u{2029}",
    "\u{200b}",
    "<b>",
    "#",
    "=3D",
    "+",
    "\u{212b}",
    "\u{1112}\u{1161}\u{11ab}",
    "\u{d55c}",
    "\u{c3}\u{a9}",
    "\u{2013}",
    "\u{201c}a\u{201d}",
    "\u{ad}",
    "\u{ff11}",
    "\u{fb01}",
    "\u{130}",
    "\u{37e}",
    "\u{61b}",
    "\u{60c}",
    "\u{ff3c}",
    "\u{ff1b}",
    "\u{ff0c}",
    "\u{ff1a}",
    "BEGIN:VEVENT",
    "END:VEVENT",
    "END:VCALENDAR",
    "BEGIN:",
    "END:",
    "UID:x",
    "DTSTAMP:20200101T000000Z",
    ";VALUE=TEXT:",
    "https://example.com/a?b=c;d,e#f",
    "mailto:a@example.com",
    "a,b,c",
    "a;b;c",
    "x=1",
    "-",
    "_",
    "FREQ=WEEKLY;BYDAY=MO,TU",
    "20200101T120000Z",
    "P1D",
    "\\n ",
    " \\n",
    "://",
    "\\\\\\n",
    "\\,\\;\\n",
];

const CONTROLS: &[&str] = &["\r", "\u{0}", "\u{b}", "\u{c}", "\u{1c}", "\u{85}", "\u{7f}", "\u{1b}[0m", "\u{8}"];
const BREAKS: &[&str] = &[
    "\n",
    "\n\n",
    "\r\n",
    "\n ",
    "\r\n ",
    "\n\t",
    "\nEND:VEVENT\n",
    "\r\nEND:VCALENDAR\r\n",
    "\nSUMMARY:injected\n",
    "\r\nBEGIN:VALARM\r\n",
    "\\\n",
    "\n\\",
    "\\\\\n",
    "\n\r",
];

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Alphabet {
    pub lf: bool,
    pub cr: bool,
    pub controls: bool,
    pub quotes: bool,
}

/// anything at all
pub const ANY: Alphabet = Alphabet { lf: true, cr: true, controls: true, quotes: true };
/// one line
pub const LINE: Alphabet = Alphabet { lf: false, cr: false, controls: true, quotes: true };
/// parameter values
pub const PARAM: Alphabet = Alphabet { lf: false, cr: false, controls: false, quotes: false };
/// values of well-formed documents
pub const DOC: Alphabet = Alphabet { lf: false, cr: false, controls: false, quotes: true };

fn random_char(r: &mut Rng) -> char {
    loop {
        let c = match r.below(12) {
            0..=5 => r.range(0x20, 0x7e),
            6 => r.range(0xa0, 0xff),
            7 => r.range(0x100, 0x7ff),
            8 => r.range(0x800, 0xffff),
            9 => r.range(0x1_0000, 0x10_ffff),
            10 => r.range(0x2000, 0x206f),
            _ => r.range(0, 0x1f),
        };
        if let Some(c) = char::from_u32(c as u32) {
            return c;
        }
    }
}

/// Cases that go through all of Unicode.
pub const CHAR_CASES: u64 = 0x11_0000 / 64;

/// The characters of one of these cases.
pub fn chars_of(case: u64) -> String {
    let first = (case % CHAR_CASES) as u32 * 64;
    (first..first + 64).filter_map(char::from_u32).collect()
}

/// They in every place of a document that may have them.
pub fn chars_doc(r: &mut Rng, case: u64) -> DComp {
    let all: String = chars_of(case).chars().filter(|c| !c.is_control() || *c == '\t').collect();
    let quoted: String = all.chars().filter(|c| *c != '"').collect();
    let plain: String = quoted.chars().filter(|c| !matches!(c, ';' | ':' | ',')).collect();
    let params = vec![
        DParam { key: "X-Q".into(), val: DVal::Quoted(quoted.clone()) },
        DParam { key: "CN".into(), val: DVal::Plain(plain.clone()) },
        DParam { key: "MEMBER".into(), val: DVal::List(vec![(true, quoted), (false, plain)]) },
    ];
    let line = |name: &str, params: Vec<DParam>, raw: &str| {
        DItem::Prop(DProp { name: name.into(), params, raw: Some(raw.into()) })
    };
    let text = *r.pick(&["SUMMARY", "DESCRIPTION", "LOCATION", "COMMENT"]);
    let other = *r.pick(&["URL", "X-CHARS", "ATTENDEE", "RRULE"]);
    let items = vec![line(other, params.clone(), &all), line(text, vec![], &all), line("X-LAST", params, "")];
    DComp { name: (*r.pick(&["VEVENT", "VTODO", "VCALENDAR", "X-COMP"])).into(), items }
}

fn piece(r: &mut Rng, a: Alphabet) -> String {
    match r.below(20) {
        0 if a.lf => (*r.pick(BREAKS)).to_string(),
        1 if a.controls => (*r.pick(CONTROLS)).to_string(),
        2..=9 => (*r.pick(PIECES)).to_string(),
        10 | 11 => {
            let c = random_char(r);
            let n = 1 + r.small(40);
            std::iter::repeat(c).take(n).collect()
        }
        12 | 13 => random_char(r).to_string(),
        _ => {
            let n = 1 + r.below(9);
            (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
        }
    }
}

fn allowed(c: char, a: Alphabet) -> bool {
    match c {
        '\n' => a.lf,
        '\r' => a.cr,
        '\t' => true,
        '"' => a.quotes,
        c if c.is_control() => a.controls,
        _ => true,
    }
}

/// Hostile text within an alphabet; lengths from nothing to well beyond several folded lines.
pub fn text(r: &mut Rng, a: Alphabet) -> String {
    if let Some(x) = r.echo_text(8) {
        if x.chars().all(|c| allowed(c, a)) {
            return x;
        }
    }
    let target = match r.below(16) {
        0 => 0,
        1..=7 => 1 + r.below(20),
        8..=10 => 55 + r.below(40),
        11..=13 => 100 + r.below(150),
        14 => 250 + r.below(700),
        _ => r.below(75),
    };
    let x = text_len(r, a, target);
    r.keep_text(&x);
    x
}

pub fn text_len(r: &mut Rng, a: Alphabet, target: usize) -> String {
    let mut s = String::new();
    if target == 0 {
        return s;
    }
    // some texts stay within one script, so that every fold position meets every character length
    match r.below(8) {
        0 => {
            let c = *r.pick(&['a', 'é', '\u{4e2d}', '\u{1f600}', ' ', '\u{a0}', '\\', ',', '\u{3000}']);
            let lead = r.below(5);
            s.extend(std::iter::repeat('x').take(lead));
            while s.len() < target {
                s.push(c);
            }
            return s;
        }
        1 => {
            let cs = ['a', ' ', '\u{1f600}', 'é', ' ', ';', '\\'];
            while s.len() < target {
                s.push(*r.pick(&cs));
            }
            return s;
        }
        _ => {}
    }
    while s.len() < target {
        let p = piece(r, a);
        s.extend(p.chars().filter(|c| allowed(*c, a)));
    }
    s
}

pub fn ascii_word(r: &mut Rng, max: usize) -> String {
    let n = 1 + r.below(max);
    (0..n).map(|_| (b'a' + r.below(26) as u8) as char).collect()
}

fn is_delimiter(name: &str) -> bool {
    name.eq_ignore_ascii_case("BEGIN") || name.eq_ignore_ascii_case("END")
}

/// An iCalendar name (letters, digits, hyphens) that is no delimiter.
pub fn random_name(r: &mut Rng) -> String {
    if let Some(x) = r.echo_name(5) {
        if !x.is_empty() && !is_delimiter(&x) {
            return x;
        }
    }
    let x = fresh_name(r);
    r.keep_name(&x);
    x
}

fn fresh_name(r: &mut Rng) -> String {
    loop {
        let max = if r.one_in(12) { 60 } else { 14 };
        let n = 1 + r.below(max);
        let lower = r.one_in(5);
        let mut s: String = (0..n)
            .map(|_| match r.below(12) {
                0 => '-',
                1 => (b'0' + r.below(10) as u8) as char,
                _ if lower && r.one_in(2) => (b'a' + r.below(26) as u8) as char,
                _ => (b'A' + r.below(26) as u8) as char,
            })
            .collect();
        if r.one_in(3) {
            s = format!("X-{s}");
        }
        if r.one_in(20) {
            s = format!("END{s}");
        }
        if r.one_in(20) {
            s = format!("BEGIN{s}");
        }
        if !is_delimiter(&s) {
            return s;
        }
    }
}

pub fn prop_name(r: &mut Rng) -> String {
    if r.one_in(5) {
        random_name(r)
    } else {
        (*r.pick(PROP_NAMES)).to_string()
    }
}

pub fn param_name(r: &mut Rng) -> String {
    if r.one_in(6) {
        random_name(r)
    } else {
        (*r.pick(PARAM_NAMES)).to_string()
    }
}

/// What calendar applications write for a parameter of this name: defaults and values with a meaning.
const TYPICAL_PARAMS: &[(&str, &[&str])] = &[
    ("ENCODING", &["BASE64", "8BIT", "7BIT", "QUOTED-PRINTABLE", "B", "base64"]),
    ("ROLE", &["REQ-PARTICIPANT", "CHAIR", "OPT-PARTICIPANT", "NON-PARTICIPANT"]),
    ("RSVP", &["TRUE", "FALSE", "true", "false"]),
    ("PARTSTAT", &["NEEDS-ACTION", "ACCEPTED", "DECLINED", "TENTATIVE", "DELEGATED"]),
    ("CUTYPE", &["INDIVIDUAL", "GROUP", "RESOURCE", "ROOM", "UNKNOWN"]),
    ("FBTYPE", &["BUSY", "FREE", "BUSY-UNAVAILABLE", "BUSY-TENTATIVE"]),
    ("RELATED", &["START", "END"]),
    ("RELTYPE", &["PARENT", "CHILD", "SIBLING"]),
    ("RANGE", &["THISANDFUTURE", "THISANDPRIOR"]),
    ("LANGUAGE", &["de", "en-US", "en", "fr-CA"]),
    ("CHARSET", &["UTF-8", "ISO-8859-1", "utf-8"]),
    (
        "TZID",
        &[
            "Europe/Berlin",
            "UTC",
            "America/New_York",
            "Etc/UTC",
            "W. Europe Standard Time",
            "/example.org/Europe/Berlin",
        ],
    ),
    ("VALUE", VALUE_TYPES),
    ("FMTTYPE", &["text/html", "image/png", "application/octet-stream", "text/plain"]),
    ("EMAIL", &["jane@example.com"]),
    ("CN", &["Jane Doe", "Doe, Jane", "Office: Berlin; Room 1"]),
    ("SENT-BY", &["mailto:jane@example.com", "MAILTO:jane@example.com"]),
    ("DIR", &["ldap://example.com:6666/o=ABC"]),
    ("ALTREP", &["CID:part3.msg@example.com", "http://example.com/a"]),
    ("MEMBER", &["mailto:list@example.com"]),
    ("DELEGATED-TO", &["mailto:jane@example.com"]),
    ("DELEGATED-FROM", &["mailto:joe@example.com"]),
    ("FEATURE", &["AUDIO", "AUDIO,VIDEO"]),
    ("DISPLAY", &["BADGE", "THUMBNAIL"]),
    ("SCHEDULE-AGENT", &["SERVER", "CLIENT", "NONE"]),
    ("SCHEDULE-STATUS", &["1.1", "2.0", "1.2"]),
    ("TYPE", &["PREF", "HOME", "WORK"]),
    ("SIZE", &["0", "102400"]),
    ("ORDER", &["1", "0"]),
    ("DERIVED", &["TRUE", "FALSE"]),
    ("X-NUM-GUESTS", &["0"]),
];

const FLAGS: &[&str] = &["TRUE", "FALSE", "true", "1", "0"];
const TIMES: &[&str] = &[
    "20240229",
    "20240229T093000",
    "20240229T093000Z",
    "19700101T000000",
    "19700101T000000Z",
    "20261025T023000",
    "20261231T235960Z",
    "00010101T000000",
    "20240229T093000Z,20240301T093000Z",
    "20240229,20240301",
];
const ADDRESSES: &[&str] =
    &["mailto:jane@example.com", "MAILTO:jane@example.com", "mailto:", "jane@example.com", "invalid:nomail"];
const LINKS: &[&str] = &[
    "http://example.com/a?b=c,d;e",
    "https://example.com",
    "HTTP://EXAMPLE.COM/",
    "CID:part3@example.com",
    "www.example.com",
];
const SPANS: &[&str] = &["PT1H", "P1D", "PT0S", "-PT15M", "P1W", "+P1D", "P1DT2H", "P7W", "PT90M"];
const RULES: &[&str] = &[
    "FREQ=YEARLY;BYMONTH=10;BYDAY=-1SU",
    "FREQ=DAILY",
    "FREQ=WEEKLY;UNTIL=20301231T235959Z;INTERVAL=1",
    "FREQ=DAILY;COUNT=1",
];

/// What calendar applications write for a property of this name: defaults and values with a meaning.
const TYPICAL_VALUES: &[(&str, &[&str])] = &[
    ("CALSCALE", &["GREGORIAN", "gregorian"]),
    ("METHOD", &["PUBLISH", "REQUEST", "CANCEL"]),
    ("VERSION", &["2.0", "1.0", "2.0;2.0"]),
    ("PRODID", &["ICALENDAR-RS", "-//Example Corp.//CalDAV Client//EN"]),
    ("CLASS", &["PUBLIC", "PRIVATE", "CONFIDENTIAL", "public"]),
    (
        "STATUS",
        &[
            "CONFIRMED",
            "TENTATIVE",
            "CANCELLED",
            "NEEDS-ACTION",
            "COMPLETED",
            "IN-PROCESS",
            "DRAFT",
            "FINAL",
            "confirmed",
        ],
    ),
    ("TRANSP", &["OPAQUE", "TRANSPARENT"]),
    ("PRIORITY", &["0", "1", "9", "00", "10"]),
    ("X-PRIORITY", &["1", "3"]),
    ("SEQUENCE", &["0", "1", "00"]),
    ("PERCENT-COMPLETE", &["0", "100", "50", "101"]),
    ("REPEAT", &["0", "4", "1"]),
    ("ACTION", &["DISPLAY", "AUDIO", "EMAIL", "PROCEDURE", "NONE"]),
    ("TRIGGER", &["-PT15M", "PT0S", "P0D", "19970101T000000Z", "-P1D"]),
    ("BUSYTYPE", &["BUSY", "BUSY-UNAVAILABLE"]),
    ("PROXIMITY", &["ARRIVE", "DEPART"]),
    ("GEO", &["52.5;13.4", "0;0", "52.5\\;13.4", "37.386013;-122.082932"]),
    ("CATEGORIES", &["WORK", "WORK,HOME", "Birthday", "A,,B", "a, b"]),
    ("RESOURCES", &["EASEL,PROJECTOR"]),
    ("REQUEST-STATUS", &["2.0;Success", "3.1;Invalid property value;DTSTART:96-Apr-01"]),
    ("RSTATUS", &["2.0;Success"]),
    ("TZID", &["Europe/Berlin", "UTC", "/example.org/Europe/Berlin"]),
    ("TIMEZONE-ID", &["Europe/Berlin", "UTC"]),
    ("X-WR-TIMEZONE", &["Europe/Berlin", "UTC"]),
    ("TZNAME", &["CET", "CEST"]),
    ("TZOFFSETFROM", &["+0100", "-0000", "+0000", "+053017"]),
    ("TZOFFSETTO", &["+0200", "-0500"]),
    ("COLOR", &["turquoise", "red", "#ff0000"]),
    ("X-APPLE-CALENDAR-COLOR", &["#FF2968FF"]),
    ("X-APPLE-TRAVEL-ADVISORY-BEHAVIOR", &["AUTOMATIC", "DISABLED"]),
    ("X-MICROSOFT-CDO-BUSYSTATUS", &["BUSY", "FREE", "TENTATIVE", "OOF"]),
    ("X-MICROSOFT-CDO-INTENDEDSTATUS", &["BUSY", "FREE"]),
    ("X-MICROSOFT-CDO-IMPORTANCE", &["0", "1", "2"]),
    ("X-MICROSOFT-CDO-ALLDAYEVENT", FLAGS),
    ("X-MICROSOFT-DISALLOW-COUNTER", FLAGS),
    ("X-APPLE-DEFAULT-ALARM", FLAGS),
    ("X-PUBLISHED-TTL", SPANS),
    ("REFRESH-INTERVAL", SPANS),
    ("DURATION", SPANS),
    ("RRULE", RULES),
    ("EXRULE", RULES),
    ("FREEBUSY", &["19970308T160000Z/PT3H", "19970308T160000Z/PT3H,19970308T200000Z/PT1H"]),
    ("ATTENDEE", ADDRESSES),
    ("ORGANIZER", ADDRESSES),
    ("CONTACT", &["Jim Dolittle\\, ABC Industries\\, +1-919-555-1234"]),
    ("URL", LINKS),
    ("X-URL", LINKS),
    ("TZURL", LINKS),
    ("SOURCE", LINKS),
    ("CONFERENCE", LINKS),
    ("X-GOOGLE-CONFERENCE", LINKS),
    ("LINK", LINKS),
    ("IMAGE", LINKS),
    ("ATTACH", LINKS),
    ("X-ALT-DESC", &["<!DOCTYPE HTML><HTML><BODY>a\\n&amp;</BODY></HTML>"]),
    ("X-APPLE-STRUCTURED-LOCATION", &["geo:52.5,13.4"]),
];

const TIME_NAMES: &[&str] = &[
    "DTSTART",
    "DTEND",
    "DUE",
    "COMPLETED",
    "CREATED",
    "DCREATED",
    "LAST-MODIFIED",
    "RECURRENCE-ID",
    "EXDATE",
    "RDATE",
    "ACKNOWLEDGED",
    "X-MOZ-LASTACK",
    "TZUNTIL",
    "X-DTSTART",
    "DTSTAMP",
];

pub fn typical_param(r: &mut Rng, key: &str) -> Option<String> {
    let (_, vs) = TYPICAL_PARAMS.iter().find(|(k, _)| *k == key)?;
    Some((*r.pick(vs)).to_string())
}

/// One in six is for any name, the rest for this one; nothing with a line break or a control character.
pub fn typical_value(r: &mut Rng, name: &str) -> Option<String> {
    if r.one_in(6) {
        return Some(
            (*r.pick(&[
                "TRUE",
                "FALSE",
                "0",
                "=41=3Db",
                "caf=C3=A9=",
                "Z3LDvMOfZQ==",
                "null",
                "NONE",
                "&lt;b&gt; &amp;",
                "%C3%A9%20",
                "a+b",
                "\\u00e9",
                "\\t",
                "\\\\n",
                "^n^'",
            ]))
            .to_string(),
        );
    }
    if TIME_NAMES.contains(&name) {
        return Some((*r.pick(TIMES)).to_string());
    }
    let (_, vs) = TYPICAL_VALUES.iter().find(|(k, _)| *k == name)?;
    Some((*r.pick(vs)).to_string())
}

/// A parameter value that may go with the name.
pub fn param_value_for(r: &mut Rng, key: &str) -> String {
    if r.pct(25) {
        if let Some(x) = typical_param(r, key) {
            return x;
        }
    }
    param_value(r)
}

/// A parameter value in the domain of the properties: no quotes, no control characters (a tab is none in RFC 5545).
pub fn param_value(r: &mut Rng) -> String {
    if let Some(x) = r.echo_text(10) {
        if x.len() <= 80 && !x.contains('"') && !x.contains(|c: char| c.is_control() && c != '\t') {
            return x;
        }
    }
    let x = fresh_param_value(r);
    r.keep_text(&x);
    x
}

fn fresh_param_value(r: &mut Rng) -> String {
    match r.below(8) {
        0 => String::new(),
        1..=3 => ascii_word(r, 12),
        4 => (*r.pick(&[
            "Europe/Berlin",
            "a:b",
            "a;b",
            "a,b",
            "a=b",
            " x ",
            "a\tb",
            "mailto:a@b.c",
            "x;VALUE=TEXT:y",
            ":",
            ";",
            ",",
        ]))
        .to_string(),
        _ => {
            let n = r.below(60);
            let s = text_len(r, PARAM, n);
            s.chars().filter(|c| *c != '"' && (!c.is_control() || *c == '\t')).collect()
        }
    }
}

// ------------------------------------------------------------------------------- documents

#[derive(Clone, Debug)]
pub enum DVal {
    /// `;KEY`
    None,
    /// `;KEY=`
    Empty,
    /// `;KEY=""`
    EmptyQuoted,
    Plain(String),
    Quoted(String),
    /// comma separated members, at least one of them quoted
    List(Vec<(bool, String)>),
}

#[derive(Clone, Debug)]
pub struct DParam {
    pub key: String,
    pub val: DVal,
}

impl DParam {
    pub fn spell(&self) -> String {
        match &self.val {
            DVal::None => format!(";{}", self.key),
            DVal::Empty => format!(";{}=", self.key),
            DVal::EmptyQuoted => format!(";{}=\"\"", self.key),
            DVal::Plain(v) => format!(";{}={v}", self.key),
            DVal::Quoted(v) => format!(";{}=\"{v}\"", self.key),
            DVal::List(_) => format!(";{}={}", self.key, self.expect().unwrap_or_default()),
        }
    }
    pub fn expect(&self) -> Option<String> {
        match &self.val {
            DVal::None | DVal::Empty | DVal::EmptyQuoted => None,
            DVal::Plain(v) | DVal::Quoted(v) => {
                if v.is_empty() {
                    None
                } else {
                    Some(v.clone())
                }
            }
            DVal::List(ms) => Some(
                ms.iter().map(|(q, v)| if *q { format!("\"{v}\"") } else { v.clone() }).collect::<Vec<_>>().join(","),
            ),
        }
    }
}

#[derive(Clone, Debug)]
pub struct DProp {
    pub name: String,
    pub params: Vec<DParam>,
    /// as spelled in the document; `None` is a bare name
    pub raw: Option<String>,
}

impl DProp {
    pub fn spell(&self) -> String {
        let mut s = self.name.clone();
        for p in &self.params {
            s.push_str(&p.spell());
        }
        if let Some(raw) = &self.raw {
            s.push(':');
            s.push_str(raw);
        }
        s
    }
    pub fn value_param(&self) -> Option<String> {
        self.params.iter().find(|p| p.key == "VALUE").and_then(DParam::expect)
    }
    pub fn expect(&self) -> XProp {
        let raw = self.raw.clone().unwrap_or_default();
        let val = if is_text(&self.name, self.value_param().as_deref()) { decode_text(&raw) } else { raw };
        XProp {
            name: self.name.clone(),
            params: self.params.iter().map(|p| XParam { key: p.key.clone(), val: p.expect() }).collect(),
            val,
        }
    }
}

#[derive(Clone, Debug)]
pub enum DItem {
    Prop(DProp),
    Comp(DComp),
}

#[derive(Clone, Debug)]
pub struct DComp {
    pub name: String,
    pub items: Vec<DItem>,
}

impl DComp {
    pub fn expect(&self) -> XComp {
        let mut x = XComp { name: self.name.clone(), props: vec![], comps: vec![] };
        for i in &self.items {
            match i {
                DItem::Prop(p) => x.props.push(p.expect()),
                DItem::Comp(c) => x.comps.push(c.expect()),
            }
        }
        x
    }
    pub fn lines(&self, out: &mut Vec<String>) {
        out.push(format!("BEGIN:{}", self.name));
        for i in &self.items {
            match i {
                DItem::Prop(p) => out.push(p.spell()),
                DItem::Comp(c) => c.lines(out),
            }
        }
        out.push(format!("END:{}", self.name));
    }
    pub fn depth(&self) -> usize {
        1 + self
            .items
            .iter()
            .map(|i| match i {
                DItem::Comp(c) => c.depth(),
                DItem::Prop(_) => 0,
            })
            .max()
            .unwrap_or(0)
    }
}

#[derive(Clone, Copy, Debug)]
pub struct DocOpts {
    pub max_depth: usize,
    pub roots: usize,
    pub calendar_root: bool,
    /// every component gets a UID and a DTSTAMP
    pub ids: bool,
    /// no parameter name twice in one property
    pub distinct_params: bool,
    pub bare: bool,
    pub deep: bool,
    pub max_items: usize,
}

pub const DEFAULT_DOC: DocOpts = DocOpts {
    max_depth: 5,
    roots: 1,
    calendar_root: true,
    ids: false,
    distinct_params: false,
    bare: true,
    deep: false,
    max_items: 8,
};

fn plain_value(r: &mut Rng) -> String {
    let v = param_value(r);
    v.chars().filter(|c| !matches!(c, ';' | ':' | '"' | '\r' | '\n')).collect()
}

fn list_member(r: &mut Rng) -> (bool, String) {
    if r.one_in(3) {
        let v: String = plain_value(r).chars().filter(|c| *c != ',').collect();
        (false, v)
    } else {
        let v = param_value(r);
        (true, v)
    }
}

pub fn doc_param(r: &mut Rng) -> DParam {
    let key = if r.one_in(20) { exotic_name(r) } else { param_name(r) };
    let val = if key == "VALUE" && r.pct(85) {
        let v = if r.pct(75) {
            (*r.pick(VALUE_TYPES)).to_string()
        } else {
            (*r.pick(&["text", "Text", "TEXTS", "X-TYPE", "UNKNOWN", "DATETIME"])).to_string()
        };
        if r.one_in(6) {
            DVal::Quoted(v)
        } else {
            DVal::Plain(v)
        }
    } else if let Some(v) = Some(()).filter(|_| r.pct(25)).and_then(|_| typical_param(r, &key)) {
        if v.contains([',', ';', ':']) || r.one_in(4) {
            DVal::Quoted(v)
        } else {
            DVal::Plain(v)
        }
    } else {
        match r.below(12) {
            0 => DVal::None,
            1 => DVal::Empty,
            2 => DVal::EmptyQuoted,
            3..=6 => DVal::Plain(plain_value(r)),
            7..=9 => DVal::Quoted(param_value(r)),
            _ => {
                let n = 2 + r.below(3);
                let mut ms: Vec<_> = (0..n).map(|_| list_member(r)).collect();
                if !ms.iter().any(|m| m.0) {
                    ms[0].0 = true;
                }
                DVal::List(ms)
            }
        }
    };
    DParam { key, val }
}

/// name characters the parser knows beyond RFC 5545
fn exotic_name(r: &mut Rng) -> String {
    let mut s = ascii_word(r, 6);
    s.push(*r.pick(&['.', '_', '-', '/']));
    s.push_str(&ascii_word(r, 6));
    s
}

pub fn doc_prop(r: &mut Rng, o: &DocOpts) -> DProp {
    let name = if r.one_in(25) { exotic_name(r) } else { prop_name(r) };
    doc_prop_named(r, o, name)
}

pub fn doc_prop_named(r: &mut Rng, o: &DocOpts, name: String) -> DProp {
    if o.bare && r.one_in(30) {
        return DProp { name, params: vec![], raw: None };
    }
    let n = match r.below(10) {
        0..=5 => 0,
        6 | 7 => 1,
        8 => 2,
        _ => r.below(7),
    };
    let mut params: Vec<DParam> = vec![];
    for _ in 0..n {
        let p = doc_param(r);
        if !o.distinct_params || params.iter().all(|q| q.key != p.key) {
            params.push(p);
        }
    }
    let typical = if r.pct(20) { typical_value(r, &name) } else { None };
    let raw = typical.unwrap_or_else(|| text(r, DOC));
    DProp { name, params, raw: Some(raw) }
}

fn prop_line(name: &str, value: &str) -> DProp {
    DProp { name: name.into(), params: vec![], raw: Some(value.into()) }
}

pub fn utc_stamp(r: &mut Rng) -> String {
    format!(
        "{:04}{:02}{:02}T{:02}{:02}{:02}Z",
        r.range(1970, 2100),
        r.range(1, 12),
        r.range(1, 28),
        r.range(0, 23),
        r.range(0, 59),
        r.range(0, 59)
    )
}

/// A UID of its own, in one of the shapes in use.
pub fn uid(r: &mut Rng) -> String {
    let (a, b) = (r.u64(), r.u64());
    let uuid = format!(
        "{:08x}-{:04x}-4{:03x}-a{:03x}-{:012x}",
        a >> 32,
        a >> 16 & 0xffff,
        a & 0xfff,
        b >> 52,
        b & 0xffff_ffff_ffff
    );
    match r.below(12) {
        0..=4 => format!("uid-{a}"),
        5 => uuid,
        6 => uuid.to_uppercase(),
        7 => format!("{{{}}}", uuid.to_uppercase()),
        8 => format!("urn:uuid:{uuid}"),
        9 => format!("{a}@{}", r.pick(&["google.com", "Example.COM", "example.com/", "example.com "])),
        10 => format!("040000008200E00074C5B7101A82E008{a:016X}"),
        _ => format!("{a:020}"),
    }
}

/// Names that begin or end like the ones with a meaning.
pub const NEAR_NAMES: &[&str] = &[
    "VCALENDARS",
    "VCALENDAR-X",
    "X-VCALENDAR",
    "VCALENDA",
    "vcalendar",
    "VCALENDAR2",
    "VEVENTS",
    "VEVEN",
    "vevent",
    "vEvent",
    "VEVENT-X",
    "X-VTODO",
    "vtodo",
    "VTODO1",
    "vvenue",
    "VVENUES",
    "valarm",
    "VALARMS",
];

fn comp_name(r: &mut Rng) -> String {
    if r.one_in(30) {
        exotic_name(r)
    } else if r.one_in(12) {
        (*r.pick(NEAR_NAMES)).to_string()
    } else if r.one_in(8) {
        random_name(r)
    } else {
        (*r.pick(COMP_NAMES)).to_string()
    }
}

fn doc_comp_at(r: &mut Rng, o: &DocOpts, name: String, level: usize, budget: &mut usize) -> DComp {
    let mut items = vec![];
    let n = if o.deep { r.below(3) } else { r.small(o.max_items) };
    let repeat_name = prop_name(r);
    for _ in 0..n {
        if *budget == 0 {
            break;
        }
        *budget -= 1;
        let nest = level < o.max_depth && r.one_in(4);
        if nest {
            // same names nested in each other are likely
            let name = if r.one_in(4) { name.clone() } else { comp_name(r) };
            let c = doc_comp_at(r, o, name, level + 1, budget);
            items.push(DItem::Comp(c));
        } else {
            let p = if r.one_in(4) { doc_prop_named(r, o, repeat_name.clone()) } else { doc_prop(r, o) };
            items.push(DItem::Prop(p));
        }
    }
    if o.deep && level < o.max_depth {
        let name = if r.one_in(3) { name.clone() } else { comp_name(r) };
        let c = doc_comp_at(r, o, name, level + 1, budget);
        let at = r.below(items.len() + 1);
        items.insert(at, DItem::Comp(c));
    }
    if o.ids {
        let uid = uid(r);
        let stamp = utc_stamp(r);
        let at = r.below(items.len() + 1);
        items.insert(at, DItem::Prop(prop_line("UID", &uid)));
        let at = r.below(items.len() + 1);
        items.insert(at, DItem::Prop(prop_line("DTSTAMP", &stamp)));
    }
    DComp { name, items }
}

pub fn doc_comp(r: &mut Rng, o: &DocOpts, name: &str) -> DComp {
    let mut budget = 60;
    doc_comp_at(r, o, name.to_string(), 1, &mut budget)
}

/// A document: its root components.
pub fn document(r: &mut Rng, o: &DocOpts) -> Vec<DComp> {
    let n = o.roots.max(1);
    (0..n)
        .map(|i| {
            let name = if i == 0 && o.calendar_root { "VCALENDAR".to_string() } else { comp_name(r) };
            let mut budget = 60;
            doc_comp_at(r, o, name, 1, &mut budget)
        })
        .collect()
}

/// Something like what calendar applications write.
pub fn realistic(r: &mut Rng) -> Vec<DComp> {
    let mut items = vec![
        DItem::Prop(prop_line("VERSION", "2.0")),
        DItem::Prop(prop_line("PRODID", "-//Example Corp.//CalDAV Client//EN")),
        DItem::Prop(prop_line("CALSCALE", "GREGORIAN")),
        DItem::Prop(prop_line("X-WR-CALNAME", "Team\\, Berlin\\; Room 1")),
    ];
    let tz = DComp {
        name: "VTIMEZONE".into(),
        items: vec![
            DItem::Prop(prop_line("TZID", "Europe/Berlin")),
            DItem::Comp(DComp {
                name: "STANDARD".into(),
                items: vec![
                    DItem::Prop(prop_line("DTSTART", "19701025T030000")),
                    DItem::Prop(prop_line("RRULE", "FREQ=YEARLY;BYMONTH=10;BYDAY=-1SU")),
                    DItem::Prop(prop_line("TZOFFSETFROM", "+0200")),
                    DItem::Prop(prop_line("TZOFFSETTO", "+0100")),
                    DItem::Prop(prop_line("TZNAME", "CET")),
                ],
            }),
        ],
    };
    items.push(DItem::Comp(tz));
    for i in 0..1 + r.below(3) {
        let mut ev = vec![
            DItem::Prop(prop_line("UID", &format!("{}@example.com", r.u64()))),
            DItem::Prop(prop_line("DTSTAMP", &utc_stamp(r))),
            DItem::Prop(DProp {
                name: "DTSTART".into(),
                params: vec![DParam { key: "TZID".into(), val: DVal::Plain("Europe/Berlin".into()) }],
                raw: Some("20240229T093000".into()),
            }),
            DItem::Prop(prop_line("SUMMARY", "Planning\\, part \\;\\n\\\\server\\share")),
            DItem::Prop(prop_line("GEO", "52.5;13.4")),
            DItem::Prop(prop_line("CATEGORIES", "WORK,PLANNING")),
            DItem::Prop(prop_line("RRULE", "FREQ=WEEKLY;BYDAY=MO,TU;UNTIL=20250101T000000Z")),
            DItem::Prop(prop_line("EXDATE", "20240307T093000Z,20240314T093000Z")),
            DItem::Prop(DProp {
                name: "ORGANIZER".into(),
                params: vec![DParam { key: "CN".into(), val: DVal::Quoted("Doe; Jane: PhD".into()) }],
                raw: Some("mailto:jane@example.com".into()),
            }),
        ];
        for k in 0..r.below(4) {
            ev.push(DItem::Prop(DProp {
                name: "ATTENDEE".into(),
                params: vec![
                    DParam { key: "CN".into(), val: DVal::Plain(format!("Person {k}")) },
                    DParam {
                        key: "MEMBER".into(),
                        val: DVal::List(vec![
                            (true, "mailto:a@example.com".into()),
                            (true, "mailto:b@example.com".into()),
                        ]),
                    },
                    DParam { key: "RSVP".into(), val: DVal::Plain("TRUE".into()) },
                ],
                raw: Some(format!("mailto:p{k}@example.com")),
            }));
        }
        if r.one_in(2) {
            ev.push(DItem::Prop(prop_line("DESCRIPTION", &text(r, DOC))));
        }
        let mut ids = r.clone();
        ev.push(DItem::Comp(DComp {
            name: "VALARM".into(),
            items: vec![
                DItem::Prop(prop_line("UID", &format!("alarm-{}", ids.u64()))),
                DItem::Prop(prop_line("DTSTAMP", &utc_stamp(&mut ids))),
                DItem::Prop(prop_line("ACTION", "DISPLAY")),
                DItem::Prop(prop_line("TRIGGER", "-PT15M")),
                DItem::Prop(prop_line("DESCRIPTION", "Reminder")),
            ],
        }));
        items.push(DItem::Comp(DComp { name: if i == 1 { "VTODO" } else { "VEVENT" }.into(), items: ev }));
    }
    vec![DComp { name: "VCALENDAR".into(), items }]
}

pub fn lines_of(doc: &[DComp]) -> Vec<String> {
    let mut out = vec![];
    for c in doc {
        c.lines(&mut out);
    }
    out
}

pub fn expect_of(doc: &[DComp]) -> Vec<XComp> {
    doc.iter().map(DComp::expect).collect()
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Eol {
    Lf,
    Crlf,
    Mixed,
}

#[derive(Clone, Copy, Debug)]
pub struct Layout {
    pub eol: Eol,
    /// one fold in about so many characters, 0: none
    pub fold: usize,
    /// one blank line in about so many lines, 0: none
    pub blank: usize,
    pub final_eol: bool,
}

pub const PLAIN_LAYOUT: Layout = Layout { eol: Eol::Crlf, fold: 0, blank: 0, final_eol: true };

fn eol(r: &mut Rng, e: Eol) -> &'static str {
    match e {
        Eol::Lf => "\n",
        Eol::Crlf => "\r\n",
        Eol::Mixed => {
            if r.one_in(2) {
                "\n"
            } else {
                "\r\n"
            }
        }
    }
}

/// Lays logical lines out as a document.
pub fn layout(r: &mut Rng, lines: &[String], l: &Layout) -> String {
    let mut s = String::new();
    let blanks = |s: &mut String, r: &mut Rng| {
        if l.blank > 0 && r.one_in(l.blank) {
            // now and then a page of them
            let n = if r.one_in(40) { r.below(300) } else { 1 + r.below(3) };
            for _ in 0..n {
                s.push_str(eol(r, l.eol));
            }
        }
    };
    blanks(&mut s, r);
    for (i, line) in lines.iter().enumerate() {
        let mut prev = '\n';
        let dense = l.fold > 0 && r.one_in(6);
        for c in line.chars() {
            if prev != '\n' && prev != '\r' && l.fold > 0 && (dense || r.one_in(l.fold)) {
                let n = if r.one_in(20) { 2 } else { 1 };
                for _ in 0..n {
                    s.push_str(eol(r, l.eol));
                    s.push(if r.one_in(3) { '\t' } else { ' ' });
                }
            }
            s.push(c);
            prev = c;
        }
        if i + 1 < lines.len() || l.final_eol {
            s.push_str(eol(r, l.eol));
            blanks(&mut s, r);
        }
    }
    s
}
