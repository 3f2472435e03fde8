//! What runs under Miri for C21 (and C01): every entry point and accessor on small documents,
//! alone, from two threads at once, and on one calendar that two threads share.

#[allow(dead_code)]
#[path = "../../harness/src/walk.rs"]
mod walk;

use icalendar::{parser, Calendar, Component, DatePerhapsTime, Event, EventLike, Trigger};
use std::convert::TryFrom;
use walk::{Plan, Seen};

const DOCS: &[&str] = &[
    "BEGIN:VCALENDAR\r\nX-WR-CALNAME:a\\,b\r\nBEGIN:VEVENT\r\nUID:1\r\nDTSTAMP:20240101T000000Z\r\nDTSTART;TZID=Europe/Berlin:20240229T09\r\n 3000\r\nATTENDEE;CN=\"a;b\":mailto:c\r\nATTENDEE:d\r\nSUMMARY:x\\ny\\\\\r\nEND:VEVENT\r\nEND:VCALENDAR\r\n",
    "BEGIN:VTODO\nUID:1\nDTSTAMP:20240101T000000Z\nDUE:20240101T000000Z\nPRIORITY:3\nBEGIN:VALARM\nUID:2\nDTSTAMP:20240101T000000Z\nTRIGGER:-PT15M\nEND:VALARM\nEND:VTODO\n",
    "BEGIN:VEVENT\nX;\nEND:VEVENT\n",
    "\u{e9};A=\"\u{1f600}\",b:\u{e9}\\",
];

fn run(doc: &str, plan: Plan) -> u64 {
    let mut seen = Seen::new(false);
    walk::everything(doc, plan, &mut seen);
    seen.hash
}

/// a few calls of every part
fn light(doc: &str) -> String {
    let flat = parser::unfold(doc);
    let mut out = String::new();
    match parser::read_calendar(&flat) {
        Ok(c) => {
            out.push_str(&c.to_string());
            let typed = Calendar::from(c);
            out.push_str(&typed.to_string());
            for x in typed.iter() {
                if let Some(e) = x.as_event() {
                    out.push_str(&format!("{:?} {:?} {:?}", e.get_summary(), e.get_timestamp(), e.get_status()));
                    if let Some(DatePerhapsTime::DateTime(d)) = e.get_start() {
                        out.push_str(&format!("{:?}", d.try_into_utc()));
                    }
                    let mut copy = e.clone();
                    out.push_str(copy.description("more").get_description().unwrap_or_default());
                    out.push_str(&format!("{}", copy == *e));
                }
                if let Some(t) = x.as_todo() {
                    out.push_str(&format!("{:?} {:?} {:?}", t.get_due(), t.get_priority(), t.components().len()));
                    for p in t.components().iter().flat_map(|a| a.properties().values()) {
                        out.push_str(&format!("{:?}", Trigger::try_from(p).ok()));
                    }
                }
            }
        }
        Err(e) => out.push_str(&e),
    }
    out
}

fn digest(doc: &str, full: bool) -> (String, u64) {
    if full {
        (String::new(), run(doc, Plan { json: true, again: true, debug: true }))
    } else {
        (light(doc), 0)
    }
}

fn main() {
    let full = std::env::args().nth(1).as_deref() == Some("full");
    let want: Vec<_> = DOCS.iter().map(|d| digest(d, full)).collect();
    let hs: Vec<_> = (0..2)
        .map(|t| {
            std::thread::spawn(move || {
                (0..DOCS.len()).map(|i| (i + t) % DOCS.len()).map(|i| (i, digest(DOCS[i], full))).collect::<Vec<_>>()
            })
        })
        .collect();
    for h in hs {
        for (i, got) in h.join().expect("thread") {
            assert!(got == want[i], "DIFFERENT-RESULT document {i}: {got:?} and {:?}", want[i]);
        }
    }
    // shared
    let cal: Calendar = DOCS[0].parse().expect("a good document");
    let flat = parser::unfold(DOCS[0]);
    let parsed = parser::read_calendar(&flat).expect("a good document");
    let texts: Vec<_> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..2)
            .map(|_| {
                s.spawn(|| {
                    let e = cal.iter().find_map(|c| c.as_event()).expect("an event");
                    (cal.to_string(), parsed.to_string(), e.get_summary(), e.get_start())
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    assert!(texts[0] == texts[1], "DIFFERENT-RESULT shared: {texts:?}");
    // built in two threads at once
    let hs: Vec<_> = (0..2)
        .map(|_| {
            std::thread::spawn(|| {
                let e = Event::new().summary("a,b\nc").location("\u{1f600}".repeat(20).as_str()).done();
                e.try_into_string().expect("text")
            })
        })
        .collect();
    for h in hs {
        h.join().expect("thread");
    }
    println!("MIRI-OK {} documents, 2 threads", DOCS.len());
}
