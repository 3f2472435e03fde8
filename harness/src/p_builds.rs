//! C24: the same results in every build of the library.

use crate::rt::*;
use std::collections::BTreeMap;
use std::path::{Path, PathBuf};
use std::process::Command;

const FEATURES: [&str; 4] = ["parser", "serde", "serde_json", "chrono-tz"];

/// a build of the probe: a set of features and a profile
#[derive(Clone, Copy, PartialEq)]
struct Build {
    set: usize,
    release: bool,
}

impl Build {
    fn features(self) -> String {
        let f: Vec<&str> = (0..FEATURES.len()).filter(|i| self.set & (1 << i) != 0).map(|i| FEATURES[i]).collect();
        f.join(",")
    }
    fn name(self) -> String {
        format!(
            "{} with {}",
            if self.release { "release" } else { "debug" },
            match self.set {
                0 => "no features".to_string(),
                _ => format!("features {}", self.features()),
            }
        )
    }
}

fn verif_dir() -> PathBuf {
    std::env::var("MON_VERIF").unwrap_or_else(|_| "/verif".into()).into()
}

/// forget what was built of the library and of the probe
fn forget(target: &Path) {
    for profile in ["debug", "release"] {
        let Ok(dir) = std::fs::read_dir(target.join(profile).join(".fingerprint")) else {
            continue;
        };
        for e in dir.flatten() {
            let name = e.file_name().to_string_lossy().into_owned();
            if ["icalendar-", "probe-", "mon-"].iter().any(|p| name.starts_with(p)) {
                let _ = std::fs::remove_dir_all(e.path());
            }
        }
    }
}

enum Built {
    Yes(PathBuf),
    /// the compiler rejects it
    No(String),
    /// no answer
    Problem(String),
}

fn cargo(krate: &Path, target: &Path, b: Build) -> Built {
    let mut c = Command::new("cargo");
    c.args(["build", "-q", "--offline", "--no-default-features"])
        .arg("--features")
        .arg(b.features())
        .env("CARGO_TARGET_DIR", target)
        .env_remove("RUSTFLAGS")
        .current_dir(krate);
    if b.release {
        c.arg("--release");
    }
    match c.output() {
        Ok(o) if o.status.success() => {
            Built::Yes(target.join(if b.release { "release" } else { "debug" }).join("probe"))
        }
        Ok(o) => {
            let err = String::from_utf8_lossy(&o.stderr).into_owned();
            let ours = ["could not compile `icalendar`", "could not compile `probe`"].iter().any(|m| err.contains(m));
            // an error at a place in the sources, not one of the machine
            let at = err.lines().position(|l| l.starts_with("error")).unwrap_or(0);
            let text: String = err.lines().skip(at).take(14).collect::<Vec<_>>().join("\n  ");
            let placed = text.contains("--> ");
            if ours && placed {
                Built::No(text)
            } else {
                Built::Problem(clip(&err, 1500).to_string())
            }
        }
        Err(e) => Built::Problem(e.to_string()),
    }
}

type Lines = BTreeMap<String, String>;

fn run_probe(exe: &Path, seed: u64, n: u64, key: Option<&str>) -> Result<String, String> {
    let mut c = Command::new(exe);
    c.args([seed.to_string(), n.to_string()]);
    if let Some(k) = key {
        c.arg(k);
    }
    match c.output() {
        Ok(o) if o.status.success() || key.is_some() => Ok(String::from_utf8_lossy(&o.stdout).into_owned()),
        Ok(o) => Err(format!("{}: {}", o.status, clip(&String::from_utf8_lossy(&o.stderr), 800))),
        Err(e) => Err(e.to_string()),
    }
}

fn lines(text: &str) -> Lines {
    text.lines().filter_map(|l| l.split_once(' ')).map(|(k, v)| (k.to_string(), v.to_string())).collect()
}

fn first_difference(a: &str, b: &str) -> String {
    for (i, (x, y)) in a.lines().zip(b.lines()).enumerate() {
        if x != y {
            return format!("line {i}: {:?}\n     and: {:?}", clip(x, 700), clip(y, 700));
        }
    }
    format!("{} and {} lines", a.lines().count(), b.lines().count())
}

fn builds(e: &mut Extra) {
    let verif = verif_dir();
    let (krate, target) = (verif.join("probe"), verif.join("target/probe"));
    forget(&target);
    let all = (1 << FEATURES.len()) - 1;
    let thorough = e.tier == Tier::Thorough;
    let n: u64 = if thorough { 40_000 } else { 2_500 };
    let mut list = vec![Build { set: all, release: false }];
    list.extend((0..all).map(|set| Build { set, release: false }));
    list.extend(
        (0..=all).rev().filter(|s| thorough || [0, 1, all].contains(s)).map(|set| Build { set, release: true }),
    );
    let mut jobs = vec![];
    let seed = e.seed;
    for (i, b) in list.iter().enumerate() {
        let exe = match cargo(&krate, &target, *b) {
            Built::Yes(exe) => exe,
            Built::No(err) if i > 0 => {
                e.fails.push(Fail {
                    section: "extra".into(),
                    case: i as u64,
                    sig: format!("does not compile: {}", b.features()),
                    detail: format!("{}: the build fails:\n  {err}", b.name()),
                });
                continue;
            }
            Built::No(err) | Built::Problem(err) => {
                e.errors.push(format!("{}: {err}", b.name()));
                if i == 0 {
                    return;
                }
                continue;
            }
        };
        *e.counters.entry("builds".into()).or_insert(0) += 1;
        // the next build takes its place
        let copy = e.work.join(format!("probe-{i}"));
        if let Err(err) = std::fs::copy(&exe, &copy) {
            e.errors.push(format!("{}: {err}", copy.display()));
            continue;
        }
        let exe = copy.clone();
        jobs.push((*b, copy, std::thread::spawn(move || run_probe(&exe, seed, n, None))));
    }
    let mut first: Option<(PathBuf, Lines)> = None;
    let mut remove = vec![];
    for (b, exe, job) in jobs {
        remove.push(exe.clone());
        let out = match job.join() {
            Ok(Ok(t)) => lines(&t),
            Ok(Err(err)) => {
                e.fails.push(Fail {
                    section: "extra".into(),
                    case: b.set as u64,
                    sig: "a process died".into(),
                    detail: format!("{}: {err}", b.name()),
                });
                continue;
            }
            Err(_) => {
                e.errors.push("a thread died".into());
                continue;
            }
        };
        let Some((ref_exe, want)) = &first else {
            e.distinct = out.values().collect::<std::collections::HashSet<_>>().len() as u64;
            e.evaluations += out.len() as u64;
            for k in ["B0", "B1", "V0", "P0", "J0", "Z0"] {
                if let Ok(t) = run_probe(&exe, seed, n, Some(k)) {
                    e.samples.push(format!("[{k}] {}", clip(&t, 400)));
                }
            }
            first = Some((exe, out));
            continue;
        };
        e.evaluations += out.len() as u64;
        for (k, v) in &out {
            let kind = match &k[..1] {
                "B" => "built items compared between builds",
                "V" => "values compared between builds",
                "P" => "documents compared between builds",
                "M" => "large items compared between builds",
                "L" => "large documents compared between builds",
                "J" => "JSON documents compared between builds",
                _ => "zones compared between builds",
            };
            *e.counters.entry(kind.into()).or_insert(0) += 1;
            if want.get(k) != Some(v) {
                let x = run_probe(&exe, seed, n, Some(k)).unwrap_or_else(|e| e);
                let y = run_probe(ref_exe, seed, n, Some(k)).unwrap_or_else(|e| e);
                e.fails.push(Fail {
                    section: "extra".into(),
                    case: b.set as u64,
                    sig: format!("another result: {}", &k[..1]),
                    detail: format!(
                        "{k}: {} does something else than {}\n  {}",
                        b.name(),
                        list[0].name(),
                        first_difference(&x, &y)
                    ),
                });
                break;
            }
        }
    }
    if e.fails.is_empty() {
        for x in remove {
            let _ = std::fs::remove_file(x);
        }
    }
    e.notes.insert("builds compared".into(), serde_json::json!(list.iter().map(|b| b.name()).collect::<Vec<_>>()));
    e.notes.insert("cases in each build".into(), serde_json::json!(n));
}

/// Other properties, judged on the library as it is shipped: optimised, without debug assertions.
fn shipped(e: &mut Extra) {
    let verif = verif_dir();
    let (krate, target) = (verif.join("harness"), verif.join("target/ship"));
    forget(&target);
    let built = Command::new("cargo")
        .args(["build", "-q", "--offline", "--release"])
        .env("CARGO_TARGET_DIR", &target)
        .env_remove("RUSTFLAGS")
        .current_dir(&krate)
        .output();
    match built {
        Ok(o) if o.status.success() => {}
        Ok(o) => {
            e.errors.push(format!("release build: {}", clip(&String::from_utf8_lossy(&o.stderr), 800)));
            return;
        }
        Err(err) => {
            e.errors.push(err.to_string());
            return;
        }
    }
    let mut said = vec![];
    let out = e.work.join("shipped");
    let _ = std::fs::create_dir_all(&out);
    let _ = std::fs::copy(verif.join("known_findings.jsonl"), out.join("known_findings.jsonl"));
    for id in [
        "C02", "C03", "C04", "C05", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19",
        "C22", "C23", "C25", "C26",
    ] {
        let o = Command::new(target.join("release/mon"))
            .args(["run", id, "quick"])
            .env("MON_VERIF", &out)
            .env("VERIF_SEED", e.seed.to_string())
            .output();
        match o {
            Ok(o) => {
                let text = String::from_utf8_lossy(&o.stdout).into_owned();
                if o.status.code() == Some(1) {
                    e.fails.push(Fail {
                        section: "extra".into(),
                        case: 0,
                        sig: format!("shipped {id}"),
                        detail: format!("in the release build: {}", clip(&text, 3000)),
                    });
                } else if o.status.success() {
                    *e.counters.entry("properties judged in the release build".into()).or_insert(0) += 1;
                    said.push(text.lines().last().unwrap_or_default().to_string());
                } else {
                    e.errors.push(format!("release {id}: {}", clip(&String::from_utf8_lossy(&o.stderr), 800)));
                }
            }
            Err(err) => e.errors.push(err.to_string()),
        }
    }
    e.notes.insert("in the release build".into(), serde_json::json!(said));
}

fn c24_extra(e: &mut Extra) {
    builds(e);
    if e.tier == Tier::Thorough && e.fails.is_empty() {
        shipped(e);
    }
}

pub fn c24() -> Prop {
    Prop {
        id: "C24",
        level: "exploration",
        rule: "A case is a calendar or component made with the builders, a string given to the readers of values, a document, \
               a JSON document, or a time in a zone, together with all that is seen of it (text, getters, types, errors). \
               The same cases run in builds of the library with all sets of features, with and without debug assertions \
               and optimisation, and the digests are compared with those of the debug build with all features. \
               Non-trivial: distinct digests.",
        sections: vec![],
        require: vec![
            ("builds", 19),
            ("built items compared between builds", 40_000),
            ("values compared between builds", 40_000),
            ("documents compared between builds", 20_000),
            ("JSON documents compared between builds", 5_000),
            ("zones compared between builds", 20_000),
            ("large items compared between builds", 2_000),
            ("large documents compared between builds", 1_200),
        ],
        extra: Some(c24_extra),
        assumptions: vec!["builds for other targets (wasm32) are not part of it: no target but the host's is installed"],
    }
}
