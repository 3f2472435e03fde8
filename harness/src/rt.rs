//! The runtime of the monitors: work distribution, supervision of the process that runs the
//! real code, bookkeeping of what was observed, verdicts and evidence.
//!
//! A *parent* starts a *child* (the same binary). The child runs the cases on several threads
//! and records which case each thread is in, in a shared file. A panic inside the library, a
//! case that burns more than `CASE_CPU_S` seconds of CPU, or a child that dies of a signal
//! (stack overflow, abort) is pinned to its case. A panic of the harness itself is an error of
//! the check and never a violation.

use crate::rng::{hash_str, Rng};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::panic;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Mutex, OnceLock};
use std::time::{Duration, Instant};

pub const CASE_CPU_S: u64 = 90;
const MAX_FAILS: usize = 12;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Tier {
    Quick,
    Thorough,
}

#[derive(Clone)]
pub struct Section {
    pub name: &'static str,
    pub quick: u64,
    pub thorough: u64,
    pub run: fn(&mut Ctx),
}

pub fn sec(name: &'static str, quick: u64, thorough: u64, run: fn(&mut Ctx)) -> Section {
    Section { name, quick, thorough, run }
}

pub struct Prop {
    pub id: &'static str,
    pub level: &'static str,
    pub rule: &'static str,
    pub sections: Vec<Section>,
    /// observation counters that must reach a minimum, else the run is inconclusive
    pub require: Vec<(&'static str, u64)>,
    /// run by the parent after the child
    pub extra: Option<fn(&mut Extra)>,
    pub assumptions: Vec<&'static str>,
}

#[derive(Clone, Debug)]
pub struct Fail {
    pub section: String,
    pub case: u64,
    pub sig: String,
    pub detail: String,
}

/// The findings that are listed and not repaired: (property, id).
fn known_findings() -> &'static HashSet<(String, String)> {
    static LIST: OnceLock<HashSet<(String, String)>> = OnceLock::new();
    LIST.get_or_init(|| {
        let dir = std::env::var("MON_VERIF").unwrap_or_else(|_| "/verif".into());
        let text = std::fs::read_to_string(Path::new(&dir).join("known_findings.jsonl")).unwrap_or_default();
        text.lines()
            .filter_map(|l| serde_json::from_str::<Value>(l).ok())
            .filter(|v| v["status"] == "known")
            .filter_map(|v| Some((v["property"].as_str()?.to_string(), v["id"].as_str()?.to_string())))
            .collect()
    })
}

pub struct Ctx {
    prop: &'static str,
    pub rng: Rng,
    pub section: &'static str,
    pub case: u64,
    pub seed: u64,
    pub tier: Tier,
    counters: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    fails: Vec<(String, String)>,
    known: Vec<(String, String)>,
    sample: Option<String>,
    pub verbose: bool,
}

impl Ctx {
    fn new(prop: &'static str, section: &'static str, case: u64, seed: u64, tier: Tier) -> Ctx {
        Ctx {
            prop,
            rng: Rng::new(&[seed, hash_str(prop), hash_str(section), case]),
            section,
            case,
            seed,
            tier,
            counters: BTreeMap::new(),
            distinct: HashSet::new(),
            fails: vec![],
            known: vec![],
            sample: None,
            verbose: false,
        }
    }
    /// Something was observed by a monitor.
    pub fn obs(&mut self, key: &'static str) {
        self.obs_n(key, 1);
    }
    pub fn obs_n(&mut self, key: &'static str, n: u64) {
        *self.counters.entry(key).or_insert(0) += n;
    }
    /// The hash of a case that is non-trivial by the rule of the property.
    pub fn nontrivial(&mut self, s: &str) {
        self.distinct.insert(hash_str(s));
    }
    pub fn fail(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        if self.fails.len() < 4 {
            self.fails.push((sig.into(), detail.into()));
        }
    }
    pub fn failed(&self) -> bool {
        !self.fails.is_empty()
    }
    /// A violation with the signature of a finding: quiet if (and only if) it is listed.
    pub fn known(&mut self, id: &str, detail: impl Into<String>) {
        if known_findings().contains(&(self.prop.to_string(), id.to_string())) {
            self.known.push((id.into(), detail.into()));
        } else {
            self.fail(id, detail);
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> String) {
        if self.sample.is_none() {
            self.sample = Some(f());
        }
    }
    pub fn check(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            self.fail(sig, detail());
        }
        ok
    }
    pub fn eq<T: PartialEq + std::fmt::Debug>(&mut self, sig: &str, got: &T, want: &T, input: &str) -> bool {
        if got != want {
            let d = format!(
                "{sig}\n  got:  {}\n  want: {}\n  input: {}",
                clip(&format!("{got:?}"), 4000),
                clip(&format!("{want:?}"), 4000),
                clip(&format!("{input:?}"), 4000)
            );
            self.fail(sig, d);
            return false;
        }
        true
    }
}

pub fn clip(s: &str, n: usize) -> String {
    if s.len() <= n {
        return s.to_string();
    }
    let mut e = n;
    while !s.is_char_boundary(e) {
        e -= 1;
    }
    format!("{}...({} bytes)", &s[..e], s.len())
}

thread_local! {
    static LAST_PANIC: RefCell<Option<(bool, String)>> = const { RefCell::new(None) };
}

/// Is this panic one of the harness' own code (an error of the check)?
fn is_harness_file(file: &str) -> bool {
    file.starts_with("src/") || file.starts_with("/verif/harness/") || file.contains("/verif/harness/src/")
}

pub fn install_panic_hook() {
    panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| (l.file().to_string(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            (*s).to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        LAST_PANIC.with(|p| {
            *p.borrow_mut() = Some((is_harness_file(&loc.0), format!("panicked at {}:{}: {}", loc.0, loc.1, msg)))
        });
    }));
}

pub enum Caught<T> {
    Ok(T),
    Library(String),
}

/// Runs library code; a panic that comes out of it is returned, a panic of the harness goes on.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Caught<T> {
    match panic::catch_unwind(panic::AssertUnwindSafe(f)) {
        Ok(v) => Caught::Ok(v),
        Err(e) => {
            let last = LAST_PANIC.with(|p| p.borrow_mut().take());
            match last {
                Some((false, msg)) => Caught::Library(msg),
                other => {
                    LAST_PANIC.with(|p| *p.borrow_mut() = other);
                    panic::resume_unwind(e)
                }
            }
        }
    }
}

// ---------------------------------------------------------------- shared state file

const SLOTS: usize = 64;

#[derive(Clone, Copy)]
struct State(*mut u64);
unsafe impl Send for State {}
unsafe impl Sync for State {}

impl State {
    fn open(path: &Path) -> State {
        use std::os::fd::AsRawFd;
        let f = std::fs::OpenOptions::new()
            .read(true)
            .write(true)
            .create(true)
            .truncate(false)
            .open(path)
            .expect("state file");
        f.set_len((SLOTS * 32) as u64).expect("state file size");
        let p = unsafe {
            libc::mmap(
                std::ptr::null_mut(),
                SLOTS * 32,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_SHARED,
                f.as_raw_fd(),
                0,
            )
        };
        assert!(p != libc::MAP_FAILED, "mmap of the state file");
        State(p.cast())
    }
    fn at(&self, slot: usize, i: usize) -> &AtomicU64 {
        unsafe { &*(self.0.add(slot * 4 + i) as *const AtomicU64) }
    }
    fn enter(&self, slot: usize, section: usize, case: u64) {
        self.at(slot, 1).store(section as u64, Ordering::Relaxed);
        self.at(slot, 2).store(case, Ordering::Relaxed);
        self.at(slot, 3).store(thread_cpu_ns(), Ordering::Relaxed);
        self.at(slot, 0).store(1, Ordering::Release);
    }
    fn leave(&self, slot: usize) {
        self.at(slot, 0).store(0, Ordering::Release);
    }
    fn active(&self) -> Vec<(usize, u64)> {
        (0..SLOTS)
            .filter(|s| self.at(*s, 0).load(Ordering::Acquire) == 1)
            .map(|s| (self.at(s, 1).load(Ordering::Relaxed) as usize, self.at(s, 2).load(Ordering::Relaxed)))
            .collect()
    }
}

pub fn thread_cpu_ns() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64
}

fn cpu_ns_of(thread: libc::pthread_t) -> Option<u64> {
    unsafe {
        let mut clock: libc::clockid_t = 0;
        if libc::pthread_getcpuclockid(thread, &mut clock) != 0 {
            return None;
        }
        let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
        if libc::clock_gettime(clock, &mut ts) != 0 {
            return None;
        }
        Some(ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64)
    }
}

// ---------------------------------------------------------------- child

#[derive(Default)]
struct Totals {
    evaluations: u64,
    per_section: BTreeMap<&'static str, u64>,
    counters: BTreeMap<&'static str, u64>,
    distinct: HashSet<u64>,
    samples: Vec<String>,
    fails: Vec<Fail>,
    known: BTreeMap<String, String>,
    harness_errors: Vec<String>,
    capped: bool,
}

fn totals_json(t: &Totals) -> Value {
    json!({
        "evaluations": t.evaluations,
        "per_section": t.per_section.iter().map(|(k,v)|((*k).to_string(),json!(v))).collect::<serde_json::Map<_,_>>(),
        "counters": t.counters.iter().map(|(k,v)|((*k).to_string(),json!(v))).collect::<serde_json::Map<_,_>>(),
        "distinct": t.distinct.len(),
        "samples": t.samples,
        "fails": t.fails.iter().map(|f| json!({"section":f.section,"case":f.case,"sig":f.sig,"detail":f.detail})).collect::<Vec<_>>(),
        "known": t.known.iter().map(|(k,v)| json!({"id":k,"detail":v})).collect::<Vec<_>>(),
        "harness_errors": t.harness_errors,
        "capped": t.capped,
    })
}

pub struct ChildOpts {
    pub tier: Tier,
    pub seed: u64,
    pub out: PathBuf,
    pub state: PathBuf,
    pub only: Option<(usize, u64)>,
    pub cap: Duration,
    pub threads: usize,
    pub scale: f64,
}

fn is_asan() -> bool {
    std::env::var("MON_ASAN").is_ok()
}

pub fn child(prop: &Prop, o: &ChildOpts) -> i32 {
    if !is_asan() {
        // a runaway allocation shall not take the machine down
        let gib = if o.only.is_some() { 4u64 } else { 14 };
        let lim = libc::rlimit { rlim_cur: gib << 30, rlim_max: gib << 30 };
        unsafe { libc::setrlimit(libc::RLIMIT_AS, &lim) };
    }
    unsafe {
        let lim = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &lim);
    }
    install_panic_hook();
    let state = State::open(&o.state);
    for s in 0..SLOTS {
        state.leave(s);
    }
    let totals = Mutex::new(Totals::default());
    let stop = AtomicBool::new(false);
    let done = AtomicUsize::new(0);
    let start = Instant::now();

    // the work list: one entry per section, cases are taken in chunks, sections round robin
    let work: Vec<(usize, u64, AtomicU64)> = prop
        .sections
        .iter()
        .enumerate()
        .map(|(i, s)| {
            let n = match o.tier {
                Tier::Quick => s.quick,
                Tier::Thorough => s.thorough,
            };
            let n = if n > 50 { ((n as f64) * o.scale).ceil() as u64 } else { n };
            (i, n, AtomicU64::new(0))
        })
        .collect();

    let threads = if o.only.is_some() { 1 } else { o.threads };
    let handles: Mutex<Vec<(usize, libc::pthread_t)>> = Mutex::new(vec![]);
    let stack = if is_asan() { 64 << 20 } else { 2 << 20 };

    std::thread::scope(|scope| {
        for slot in 0..threads {
            let (work, totals, stop, handles, done) = (&work, &totals, &stop, &handles, &done);
            let start = &start;
            std::thread::Builder::new()
                .stack_size(stack)
                .spawn_scoped(scope, move || {
                    handles.lock().unwrap().push((slot, unsafe { libc::pthread_self() }));
                    let mut local = Totals::default();
                    let mut run_case = |section: usize, case: u64| {
                        let s = &prop.sections[section];
                        let mut ctx = Ctx::new(prop.id, s.name, case, o.seed, o.tier);
                        ctx.verbose = o.only.is_some();
                        let mut time = Rng::new(&[o.seed, hash_str(prop.id), hash_str(s.name), case, 0xc10c]);
                        if crate::clock::of_case(&mut time) {
                            ctx.obs("cases under another clock");
                        }
                        state.enter(slot, section, case);
                        let r = panic::catch_unwind(panic::AssertUnwindSafe(|| (s.run)(&mut ctx)));
                        state.leave(slot);
                        local.evaluations += 1;
                        *local.per_section.entry(s.name).or_insert(0) += 1;
                        for (k, v) in std::mem::take(&mut ctx.counters) {
                            *local.counters.entry(k).or_insert(0) += v;
                        }
                        local.distinct.extend(ctx.distinct.drain());
                        if r.is_err() {
                            let last = LAST_PANIC.with(|p| p.borrow_mut().take());
                            match last {
                                Some((false, msg)) => ctx.fails.push(("panic".into(), msg)),
                                Some((true, msg)) => {
                                    local.harness_errors.push(format!("{} case {}: {}", s.name, case, msg))
                                }
                                None => local.harness_errors.push(format!("{} case {}: unknown panic", s.name, case)),
                            }
                        }
                        for (id, detail) in ctx.known.drain(..) {
                            local.known.entry(id).or_insert(detail);
                        }
                        if let Some(sample) = ctx.sample.take() {
                            if local.samples.len() < 40 && case < 4 {
                                local.samples.push(format!("[{} #{}] {}", s.name, case, clip(&sample, 600)));
                            }
                        }
                        let failed = !ctx.fails.is_empty() || r.is_err();
                        for (sig, detail) in ctx.fails.drain(..) {
                            local.fails.push(Fail { section: s.name.to_string(), case, sig, detail });
                        }
                        failed
                    };

                    if let Some((section, case)) = o.only {
                        run_case(section, case);
                    } else {
                        let mut fails = 0;
                        'outer: loop {
                            let mut any = false;
                            for (section, n, next) in work {
                                let chunk = (*n / 64).clamp(1, 64);
                                let from = next.fetch_add(chunk, Ordering::Relaxed);
                                if from >= *n {
                                    continue;
                                }
                                any = true;
                                for case in from..(from + chunk).min(*n) {
                                    if run_case(*section, case) {
                                        fails += 1;
                                    }
                                    if stop.load(Ordering::Relaxed) {
                                        break 'outer;
                                    }
                                    if fails >= MAX_FAILS {
                                        stop.store(true, Ordering::Relaxed);
                                        break 'outer;
                                    }
                                }
                                if start.elapsed() > o.cap {
                                    stop.store(true, Ordering::Relaxed);
                                    local.capped = true;
                                    break 'outer;
                                }
                            }
                            if !any {
                                break;
                            }
                        }
                    }
                    let mut t = totals.lock().unwrap();
                    t.evaluations += local.evaluations;
                    t.capped |= local.capped;
                    for (k, v) in local.per_section {
                        *t.per_section.entry(k).or_insert(0) += v;
                    }
                    for (k, v) in local.counters {
                        *t.counters.entry(k).or_insert(0) += v;
                    }
                    t.distinct.extend(local.distinct);
                    t.samples.extend(local.samples);
                    t.fails.extend(local.fails);
                    t.harness_errors.extend(local.harness_errors);
                    for (k, v) in local.known {
                        t.known.entry(k).or_insert(v);
                    }
                    done.fetch_add(1, Ordering::Release);
                })
                .expect("worker thread");
        }

        // watchdog: a case that burns CPU for far longer than any case needs does not terminate
        let limit = CASE_CPU_S * if is_asan() { 10 } else { 1 } * 1_000_000_000;
        while done.load(Ordering::Acquire) < threads {
            std::thread::sleep(Duration::from_millis(20));
            for (slot, thread) in handles.lock().unwrap().iter() {
                if state.at(*slot, 0).load(Ordering::Acquire) != 1 {
                    continue;
                }
                let section = state.at(*slot, 1).load(Ordering::Relaxed);
                let case = state.at(*slot, 2).load(Ordering::Relaxed);
                let began = state.at(*slot, 3).load(Ordering::Relaxed);
                let Some(now) = cpu_ns_of(*thread) else {
                    continue;
                };
                let same = state.at(*slot, 0).load(Ordering::Acquire) == 1
                    && state.at(*slot, 2).load(Ordering::Relaxed) == case
                    && state.at(*slot, 1).load(Ordering::Relaxed) == section
                    && state.at(*slot, 3).load(Ordering::Relaxed) == began;
                if same && now.saturating_sub(began) > limit {
                    let mut t = Totals::default();
                    t.fails.push(Fail {
                        section: prop.sections[section as usize].name.to_string(),
                        case,
                        sig: "hang".into(),
                        detail: format!("the case used more than {} s of CPU time", limit / 1_000_000_000),
                    });
                    t.evaluations = 1;
                    let _ = std::fs::write(&o.out, totals_json(&t).to_string());
                    unsafe { libc::_exit(0) };
                }
            }
        }
    });

    let mut t = totals.into_inner().unwrap();
    t.samples.sort();
    t.fails.sort_by(|a, b| (&a.section, a.case).cmp(&(&b.section, b.case)));
    std::fs::write(&o.out, totals_json(&t).to_string()).expect("result file");
    0
}

// ---------------------------------------------------------------- parent

pub struct Extra {
    pub tier: Tier,
    pub seed: u64,
    pub work: PathBuf,
    pub exe: PathBuf,
    pub counters: BTreeMap<String, u64>,
    pub evaluations: u64,
    pub distinct: u64,
    pub samples: Vec<String>,
    pub fails: Vec<Fail>,
    pub errors: Vec<String>,
    pub notes: BTreeMap<String, Value>,
}

pub struct RunOpts {
    pub tier: Tier,
    pub seed: u64,
    pub verif: PathBuf,
    pub threads: usize,
    pub scale: f64,
}

enum ChildEnd {
    Result(Value),
    Signal(i32),
    Error(String),
}

/// the zone of the machine, never UTC: nothing the library does may depend on it
fn zone(seed: u64) -> &'static str {
    const ZONES: [&str; 4] =
        ["<+1345>-13:45<+1445>,M9.5.0,M4.1.0", "<-0930>9:30<-0830>,M3.2.0,M11.1.0", "<+0545>-5:45", "<-1159>11:59:30"];
    ZONES[(seed % 4) as usize]
}

fn run_child(prop: &Prop, o: &RunOpts, work: &Path, only: Option<(usize, u64)>, wall: Duration) -> ChildEnd {
    let tag = only.map_or(String::new(), |(s, c)| format!("-{s}-{c}"));
    let out = work.join(format!("result{tag}.json"));
    let state = work.join(format!("state{tag}"));
    let _ = std::fs::remove_file(&out);
    let exe = std::env::current_exe().expect("own path");
    let cap = match o.tier {
        Tier::Quick => 300,
        Tier::Thorough => 3000,
    };
    let mut cmd = Command::new(exe);
    cmd.arg("child")
        .arg(prop.id)
        .arg(match o.tier {
            Tier::Quick => "quick",
            Tier::Thorough => "thorough",
        })
        .arg(o.seed.to_string())
        .arg(&out)
        .arg(&state)
        .arg(cap.to_string())
        .arg(o.threads.to_string())
        .arg(o.scale.to_string())
        .env("TZ", zone(o.seed));
    if let Some((s, c)) = only {
        cmd.arg(s.to_string()).arg(c.to_string());
    }
    let errfile = work.join(format!("stderr{tag}"));
    if let Ok(f) = std::fs::File::create(&errfile) {
        cmd.stderr(f);
    }
    let mut ch = match cmd.spawn() {
        Ok(c) => c,
        Err(e) => return ChildEnd::Error(format!("cannot start the child: {e}")),
    };
    let start = Instant::now();
    loop {
        match ch.try_wait() {
            Ok(Some(status)) => {
                use std::os::unix::process::ExitStatusExt;
                if let Some(sig) = status.signal() {
                    if sig == libc::SIGKILL || sig == libc::SIGTERM || sig == libc::SIGINT {
                        return ChildEnd::Error(format!("child was ended by signal {sig}"));
                    }
                    return ChildEnd::Signal(sig);
                }
                if status.code() == Some(99) && is_asan() {
                    return ChildEnd::Signal(libc::SIGABRT);
                }
                if status.code() != Some(0) {
                    let err = std::fs::read_to_string(&errfile).unwrap_or_default();
                    return ChildEnd::Error(format!("child ended with {status}: {}", clip(&err, 2000)));
                }
                return match std::fs::read_to_string(&out).ok().and_then(|s| serde_json::from_str(&s).ok()) {
                    Some(v) => ChildEnd::Result(v),
                    None => ChildEnd::Error("child left no result".into()),
                };
            }
            Ok(None) => {}
            Err(e) => return ChildEnd::Error(e.to_string()),
        }
        if start.elapsed() > wall {
            let _ = ch.kill();
            let _ = ch.wait();
            return ChildEnd::Error("child ran out of wall-clock time (inconclusive)".into());
        }
        std::thread::sleep(Duration::from_millis(10));
    }
}

fn fails_of(v: &Value) -> Vec<Fail> {
    v["fails"]
        .as_array()
        .map(|a| {
            a.iter()
                .map(|f| Fail {
                    section: f["section"].as_str().unwrap_or("").into(),
                    case: f["case"].as_u64().unwrap_or(0),
                    sig: f["sig"].as_str().unwrap_or("").into(),
                    detail: f["detail"].as_str().unwrap_or("").into(),
                })
                .collect()
        })
        .unwrap_or_default()
}

pub fn run(prop: &Prop, o: &RunOpts) -> i32 {
    let start = Instant::now();
    let tier = match o.tier {
        Tier::Quick => "quick",
        Tier::Thorough => "thorough",
    };
    let asan = if is_asan() { "-asan" } else { "" };
    let work = o.verif.join("work").join(format!("{}{}", prop.id, asan));
    let _ = std::fs::remove_dir_all(&work);
    std::fs::create_dir_all(&work).expect("work folder");
    let wall = match o.tier {
        Tier::Quick => Duration::from_secs(600),
        Tier::Thorough => Duration::from_secs(6 * 3600),
    };

    let mut errors: Vec<String> = vec![];
    let mut fails: Vec<Fail> = vec![];
    let mut result = json!({});
    if !prop.sections.is_empty() {
        match run_child(prop, o, &work, None, wall) {
            ChildEnd::Result(v) => {
                fails = fails_of(&v);
                if let Some(h) = v["harness_errors"].as_array() {
                    errors.extend(h.iter().map(|e| e.as_str().unwrap_or("").to_string()));
                }
                result = v;
            }
            ChildEnd::Error(e) => errors.push(e),
            ChildEnd::Signal(sig) => {
                // which case was it?
                let active = State::open(&work.join("state")).active();
                let mut reproduced = false;
                for (section, case) in active {
                    for _ in 0..2 {
                        match run_child(prop, o, &work, Some((section, case)), Duration::from_secs(300)) {
                            ChildEnd::Signal(s) => {
                                fails.push(Fail {
                                    section: prop.sections[section].name.into(),
                                    case,
                                    sig: format!("signal {s}"),
                                    detail: format!(
                                        "the process died of signal {s} ({}) in this case: {}",
                                        if s == libc::SIGSEGV || s == libc::SIGABRT {
                                            "stack overflow, abort or memory exhaustion"
                                        } else {
                                            "crash"
                                        },
                                        clip(
                                            &std::fs::read_to_string(work.join(format!("stderr-{section}-{case}")))
                                                .unwrap_or_default(),
                                            3000
                                        )
                                    ),
                                });
                                reproduced = true;
                                break;
                            }
                            ChildEnd::Result(v) => {
                                let f = fails_of(&v);
                                if !f.is_empty() {
                                    fails.extend(f);
                                    reproduced = true;
                                    break;
                                }
                            }
                            ChildEnd::Error(_) => {}
                        }
                    }
                }
                if !reproduced {
                    errors.push(format!(
                        "the child died of signal {sig} and no single case reproduces it (inconclusive): {}",
                        clip(&std::fs::read_to_string(work.join("stderr")).unwrap_or_default(), 2000)
                    ));
                }
            }
        }
    }

    let mut counters: BTreeMap<String, u64> = result["counters"]
        .as_object()
        .map(|m| m.iter().map(|(k, v)| (k.clone(), v.as_u64().unwrap_or(0))).collect())
        .unwrap_or_default();
    let mut evaluations = result["evaluations"].as_u64().unwrap_or(0);
    let mut distinct = result["distinct"].as_u64().unwrap_or(0);
    let mut samples: Vec<String> = result["samples"]
        .as_array()
        .map(|a| a.iter().filter_map(|s| s.as_str().map(String::from)).collect())
        .unwrap_or_default();
    let mut notes: BTreeMap<String, Value> = BTreeMap::new();

    if let Some(extra) = prop.extra {
        if fails.is_empty() && !is_asan() {
            let mut e = Extra {
                tier: o.tier,
                seed: o.seed,
                work: work.clone(),
                exe: std::env::current_exe().expect("own path"),
                counters: BTreeMap::new(),
                evaluations: 0,
                distinct: 0,
                samples: vec![],
                fails: vec![],
                errors: vec![],
                notes: BTreeMap::new(),
            };
            extra(&mut e);
            for (k, v) in e.counters {
                *counters.entry(k).or_insert(0) += v;
            }
            evaluations += e.evaluations;
            distinct += e.distinct;
            samples.extend(e.samples);
            fails.extend(e.fails);
            errors.extend(e.errors);
            notes = e.notes;
        }
    }

    // inconclusive if the monitors did not see what they have to see
    if fails.is_empty() {
        for (key, min) in &prop.require {
            let n = counters.get(*key).copied().unwrap_or(0);
            if n < *min {
                errors.push(format!("observed only {n} x {key:?}, at least {min} are needed (inconclusive)"));
            }
        }
    }

    // replay files
    let mut seen = HashSet::new();
    let mut violations = 0u64;
    let mut lines = vec![];
    for f in &fails {
        if !seen.insert(f.sig.clone()) || violations >= 5 {
            continue;
        }
        violations += 1;
        let path = work.join(format!("violation-{violations}.json"));
        let v = json!({
            "property": prop.id, "tier": tier, "seed": o.seed, "section": f.section,
            "case": f.case, "signature": f.sig, "detail": f.detail,
            "replay": format!("{} replay {}", std::env::current_exe().map(|p| p.display().to_string()).unwrap_or_default(), path.display()),
        });
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap_or_default());
        println!("--- {} {} case {}: {}", prop.id, f.section, f.case, clip(&f.detail, 3000));
        lines.push(format!("VIOLATION property={} replay={}", prop.id, path.display()));
    }
    for l in &lines {
        println!("{l}");
    }
    if fails.is_empty() {
        if let Some(k) = result["known"].as_array() {
            for f in k {
                println!(
                    "KNOWN-FINDING: property={} {}: {}",
                    prop.id,
                    f["id"].as_str().unwrap_or(""),
                    f["detail"].as_str().unwrap_or("")
                );
            }
        }
    }

    // keep a spread of samples
    samples.truncate(24);
    let mut coverage = json!({
        "evaluations": evaluations,
        "distinct_nontrivial": distinct,
        "rule": prop.rule,
        "samples": samples,
        "observed": counters,
        "cases_per_section": result["per_section"],
        "stopped_early": result["capped"],
    });
    for (k, v) in notes {
        coverage[k] = v;
    }
    let evidence = json!({
        "property": prop.id,
        "tier": tier,
        "seed": o.seed,
        "level": prop.level,
        "coverage": coverage,
        "assumptions": prop.assumptions,
        "wall_s": (start.elapsed().as_millis() as f64) / 1000.0,
        "violations": violations,
    });
    let evdir = o.verif.join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    let evpath = if is_asan() { work.join("evidence.json") } else { evdir.join(format!("{}.json", prop.id)) };
    if let Err(e) = std::fs::write(&evpath, serde_json::to_string_pretty(&evidence).unwrap_or_default()) {
        errors.push(format!("cannot write the evidence: {e}"));
    }

    if violations > 0 {
        return 1;
    }
    if !errors.is_empty() {
        for e in errors.iter().take(10) {
            eprintln!("ERROR of the check {}: {}", prop.id, e);
        }
        return 3;
    }
    println!(
        "{} held on {} cases ({} distinct non-trivial), tier {}, seed {}, {:.1} s",
        prop.id,
        evaluations,
        distinct,
        tier,
        o.seed,
        start.elapsed().as_secs_f64()
    );
    0
}

/// Runs the one case a replay file names, prints what happens.
pub fn replay(props: &[Prop], file: &str) -> i32 {
    let Some(v) = std::fs::read_to_string(file).ok().and_then(|s| serde_json::from_str::<Value>(&s).ok()) else {
        eprintln!("cannot read {file}");
        return 3;
    };
    let Some(prop) = props.iter().find(|p| Some(p.id) == v["property"].as_str()) else {
        return 3;
    };
    let Some(section) = prop.sections.iter().position(|s| Some(s.name) == v["section"].as_str()) else {
        eprintln!("this violation comes from the extra stage, run the check again");
        return 3;
    };
    let tier = if v["tier"] == "thorough" { Tier::Thorough } else { Tier::Quick };
    let o =
        RunOpts { tier, seed: v["seed"].as_u64().unwrap_or(1), verif: std::env::temp_dir(), threads: 1, scale: 1.0 };
    let work = std::env::temp_dir().join(format!("mon-replay-{}", std::process::id()));
    let _ = std::fs::create_dir_all(&work);
    let end = run_child(prop, &o, &work, Some((section, v["case"].as_u64().unwrap_or(0))), Duration::from_secs(600));
    let code = match end {
        ChildEnd::Result(r) => {
            let f = fails_of(&r);
            for f in &f {
                println!("{}\n{}", f.sig, f.detail);
            }
            if f.is_empty() {
                println!("no violation in this case");
            }
            i32::from(!f.is_empty())
        }
        ChildEnd::Signal(s) => {
            println!("died of signal {s}");
            1
        }
        ChildEnd::Error(e) => {
            println!("error: {e}");
            3
        }
    };
    let _ = std::fs::remove_dir_all(&work);
    code
}
