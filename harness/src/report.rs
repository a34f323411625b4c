//! Verdicts, evidence, replay files, watchdog, parallel case runner.
use crate::prng::Rng;
use serde_json::{json, Value};
use std::cell::{Cell, RefCell};
use std::collections::{BTreeMap, HashSet};
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicBool, AtomicI64, AtomicU64, Ordering};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};

pub fn root() -> String {
    std::env::var("RV_ROOT").unwrap_or_else(|_| "/verif".into())
}

#[derive(Clone, Debug)]
pub struct Viol {
    pub sig: String,
    pub detail: String,
    pub stream: String,
    pub case: u64,
}

pub struct Run {
    pub prop: String,
    pub thorough: bool,
    pub seed: u64,
    pub start: Instant,
    pub level: &'static str,
    pub rule: String,
    pub assumptions: Vec<String>,
    pub only: Option<(String, u64)>,
    pub acc: Mutex<Acc>,
    pub known: Vec<(String, String)>, // (signature, text)
}
#[derive(Default)]
pub struct Acc {
    pub evals: u64,
    pub distinct: HashSet<u64>,
    pub counters: BTreeMap<String, u64>,
    pub samples: Vec<Value>,
    pub viol: Vec<Viol>,
    pub internal: Vec<String>,
    pub extra: BTreeMap<String, Value>,
}

/// fingerprints; SipHash is too slow under Miri
struct Fp(u64);
impl Hasher for Fp {
    fn finish(&self) -> u64 {
        self.0 ^ self.0 >> 29
    }
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut x = [0; 8];
            x[..c.len()].copy_from_slice(c);
            self.0 = (self.0.rotate_left(5) ^ u64::from_le_bytes(x)).wrapping_mul(0x517c_c1b7_2722_0a95);
        }
    }
}
/// per-case worker handle
pub struct W {
    pub acc: Acc,
    pub stream: String,
    pub case: u64,
    pub thorough: bool,
}
/// a violation after which nothing else can be run in this process
static FATAL: Mutex<Option<Viol>> = Mutex::new(None);
impl W {
    /// reports the violation and ends the process
    pub fn fatal(&mut self, sig: &str, detail: &str) -> ! {
        *FATAL.lock().unwrap() = Some(Viol { sig: sig.into(), detail: detail.into(), stream: self.stream.clone(), case: self.case });
        loop {
            std::thread::sleep(Duration::from_secs(1));
        }
    }
    pub fn count(&mut self, k: &str) {
        *self.acc.counters.entry(k.to_string()).or_insert(0) += 1;
    }
    pub fn add(&mut self, k: &str, n: u64) {
        *self.acc.counters.entry(k.to_string()).or_insert(0) += n;
    }
    /// one evaluation; `fp` identifies the case, `nontrivial` says whether it counts as such by the rule
    pub fn eval(&mut self, fp: impl Hash, nontrivial: bool) {
        self.acc.evals += 1;
        if nontrivial {
            let mut h = Fp(0xcbf2_9ce4_8422_2325);
            fp.hash(&mut h);
            self.acc.distinct.insert(h.finish());
        }
    }
    pub fn sample(&mut self, f: impl FnOnce() -> Value) {
        if !cfg!(miri) && self.acc.samples.len() < 2 {
            self.acc.samples.push(f());
        }
    }
    pub fn viol(&mut self, sig: impl Into<String>, detail: impl Into<String>) {
        let sig = sig.into();
        if self.acc.viol.iter().filter(|v| v.sig == sig).count() < 2 && self.acc.viol.len() < 40 {
            let mut detail: String = detail.into();
            if detail.len() > 6000 {
                let mut n = 6000;
                while !detail.is_char_boundary(n) {
                    n -= 1;
                }
                detail.truncate(n);
            }
            self.acc.viol.push(Viol { sig, detail, stream: self.stream.clone(), case: self.case });
        }
        self.count("violations_raw");
    }
    pub fn want(&mut self, ok: bool, sig: &str, detail: impl FnOnce() -> String) -> bool {
        if !ok {
            let d = detail();
            self.viol(sig, d);
        }
        ok
    }
}

thread_local! {
    static IN_CASE: Cell<bool> = const { Cell::new(false) };
    static LAST_PANIC: RefCell<Option<(String, String)>> = const { RefCell::new(None) };
}
pub fn install_panic_hook() {
    let old = std::panic::take_hook();
    std::panic::set_hook(Box::new(move |info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = info
            .payload()
            .downcast_ref::<&str>()
            .map(|s| s.to_string())
            .or_else(|| info.payload().downcast_ref::<String>().cloned())
            .unwrap_or_else(|| "?".into());
        if IN_CASE.with(Cell::get) {
            LAST_PANIC.with(|p| *p.borrow_mut() = Some((loc, msg)));
        } else {
            old(info);
        }
    }));
}
#[derive(Debug, Clone)]
pub struct Panic {
    pub loc: String,
    pub msg: String,
}
impl Panic {
    pub fn in_harness(&self) -> bool {
        self.loc.starts_with("src/") || self.loc.contains("/harness/src/")
    }
    pub fn sig(&self) -> String {
        // file only: line numbers move with unrelated edits
        let f = self.loc.rsplit_once(':').map_or(self.loc.as_str(), |x| x.0);
        format!("panic@{f}")
    }
}
/// Run `f`; a panic is returned with its location.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Panic> {
    let was = IN_CASE.with(|c| c.replace(true));
    LAST_PANIC.with(|p| *p.borrow_mut() = None);
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_CASE.with(|c| c.set(was));
    r.map_err(|_| {
        let (loc, msg) = LAST_PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default();
        Panic { loc, msg }
    })
}

struct Slot {
    active: AtomicBool,
    clock: AtomicI64,
    cpu0: AtomicU64,
    wall0: AtomicU64,
    case: AtomicU64,
}
#[cfg(not(miri))]
fn thread_clock() -> i64 {
    extern "C" {
        fn pthread_getcpuclockid(t: libc::pthread_t, c: *mut libc::clockid_t) -> libc::c_int;
    }
    let mut c: libc::clockid_t = 0;
    unsafe { pthread_getcpuclockid(libc::pthread_self(), &mut c) };
    i64::from(c)
}
#[cfg(miri)]
fn thread_clock() -> i64 {
    0
}
#[cfg(not(miri))]
fn clock_ns(c: i64) -> Option<u64> {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    let r = unsafe { libc::clock_gettime(c as libc::clockid_t, &mut ts) };
    (r == 0).then(|| ts.tv_sec as u64 * 1_000_000_000 + ts.tv_nsec as u64)
}
#[cfg(miri)]
fn clock_ns(_c: i64) -> Option<u64> {
    Some(0)
}

/// CPU seconds one case may use before it counts as not returning (normal cases use milliseconds)
pub const CPU_LIMIT_S: u64 = 40;

pub fn workers() -> usize {
    if cfg!(miri) {
        return 1;
    }
    std::env::var("RV_WORKERS").ok().and_then(|s| s.parse().ok()).unwrap_or(8)
}

impl Run {
    pub fn new(prop: &str, level: &'static str) -> Self {
        let thorough = std::env::var("VERIF_TIER").is_ok_and(|t| t == "thorough");
        let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
        let known = std::fs::read_to_string(format!("{}/known_findings.txt", root()))
            .unwrap_or_default()
            .lines()
            .filter_map(|l| {
                let rest = l.strip_prefix("known: ")?;
                let rest = rest.strip_prefix(&format!("property={prop} "))?;
                let rest = rest.strip_prefix("sig=")?;
                let (sig, text) = rest.split_once(' ')?;
                Some((sig.to_string(), text.to_string()))
            })
            .collect();
        Run {
            prop: prop.into(),
            thorough,
            seed,
            start: Instant::now(),
            level,
            rule: String::new(),
            assumptions: vec![],
            only: None,
            acc: Mutex::new(Acc::default()),
            known,
        }
    }

    /// n cases for quick, m for thorough
    pub fn n(&self, quick: u64, thorough: u64) -> u64 {
        let boost = match self.prop.as_str() {
            "C17" | "C22" => 1,
            "C03" | "C16" | "C19" => 2,
            "C06" => 3,
            _ => 5,
        };
        let k = if self.thorough { thorough } else { quick * boost };
        if let Some(s) = std::env::var("RV_SCALE").ok().and_then(|s| s.parse::<f64>().ok()) {
            return ((k as f64 * s) as u64).max(1);
        }
        k
    }
    /// under a sanitizer only the streams named in RV_ONLY (stream=cases@first,...) run
    fn plan(&self, stream: &str) -> Option<Option<(u64, u64)>> {
        let v = std::env::var("RV_ONLY").ok()?;
        Some(v.split(',').find_map(|e| {
            let (s, n) = e.split_once('=')?;
            let (n, first) = n.split_once('@').unwrap_or((n, "0"));
            let (n, first): (u64, u64) = (n.parse().ok()?, first.parse().ok()?);
            (s == stream).then_some((first, first + n))
        }))
    }
    pub fn single(&self, stream: &str) -> Option<W> {
        if matches!(self.plan(stream), Some(None)) {
            return None;
        }
        if let Some((s, _)) = &self.only {
            if s != stream {
                return None;
            }
        }
        Some(W { acc: Acc::default(), stream: stream.into(), case: 0, thorough: self.thorough })
    }
    pub fn merge(&self, w: W) {
        let mut a = self.acc.lock().unwrap();
        a.evals += w.acc.evals;
        a.distinct.extend(w.acc.distinct);
        for (k, v) in w.acc.counters {
            if let Some(m) = k.strip_prefix("max_") {
                let e = a.counters.entry(format!("max_{m}")).or_insert(0);
                *e = (*e).max(v);
            } else {
                *a.counters.entry(k).or_insert(0) += v;
            }
        }
        for s in w.acc.samples {
            if a.samples.len() < 8 {
                a.samples.push(s);
            }
        }
        a.viol.extend(w.acc.viol);
        a.internal.extend(w.acc.internal);
        a.extra.extend(w.acc.extra);
    }

    /// like `cases`, but of what `f` finds only signatures that begin with one of `keep` matter to this property (and panics)
    #[cfg(feature = "gssapi")]
    pub fn cases_of(&self, stream: &str, n: u64, keep: &[&str], f: impl Fn(&mut W, &mut Rng) + Sync) {
        self.cases(stream, n, |w, rng| {
            let had = w.acc.viol.len();
            f(w, rng);
            let new = w.acc.viol.split_off(had);
            w.acc.viol.extend(new.into_iter().filter(|v| keep.iter().any(|k| v.sig.starts_with(k))));
        });
    }
    /// Run `n` cases of `stream` in parallel. Panics inside the library are violations.
    pub fn cases(&self, stream: &str, n: u64, f: impl Fn(&mut W, &mut Rng) + Sync) {
        let (lo, hi) = match &self.only {
            Some((s, c)) if s == stream => (*c, *c + 1),
            Some(_) => return,
            None => match self.plan(stream) {
                Some(Some(r)) => r,
                Some(None) => return,
                None => (0, n),
            },
        };
        let nw = workers().min((hi - lo).max(1) as usize);
        let cap = std::env::var("RV_CAP").ok().and_then(|s| s.parse().ok()).unwrap_or(if self.thorough { 780 } else { 420 });
        let cap = Duration::from_secs(cap);
        let slots: Vec<Arc<Slot>> = (0..nw)
            .map(|_| {
                Arc::new(Slot {
                    active: AtomicBool::new(false),
                    clock: AtomicI64::new(0),
                    cpu0: AtomicU64::new(0),
                    wall0: AtomicU64::new(0),
                    case: AtomicU64::new(0),
                })
            })
            .collect();
        let stop = AtomicBool::new(false);
        std::thread::scope(|sc| {
            let mut hs = vec![];
            for (wi, slot) in slots.iter().enumerate() {
                let slot = slot.clone();
                let f = &f;
                hs.push(
                    std::thread::Builder::new()
                        .stack_size(16 << 20)
                        .spawn_scoped(sc, move || {
                            let clk = thread_clock();
                            slot.clock.store(clk, Ordering::SeqCst);
                            let mut w = W { acc: Acc::default(), stream: stream.into(), case: 0, thorough: self.thorough };
                            let mut i = lo + wi as u64;
                            while i < hi {
                                if self.start.elapsed() > cap {
                                    w.count("cases_skipped_by_time_cap");
                                    break;
                                }
                                w.case = i;
                                slot.case.store(i, Ordering::SeqCst);
                                slot.cpu0.store(clock_ns(clk).unwrap_or(0), Ordering::SeqCst);
                                slot.wall0.store(self.start.elapsed().as_secs(), Ordering::SeqCst);
                                slot.active.store(true, Ordering::SeqCst);
                                let mut rng = Rng::new(self.seed, &format!("{}/{}", self.prop, stream), i);
                                let r = guarded(|| f(&mut w, &mut rng));
                                slot.active.store(false, Ordering::SeqCst);
                                if let Err(p) = r {
                                    if p.in_harness() {
                                        w.acc.internal.push(format!("harness panic in {stream} case {i}: {} at {}", p.msg, p.loc));
                                    } else {
                                        w.viol(p.sig(), format!("library panicked: {} at {}", p.msg, p.loc));
                                    }
                                }
                                i += nw as u64;
                            }
                            w
                        })
                        .unwrap(),
                );
            }
            let wd = if cfg!(miri) { None } else { Some(sc.spawn(|| self.watchdog(stream, &slots, &stop))) };
            let rs: Vec<_> = hs.into_iter().map(|h| h.join()).collect();
            stop.store(true, Ordering::SeqCst);
            if let Some(wd) = wd {
                let _ = wd.join();
            }
            for r in rs {
                match r {
                    Ok(w) => self.merge(w),
                    Err(_) => self.acc.lock().unwrap().internal.push(format!("worker thread of {stream} died")),
                }
            }
        });
    }

    fn watchdog(&self, stream: &str, slots: &[Arc<Slot>], stop: &AtomicBool) {
        while !stop.load(Ordering::SeqCst) {
            std::thread::sleep(Duration::from_millis(50));
            let live = crate::alloc::live();
            if let Some(v) = FATAL.lock().unwrap().take() {
                self.acc.lock().unwrap().viol.push(v);
                let code = self.finish_inner();
                std::process::exit(code);
            }
            for s in slots {
                if !s.active.load(Ordering::SeqCst) {
                    continue;
                }
                let case = s.case.load(Ordering::SeqCst);
                let Some(now) = clock_ns(s.clock.load(Ordering::SeqCst)) else { continue };
                let used = now.saturating_sub(s.cpu0.load(Ordering::SeqCst));
                let hang = used > CPU_LIMIT_S * 1_000_000_000;
                let mem = live > 8 << 30;
                if (hang || mem) && s.active.load(Ordering::SeqCst) && s.case.load(Ordering::SeqCst) == case {
                    let what = if hang { "does-not-return" } else { "unbounded-memory" };
                    self.acc.lock().unwrap().viol.push(Viol {
                        sig: what.into(),
                        detail: format!(
                            "case used {} ms of CPU time and {} MB live memory without returning",
                            used / 1_000_000,
                            live >> 20
                        ),
                        stream: stream.into(),
                        case,
                    });
                    let code = self.finish_inner();
                    std::process::exit(code);
                }
                let wall = self.start.elapsed().as_secs().saturating_sub(s.wall0.load(Ordering::SeqCst));
                if wall > 400 && used < 1_000_000_000 {
                    eprintln!("INCONCLUSIVE: case {case} of {stream} blocked for {wall} s of wall time");
                    std::process::exit(2);
                }
            }
        }
    }

    /// A run that did not observe enough is inconclusive, never "held".
    pub fn require(&self, counter: &str, min: u64) {
        if self.only.is_some() || std::env::var("RV_SCALE").is_ok() || std::env::var("RV_ONLY").is_ok() {
            return;
        }
        let mut a = self.acc.lock().unwrap();
        let have = a.counters.get(counter).copied().unwrap_or(0);
        if have < min {
            a.internal.push(format!("observed only {have} x {counter}, need {min}: inconclusive"));
        }
    }

    pub fn finish(&self) -> i32 {
        self.finish_inner()
    }

    /// what a child of the C17 check reports: verdicts of other properties do not matter there
    fn finish_child(&self) -> i32 {
        let a = self.acc.lock().unwrap();
        println!("STAT evaluations {}", a.evals);
        println!("STAT distinct {}", a.distinct.len());
        println!("STAT other_verdicts {}", a.viol.len());
        for (k, v) in &a.counters {
            println!("STAT {k} {v}");
        }
        for v in a.viol.iter().take(3) {
            println!("OTHER {} {}:{}", v.sig, v.stream, v.case);
        }
        for i in a.internal.iter().take(3) {
            println!("OTHER internal: {i}");
        }
        for u in crate::cb::NOT_UTF8.lock().unwrap().iter() {
            println!("UTF8 {u}");
        }
        for v in a.viol.iter().filter(|_| self.prop == "C17") {
            println!("OWN {} {}:{} {}", v.sig, v.stream, v.case, v.detail.replace('\n', " "));
        }
        println!("DONE");
        0
    }

    /// thorough: part of every stream again in a process built as released (no debug assertions, wrapping arithmetic)
    pub fn released(&self) {
        let Ok(bin) = std::env::var("RV_REL_BIN") else { return };
        if !self.thorough && self.only.is_none() || self.only.as_ref().is_some_and(|(s, _)| !s.starts_with("release/")) {
            return;
        }
        let mut c = std::process::Command::new(&bin);
        c.arg(&self.prop).env("RV_REL", "1").env("RV_SCALE", "0.1").env("RV_CAP", "200");
        c.env("VERIF_SEED", self.seed.to_string()).env_remove("RV_REL_BIN").env_remove("RV_TSAN_BIN");
        if let Some((s, i)) = &self.only {
            c.args(["--replay", &format!("{}:{i}", &s["release/".len()..])]);
        }
        let o = c.output().expect("harness: release binary");
        let out = String::from_utf8_lossy(&o.stdout).into_owned();
        let mut a = self.acc.lock().unwrap();
        let mut done = false;
        for l in out.lines() {
            match l.split_once(' ') {
                Some(("STAT", x)) => {
                    if let Some((k, v)) = x.rsplit_once(' ') {
                        if ["evaluations", "distinct"].contains(&k) {
                            a.counters.insert(format!("released_build_{k}"), v.parse().unwrap_or(0));
                        }
                    }
                }
                Some(("OWN", x)) => {
                    let mut p = x.splitn(3, ' ');
                    let (sig, at, detail) = (p.next().unwrap_or(""), p.next().unwrap_or(""), p.next().unwrap_or(""));
                    let (stream, case) = at.rsplit_once(':').unwrap_or(("", "0"));
                    let v = Viol {
                        sig: sig.into(),
                        detail: format!("(built as released) {detail}"),
                        stream: format!("release/{stream}"),
                        case: case.parse().unwrap_or(0),
                    };
                    a.viol.push(v);
                }
                Some(("INT", x)) => a.internal.push(format!("release: {x}")),
                _ => done |= l == "DONE",
            }
        }
        if !done {
            use std::os::unix::process::ExitStatusExt;
            let e = String::from_utf8_lossy(&o.stderr).chars().take(800).collect::<String>();
            match o.status.signal() {
                Some(n) if n != 9 && n != 15 => {
                    let v = Viol { sig: "process-died".into(), detail: format!("(built as released) signal {n}: {e}"), stream: "release/all".into(), case: 0 };
                    a.viol.push(v);
                }
                _ => a.internal.push(format!("release: no result: {:?} {e}", o.status)),
            }
        }
    }

    fn finish_inner(&self) -> i32 {
        if std::env::var("RV_REL").is_ok() {
            let a = self.acc.lock().unwrap();
            println!("STAT evaluations {}\nSTAT distinct {}", a.evals, a.distinct.len());
            for v in a.viol.iter().filter(|v| !self.known.iter().any(|(s, _)| *s == v.sig)).take(50) {
                println!("OWN {} {}:{} {}", v.sig.replace(' ', "_"), v.stream, v.case, v.detail.replace('\n', " "));
            }
            for i in a.internal.iter().take(5) {
                println!("INT {}", i.replace('\n', " "));
            }
            println!("DONE");
            return 0;
        }
        if std::env::var("RV_ONLY").is_ok() {
            return self.finish_child();
        }
        let a = self.acc.lock().unwrap();
        let mut code = 0;
        let mut printed = HashSet::new();
        let mut nviol = 0;
        let _ = std::fs::create_dir_all(format!("{}/replays", root()));
        let _ = std::fs::create_dir_all(format!("{}/evidence", root()));
        for v in &a.viol {
            if let Some((_, text)) = self.known.iter().find(|(s, _)| *s == v.sig) {
                if printed.insert(v.sig.clone()) {
                    println!("KNOWN-FINDING: property={} {}", self.prop, text);
                }
                continue;
            }
            nviol += 1;
            if !printed.insert(v.sig.clone()) {
                continue;
            }
            code = 1;
            let mut h = std::collections::hash_map::DefaultHasher::new();
            (&v.sig, &v.stream, v.case, self.seed).hash(&mut h);
            let path = format!("{}/replays/{}-{:016x}.json", root(), self.prop, h.finish());
            let doc = json!({"property": self.prop, "signature": v.sig, "detail": v.detail, "stream": v.stream,
                "case": v.case, "seed": self.seed, "tier": if self.thorough {"thorough"} else {"quick"},
                "replay_cmd": format!("VERIF_SEED={} ./check.sh {} --replay {}:{}", self.seed, self.prop, v.stream, v.case)});
            let _ = std::fs::write(&path, serde_json::to_string_pretty(&doc).unwrap_or_default());
            println!("  [{}] {}", v.sig, v.detail.chars().take(1200).collect::<String>());
            println!("VIOLATION property={} replay={}", self.prop, path);
        }
        let mut cov = serde_json::Map::new();
        cov.insert("evaluations".into(), json!(a.evals));
        cov.insert("distinct_nontrivial".into(), json!(a.distinct.len()));
        cov.insert("rule".into(), json!(self.rule));
        cov.insert("samples".into(), json!(a.samples));
        cov.insert("observed".into(), json!(a.counters));
        for (k, v) in &a.extra {
            cov.insert(k.clone(), v.clone());
        }
        let ev = json!({"property": self.prop, "tier": if self.thorough {"thorough"} else {"quick"}, "seed": self.seed,
            "level": self.level, "coverage": cov, "assumptions": self.assumptions,
            "wall_s": self.start.elapsed().as_secs_f64(), "violations": nviol});
        if self.only.is_none() {
            let path = format!("{}/evidence/{}.json", root(), self.prop);
            if let Err(e) = std::fs::write(&path, serde_json::to_string_pretty(&ev).unwrap_or_default()) {
                eprintln!("cannot write {path}: {e}");
                code = code.max(if code == 1 { 1 } else { 2 });
            }
        }
        if code != 1 {
            for i in &a.internal {
                eprintln!("INTERNAL: {i}");
                code = 2;
            }
        }
        println!(
            "{}: {} evaluations, {} distinct non-trivial, {} violation(s), {:.1}s",
            self.prop,
            a.evals,
            a.distinct.len(),
            nviol,
            self.start.elapsed().as_secs_f64()
        );
        code
    }
}

pub fn show(b: &[u8]) -> String {
    let s: String = b.iter().take(300).flat_map(|c| std::ascii::escape_default(*c)).map(char::from).collect();
    if b.len() > 300 {
        format!("{s}...({} bytes)", b.len())
    } else {
        s
    }
}
