//! C05: freshness and form of SCRAM nonces and decoy salts.
use crate::drive::{hash_of, mech, name, SCRAM};
use crate::cb::V;
use crate::prng::Rng;
use crate::refimpl::unb64;
use crate::report::{show, Run, W};
use rsasl::callback::{Context, Request, SessionCallback, SessionData};
use rsasl::mechanisms::scram::properties::ScramStoredPassword;
use rsasl::prelude::*;
use rsasl::property::{AuthId, ChannelBindings, Password};
use rsasl::validate::NoValidation;
use serde_json::json;
use std::collections::{BTreeMap, HashSet};
use std::collections::hash_map::DefaultHasher;
use std::hash::{Hash, Hasher};
use std::sync::{Arc, Mutex};

struct Fast;
impl SessionCallback for Fast {
    fn callback(&self, sd: &SessionData, ctx: &Context, r: &mut Request) -> Result<(), SessionError> {
        if r.is::<ScramStoredPassword<'static>>() {
            if ctx.get_ref::<AuthId>() == Some("known") {
                let n = hash_of(sd.mechanism().mechanism.as_str()).len();
                r.satisfy::<ScramStoredPassword<'static>>(&ScramStoredPassword::new(1, b"salt", &[1; 64][..n], &[2; 64][..n]))?;
            }
            return Ok(());
        }
        r.satisfy::<AuthId>("known")?.satisfy::<Password>(b"pw")?.satisfy::<ChannelBindings>(b"data")?;
        Ok(())
    }
    fn enable_channel_binding(&self) -> bool {
        true
    }
}
/// one configuration per mechanism, shared by every session of the process
fn shared() -> &'static Vec<Arc<SASLConfig>> {
    static C: std::sync::OnceLock<Vec<Arc<SASLConfig>>> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        SCRAM
            .iter()
            .map(|m| {
                let reg: &'static [Mechanism] = Box::leak(Box::new([mech(m)]));
                SASLConfig::builder().with_registry(Registry::with_mechanisms(reg)).with_callback(Fast).expect("harness: config")
            })
            .collect()
    })
}
struct Chan;
impl ChannelBindingCallback for Chan {
    fn get_cb_data(&self, _: &str) -> Option<&[u8]> {
        Some(b"data")
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
enum Kind {
    Client,
    Server,
    Decoy,
    Salt,
}
/// what a session contributed (Client, Server, Decoy: a nonce; Salt: the decoy salt), or why it is malformed
fn client(mi: usize) -> Result<Vec<u8>, String> {
    let s = SASLClient::with_cb(shared()[mi].clone(), Chan).start_suggested(&[name(SCRAM[mi])]);
    let mut s: Session<NoValidation, Chan> = s.expect("harness: start");
    let mut o = Vec::with_capacity(128);
    s.step(None, &mut o).map_err(|e| format!("client step failed: {e:?}"))?;
    let p = o.split(|b| *b == b',').nth(3).and_then(|p| p.strip_prefix(b"r=")).ok_or_else(|| format!("client-first {}", show(&o)))?;
    Ok(p.to_vec())
}
fn server(mi: usize, user: &str, cn: &[u8]) -> Result<(Vec<u8>, Vec<u8>), String> {
    let m = SCRAM[mi];
    let mut s = SASLServer::<V>::new(shared()[mi].clone()).start_suggested(name(m)).expect("harness: start");
    let gs2: &[u8] = if m.ends_with("-PLUS") { b"p=tls-exporter,," } else { b"n,," };
    let first = [gs2, b"n=", user.as_bytes(), b",r=", cn].concat();
    let mut o = Vec::with_capacity(160);
    s.step(Some(&first), &mut o).map_err(|e| format!("server step on {} failed: {e:?}", show(&first)))?;
    let mut it = o.split(|b| *b == b',');
    let r = it.next().and_then(|p| p.strip_prefix(b"r=")).ok_or_else(|| format!("server-first {}", show(&o)))?;
    let salt = it.next().and_then(|p| p.strip_prefix(b"s=")).and_then(unb64).ok_or_else(|| format!("server-first {}", show(&o)))?;
    let own = r.strip_prefix(cn).ok_or_else(|| format!("nonce {} does not start with the client's {}", show(r), show(cn)))?;
    Ok((own.to_vec(), salt))
}

/// statistics of one kind of contribution
#[derive(Default)]
struct Stat {
    n: u64,
    pos: Vec<[u32; 256]>,
    /// for each pair of positions: which pairs of characters were seen
    pairs: Vec<Box<[u64; 1024]>>,
    equal: Vec<u32>,
    full: Vec<u64>,
    head: Vec<u64>,
    tail: Vec<u64>,
    same_as_previous: Vec<u32>,
    prev: Vec<u8>,
}
const NP: usize = 24;
fn h(b: &[u8]) -> u64 {
    let mut h = DefaultHasher::new();
    b.hash(&mut h);
    h.finish()
}
impl Stat {
    fn add(&mut self, v: &[u8]) {
        if self.pairs.is_empty() {
            self.pairs = (0..NP * (NP - 1) / 2).map(|_| Box::new([0; 1024])).collect();
            self.equal = vec![0; NP * (NP - 1) / 2];
            self.same_as_previous = vec![0; NP];
        }
        while self.pos.len() < v.len().min(64) {
            self.pos.push([0; 256]);
        }
        self.n += 1;
        for (i, b) in v.iter().take(64).enumerate() {
            self.pos[i][*b as usize] += 1;
        }
        let k = v.len().min(NP);
        let mut x = 0;
        for i in 0..NP {
            for j in 0..i {
                if i < k {
                    let (a, b) = ((v[i] & 127) as usize, (v[j] & 127) as usize);
                    // 16384 combinations folded to 65536 bits
                    let bit = a * 128 + b;
                    self.pairs[x][bit / 64 % 1024] |= 1 << (bit % 64);
                    if a == b {
                        self.equal[x] += 1;
                    }
                }
                x += 1;
            }
            if i < k && self.prev.get(i) == Some(&v[i]) {
                self.same_as_previous[i] += 1;
            }
        }
        self.prev = v.to_vec();
        self.full.push(h(v));
        self.head.push(h(&v[..v.len().min(16)]));
        self.tail.push(h(&v[v.len().saturating_sub(16)..]));
    }
    fn merge(&mut self, o: Stat) {
        if o.n == 0 {
            return;
        }
        if self.n == 0 {
            *self = o;
            return;
        }
        self.n += o.n;
        while self.pos.len() < o.pos.len() {
            self.pos.push([0; 256]);
        }
        for (a, b) in self.pos.iter_mut().zip(&o.pos) {
            for (x, y) in a.iter_mut().zip(b) {
                *x += y;
            }
        }
        for (a, b) in self.pairs.iter_mut().zip(&o.pairs) {
            for (x, y) in a.iter_mut().zip(b.iter()) {
                *x |= y;
            }
        }
        for (a, b) in self.equal.iter_mut().zip(&o.equal) {
            *a += b;
        }
        for (a, b) in self.same_as_previous.iter_mut().zip(&o.same_as_previous) {
            *a += b;
        }
        self.full.extend(o.full);
        self.head.extend(o.head);
        self.tail.extend(o.tail);
    }
    /// bits of min-entropy of all positions together, as far as single positions tell
    fn entropy(&self) -> f64 {
        self.pos
            .iter()
            .map(|p| {
                let m = *p.iter().max().unwrap() as f64 / self.n as f64;
                -m.log2()
            })
            .sum()
    }
}
fn dups(v: &mut Vec<u64>) -> u64 {
    v.sort_unstable();
    v.windows(2).filter(|w| w[0] == w[1]).count() as u64
}

type Stats = BTreeMap<Kind, Stat>;

fn nonce_form(w: &mut W, k: Kind, m: &str, v: &[u8]) {
    let ok = v.len() >= 24 && v.iter().all(|b| (0x21..=0x7e).contains(b) && *b != b',');
    w.want(ok, "malformed-nonce", || format!("{k:?} {m} contributed {}", show(v)));
}

fn batch(w: &mut W, rng: &mut Rng, acc: &Mutex<Stats>) {
    let mut st = Stats::new();
    // sessions of one batch see the very same client-first message
    let fixed: Vec<u8> = match rng.below(3) {
        0 => b"fyko+d2lbbFgONRv9qkxdawL".to_vec(),
        1 => crate::scram_util::nonce(rng),
        _ => b"x".to_vec(),
    };
    let mut add = |k: Kind, v: &[u8]| st.entry(k).or_default().add(v);
    for i in 0..500u64 {
        let mi = (i % 6) as usize;
        let cn = if i % 2 == 0 { fixed.clone() } else { crate::scram_util::nonce(rng) };
        match client(mi) {
            Ok(v) => {
                nonce_form(w, Kind::Client, SCRAM[mi], &v);
                add(Kind::Client, &v);
            }
            Err(e) => w.viol("no-client-nonce", e),
        }
        match server(mi, "known", &cn) {
            Ok((v, _)) => {
                nonce_form(w, Kind::Server, SCRAM[mi], &v);
                add(Kind::Server, &v);
            }
            Err(e) => w.viol("no-server-nonce", e),
        }
        if i % 4 == 0 {
            // twice the same message for the same unknown user
            for _ in 0..2 {
                match server(mi, "unknown", &fixed) {
                    Ok((v, salt)) => {
                        nonce_form(w, Kind::Decoy, SCRAM[mi], &v);
                        add(Kind::Decoy, &v);
                        w.want(salt.len() >= 16, "short-decoy-salt", || format!("{} bytes", salt.len()));
                        add(Kind::Salt, &salt);
                    }
                    Err(e) => w.viol("no-decoy", e),
                }
            }
        }
        w.acc.evals += 1;
    }
    if w.case < 2 {
        let v = client(0).unwrap_or_default();
        w.sample(|| json!({"client_nonce": show(&v)}));
    }
    let mut a = acc.lock().unwrap();
    for (k, s) in st {
        a.entry(k).or_default().merge(s);
    }
}

/// the sessions of one short-lived process, printed
pub fn child(n: usize) {
    let _ = std::panic::take_hook();
    for i in 0..n {
        let mi = i % 6;
        let c = client(mi).unwrap_or_default();
        let (s, _) = server(mi, "known", b"fyko+d2lbbFgONRv9qkxdawL").unwrap_or_default();
        let (d, salt) = server(mi, "unknown", b"fyko+d2lbbFgONRv9qkxdawL").unwrap_or_default();
        for v in [c, s, d, salt] {
            println!("{}", v.iter().map(|b| format!("{b:02x}")).collect::<String>());
        }
    }
}
fn processes(w: &mut W, n: usize, sessions: usize) {
    let exe = std::env::current_exe().expect("harness: exe");
    let mut seen: HashSet<String> = HashSet::new();
    let kids: Vec<_> = (0..n)
        .map(|_| {
            std::process::Command::new(&exe)
                .env("RV_C05_CHILD", sessions.to_string())
                .args(["C05"])
                .stdout(std::process::Stdio::piped())
                .spawn()
                .expect("harness: child")
        })
        .collect();
    for k in kids {
        let o = k.wait_with_output().expect("harness: child");
        let t = String::from_utf8_lossy(&o.stdout);
        if !o.status.success() || t.lines().count() != 4 * sessions {
            w.acc.internal.push(format!("child process failed: {:?} {} lines", o.status, t.lines().count()));
            return;
        }
        for l in t.lines() {
            w.count("values_of_other_processes");
            w.want(seen.insert(l.to_string()), "repeats-across-processes", || format!("{l} again"));
        }
        w.acc.evals += 1;
    }
}
/// processes forked from one that already authenticated somebody
fn forks(w: &mut W, rounds: usize) {
    for round in 0..rounds {
        for i in 0..=round % 7 {
            let _ = client(i % 6);
        }
        let mut all: Vec<Vec<u8>> = vec![];
        for _ in 0..3 {
            let mut fds = [0i32; 2];
            // SAFETY: plain system calls; the child only steps sessions and leaves with _exit
            unsafe {
                if libc::pipe(fds.as_mut_ptr()) != 0 {
                    w.acc.internal.push("pipe failed".into());
                    return;
                }
                let pid = libc::fork();
                if pid == 0 {
                    let mut out = vec![];
                    for mi in 0..6 {
                        out.push(client(mi).unwrap_or_default());
                        let (s, _) = server(mi, "known", b"x").unwrap_or_default();
                        let (d, salt) = server(mi, "unknown", b"x").unwrap_or_default();
                        out.extend([s, d, salt]);
                    }
                    for v in out {
                        let l = (v.len() as u32).to_le_bytes();
                        libc::write(fds[1], l.as_ptr().cast(), 4);
                        libc::write(fds[1], v.as_ptr().cast(), v.len());
                    }
                    libc::_exit(0);
                }
                libc::close(fds[1]);
                let mut buf = vec![];
                let mut b = [0u8; 4096];
                loop {
                    let n = libc::read(fds[0], b.as_mut_ptr().cast(), b.len());
                    if n <= 0 {
                        break;
                    }
                    buf.extend_from_slice(&b[..n as usize]);
                }
                libc::close(fds[0]);
                let mut st = 0;
                libc::waitpid(pid, &mut st, 0);
                let mut i = 0;
                let mut n = 0;
                while i + 4 <= buf.len() {
                    let l = u32::from_le_bytes(buf[i..i + 4].try_into().unwrap()) as usize;
                    i += 4;
                    all.push(buf[i..(i + l).min(buf.len())].to_vec());
                    i += l;
                    n += 1;
                }
                if pid < 0 || st != 0 || n != 24 {
                    w.acc.internal.push(format!("forked child failed: pid {pid} status {st}, {n} values"));
                    return;
                }
            }
        }
        let set: HashSet<&Vec<u8>> = all.iter().collect();
        w.acc.evals += 1;
        w.add("values_of_forked_processes", all.len() as u64);
        w.want(set.len() == all.len(), "repeats-after-fork", || {
            format!("three processes forked from one parent contributed {} values, only {} distinct", all.len(), set.len())
        });
    }
}

fn analyse(w: &mut W, st: Stats) {
    let mut everything: Vec<u64> = vec![];
    for (k, mut s) in st {
        if s.n < 1000 {
            continue;
        }
        w.add(&format!("values:{k:?}"), s.n);
        let d = dups(&mut s.full);
        w.want(d == 0, "repeated-value", || format!("{d} of {} {k:?} values occurred before", s.n));
        if k == Kind::Salt {
            let e = s.entropy();
            w.want(e > 90.0, "predictable-salt", || format!("the bytes of the decoy salts show only {e:.1} bits"));
            for (i, c) in s.pos.iter().enumerate() {
                let total: u64 = c.iter().map(|c| u64::from(*c)).sum();
                let distinct = c.iter().filter(|c| **c > 0).count();
                w.count("salt_positions_examined");
                w.want(distinct >= 10 || total < 1000, "constant-salt-byte", || {
                    format!("byte {i} of the decoy salts takes only {distinct} values in {total} salts")
                });
            }
            for (part, v) in [("first", &mut s.head), ("last", &mut s.tail)] {
                let d = dups(v);
                w.want(d == 0, "repeated-salt-part", || format!("the {part} 16 bytes of {d} of {} decoy salts occurred before", s.n));
            }
            continue;
        }
        everything.extend_from_slice(&s.full);
        for (part, v) in [("first", &mut s.head), ("last", &mut s.tail)] {
            let d = dups(v);
            w.want(d == 0, "repeated-part", || format!("the {part} 16 characters of {d} of {} {k:?} nonces occurred before", s.n));
        }
        let e = s.entropy();
        w.add(&format!("min_entropy_bits:{k:?}"), e as u64);
        w.want(e > 90.0, "low-entropy", || format!("the positions of {k:?} nonces show only {e:.1} bits"));
        // positions that vary have to vary independently
        let varied: Vec<usize> = (0..NP.min(s.pos.len())).map(|i| s.pos[i].iter().filter(|c| **c > 0).count()).collect();
        let mut x = 0;
        for i in 0..NP {
            for j in 0..i {
                if i < varied.len() {
                    let seen: u32 = s.pairs[x].iter().map(|b| b.count_ones()).sum();
                    let max = (varied[i] * varied[j]) as u64;
                    let expect = max as f64 * (1.0 - (-(s.n as f64) / max as f64).exp());
                    w.count("position_pairs_examined");
                    w.want(f64::from(seen) > 0.3 * expect, "correlated-positions", || {
                        format!("{k:?}: positions {j} and {i} show {seen} of {max} combinations in {} nonces", s.n)
                    });
                    w.want(u64::from(s.equal[x]) * 5 < s.n, "correlated-positions", || {
                        format!("{k:?}: positions {j} and {i} are equal in {} of {} nonces", s.equal[x], s.n)
                    });
                }
                x += 1;
            }
        }
        for (i, c) in s.same_as_previous.iter().enumerate() {
            w.want(u64::from(*c) * 5 < s.n || i >= varied.len(), "predictable-from-previous", || {
                format!("{k:?}: position {i} equals that of the previous session in {c} of {} sessions", s.n)
            });
        }
        for v in &s.full {
            w.acc.distinct.insert(*v);
        }
    }
    let n = everything.len();
    let d = dups(&mut everything);
    w.want(d == 0, "repeated-value", || format!("{d} of {n} nonces of all kinds occurred before"));
}

pub fn run(r: &mut Run) {
    if let Ok(n) = std::env::var("RV_C05_CHILD") {
        child(n.parse().unwrap_or(10));
        std::process::exit(0);
    }
    r.rule = "one evaluation = one round of client, server and decoy sessions; distinct by the nonce contributed".into();
    r.assumptions = vec!["statistical: absence of repeats, bias and correlation in the sampled sessions".into()];
    if r.only.is_some() {
        // the statistics need all sessions
        r.only = None;
    }
    // before any thread exists, as fork() only takes the calling thread along
    if let Some(mut w) = r.single("forks") {
        forks(&mut w, if r.thorough { 200 } else { 20 });
        r.merge(w);
    }
    if let Some(mut w) = r.single("processes") {
        processes(&mut w, if r.thorough { 64 } else { 16 }, 200);
        r.merge(w);
    }
    let acc = Mutex::new(Stats::new());
    r.cases("sessions", r.n(1_000, 16_000), |w, rng| batch(w, rng, &acc));
    if let Some(mut w) = r.single("analysis") {
        analyse(&mut w, acc.into_inner().unwrap());
        r.merge(w);
    }
    for k in ["values:Client", "values:Server", "values:Decoy", "values:Salt"] {
        r.require(k, 100_000);
    }
    r.require("position_pairs_examined", 3 * 276);
    r.require("salt_positions_examined", 16);
}
