//! C16: sessions that share configurations and run concurrently.
use crate::cb::{Ctx, OAns, V};
use crate::drive::*;
use crate::gen;
use crate::prng::Rng;
use crate::refimpl::*;
use crate::report::{show, Run, W};
use rsasl::callback::{Context, Request, SessionCallback, SessionData};
use rsasl::mechanisms::anonymous::AnonymousToken;
use rsasl::mechanisms::oauthbearer::properties::{OAuthBearerError, OAuthBearerErrored, OAuthBearerValidate};
use rsasl::mechanisms::scram::properties::{SaltedPassword, ScramCachedPassword, ScramStoredPassword};
use rsasl::mechanisms::xoauth2::properties::{XOAuth2Error, XOAuth2Validate};
use rsasl::prelude::*;
use rsasl::property::*;
use rsasl::validate::{NoValidation, Validate, ValidationError};
use serde_json::json;
use std::cell::RefCell;
use std::collections::HashSet;
use std::sync::atomic::{AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};

/// everything one exchange is about; the callbacks answer from the one that is being stepped
#[derive(Clone, Debug)]
struct Plan {
    m: &'static str,
    authid: String,
    authzid: Option<String>,
    pw: Vec<u8>,
    /// what the client presents: 0 password, 1 salted password, 2 keys
    form: usize,
    token: String,
    kv: Vec<(String, String)>,
    ans: OAns,
    salt: Vec<u8>,
    it: u32,
    known: bool,
    /// the server's idea of the password
    server_pw: Vec<u8>,
    binding: Vec<u8>,
    server_binding: Vec<u8>,
    ck: Keys,
    sk: Keys,
}
thread_local! {
    static NOW: RefCell<Option<Arc<Plan>>> = const { RefCell::new(None) };
    static SEEN: RefCell<Vec<Call>> = const { RefCell::new(vec![]) };
}
#[derive(Clone, Debug, PartialEq, Eq)]
enum Call {
    Asked { mech: String, server: bool, ctx: Ctx },
    Validated { mech: String, ctx: Ctx },
    Error(Vec<u8>),
    Keys(Vec<u8>, Vec<u8>),
}
fn now() -> Arc<Plan> {
    NOW.with(|n| n.borrow().clone()).expect("harness: callback outside of a step")
}
fn seen(c: Call) {
    SEEN.with(|s| s.borrow_mut().push(c));
}
/// what the application does from within one of its callbacks or writers, besides answering
struct Hook {
    /// hook points that pass before it happens
    left: usize,
    depth: usize,
    cf: Arc<Configs>,
    rng: Rng,
    todo: Vec<Arc<Plan>>,
}
/// the payload of the application's own panic
struct Injected;
thread_local! {
    static HOOK: RefCell<Option<Hook>> = const { RefCell::new(None) };
    /// sessions in progress, those that ended, and what happened, of the `nested` stream
    static POOL: RefCell<Vec<Job>> = const { RefCell::new(vec![]) };
    static ENDED: RefCell<Vec<Job>> = const { RefCell::new(vec![]) };
    static NOTES: RefCell<Vec<(&'static str, String)>> = const { RefCell::new(vec![]) };
}
fn note(what: &'static str, detail: String) {
    NOTES.with(|n| n.borrow_mut().push((what, detail)));
}
/// one step; the application's own panic ends the session and nothing else
fn caught(mut j: Job) {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
        j.step(0);
        j
    }));
    match r {
        Ok(j) if j.done => ENDED.with(|e| e.borrow_mut().push(j)),
        Ok(j) => POOL.with(|p| p.borrow_mut().push(j)),
        Err(e) if e.is::<Injected>() => note("nested_application_panics", String::new()),
        Err(e) => {
            let t = e.downcast_ref::<String>().cloned().or(e.downcast_ref::<&str>().map(|s| s.to_string()));
            note("panics", t.unwrap_or_default());
        }
    }
    NOW.with(|n| *n.borrow_mut() = None);
    SEEN.with(|s| s.borrow_mut().clear());
}
/// `start`, where the application may panic as well
fn started(cf: &Configs, p: Arc<Plan>) -> Option<Job> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| start(cf, p))) {
        Ok(r) => r.map_err(|e| note("cannot-start", e)).ok(),
        Err(e) if e.is::<Injected>() => {
            note("nested_application_panics_at_start", String::new());
            None
        }
        Err(_) => {
            note("panics", "at the start of a session".into());
            None
        }
    }
}
fn from_pool(rng: &mut Rng) -> Option<Job> {
    POOL.with(|p| {
        let mut p = p.borrow_mut();
        (!p.is_empty()).then(|| {
            let i = rng.below(p.len());
            p.swap_remove(i)
        })
    })
}
fn hook() {
    let h = HOOK.with(|h| {
        let mut h = h.borrow_mut();
        match &mut *h {
            Some(x) if x.left > 0 => {
                x.left -= 1;
                None
            }
            _ => h.take(),
        }
    });
    let Some(mut h) = h else { return };
    let (now, seen) = (NOW.with(|n| n.borrow_mut().take()), SEEN.with(|s| std::mem::take(&mut *s.borrow_mut())));
    let fresh = |h: &mut Hook| h.todo.pop().and_then(|p| started(&h.cf, p));
    match h.rng.below(6) {
        0 => std::panic::resume_unwind(Box::new(Injected)),
        1 => {
            // somebody else's session is over
            if from_pool(&mut h.rng).is_some() {
                note("nested_drops", String::new());
            }
        }
        2 => {
            // another thread takes a session to its end, and this callback waits for that
            let other = if h.rng.chance(1, 2) { from_pool(&mut h.rng) } else { fresh(&mut h) };
            if let Some(mut j) = other {
                let t = std::thread::spawn(move || {
                    while !j.done {
                        j.step(1);
                    }
                    j
                });
                match t.join() {
                    Ok(j) => ENDED.with(|e| e.borrow_mut().push(j)),
                    Err(_) => note("panics", "in another thread".into()),
                }
                note("nested_waits_for_thread", String::new());
            }
        }
        k => {
            if k < 5 {
                if let Some(j) = fresh(&mut h) {
                    POOL.with(|p| p.borrow_mut().push(j));
                    note("nested_starts", String::new());
                }
            }
            for _ in 0..h.rng.range(1, 6) {
                let Some(j) = from_pool(&mut h.rng) else { break };
                if h.depth > 0 && h.rng.chance(1, 3) {
                    let (r2, left) = (Rng::new(h.rng.u64(), "inner", 0), h.rng.below(5));
                    let inner = Hook { left, depth: h.depth - 1, cf: h.cf.clone(), rng: r2, todo: std::mem::take(&mut h.todo) };
                    HOOK.with(|x| *x.borrow_mut() = Some(inner));
                    note("nested_deeper", String::new());
                }
                caught(j);
                if let Some(x) = HOOK.with(|x| x.borrow_mut().take()) {
                    h.todo = x.todo;
                }
                note("nested_steps", String::new());
            }
        }
    }
    NOW.with(|n| *n.borrow_mut() = now);
    SEEN.with(|s| *s.borrow_mut() = seen);
    h.left = usize::MAX;
    HOOK.with(|x| *x.borrow_mut() = Some(h));
}
/// the writer of a step is application code too
struct Out(Vec<u8>);
impl std::io::Write for Out {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        hook();
        self.0.write(b)
    }
    fn write_vectored(&mut self, b: &[std::io::IoSlice<'_>]) -> std::io::Result<usize> {
        hook();
        self.0.write_vectored(b)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

/// one stateless callback for every session of every thread
struct Common {
    cb: bool,
}
impl SessionCallback for Common {
    fn callback(&self, sd: &SessionData, c: &Context, r: &mut Request) -> Result<(), SessionError> {
        hook();
        let a = self.answer(sd, c, r);
        hook();
        a
    }
    fn enable_channel_binding(&self) -> bool {
        hook();
        self.cb
    }
    fn prefer<'a>(&self, _: Option<&'a Mechanism>, _: &'a Mechanism) -> std::cmp::Ordering {
        hook();
        std::cmp::Ordering::Less
    }
    fn validate(&self, sd: &SessionData, c: &Context, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        hook();
        let _ = now();
        let ctx = Ctx::of(c);
        let mech = sd.mechanism().mechanism.as_str().to_string();
        seen(Call::Validated { mech: mech.clone(), ctx: ctx.clone() });
        v.finalize::<V>(crate::cb::ValOut { ctx, mech });
        hook();
        Ok(())
    }
}
impl Common {
    fn answer(&self, sd: &SessionData, c: &Context, r: &mut Request) -> Result<(), SessionError> {
        let p = now();
        seen(Call::Asked {
            mech: sd.mechanism().mechanism.as_str().to_string(),
            server: sd.side() == rsasl::registry::Side::Server,
            ctx: Ctx::of(c),
        });
        if sd.side() == rsasl::registry::Side::Server {
            if r.is::<ScramStoredPassword<'static>>() {
                if p.known {
                    r.satisfy::<ScramStoredPassword<'static>>(&ScramStoredPassword::new(p.it, &p.salt, &p.sk.stored, &p.sk.server))?;
                }
            } else if r.is::<ChannelBindings>() {
                r.satisfy::<ChannelBindings>(&p.server_binding)?;
            } else if r.is::<XOAuth2Validate>() {
                match &p.ans {
                    OAns::Accept => r.satisfy::<XOAuth2Validate>(&Ok(()))?,
                    OAns::Reject(a, _, _) => r.satisfy::<XOAuth2Validate>(&Err(a))?,
                    OAns::Silent => r,
                };
            } else if r.is::<OAuthBearerValidate>() {
                match &p.ans {
                    OAns::Accept => r.satisfy::<OAuthBearerValidate>(&Ok(()))?,
                    OAns::Reject(a, b, c) => {
                        r.satisfy::<OAuthBearerValidate>(&Err(OAuthBearerError::new(a, b.as_deref(), c.as_deref())))?
                    }
                    OAns::Silent => r,
                };
            }
            return Ok(());
        }
        if let Some(e) = r.get_action::<XOAuth2Error>() {
            seen(Call::Error(e.as_bytes().to_vec()));
            return Ok(());
        }
        if let Some(e) = r.get_action::<OAuthBearerErrored>() {
            seen(Call::Error(e.status.as_bytes().to_vec()));
            return Ok(());
        }
        if let Some(k) = r.get_action::<ScramCachedPassword<'static>>() {
            seen(Call::Keys(k.client_key.to_vec(), k.server_key.to_vec()));
            return Ok(());
        }
        let kv: Vec<(&str, &str)> = p.kv.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
        r.satisfy::<AuthId>(&p.authid)?;
        if let Some(a) = &p.authzid {
            r.satisfy::<AuthzId>(a)?;
        }
        match p.form {
            _ if !p.m.starts_with("SCRAM") => {
                r.satisfy::<Password>(&p.pw)?;
            }
            0 => {
                r.satisfy::<Password>(&p.pw)?;
            }
            1 => {
                r.satisfy::<SaltedPassword>(&p.ck.salted)?;
            }
            _ => crate::compat::satisfy_cached(r, &p.ck.client, &p.ck.server)?,
        }
        r.satisfy::<OAuthBearerToken>(&p.token)?
            .satisfy::<AnonymousToken>(&p.token)?
            .satisfy::<OAuthBearerKV>(&kv)?
            .satisfy::<ChannelBindings>(&p.binding)?;
        Ok(())
    }
}

struct Configs {
    plain: Arc<SASLConfig>,
    binding: Arc<SASLConfig>,
    server: Arc<SASLConfig>,
    server_noplus: Arc<SASLConfig>,
}
impl Configs {
    fn new() -> Self {
        let noplus: Vec<&str> = ALL.iter().copied().filter(|n| !n.ends_with("-PLUS")).collect();
        let mk = |names: &[&str], cb| {
            SASLConfig::builder().with_registry(Registry::with_mechanisms(mechs(names))).with_callback(Common { cb }).expect("harness: config")
        };
        Configs { plain: mk(&ALL, false), binding: mk(&ALL, true), server: mk(&ALL, false), server_noplus: mk(&noplus, false) }
    }
}

/// plans that are easily confused: few distinct users, salts, passwords and nonces
fn plans(rng: &mut Rng, n: usize) -> Vec<Arc<Plan>> {
    let users: Vec<String> = (0..3).map(|_| gen::prepped(rng, 12)).collect();
    let pws: Vec<String> = (0..3).map(|_| gen::prepped(rng, 16)).collect();
    let salts: Vec<Vec<u8>> = (0..2).map(|_| rng.bytes(12)).collect();
    let its = [1u32, 2];
    (0..n)
        .map(|_| {
            let m = *rng.pick(&ALL);
            let h = if m.starts_with("SCRAM") { hash_of(m) } else { Hash::Sha1 };
            let pw = rng.pick(&pws).clone().into_bytes();
            let server_pw = if rng.chance(1, 4) { rng.pick(&pws).clone().into_bytes() } else { pw.clone() };
            let salt = rng.pick(&salts).clone();
            let it = *rng.pick(&its);
            let authid = if m == "ANONYMOUS" { String::new() } else { rng.pick(&users).clone() };
            let token = gen::word(rng);
            let binding = rng.bytes(8);
            let server_binding = if rng.chance(1, 6) { rng.bytes(8) } else { binding.clone() };
            let (kv1, kv2) = (gen::word(rng), gen::word(rng));
            Arc::new(Plan {
                m,
                authid,
                authzid: if rng.chance(1, 2) { Some(rng.pick(&users).clone().replace([',', '='], "x")) } else { None },
                ck: keys(h, &pw, &salt, it),
                sk: keys(h, &server_pw, &salt, it),
                pw,
                form: rng.below(3),
                token,
                kv: vec![(kv1, kv2)],
                ans: if rng.chance(2, 3) { OAns::Accept } else { OAns::Reject(gen::word(rng), Some("s".into()), None) },
                salt,
                it,
                known: true,
                server_pw,
                binding,
                server_binding,
            })
        })
        .collect()
}

struct Job {
    p: Arc<Plan>,
    c: Session<NoValidation>,
    s: Session<V>,
    server_turn: bool,
    input: Option<Vec<u8>>,
    trace: Vec<(bool, R, Vec<u8>)>,
    calls: Vec<(bool, Vec<Call>)>,
    done: bool,
    threads: HashSet<usize>,
    steps: usize,
}
fn start(cf: &Configs, p: Arc<Plan>) -> Result<Job, String> {
    let plus = p.m.ends_with("-PLUS");
    let c = SASLClient::new(if plus { cf.binding.clone() } else { cf.plain.clone() })
        .start_suggested(&[name(p.m)])
        .map_err(|e| format!("{e:?}"))?;
    let s = SASLServer::<V>::new(if plus { cf.server.clone() } else { cf.server_noplus.clone() })
        .start_suggested(name(p.m))
        .map_err(|e| format!("{e:?}"))?;
    let server_turn = s.are_we_first();
    Ok(Job { p, c, s, server_turn, input: None, trace: vec![], calls: vec![], done: false, threads: HashSet::new(), steps: 0 })
}
impl Job {
    fn step(&mut self, thread: usize) {
        NOW.with(|n| *n.borrow_mut() = Some(self.p.clone()));
        SEEN.with(|s| s.borrow_mut().clear());
        let mut o = Out(vec![]);
        let r = if self.server_turn { self.s.step(self.input.as_deref(), &mut o) } else { self.c.step(self.input.as_deref(), &mut o) };
        let o = o.0;
        NOW.with(|n| *n.borrow_mut() = None);
        let calls = SEEN.with(|s| std::mem::take(&mut *s.borrow_mut()));
        self.threads.insert(thread);
        self.steps += 1;
        let r = R::of(&r);
        self.trace.push((self.server_turn, r.clone(), o.clone()));
        self.calls.push((self.server_turn, calls));
        let other_done = self.trace.iter().any(|t| t.0 != self.server_turn && t.1.is_fin());
        if r.is_err() || r == R::FinNo || other_done || self.steps > 8 {
            self.done = true;
        }
        self.input = Some(o);
        self.server_turn = !self.server_turn;
    }
    fn show(&self) -> String {
        let t: Vec<String> =
            self.trace.iter().map(|t| format!("{}:{:?}[{}]", if t.0 { "S" } else { "C" }, t.1, show(&t.2))).collect();
        format!("{} user {:?} authzid {:?} pw {:?}/{:?}: {}", self.p.m, self.p.authid, self.p.authzid, show(&self.p.pw), show(&self.p.server_pw), t.join(" "))
    }
}

/// what the exchange has to look like when it runs alone
fn judge(w: &mut W, j: &mut Job, cf: &Configs) {
    let p = j.p.clone();
    let m = p.m;
    let text = j.show();
    let v: Option<crate::cb::ValOut> = j.s.validation();
    let again: Option<crate::cb::ValOut> = j.s.validation();
    w.want(again.is_none(), "validation-result-twice", || text.clone());
    // the callbacks of a step saw only this session
    for (server, calls) in &j.calls {
        for c in calls {
            w.count("callbacks_checked");
            let ok = match c {
                Call::Asked { mech, server: s, ctx } => {
                    mech == m
                        && s == server
                        && ctx.authid.as_ref().is_none_or(|a| *a == p.authid)
                        && ctx.authzid.as_ref().is_none_or(|a| Some(a) == p.authzid.as_ref() || a.is_empty())
                        && ctx.salt.as_ref().is_none_or(|s| *s == p.salt)
                        && ctx.iterations.is_none_or(|i| i == p.it)
                        && ctx.password.as_ref().is_none_or(|x| *x == p.pw)
                        && ctx.token.as_ref().is_none_or(|t| *t == p.token)
                }
                Call::Validated { mech, ctx } => {
                    mech == m
                        && *server
                        && ctx.authid.as_ref().is_none_or(|a| *a == p.authid)
                        && ctx.authzid.as_ref().is_none_or(|a| Some(a) == p.authzid.as_ref() || a.is_empty())
                        && ctx.password.as_ref().is_none_or(|x| *x == p.pw)
                        && ctx.token.as_ref().is_none_or(|t| *t == p.token)
                }
                Call::Error(e) => matches!(&p.ans, OAns::Reject(a, _, _) if a.as_bytes() == &e[..]) && !server,
                Call::Keys(c, s) => *c == p.ck.client && *s == p.ck.server && !server,
            };
            w.want(ok, &format!("foreign-data@{m}"), || format!("{c:?} in {text}"));
        }
    }
    if m.starts_with("SCRAM") {
        let honest = p.pw == p.server_pw && (!m.ends_with("-PLUS") || p.binding == p.server_binding);
        let rs: Vec<&R> = j.trace.iter().map(|t| &t.1).collect();
        if honest {
            let ok = rs == [&R::Run, &R::Run, &R::Run, &R::FinYes, &R::FinNo];
            if !w.want(ok, &format!("interference@{m}"), || format!("an honest exchange did not finish: {text}")) {
                return;
            }
        } else {
            // the server may finish with an error message
            let ok = v.is_none()
                && !j.trace.iter().any(|t| t.0 && t.2.starts_with(b"v="))
                && !j.trace.iter().any(|t| !t.0 && t.1.is_fin())
                && !j.calls.iter().flat_map(|c| &c.1).any(|c| matches!(c, Call::Validated { .. } | Call::Keys(..)));
            w.want(ok, &format!("interference@{m}"), || format!("an exchange with the wrong credential succeeded: {text}"));
        }
        // the bytes are those of this session's credential
        if j.trace.len() >= 3 {
            let flag = if m.ends_with("-PLUS") { &j.trace[0].2[..j.trace[0].2.iter().position(|b| *b == b',').unwrap_or(0)] } else { b"n" };
            let flag = String::from_utf8_lossy(flag).into_owned();
            let nonce = j.trace[0].2.split(|b| *b == b',').next_back().and_then(|n| n.strip_prefix(b"r=")).unwrap_or(b"");
            let data: &[u8] = if m.ends_with("-PLUS") { &p.binding } else { b"" };
            let rc = RefClient::new(hash_of(m), &flag, p.authzid.as_deref(), &p.authid, nonce, data);
            let full = j.trace[1].2.split(|b| *b == b',').next().and_then(|n| n.strip_prefix(b"r=")).unwrap_or(b"").to_vec();
            let sf = [b"r=", &full[..], b",s=", &b64(&p.salt), b",i=", p.it.to_string().as_bytes()].concat();
            let mut ok = rc.first() == j.trace[0].2 && sf == j.trace[1].2 && full.starts_with(nonce);
            let mut rc = rc;
            rc.server_first = sf;
            ok &= j.trace[2].1.is_err() || rc.final_msg(&p.ck, &full) == j.trace[2].2;
            if honest && j.trace.len() >= 4 {
                ok &= [b"v=", &b64(&rc.verifier(&p.ck, &full))[..]].concat() == j.trace[3].2;
            }
            w.want(ok, &format!("foreign-bytes@{m}"), || text.clone());
            w.count("scram_exchanges_recomputed");
        }
        if honest {
            let ok = v.as_ref().is_some_and(|v| {
                v.ctx.authid.as_deref() == Some(&p.authid) && v.ctx.authzid.as_deref().unwrap_or("") == p.authzid.as_deref().unwrap_or("")
            });
            w.want(ok, &format!("foreign-identity@{m}"), || format!("{v:?} in {text}"));
        }
    } else {
        // no randomness: exactly what the same exchange does alone, in a configuration of its own
        let _ = cf;
        let own = Configs::new();
        let mut alone = start(&own, p.clone()).expect("harness: start");
        while !alone.done {
            alone.step(0);
        }
        let va: Option<crate::cb::ValOut> = alone.s.validation();
        w.want(alone.trace == j.trace && alone.calls == j.calls && va == v, &format!("interference@{m}"), || {
            format!("{text} alone: {} results {v:?} {va:?}", alone.show())
        });
        w.count("exchanges_compared_with_solo_run");
    }
    w.count(&format!("exchanges:{m}"));
}

/// one configuration set, many sessions, all threads; sessions change threads between steps
fn round(w: &mut W, rng: &mut Rng, threads: usize, sessions: usize, inner: bool) {
    let cf = Configs::new();
    let plans = plans(rng, sessions);
    // half of the sessions exist before the threads start, the others are created by them
    let mut jobs: Vec<Job> = vec![];
    let mut todo: Vec<Arc<Plan>> = vec![];
    for (i, p) in plans.into_iter().enumerate() {
        if i % 2 == 0 {
            match start(&cf, p) {
                Ok(j) => jobs.push(j),
                Err(e) => w.viol("cannot-start", e),
            }
        } else {
            todo.push(p);
        }
    }
    let seeds: Vec<u64> = (0..threads).map(|_| rng.u64()).collect();
    let pool = Mutex::new((jobs, todo, vec![] as Vec<Job>));
    let clock = AtomicU64::new(0);
    let active = AtomicUsize::new(0);
    let order = Mutex::new(vec![] as Vec<u8>);
    let overlap = AtomicU64::new(0);
    let total = sessions;
    let fails: Mutex<Vec<String>> = Mutex::default();
    std::thread::scope(|sc| {
        for (t, seed) in seeds.iter().enumerate() {
            let (pool, clock, active, order, overlap, cf, fails) = (&pool, &clock, &active, &order, &overlap, &cf, &fails);
            let seed = *seed;
            let body = move || {
                let mut rng = Rng::new(seed, "thread", t as u64);
                loop {
                    let pick = {
                        let mut g = pool.lock().unwrap();
                        if g.2.len() + fails.lock().unwrap().len() >= total {
                            break;
                        }
                        let n = g.0.len() + g.1.len();
                        if n == 0 {
                            None
                        } else {
                            let i = rng.below(n);
                            if i < g.0.len() {
                                Some(Ok(g.0.swap_remove(i)))
                            } else {
                                let i = i - g.0.len();
                                Some(Err(g.1.swap_remove(i)))
                            }
                        }
                    };
                    let mut job = match pick {
                        None => {
                            std::thread::yield_now();
                            continue;
                        }
                        Some(Ok(j)) => j,
                        Some(Err(p)) => match start(cf, p) {
                            Ok(j) => j,
                            Err(e) => {
                                fails.lock().unwrap().push(e);
                                continue;
                            }
                        },
                    };
                    // injected delays
                    match rng.below(8) {
                        0 => std::thread::yield_now(),
                        1 => {
                            for _ in 0..rng.below(200) {
                                std::hint::spin_loop();
                            }
                        }
                        _ => {}
                    }
                    let busy = active.fetch_add(1, Ordering::Relaxed);
                    if busy > 0 {
                        overlap.fetch_add(1, Ordering::Relaxed);
                    }
                    clock.fetch_add(1, Ordering::Relaxed);
                    let n = if rng.chance(1, 4) { 2 } else { 1 };
                    for _ in 0..n {
                        if !job.done {
                            job.step(t);
                        }
                    }
                    active.fetch_sub(1, Ordering::Relaxed);
                    order.lock().unwrap().push(t as u8);
                    let mut g = pool.lock().unwrap();
                    if job.done {
                        g.2.push(job);
                    } else {
                        g.0.push(job);
                    }
                }
            };
            std::thread::Builder::new().stack_size(4 << 20).spawn_scoped(sc, body).expect("harness: thread");
        }
    });
    let (_, _, done) = pool.into_inner().unwrap();
    for f in fails.into_inner().unwrap() {
        w.viol("cannot-start", f);
    }
    let order = order.into_inner().unwrap();
    // every round is one interleaving of thread steps
    w.eval(&order, overlap.load(Ordering::Relaxed) > 0);
    w.add("concurrent_steps", clock.load(Ordering::Relaxed));
    w.add("steps_overlapping_another", overlap.load(Ordering::Relaxed));
    let mut nonces: HashSet<Vec<u8>> = HashSet::new();
    for mut j in done {
        if j.threads.len() > 1 {
            w.count("sessions_moved_between_threads");
        }
        if j.p.m.starts_with("SCRAM") {
            if let Some(n) = j.trace.get(1).and_then(|t| t.2.split(|b| *b == b',').next()) {
                w.want(n.len() < 20 || nonces.insert(n.to_vec()), "shared-nonce", || j.show());
            }
        }
        judge(w, &mut j, &cf);
    }
    if w.case == 0 && inner {
        w.sample(|| json!({"thread of each step": order.iter().take(200).collect::<Vec<_>>()}));
    }
}

/// one thread, but sessions interleaved step by step and dropped in the middle
fn interleaved(w: &mut W, rng: &mut Rng) {
    let cf = Configs::new();
    let n = rng.range(2, 8);
    let mut jobs: Vec<Job> = plans(rng, n).into_iter().filter_map(|p| start(&cf, p).ok()).collect();
    let mut order = vec![];
    while !jobs.is_empty() {
        let i = rng.below(jobs.len());
        order.push((jobs.len(), i));
        if rng.chance(1, 40) {
            // somebody hangs up
            drop(jobs.swap_remove(i));
            w.count("sessions_dropped");
            continue;
        }
        jobs[i].step(0);
        w.count("interleaved_steps");
        if jobs[i].done {
            let mut j = jobs.swap_remove(i);
            judge(w, &mut j, &cf);
        }
    }
    w.eval((&order, w.case), true);
}

/// sessions are started, stepped, dropped and waited for from within the callbacks and writers of others, and
/// applications panic there; whoever is not dropped goes on as if it were alone
fn nested(w: &mut W, rng: &mut Rng) {
    let cf = Arc::new(Configs::new());
    let n = rng.range(2, 6);
    let (first, todo) = (plans(rng, n), plans(rng, 6));
    let mut rng = Rng::new(rng.u64(), "nested", 0);
    let (cf2, (tx, rx)) = (cf.clone(), std::sync::mpsc::channel());
    std::thread::Builder::new()
        .stack_size(8 << 20)
        .spawn(move || {
            let mut todo = todo;
            let arm = |rng: &mut Rng, todo: &mut Vec<Arc<Plan>>| {
                if rng.chance(1, 2) {
                    let (r2, left) = (Rng::new(rng.u64(), "nested", 0), rng.below(5));
                    HOOK.with(|h| *h.borrow_mut() = Some(Hook { left, depth: 2, cf: cf2.clone(), rng: r2, todo: std::mem::take(todo) }));
                }
            };
            let disarm = |todo: &mut Vec<Arc<Plan>>| {
                if let Some(h) = HOOK.with(|h| h.borrow_mut().take()) {
                    *todo = h.todo;
                }
            };
            for p in first {
                arm(&mut rng, &mut todo);
                if let Some(j) = started(&cf2, p) {
                    POOL.with(|q| q.borrow_mut().push(j));
                }
                disarm(&mut todo);
            }
            while let Some(j) = from_pool(&mut rng) {
                arm(&mut rng, &mut todo);
                caught(j);
                disarm(&mut todo);
            }
            let _ = tx.send((ENDED.with(|e| std::mem::take(&mut *e.borrow_mut())), NOTES.with(|n| std::mem::take(&mut *n.borrow_mut()))));
        })
        .expect("harness: thread");
    let (ended, notes) = match rx.recv_timeout(std::time::Duration::from_secs(150)) {
        Ok(x) => x,
        Err(std::sync::mpsc::RecvTimeoutError::Timeout) => {
            // that session may hold what others need
            w.fatal("blocked", "a session that was stepped from within another session's callback or writer, or waited for there, made no progress for 150 s");
        }
        Err(_) => {
            w.viol("panics-outside-of-a-step", "the driving thread panicked");
            return;
        }
    };
    for (what, detail) in notes {
        match what {
            "panics" | "cannot-start" => w.viol(what, format!("{detail} (sessions nested in others' callbacks)")),
            _ => w.count(what),
        }
    }
    w.eval((w.case, ended.len()), !ended.is_empty());
    for mut j in ended {
        judge(w, &mut j, &cf);
        w.count("nested_judged");
    }
}

/// run by the sanitizer build: no oracles of its own needed beyond those of round()
pub fn run(r: &mut Run) {
    r.rule = "one evaluation = one round of sessions on shared configurations; distinct by the order in which threads stepped; non-trivial when steps overlapped in time".into();
    r.assumptions = vec![
        "the callback identifies the session by a thread-local that the driver sets around each step".into(),
        "interleavings are those the scheduler and the injected delays produce; ThreadSanitizer judges races on the same workload".into(),
    ];
    if std::env::var("RV_TSAN_CHILD").is_ok() {
        let n = r.n(200, 4_000);
        if let Some(mut w) = r.single("rounds") {
            for i in 0..n {
                let mut rng = Rng::new(r.seed, "C16/tsan", i);
                round(&mut w, &mut rng, 8, 48, false);
            }
            println!("TSAN-WORKLOAD steps={}", w.acc.counters.get("concurrent_steps").copied().unwrap_or(0));
        }
        std::process::exit(0);
    }
    if let Some(mut w) = r.single("tsan") {
        tsan(&mut w, r.seed, r.thorough);
        r.merge(w);
    }
    r.cases("interleaved", r.n(60_000, 2_000_000), interleaved);
    r.cases("nested", r.n(30_000, 1_000_000), nested);
    for k in ["nested_application_panics", "nested_application_panics_at_start", "nested_drops", "nested_waits_for_thread", "nested_starts", "nested_steps", "nested_deeper", "nested_judged"] {
        r.require(k, 500);
    }
    // rounds use threads themselves: two at a time
    let rounds = r.n(2_000, 60_000);
    r.cases("rounds", rounds, |w, rng| {
        let threads = if cfg!(miri) { 3 } else { rng.range(2, 8) };
        let sessions = if cfg!(miri) { 6 } else { rng.range(8, 64) };
        round(w, rng, threads, sessions, true);
    });
    for k in ["sessions_moved_between_threads", "steps_overlapping_another", "scram_exchanges_recomputed", "exchanges_compared_with_solo_run"] {
        r.require(k, 1000);
    }
    for m in ALL {
        r.require(&format!("exchanges:{m}"), 200);
    }
    r.require("tsan_steps", 1000);
}

fn tsan(w: &mut W, seed: u64, thorough: bool) {
    let Ok(bin) = std::env::var("RV_TSAN_BIN") else {
        return;
    };
    let o = std::process::Command::new(&bin)
        .args(["C16"])
        .env("RV_TSAN_CHILD", "1")
        .env("VERIF_SEED", seed.to_string())
        .env("VERIF_TIER", if thorough { "thorough" } else { "quick" })
        .env("TSAN_OPTIONS", "halt_on_error=0 exitcode=66 report_signal_unsafe=0")
        .env_remove("RV_TSAN_BIN")
        .output()
        .expect("harness: tsan binary");
    let out = String::from_utf8_lossy(&o.stdout).into_owned();
    let err = String::from_utf8_lossy(&o.stderr).into_owned();
    let steps: u64 = out.lines().find_map(|l| l.strip_prefix("TSAN-WORKLOAD steps=")).and_then(|n| n.parse().ok()).unwrap_or(0);
    w.eval("tsan", steps > 0);
    w.add("tsan_steps", steps);
    let races: Vec<&str> = err.split("==================").filter(|b| b.contains("WARNING: ThreadSanitizer")).collect();
    w.add("tsan_reports", races.len() as u64);
    for b in &races {
        // only races that involve the library
        if b.contains("/repo/src/") || b.contains("rsasl::") {
            w.viol("data-race", b.trim().to_string());
        } else {
            w.acc.internal.push(format!("ThreadSanitizer report outside of the library: {}", b.trim()));
        }
    }
    if races.is_empty() && (!o.status.success() || steps == 0) {
        w.acc.internal.push(format!("the ThreadSanitizer run failed: {:?} {}", o.status, err.chars().take(2000).collect::<String>()));
    }
}
