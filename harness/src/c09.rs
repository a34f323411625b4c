//! C09: mechanism selection, judged by a reference model.
use crate::cb::{Cb, HCb, Log, Props, V};
use crate::drive::*;
use crate::prng::Rng;
use crate::report::{Run, W};
use rsasl::callback::SessionCallback;
use rsasl::mechanism::{Authentication, MechanismData};
use rsasl::prelude::*;
use rsasl::registry::{Matches, Mechanism, Named, Side};
use serde_json::json;
use std::cmp::Ordering;
use std::collections::{BTreeSet, HashMap};
use std::io::Write;
use std::sync::{Arc, Mutex, OnceLock};

/// a mechanism that does nothing
struct Nop;
impl Authentication for Nop {
    fn step(&mut self, _: &mut MechanismData, _: Option<&[u8]>, w: &mut dyn Write) -> Result<State, SessionError> {
        w.write_all(b"nop")?;
        Ok(State::Finished(MessageSent::Yes))
    }
}
macro_rules! custom {
    ($($id:ident $sel:ident $name:literal $prio:expr, $client:expr, $server:expr;)*) => { $(
        static $id: Mechanism = Mechanism::build(
            Mechname::const_new_unchecked($name), $prio, $client, $server, Side::Client,
            |_| { let c: Option<rsasl::registry::StartFn> = $client; c.map(|_| Matches::<$sel>::name()) }, |_| true,
        );
        struct $sel;
        impl Named for $sel { fn mech() -> &'static Mechanism { &$id } }
    )* };
}
custom! {
    LOW SelLow b"X-LOW" 0, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    MID SelMid b"X-MID" 350, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    HIGH SelHigh b"X-HIGH" usize::MAX, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    CLI SelCli b"X-CLIENT-ONLY" 550, Some(|| Ok(Box::new(Nop))), None;
    SRV SelSrv b"X-SERVER-ONLY" 900, None, Some(|_| Ok(Box::new(Nop)));
    // names that share a prefix or suffix with built-in ones
    NEAR1 SelNear1 b"PLAI" 310, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    NEAR2 SelNear2 b"SCRAM-SHA-1-PLUS-X" 410, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    FAIL SelFail b"X-FAIL" 620, Some(|| Err(SASLError::NoSharedMechanism)), Some(|_| Err(SASLError::NoSharedMechanism));
    // many of them, to fill large registries
    Z00 SelZ00 b"Z-00" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z01 SelZ01 b"Z-01" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z02 SelZ02 b"Z-02" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z03 SelZ03 b"Z-03" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z04 SelZ04 b"Z-04" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z05 SelZ05 b"Z-05" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z06 SelZ06 b"Z-06" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z07 SelZ07 b"Z-07" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z08 SelZ08 b"Z-08" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z09 SelZ09 b"Z-09" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z10 SelZ10 b"Z-10" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z11 SelZ11 b"Z-11" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z12 SelZ12 b"Z-12" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z13 SelZ13 b"Z-13" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z14 SelZ14 b"Z-14" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z15 SelZ15 b"Z-15" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z16 SelZ16 b"Z-16" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z17 SelZ17 b"Z-17" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z18 SelZ18 b"Z-18" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z19 SelZ19 b"Z-19" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z20 SelZ20 b"Z-20" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z21 SelZ21 b"Z-21" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z22 SelZ22 b"Z-22" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z23 SelZ23 b"Z-23" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z24 SelZ24 b"Z-24" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z25 SelZ25 b"Z-25" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z26 SelZ26 b"Z-26" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z27 SelZ27 b"Z-27" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z28 SelZ28 b"Z-28" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
    Z29 SelZ29 b"Z-29" 5, Some(|| Ok(Box::new(Nop))), Some(|_| Ok(Box::new(Nop)));
}
const CUSTOM: [&str; 8] = ["X-LOW", "X-MID", "X-HIGH", "X-CLIENT-ONLY", "X-SERVER-ONLY", "PLAI", "SCRAM-SHA-1-PLUS-X", "X-FAIL"];
const MANY: [&str; 30] = ["Z-00", "Z-01", "Z-02", "Z-03", "Z-04", "Z-05", "Z-06", "Z-07", "Z-08", "Z-09", "Z-10", "Z-11", "Z-12", "Z-13", "Z-14", "Z-15", "Z-16", "Z-17", "Z-18", "Z-19", "Z-20", "Z-21", "Z-22", "Z-23", "Z-24", "Z-25", "Z-26", "Z-27", "Z-28", "Z-29"];
static MANY_M: [&Mechanism; 30] = [&Z00, &Z01, &Z02, &Z03, &Z04, &Z05, &Z06, &Z07, &Z08, &Z09, &Z10, &Z11, &Z12, &Z13, &Z14, &Z15, &Z16, &Z17, &Z18, &Z19, &Z20, &Z21, &Z22, &Z23, &Z24, &Z25, &Z26, &Z27, &Z28, &Z29];
fn any(n: &str) -> Mechanism {
    match n {
        "X-LOW" => LOW,
        "X-MID" => MID,
        "X-HIGH" => HIGH,
        "X-CLIENT-ONLY" => CLI,
        "X-SERVER-ONLY" => SRV,
        "PLAI" => NEAR1,
        "SCRAM-SHA-1-PLUS-X" => NEAR2,
        "X-FAIL" => FAIL,
        _ if n.starts_with("Z-") => *MANY_M[MANY.iter().position(|x| *x == n).expect("harness: name")],
        _ => mech(n),
    }
}
/// the documented default ranking
fn rank(n: &str) -> usize {
    match n {
        "SCRAM-SHA-256-PLUS" | "SCRAM-SHA-512-PLUS" => 700,
        "SCRAM-SHA-256" | "SCRAM-SHA-512" => 600,
        "SCRAM-SHA-1-PLUS" => 500,
        "SCRAM-SHA-1" => 400,
        "PLAIN" | "XOAUTH2" | "OAUTHBEARER" => 300,
        "LOGIN" => 200,
        "EXTERNAL" | "ANONYMOUS" => 100,
        "X-LOW" => 0,
        "X-MID" => 350,
        "X-HIGH" => usize::MAX,
        "X-CLIENT-ONLY" => 550,
        "X-SERVER-ONLY" => 900,
        "PLAI" => 310,
        "SCRAM-SHA-1-PLUS-X" => 410,
        "X-FAIL" => 620,
        _ if n.starts_with("Z-") => 5,
        _ => unreachable!(),
    }
}
fn leak(names: &[&str]) -> &'static [Mechanism] {
    static M: OnceLock<Mutex<HashMap<String, &'static [Mechanism]>>> = OnceLock::new();
    let mut m = M.get_or_init(Mutex::default).lock().unwrap();
    m.entry(names.join(" ")).or_insert_with(|| Box::leak(names.iter().map(|n| any(n)).collect::<Vec<_>>().into_boxed_slice()))
}

/// a preference callback that records what it was asked
struct Pref {
    inner: Cb,
    order: Option<Vec<&'static str>>,
    calls: Arc<Mutex<Vec<(Option<String>, String, bool)>>>,
}
impl SessionCallback for Pref {
    fn callback(
        &self,
        sd: &rsasl::callback::SessionData,
        c: &rsasl::callback::Context,
        r: &mut rsasl::callback::Request,
    ) -> Result<(), SessionError> {
        self.inner.callback(sd, c, r)
    }
    fn enable_channel_binding(&self) -> bool {
        self.inner.enable_channel_binding()
    }
    fn prefer<'a>(&self, a: Option<&'a Mechanism>, b: &'a Mechanism) -> Ordering {
        let r = match &self.order {
            // the library's own default
            None => self.inner.prefer(a, b),
            Some(l) => {
                let rank = |m: &Mechanism| l.iter().position(|x| *x == m.mechanism.as_str());
                match (a.and_then(rank), rank(b)) {
                    (_, None) => Ordering::Greater,
                    (None, Some(_)) => Ordering::Less,
                    (Some(x), Some(y)) => y.cmp(&x),
                }
            }
        };
        self.calls.lock().unwrap().push((
            a.map(|m| m.mechanism.as_str().to_string()),
            b.mechanism.as_str().to_string(),
            r == Ordering::Greater,
        ));
        r
    }
    fn validate(
        &self,
        sd: &rsasl::callback::SessionData,
        c: &rsasl::callback::Context,
        v: &mut rsasl::validate::Validate<'_>,
    ) -> Result<(), rsasl::validate::ValidationError> {
        self.inner.validate(sd, c, v)
    }
}

const NOISE: [&str; 18] = [
    "PLAI", "PLAINX", "PLAIN-PLUS", "LAIN", "SCRAM-SHA-1-PLU", "SCRAM-SHA-1-PLUS-X", "SCRAM-SHA-25", "SCRAM-SHA-2566", "SCRAM-SHA-5",
    "SCRAM-SHA", "SCRAM", "LOGIN-", "ANONYMOU", "CRAM-MD5", "DIGEST-MD5", "OAUTHBEARE", "XOAUTH", "-",
];

fn foreign() -> &'static [&'static str] {
    static F: OnceLock<Vec<&'static str>> = OnceLock::new();
    F.get_or_init(|| (0..500).map(|i| &*Box::leak(format!("F{i}-{}", NOISE[i % NOISE.len()]).into_boxed_str())).collect())
}

fn pick_names(rng: &mut Rng, p: usize) -> Vec<&'static str> {
    let mut v: Vec<&'static str> = ALL.iter().chain(CUSTOM.iter()).copied().filter(|_| rng.chance(p, 8)).collect();
    rng.shuffle(&mut v);
    v
}

/// registries are static and therefore leaked: they come from a bounded pool
fn registry(rng: &mut Rng) -> Vec<&'static str> {
    let mut r = Rng::new(rng.below(20_000) as u64, "registry", 0);
    let p = r.range(0, 7);
    let mut reg = pick_names(&mut r, p);
    if r.chance(1, 8) {
        // a large registry
        for z in MANY.iter().take(r.range(1, 30)) {
            let at = r.below(reg.len() + 1);
            reg.insert(at, z);
        }
    }
    if r.chance(1, 6) && !reg.is_empty() {
        // a mechanism listed twice
        let d = *r.pick(&reg);
        reg.push(d);
    }
    reg
}

fn credentials(rng: &mut Rng, m: &str) -> (Props, Props, HCb, HCb) {
    let (mut c, s, hc, hs) = honest(m, rng);
    if m.starts_with("SCRAM") || m == "PLAIN" {
        c.authzid = None;
    }
    (c, s, hc, hs)
}

/// the session has to be of the mechanism it says it is
fn prove(w: &mut W, rng: &mut Rng, s: Session<rsasl::validate::NoValidation, HCb>, log: Log, m: &str, sp: Props, hs: HCb, ctx: &str) {
    if CUSTOM.contains(&m) || m.starts_with("Z-") {
        let mut s = s;
        let mut o = vec![];
        let r = s.step(None, &mut o);
        w.want(R::of(&r) == R::FinYes && o == b"nop", &format!("session-is-not@{m}"), || format!("{ctx}: {r:?} {o:?}"));
        return;
    }
    let mut c = Party { s: Sess::C(s), log };
    let mut srv = Party::server(m, sp, hs);
    let x = exchange(&mut c, &mut srv, |_, _, _| {});
    let oauth_last = x.c == R::Run && (m == "XOAUTH2" || m == "OAUTHBEARER");
    let ok = x.s.is_fin() && (x.c.is_fin() || oauth_last);
    w.want(ok, &format!("session-is-not@{m}"), || format!("{ctx}: {}", x.show()));
    w.count("proved_by_exchange");
    let _ = rng;
}

fn client(w: &mut W, rng: &mut Rng) {
    let reg = registry(rng);
    let p = rng.range(0, 7);
    let mut off = pick_names(rng, p);
    for _ in 0..rng.below(5) {
        off.push(*rng.pick(&NOISE));
    }
    if rng.chance(1, 4) && !off.is_empty() {
        for _ in 0..rng.range(1, 4) {
            let d = *rng.pick(&off);
            off.push(d);
        }
    }
    if rng.chance(1, 12) {
        // a long offer of names, most of which nobody knows
        for _ in 0..rng.range(1, 300) {
            off.push(if rng.chance(1, 20) { *rng.pick(&MANY) } else { *rng.pick(foreign()) });
        }
    }
    rng.shuffle(&mut off);
    let order: Option<Vec<&'static str>> = match rng.below(5) {
        0 | 1 => None,
        2 => Some(vec![]),
        _ => {
            let p = rng.range(1, 8);
            Some(pick_names(rng, p))
        }
    };
    let cb = rng.chance(1, 2);
    // reference
    let usable = |n: &str| (cb || !n.ends_with("-PLUS")) && n != "X-SERVER-ONLY";
    let cand: BTreeSet<&str> = reg.iter().copied().filter(|n| usable(n) && off.contains(n)).collect();
    let best: Vec<&str> = match &order {
        None => {
            let top = cand.iter().map(|n| rank(n)).max();
            cand.iter().copied().filter(|n| Some(rank(n)) == top).collect()
        }
        Some(l) => l.iter().copied().find(|n| cand.contains(n)).into_iter().collect(),
    };
    let target = best.first().copied().unwrap_or("PLAIN");
    let (mut cp, sp, hc, hs) = if CUSTOM.contains(&target) || target.starts_with("Z-") { Default::default() } else { credentials(rng, target) };
    cp.enable_cb = cb;
    let (inner, log) = Cb::new(cp);
    let calls = Arc::default();
    let pref = Pref { inner, order: order.clone(), calls };
    let calls = pref.calls.clone();
    let cfg = SASLConfig::builder().with_registry(Registry::with_mechanisms(leak(&reg))).with_callback(pref).expect("harness: config");
    let mut h = hc;
    h.log = Some(log.clone());
    let names: Vec<&Mechname> = off.iter().map(|n| name(n)).collect();
    let iter = rng.chance(1, 2);
    let cl = SASLClient::with_cb(cfg, h);
    let r = if iter { cl.start_suggested_iter(names.iter().copied()) } else { cl.start_suggested(&names) };
    let ctx = format!("enabled {reg:?} offered {off:?} preference {order:?} channel binding {cb}: expected one of {best:?}");
    let rank_seen = rank(target);
    w.eval((&reg, &off, &order, cb), !cand.is_empty());
    w.count(match (best.len(), cand.len()) {
        (0, 0) => "nothing_in_common",
        (0, _) => "all_rejected",
        (_, 1) => "single_candidate",
        _ => "several_candidates",
    });
    for (a, b, rejected) in calls.lock().unwrap().iter() {
        w.count("preference_calls");
        let ok = cand.contains(b.as_str()) && a.as_ref().is_none_or(|a| cand.contains(a.as_str()));
        w.want(ok, "preference-asked-for-unavailable", || format!("{ctx}: prefer({a:?}, {b})"));
        let _ = rejected;
    }
    match r {
        Ok(s) => {
            let got = s.get_mechname().as_str().to_string();
            let fine = best.contains(&got.as_str()) && got != "X-FAIL";
            if !w.want(fine, "wrong-mechanism-selected", || format!("{ctx}, got {got}")) {
                return;
            }
            w.count(&format!("selected:{got}"));
            w.want(!s.has_security_layer(), "layer-before-start", || ctx.clone());
            if got == target {
                prove(w, rng, s, log, &got, sp, hs, &ctx);
            }
        }
        Err(e) => {
            let may = best.is_empty() || best.contains(&"X-FAIL");
            w.want(may, "no-session-although-available", || format!("{ctx}: {e:?}"));
            w.count("refused_to_start");
        }
    }
    w.sample(|| json!({"enabled": reg, "offered": off, "preference": order, "best": best, "rank": rank_seen as u64}));
}

fn server(w: &mut W, rng: &mut Rng) {
    let mut reg = registry(rng);
    let (inner, log) = Cb::new(Props::default());
    let cfg = SASLConfig::builder().with_registry(Registry::with_mechanisms(leak(&reg))).with_callback(inner).expect("harness: config");
    let srv = SASLServer::<V, HCb>::with_cb(cfg.clone(), HCb::default());
    let mut got: Vec<String> = srv.get_available().into_iter().map(|m| m.mechanism.as_str().to_string()).collect();
    let listed = got.clone();
    got.sort();
    got.dedup();
    let mut want: Vec<String> = reg.iter().filter(|n| **n != "X-CLIENT-ONLY").map(|s| s.to_string()).collect();
    want.sort();
    want.dedup();
    w.eval((&reg, "list"), true);
    w.want(got == want, "server-lists-wrong-mechanisms", || format!("enabled {reg:?}: lists {listed:?}"));
    let mut all: Vec<&str> = ALL.iter().chain(CUSTOM.iter()).chain(NOISE.iter()).chain(MANY[..4].iter()).copied().collect();
    rng.shuffle(&mut all);
    for n in all.into_iter().take(12) {
        w.eval((&reg, n), true);
        let s = SASLServer::<V, HCb>::with_cb(cfg.clone(), HCb::default()).start_suggested(name(n));
        let may = want.iter().any(|x| x == n) && n != "X-FAIL";
        match s {
            Ok(s) => {
                let g = s.get_mechname().as_str().to_string();
                w.want(may && g == n, "server-starts-wrong-mechanism", || format!("enabled {reg:?}, asked for {n}: started {g}"));
                w.count("server_started");
            }
            Err(e) => {
                w.want(!may, "server-refuses-enabled-mechanism", || format!("enabled {reg:?}, asked for {n}: {e:?}"));
                w.count("server_refused");
            }
        }
    }
    drop(log);
}

/// a name that is the other one, or nearly
fn near_name(rng: &mut Rng, n: &str) -> String {
    let mut s = n.to_string();
    match rng.below(4) {
        0 | 1 => {}
        2 => s.push('x'),
        _ => s = s.to_ascii_uppercase(),
    }
    s
}

/// the credentials helper
fn helper(w: &mut W, rng: &mut Rng) {
    let authid = crate::gen::prepped(rng, 40);
    let pw = crate::gen::prepped(rng, 60);
    let az = match rng.below(5) {
        0 => None,
        1 => Some(String::new()),
        2 => Some(near_name(rng, &authid)),
        _ => Some(crate::gen::prepped(rng, 30)),
    };
    let allowed: &[&str] = if az.is_some() {
        &["SCRAM-SHA-512", "SCRAM-SHA-256", "SCRAM-SHA-1", "PLAIN"]
    } else {
        &["SCRAM-SHA-512", "SCRAM-SHA-256", "SCRAM-SHA-1", "PLAIN", "LOGIN"]
    };
    let p = rng.range(1, 8);
    let mut off: Vec<&str> = ALL.iter().chain(NOISE.iter()).copied().filter(|_| rng.chance(p, 8)).collect();
    if rng.chance(1, 3) {
        off.retain(|n| !n.starts_with("SCRAM"));
    }
    rng.shuffle(&mut off);
    let cand: Vec<&str> = off.iter().copied().filter(|n| allowed.contains(n)).collect();
    let top = cand.iter().map(|n| rank(n)).max();
    let ctx = format!("with_credentials(authzid {az:?}) offered {off:?}");
    let cfg = match SASLConfig::with_credentials(az.clone(), authid.clone(), pw.clone()) {
        Ok(c) => c,
        Err(e) => {
            w.viol("credentials-helper-fails", format!("{ctx}: {e:?}"));
            return;
        }
    };
    w.eval((&off, &authid, &pw, &az), !cand.is_empty());
    let names: Vec<&Mechname> = off.iter().map(|n| name(n)).collect();
    match SASLClient::with_cb(cfg, HCb::default()).start_suggested(&names) {
        Err(e) => {
            w.want(cand.is_empty(), "no-session-although-available", || format!("{ctx}: {e:?}"));
            w.count("helper_refused");
        }
        Ok(s) => {
            let m = s.get_mechname().as_str().to_string();
            if !w.want(cand.contains(&&m[..]) && Some(rank(&m)) == top, "helper-selected-wrong-mechanism", || format!("{ctx}: {m}")) {
                return;
            }
            w.count(&format!("helper:{m}"));
            // and it authenticates as who it was told to
            let mut sp = Props::default();
            if m.starts_with("SCRAM") {
                let h = hash_of(&m);
                let k = crate::refimpl::keys(h, pw.as_bytes(), b"salt", 2);
                sp.stored.push(Stored2::of(&authid, 2, b"salt", &k));
            }
            let mut c = Party { s: Sess::C(unhook(s)), log: Log::default() };
            let mut srv = Party::server(&m, sp, HCb::default());
            let x = exchange(&mut c, &mut srv, |_, _, _| {});
            let v = srv.validation();
            let ok = x.c.is_fin() && x.s.is_fin();
            if az.as_deref() == Some("") && !ok && m.starts_with("SCRAM") {
                // an empty authorization id cannot be expressed in SCRAM: refusing is fine
                w.count("helper_empty_authzid_refused");
                return;
            }
            if !w.want(ok, &format!("helper-exchange-fails@{m}"), || format!("{ctx} {authid:?} {pw:?}: {}", x.show())) {
                return;
            }
            let same = v.as_ref().is_some_and(|v| {
                v.mech == m
                    && v.ctx.authid.as_deref() == Some(&authid)
                    && v.ctx.authzid.as_deref().unwrap_or("") == az.as_deref().unwrap_or("")
                    && (m.starts_with("SCRAM") || v.ctx.password.as_deref() == Some(pw.as_bytes()))
            });
            w.want(same, &format!("helper-wrong-identity@{m}"), || format!("{ctx} {authid:?} {pw:?}: server saw {v:?}"));
        }
    }
}
fn unhook(s: Session<rsasl::validate::NoValidation, HCb>) -> Session<rsasl::validate::NoValidation, HCb> {
    s
}

/// the default registry: whatever it enables is offered, ranked and startable
fn defaults(w: &mut W, rng: &mut Rng) {
    let (inner, _) = Cb::new(Props::default());
    let b = SASLConfig::builder();
    let cfg = if rng.chance(1, 2) { b.with_defaults().with_callback(inner) } else { b.with_default_mechanisms().with_callback(inner) };
    let cfg = cfg.expect("harness: config");
    let srv = SASLServer::<V>::new(cfg.clone());
    let l: Vec<String> = srv.get_available().into_iter().map(|m| m.mechanism.as_str().to_string()).collect();
    let set: BTreeSet<&str> = l.iter().map(String::as_str).collect();
    w.want(set.len() == l.len() && set.iter().all(|n| ALL.contains(n)), "default-registry", || format!("{l:?}"));
    let p = rng.range(1, 8);
    let mut off: Vec<&str> = ALL.iter().chain(NOISE.iter()).copied().filter(|_| rng.chance(p, 8)).collect();
    if rng.chance(1, 3) {
        off.retain(|n| !n.starts_with("SCRAM"));
    }
    rng.shuffle(&mut off);
    w.eval((&off, "defaults"), true);
    let cand: Vec<&str> = off.iter().copied().filter(|n| set.contains(n) && !n.ends_with("-PLUS")).collect();
    let top = cand.iter().map(|n| rank(n)).max();
    let names: Vec<&Mechname> = off.iter().map(|n| name(n)).collect();
    let s = SASLClient::new(cfg.clone()).start_suggested(&names);
    match s {
        Ok(s) => {
            let m = s.get_mechname().as_str().to_string();
            w.want(cand.contains(&&m[..]) && Some(rank(&m)) == top, "wrong-mechanism-selected", || format!("defaults offered {off:?}: {m}"));
            w.count(&format!("default:{m}"));
        }
        Err(e) => {
            w.want(cand.is_empty(), "no-session-although-available", || format!("defaults offered {off:?}: {e:?}"));
        }
    }
    for n in ALL {
        let s = SASLServer::<V>::new(cfg.clone()).start_suggested(name(n));
        w.want(s.is_ok() == set.contains(n), "server-starts-wrong-mechanism", || format!("defaults: {n} listed {l:?}"));
    }
}

pub fn run(r: &mut Run) {
    r.rule = "one evaluation = one attempt to start a session; distinct by registry, offer, preference and channel binding; non-trivial when something could be selected".into();
    r.assumptions = vec![
        "preference callbacks are strict total orders that may reject mechanisms; ties of the default ranking may go either way".into(),
        "custom mechanisms that cannot act as a client do not offer themselves for selection".into(),
    ];
    r.cases("client", r.n(400_000, 12_000_000), client);
    r.cases("server", r.n(40_000, 1_000_000), server);
    r.cases("helper", r.n(60_000, 2_000_000), helper);
    r.cases("defaults", r.n(20_000, 300_000), defaults);
    for k in ["several_candidates", "all_rejected", "nothing_in_common", "proved_by_exchange", "helper:LOGIN", "helper:PLAIN", "server_refused"] {
        r.require(k, 20);
    }
    for n in ALL {
        r.require(&format!("selected:{n}"), 20);
    }
}
