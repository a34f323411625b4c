//! C13: validation results are delivered exactly once and only for completed exchanges.
use crate::c10::Scen;
use crate::cb::{Ctx, Ev, HCb, OAns, VAct, ValOut, Refused};
use crate::drive::*;
use crate::gen;
use crate::prng::Rng;
use crate::probe;
use crate::report::{show, Run, W};
use rsasl::callback::{Context, SessionCallback, SessionData};
use rsasl::mechanism::{EmptyProvider, ThisProvider};
use rsasl::prelude::*;
use rsasl::property::AuthId;
use rsasl::validate::{NoValidation, Validate, ValidationError};
use serde_json::json;
use std::cell::{Cell, RefCell};
use std::rc::Rc;
use std::sync::Arc;

// ---- (A) programs over Validate -------------------------------------------------------------------------------
pub struct VA;
impl Validation for VA {
    type Value = String;
}
/// same value type as VA: only the validation type decides
pub struct VB;
impl Validation for VB {
    type Value = String;
}
pub struct VC;
impl Validation for VC {
    type Value = Arc<u64>;
}
/// a value that is itself optional
pub struct VD;
impl Validation for VD {
    type Value = Option<u8>;
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
enum T {
    A,
    B,
    C,
    D,
    /// types with one name
    E,
    F,
    No,
}
const TS: [T; 7] = [T::A, T::B, T::C, T::D, T::E, T::F, T::No];
#[derive(Clone, Debug, Hash)]
enum Op {
    Finalize(T, u32),
    With(T, u32, bool, bool), // value, closure fails, propagate
    Is(T),
    Ctx,
}
#[derive(Clone, Debug, Hash, Default)]
struct Prog {
    ops: Vec<Op>,
    fails: bool,
}
thread_local! {
    static PROGS: RefCell<Vec<Prog>> = const { RefCell::new(vec![]) };
    static AT: Cell<usize> = const { Cell::new(0) };
    static OBS: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
}
fn obs(s: String) {
    OBS.with(|o| o.borrow_mut().push(s));
}
fn verr() -> ValidationError {
    if AT.with(Cell::get) % 3 == 1 {
        return ValidationError::MissingRequiredProperty;
    }
    ValidationError::Boxed(Box::new(Refused))
}
macro_rules! ty {
    ($t:expr, $n:expr, |$V:ident, $v:ident| $e:expr) => {
        match $t {
            T::A => { type $V = VA; let $v = format!("a{}", $n); $e }
            T::B => { type $V = VB; let $v = format!("b{}", $n); $e }
            T::C => { type $V = VC; let $v = Arc::new(<u64 as From<u32>>::from($n)); $e }
            T::D => { type $V = VD; let $v = ($n % 3 != 0).then_some($n as u8); $e }
            T::E => { type $V = crate::twin::Tw0; let $v = format!("e{}", $n); $e }
            T::F => { type $V = crate::twin::Tw1; let $v = format!("f{}", $n); $e }
            T::No => { type $V = NoValidation; let $v = { let _ = $n; }; $e }
        }
    };
}
fn canon(t: T, n: u32) -> String {
    ty!(t, n, |_V, v| format!("{v:?}"))
}
struct PCb;
impl SessionCallback for PCb {
    fn validate(&self, sd: &SessionData, ctx: &Context, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        let at = AT.with(|a| a.replace(a.get() + 1));
        let p = PROGS.with(|p| p.borrow().get(at).cloned()).unwrap_or_default();
        obs(format!("call {at} {:?} {}", sd.side(), sd.mechanism().mechanism));
        for op in &p.ops {
            match op {
                Op::Finalize(t, n) => {
                    #[allow(clippy::let_unit_value)]
                    {
                        ty!(*t, *n, |V, x| v.finalize::<V>(x));
                    }
                }
                Op::With(t, n, fail, prop) => {
                    let evals = Cell::new(0);
                    #[allow(clippy::let_unit_value)]
                    let r = ty!(*t, *n, |V, x| v
                        .with::<V, _>(|| {
                            evals.set(evals.get() + 1);
                            if *fail {
                                Err(verr())
                            } else {
                                Ok(x)
                            }
                        })
                        .map(|_| ()));
                    obs(format!("with {} {}", r.is_ok(), evals.get()));
                    if *prop {
                        r?;
                    }
                }
                Op::Is(t) => {
                    #[allow(unused_variables, clippy::let_unit_value)]
                    let b = ty!(*t, 0u32, |V, x| v.is::<V>());
                    obs(format!("is {b}"));
                }
                Op::Ctx => obs(format!("ctx {:?}", ctx.get_ref::<AuthId>())),
            }
        }
        if p.fails {
            return Err(verr());
        }
        Ok(())
    }
}
/// model: returns whether the callback succeeds
fn model(own: T, at: usize, p: &Prog, who: &str, val: &mut Option<String>, out: &mut Vec<String>) -> bool {
    out.push(format!("call {at} {who} X-PROBE"));
    for op in &p.ops {
        match op {
            Op::Finalize(t, n) => {
                if *t == own && val.is_none() {
                    *val = Some(canon(*t, *n));
                }
            }
            Op::With(t, n, fail, prop) => {
                let runs = *t == own && val.is_none();
                let ok = !(runs && *fail);
                out.push(format!("with {ok} {}", usize::from(runs)));
                if runs && ok {
                    *val = Some(canon(*t, *n));
                }
                if !ok && *prop {
                    return false;
                }
            }
            Op::Is(t) => out.push(format!("is {}", *t == own)),
            Op::Ctx => out.push(format!("ctx {:?}", (at % 2 == 0).then(|| format!("id{at}")))),
        }
    }
    !p.fails
}
fn drive_v<V: Validation>(server: bool, steps: usize, show: fn(V::Value) -> String, takes: &[bool]) -> (Vec<bool>, Vec<Option<String>>) {
    static REG: [Mechanism; 1] = [probe::PROBE];
    let cfg = SASLConfig::builder().with_registry(Registry::with_mechanisms(&REG)).with_callback(PCb).expect("harness");
    let n = name("X-PROBE");
    let mut res = vec![];
    let mut got = vec![];
    let mut sink = Vec::new();
    if server {
        let mut s = SASLServer::<V>::new(cfg).start_suggested(n).expect("harness");
        got.push(s.validation().map(show));
        for i in 0..steps {
            res.push(s.step(Some(b"x"), &mut sink).is_ok());
            if takes[i] {
                got.push(s.validation().map(show));
                got.push(s.validation().map(show));
            }
        }
        got.push(s.validation().map(show));
        got.push(s.validation().map(show));
    } else {
        let mut s = SASLClient::new(cfg).start_suggested(&[n]).expect("harness");
        for i in 0..steps {
            res.push(s.step(Some(b"x"), &mut sink).is_ok());
            if takes[i] {
                let v: Option<()> = s.validation();
                got.push(v.map(|v| format!("{v:?}")));
            }
        }
        let v: Option<()> = s.validation();
        got.push(v.map(|v| format!("{v:?}")));
    }
    (res, got)
}
fn program(w: &mut W, rng: &mut Rng) {
    let own = *rng.pick(&TS);
    let server = own != T::No || rng.chance(1, 2);
    // steps, and validate calls within each step
    let plan: Vec<usize> = (0..rng.range(1, 4)).map(|_| *rng.pick(&[1, 1, 1, 0, 2])).collect();
    let total: usize = plan.iter().sum();
    let progs: Vec<Prog> = (0..total)
        .map(|_| Prog {
            ops: (0..rng.below(6))
                .map(|_| {
                    let t = if rng.chance(1, 2) { own } else { *rng.pick(&TS) };
                    let n = rng.u64() as u32;
                    match rng.below(5) {
                        0 | 1 => Op::Finalize(t, n),
                        2 => Op::With(t, n, rng.chance(1, 3), rng.chance(1, 2)),
                        3 => Op::Is(t),
                        _ => Op::Ctx,
                    }
                })
                .collect(),
            fails: rng.chance(1, 8),
        })
        .collect();
    let takes: Vec<bool> = plan.iter().map(|_| rng.chance(1, 3)).collect();
    PROGS.with(|p| *p.borrow_mut() = progs.clone());
    AT.with(|a| a.set(0));
    OBS.with(|o| o.borrow_mut().clear());
    let pl = Rc::new(RefCell::new(plan.clone().into_iter()));
    let calls = Rc::new(Cell::new(0usize));
    probe::set_step(move |d, _, _| {
        for _ in 0..pl.borrow_mut().next().unwrap_or(0) {
            let at = calls.replace(calls.get() + 1);
            if at % 2 == 0 {
                let id = format!("id{at}");
                d.validate(&ThisProvider::<AuthId>::with(&id))?;
            } else {
                d.validate(&EmptyProvider)?;
            }
        }
        Ok(State::Running)
    });
    let (res, got) = match own {
        T::A => drive_v::<VA>(server, plan.len(), |v| format!("{v:?}"), &takes),
        T::B => drive_v::<VB>(server, plan.len(), |v| format!("{v:?}"), &takes),
        T::C => drive_v::<VC>(server, plan.len(), |v| format!("{v:?}"), &takes),
        T::D => drive_v::<VD>(server, plan.len(), |v| format!("{v:?}"), &takes),
        T::E => drive_v::<crate::twin::Tw0>(server, plan.len(), |v| format!("{v:?}"), &takes),
        T::F => drive_v::<crate::twin::Tw1>(server, plan.len(), |v| format!("{v:?}"), &takes),
        T::No => drive_v::<NoValidation>(server, plan.len(), |v| format!("{v:?}"), &takes),
    };
    // model
    let who = if server { "Server" } else { "Client" };
    let mut val = None;
    let (mut mres, mut mgot, mut mobs) = (vec![], vec![], vec![]);
    if server {
        mgot.push(None);
    }
    let mut at = 0;
    let mut pi = 0;
    for (i, k) in plan.iter().enumerate() {
        let mut ok = true;
        for _ in 0..*k {
            // the custom mechanism counts its own calls, the callback counts invocations: equal here
            let p = progs.get(pi).cloned().unwrap_or_default();
            pi += 1;
            ok = model(own, at, &p, who, &mut val, &mut mobs);
            at += 1;
            if !ok {
                break;
            }
        }
        mres.push(ok);
        if takes[i] {
            mgot.push(val.take());
            if server {
                mgot.push(None);
            }
        }
    }
    mgot.push(val.take());
    if server {
        mgot.push(None);
    }
    let o = OBS.with(|o| o.borrow().clone());
    w.eval((own, server, &plan, &progs, &takes), total > 0);
    w.add("programs", total as u64);
    let ctx = || format!("own type {own:?} server {server} plan {plan:?} take {takes:?} programs {progs:?}:\n observed {o:?} steps {res:?} values {got:?}\n expected {mobs:?} steps {mres:?} values {mgot:?}");
    w.want(o == mobs, "validate-operations", ctx);
    w.want(res == mres, "validate-error-lost", ctx);
    w.want(got == mgot, "validation-value", ctx);
    w.add("values_delivered", got.iter().flatten().count() as u64);
}

// ---- (B) exchanges of real mechanisms -------------------------------------------------------------------------
fn expected_ctx(m: &str, sc: &Scen) -> Ctx {
    let mut c = Ctx::default();
    let p = &sc.c;
    match m {
        "PLAIN" => {
            c.authid = p.authid.clone();
            c.authzid = p.authzid.clone();
            c.password = p.password.clone();
        }
        "LOGIN" => {
            c.authid = p.authid.clone();
            c.password = p.password.clone();
        }
        "ANONYMOUS" => c.anon = Some(p.anon.clone().unwrap_or_default()),
        "EXTERNAL" => c.authzid = p.authzid.clone(),
        "XOAUTH2" => {
            c.authid = p.authid.clone();
            c.token = p.token.clone();
        }
        "OAUTHBEARER" => {
            c.authzid = p.authzid.clone();
            c.token = p.token.clone();
            c.kv = Some(p.kv.clone().unwrap_or_default());
        }
        _ => {
            c.authid = p.authid.clone();
            c.authzid = p.authzid.clone();
        }
    }
    c
}
fn same_ctx(m: &str, want: &Ctx, got: &Ctx) -> bool {
    let e = |x: &Option<String>| x.clone().unwrap_or_default();
    let scram = m.starts_with("SCRAM");
    want.authid == got.authid && e(&want.authzid) == e(&got.authzid) && want.token == got.token && want.anon == got.anon
        && (scram || want.password == got.password)
        && (m != "OAUTHBEARER" || want.kv.clone().unwrap_or_default() == got.kv.clone().unwrap_or_default())
        && (!scram || got.password.is_none())
}
fn real(w: &mut W, rng: &mut Rng) {
    let m = ALL[(w.case as usize) % ALL.len()];
    let scram = m.starts_with("SCRAM");
    let mut sc = Scen::random(m, rng, rng.clone().below(4));
    match rng.below(5) {
        0 => sc.s.validate = VAct::Nothing,
        1 => sc.s.validate = VAct::Fail(rng.below(3)),
        _ => {}
    }
    if rng.chance(1, 10) {
        sc.s.oauth = OAns::Silent;
        sc.s.xoauth = OAns::Silent;
    }
    // what happens to the exchange: nothing, message altered, callback error, missing property
    let tamper = rng.below(4);
    let mut at = rng.below(3) * 2;
    if m == "LOGIN" {
        at = 1 + 2 * rng.below(2);
    }
    if tamper == 2 {
        sc.s.inject = Some((rng.below(3), rng.below(crate::cb::N_ERRS)));
    }
    let (mut c, mut s) = sc.parties();
    let six = rng.chance(1, 4);
    let mut tampered = false;
    let mut first_bytes = vec![];
    let mut ex_steps: Vec<(bool, R, Vec<u8>, usize)> = vec![];
    let mut server = s.first();
    let mut input: Option<Vec<u8>> = None;
    let (mut cr, mut sr) = (R::Run, R::Run);
    let mut early: Vec<(usize, bool)> = vec![];
    for i in 0..8 {
        let p = if server { &mut s } else { &mut c };
        let o = if six {
            let e = input.as_ref().map(|i| crate::refimpl::b64(i));
            let mut o = p.step64(e.as_deref());
            o.bytes = crate::refimpl::unb64(&o.bytes).unwrap_or(o.bytes);
            o
        } else {
            p.step(input.as_deref())
        };
        ex_steps.push((server, o.r.clone(), o.bytes.clone(), o.validates()));
        if server {
            sr = o.r.clone();
            // nothing is delivered before the exchange got that far
            if o.r == R::Run && o.validates() == 0 {
                early.push((i, s.validation().is_some()));
            }
        } else {
            cr = o.r.clone();
        }
        if o.r.is_err() || o.r == R::FinNo {
            break;
        }
        if (server && cr.is_fin()) || (!server && sr.is_fin()) {
            break;
        }
        let mut b = o.bytes;
        if i == at && tamper == 1 {
            let e = gen::mutate(rng, &b);
            tampered = e != b;
            b = e;
        }
        if i == 0 {
            first_bytes = b.clone();
        }
        input = Some(b);
        server = !server;
    }
    let _ = first_bytes;
    let sev = s.events();
    let vs: Vec<&Ev> = sev.iter().filter(|e| e.is_validate()).collect();
    let cv = c.events().iter().filter(|e| e.is_validate()).count();
    let v1 = s.validation();
    let v2 = s.validation();
    let d = || {
        format!("{m} ({}, validate {:?}, tampered {tampered}, inject {:?}): {:?}; validate calls {vs:?}; values {v1:?} {v2:?}", sc.what, sc.s.validate, sc.s.inject,
            ex_steps.iter().map(|x| (if x.0 { "S" } else { "C" }, &x.1, show(&x.2), x.3)).collect::<Vec<_>>())
    };
    w.eval((m, sc.what, &sc.s.validate, tamper, at, &sc.s.inject, w.case), true);
    w.want(cv == 0 && c.validation().is_none(), &format!("client-validates@{m}"), d);
    w.want(vs.len() <= 1, &format!("validated-twice@{m}"), d);
    w.want(v2.is_none(), &format!("value-delivered-twice@{m}"), d);
    w.want(early.iter().all(|e| !e.1), &format!("early-value@{m}"), d);
    w.add("validate_calls", vs.len() as u64);
    let last = ex_steps.iter().rev().find(|x| x.0);
    // did the server's last step complete the exchange for the server?
    let rejected = matches!((&sc.s.oauth, m), (OAns::Reject(..), "XOAUTH2" | "OAUTHBEARER"));
    let proven = !scram || last.is_some_and(|l| l.2.starts_with(b"v="));
    // (an OAuth server validates in the step that rejects the token)
    let complete = (sr.is_fin() && proven) || (rejected && ex_steps.iter().any(|x| x.0 && x.1 == R::Run));
    if complete {
        w.count(&format!("complete:{m}"));
        w.want(vs.len() == 1, &format!("not-validated@{m}"), d);
        w.want(!matches!(sc.s.validate, VAct::Fail(_)), &format!("validation-failure-ignored@{m}"), d);
    } else if sr.is_err() {
        w.count("server_errors");
        if vs.len() == 1 {
            w.want(matches!(sc.s.validate, VAct::Fail(_)), &format!("validated-failed-exchange@{m}"), d);
            w.count("failing_validate");
        }
    } else {
        // SCRAM failure message, or the exchange was cut short
        w.want(vs.is_empty(), &format!("validated-unproven-exchange@{m}"), d);
        w.count("incomplete");
    }
    if let [Ev::Validate { ctx, mech, server }] = vs[..] {
        w.want(*mech == m && *server, &format!("wrong-session-data@{m}"), d);
        if !tampered {
            let want = expected_ctx(m, &sc);
            w.want(same_ctx(m, &want, ctx), &format!("validate-sees-other-data@{m}"), || format!("{} expected {want:?}", d()));
        }
        match sc.s.validate {
            VAct::Set => {
                let want = ValOut { ctx: ctx.clone(), mech: m.to_string() };
                w.want(v1.as_ref() == Some(&want), &format!("value-lost@{m}"), d);
                w.count("values");
            }
            _ => {
                w.want(v1.is_none(), &format!("value-from-nowhere@{m}"), d);
            }
        }
    } else {
        w.want(v1.is_none(), &format!("value-without-validation@{m}"), d);
    }
    w.sample(|| json!({"mech": m, "trace": d()}));
    let _ = HCb::default();
}

pub fn run(r: &mut Run) {
    assert!(crate::twin::check(), "harness: the twins differ in name");
    r.rule = "one evaluation = one program of validation operations, or one (honest, tampered, failing or refused) exchange; distinct by content".into();
    r.assumptions = vec![
        "an OAuth server validates in the step in which it rejects a token, too (documented in the mechanism)".into(),
        "a session's validation() may only be Some after the validate callback ran".into(),
    ];
    r.cases("program", r.n(400_000, 16_000_000), program);
    r.cases("real", r.n(240_000, 9_000_000), real);
    for m in ALL {
        r.require(&format!("complete:{m}"), 500);
    }
    for k in ["failing_validate", "server_errors", "incomplete", "values", "values_delivered"] {
        r.require(k, 1000);
    }
    crate::c18::gss_share(r, &["gss-server-validation", "gss-validation-result", "gss-client-validates", "gss-validates-failed", "gss-server-accepts-choice"], 40_000);
}
