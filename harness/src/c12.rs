//! C12: callback requests are answered exactly as the callback decided.
use crate::cb::{inj_err, Ev, HCb, Props, N_ERRS};
use crate::drive::*;
use crate::gen;
use crate::prng::Rng;
use crate::probe;
use crate::twin::{Tw0, Tw1, Tw2};
use crate::report::{show, Run, W};
use rsasl::callback::{CallbackError, Context, Request, SessionCallback, SessionData};
use rsasl::mechanism::{Demand, DemandReply, EmptyProvider, MechanismData, Provider, ProviderExt, ThisProvider};
use rsasl::mechanisms::scram::properties::{Iterations, ScramStoredPassword};
use rsasl::prelude::*;
use rsasl::property::*;
use rsasl::registry::Side;
use rsasl::validate::{Validate, ValidationError};
use serde_json::json;
use std::cell::RefCell;
use std::collections::VecDeque;
use std::rc::Rc;
use std::sync::{Arc, OnceLock};

pub struct MyStr;
impl Property<'_> for MyStr {
    type Value = str;
}
pub struct MyNum;
impl SizedProperty<'_> for MyNum {
    type Value = u64;
}
pub struct MyLt;
impl<'a> SizedProperty<'a> for MyLt {
    type Value = (&'a str, u8);
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum K {
    AuthId,
    AuthzId,
    Realm,
    Token,
    Hostname,
    Password,
    Cb,
    Kv,
    Iter,
    Stored,
    MyStr,
    MyNum,
    MyLt,
    CbName,
    Tw0,
    Tw1,
    Tw2,
}
const KINDS: [K; 17] = [
    K::AuthId, K::AuthzId, K::Realm, K::Token, K::Hostname, K::Password, K::Cb, K::Kv, K::Iter, K::Stored, K::MyStr, K::MyNum, K::MyLt, K::CbName, K::Tw0,
    K::Tw1, K::Tw2,
];
const SIZED: [K; 3] = [K::Iter, K::MyNum, K::MyLt];

#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Val {
    s: String,
    b: Vec<u8>,
    n: u32,
    kv: Vec<(String, String)>,
}
fn val(rng: &mut Rng) -> Val {
    Val {
        s: gen::nasty(rng),
        b: gen::blob(rng, 60),
        n: rng.u64() as u32,
        kv: (0..rng.below(4)).map(|_| (gen::nasty(rng), gen::nasty(rng))).collect(),
    }
}
// canonical forms of the values of each property
fn c_kv(v: &[(&str, &str)]) -> Vec<u8> {
    format!("{v:?}").into_bytes()
}
fn c_st(v: &ScramStoredPassword) -> Vec<u8> {
    format!("{} {:?} {:?} {:?}", v.iterations, v.salt, v.stored_key, v.server_key).into_bytes()
}
fn canon(k: K, v: &Val) -> Vec<u8> {
    match k {
        K::AuthId | K::AuthzId | K::Realm | K::Token | K::Hostname | K::MyStr | K::CbName | K::Tw0 | K::Tw1 => v.s.clone().into_bytes(),
        K::Password | K::Cb | K::Tw2 => v.b.clone(),
        K::Kv => c_kv(&v.kv.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect::<Vec<_>>()),
        K::Iter => v.n.to_be_bytes().to_vec(),
        K::Stored => c_st(&ScramStoredPassword::new(v.n, &v.b, v.s.as_bytes(), &v.b)),
        K::MyNum => (u64::from(v.n) << 7).to_be_bytes().to_vec(),
        K::MyLt => [v.s.as_bytes(), &[v.n as u8]].concat(),
    }
}
macro_rules! kinds {
    ($k:expr, $v:expr, |$t:ident, $r:ident| $e:expr) => {{
        let v: &Val = $v;
        match $k {
            K::AuthId => { type $t = AuthId; let $r: &str = &v.s; $e }
            K::AuthzId => { type $t = AuthzId; let $r: &str = &v.s; $e }
            K::Realm => { type $t = Realm; let $r: &str = &v.s; $e }
            K::Token => { type $t = OAuthBearerToken; let $r: &str = &v.s; $e }
            K::Hostname => { type $t = Hostname; let $r: &str = &v.s; $e }
            K::MyStr => { type $t = MyStr; let $r: &str = &v.s; $e }
            K::CbName => { type $t = ChannelBindingName; let $r: &str = &v.s; $e }
            K::Tw0 => { type $t = Tw0; let $r: &str = &v.s; $e }
            K::Tw1 => { type $t = Tw1; let $r: &str = &v.s; $e }
            K::Tw2 => { type $t = Tw2; let $r: &[u8] = &v.b; $e }
            K::Password => { type $t = Password; let $r: &[u8] = &v.b; $e }
            K::Cb => { type $t = ChannelBindings; let $r: &[u8] = &v.b; $e }
            K::Kv => { type $t = OAuthBearerKV; let x: Vec<(&str, &str)> = v.kv.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect(); let $r: &[(&str, &str)] = &x; $e }
            K::Iter => { type $t = Iterations; let $r: &u32 = &v.n; $e }
            K::Stored => { type $t = ScramStoredPassword<'static>; let x = ScramStoredPassword::new(v.n, &v.b, v.s.as_bytes(), &v.b); let $r = &x; $e }
            K::MyNum => { type $t = MyNum; let x = u64::from(v.n) << 7; let $r: &u64 = &x; $e }
            K::MyLt => { type $t = MyLt; let x = (v.s.as_str(), v.n as u8); let $r: &(&str, u8) = &x; $e }
        }
    }};
}
fn is(req: &Request, k: K) -> bool {
    kinds!(k, &Val::default(), |T, _r| req.is::<T>())
}
fn sat(req: &mut Request, k: K, v: &Val) -> Result<(), SessionError> {
    kinds!(k, v, |T, r| req.satisfy::<T>(r).map(|_| ()))
}
fn sat_with(req: &mut Request, k: K, v: &Val, fail: Option<usize>, evals: &mut usize) -> Result<(), SessionError> {
    *evals = 0;
    macro_rules! w {
        ($t:ty, $e:expr) => {
            req.satisfy_with::<$t, _>(|| {
                *evals += 1;
                match fail {
                    Some(f) => Err(inj_err(f)),
                    None => Ok($e),
                }
            })
            .map(|_| ())
        };
    }
    match k {
        K::Iter => w!(Iterations, v.n),
        K::MyNum => w!(MyNum, u64::from(v.n) << 7),
        _ => w!(MyLt, (v.s.as_str(), v.n as u8)),
    }
}
macro_rules! canon_of {
    ($k:expr, |$t:ident| $get:expr) => {
        match $k {
            K::AuthId => { type $t = AuthId; $get.map(|v: &str| v.as_bytes().to_vec()) }
            K::AuthzId => { type $t = AuthzId; $get.map(|v: &str| v.as_bytes().to_vec()) }
            K::Realm => { type $t = Realm; $get.map(|v: &str| v.as_bytes().to_vec()) }
            K::Token => { type $t = OAuthBearerToken; $get.map(|v: &str| v.as_bytes().to_vec()) }
            K::Hostname => { type $t = Hostname; $get.map(|v: &str| v.as_bytes().to_vec()) }
            K::MyStr => { type $t = MyStr; $get.map(|v: &str| v.as_bytes().to_vec()) }
            K::CbName => { type $t = ChannelBindingName; $get.map(|v: &str| v.as_bytes().to_vec()) }
            K::Tw0 => { type $t = Tw0; $get.map(|v: &str| v.as_bytes().to_vec()) }
            K::Tw1 => { type $t = Tw1; $get.map(|v: &str| v.as_bytes().to_vec()) }
            K::Tw2 => { type $t = Tw2; $get.map(|v: &[u8]| v.to_vec()) }
            K::Password => { type $t = Password; $get.map(|v: &[u8]| v.to_vec()) }
            K::Cb => { type $t = ChannelBindings; $get.map(|v: &[u8]| v.to_vec()) }
            K::Kv => { type $t = OAuthBearerKV; $get.map(|v: &[(&str, &str)]| c_kv(v)) }
            K::Iter => { type $t = Iterations; $get.map(|v: &u32| v.to_be_bytes().to_vec()) }
            K::Stored => { type $t = ScramStoredPassword<'static>; $get.map(|v: &ScramStoredPassword| c_st(v)) }
            K::MyNum => { type $t = MyNum; $get.map(|v: &u64| v.to_be_bytes().to_vec()) }
            K::MyLt => { type $t = MyLt; $get.map(|v: &(&str, u8)| [v.0.as_bytes(), &[v.1]].concat()) }
        }
    };
}
fn get_action(req: &mut Request, k: K) -> Option<Vec<u8>> {
    canon_of!(k, |T| req.get_action::<T>())
}
fn ctx_get(c: &Context, k: K) -> Option<Vec<u8>> {
    canon_of!(k, |T| c.get_ref::<T>())
}

#[derive(Clone, Debug, Hash)]
enum Op {
    Sat(K, Val, bool),
    SatWith(K, Val, Option<usize>, bool),
    Get(K),
    Is(K),
    Ctx(K),
}
#[derive(Clone, Debug, Hash)]
enum End {
    Ok,
    NoValue,
    Err(usize),
}
#[derive(Clone, Debug, Hash)]
struct Prog {
    ops: Vec<Op>,
    end: End,
}
#[derive(Clone, Debug, PartialEq, Eq)]
enum Obs {
    /// Ok(()) or any error
    Res(bool),
    ResEvals(bool, usize),
    Bytes(Option<Vec<u8>>),
    Bool(bool),
    Who(String, bool),
    Call,
}
thread_local! {
    static PROGS: RefCell<VecDeque<Prog>> = const { RefCell::new(VecDeque::new()) };
    static OBS: RefCell<Vec<Obs>> = const { RefCell::new(vec![]) };
}
fn obs(o: Obs) {
    OBS.with(|x| x.borrow_mut().push(o));
}
struct TlCb;
impl SessionCallback for TlCb {
    fn callback(&self, sd: &SessionData, c: &Context, req: &mut Request) -> Result<(), SessionError> {
        obs(Obs::Call);
        obs(Obs::Who(sd.mechanism().mechanism.as_str().into(), sd.side() == Side::Server));
        let Some(p) = PROGS.with(|p| p.borrow_mut().pop_front()) else {
            return Ok(());
        };
        for op in &p.ops {
            match op {
                Op::Sat(k, v, prop) => {
                    let r = sat(req, *k, v);
                    obs(Obs::Res(r.is_ok()));
                    if *prop {
                        r?;
                    }
                }
                Op::SatWith(k, v, f, prop) => {
                    let mut n = 0;
                    let r = sat_with(req, *k, v, *f, &mut n);
                    obs(Obs::ResEvals(r.is_ok(), n));
                    if *prop {
                        r?;
                    }
                }
                Op::Get(k) => obs(Obs::Bytes(get_action(req, *k))),
                Op::Is(k) => obs(Obs::Bool(is(req, *k))),
                Op::Ctx(k) => obs(Obs::Bytes(ctx_get(c, *k))),
            }
        }
        match p.end {
            End::Ok => Ok(()),
            End::NoValue => Err(CallbackError::NoValue.into()),
            End::Err(k) => Err(inj_err(k)),
        }
    }
    fn validate(&self, sd: &SessionData, c: &Context, _v: &mut Validate<'_>) -> Result<(), ValidationError> {
        obs(Obs::Call);
        obs(Obs::Who(sd.mechanism().mechanism.as_str().into(), sd.side() == Side::Server));
        let Some(p) = PROGS.with(|p| p.borrow_mut().pop_front()) else {
            return Ok(());
        };
        for op in &p.ops {
            if let Op::Ctx(k) = op {
                obs(Obs::Bytes(ctx_get(c, *k)));
            }
        }
        match p.end {
            End::Err(_) => Err(ValidationError::MissingRequiredProperty),
            _ => Ok(()),
        }
    }
}

/// a provider with any number of values; earlier ones win
struct VecProv<'a>(&'a [(K, Val, Held<'a>)]);
/// values which have to be stored somewhere to be lent
pub enum Held<'a> {
    None,
    Kv(Vec<(&'a str, &'a str)>),
    St(ScramStoredPassword<'a>),
    N(u64),
    L((&'a str, u8)),
}
impl<'a> Provider<'a> for VecProv<'a> {
    fn provide(&self, d: &mut Demand<'a>) -> DemandReply<()> {
        for (k, v, h) in self.0 {
            match (k, h) {
                (K::AuthId, _) => d.provide_ref::<AuthId>(&v.s)?,
                (K::AuthzId, _) => d.provide_ref::<AuthzId>(&v.s)?,
                (K::Realm, _) => d.provide_ref::<Realm>(&v.s)?,
                (K::Token, _) => d.provide_ref::<OAuthBearerToken>(&v.s)?,
                (K::Hostname, _) => d.provide_ref::<Hostname>(&v.s)?,
                (K::MyStr, _) => d.provide_ref::<MyStr>(&v.s)?,
                (K::CbName, _) => d.provide_ref::<ChannelBindingName>(&v.s)?,
                (K::Tw0, _) => d.provide_ref::<Tw0>(&v.s)?,
                (K::Tw1, _) => d.provide_ref::<Tw1>(&v.s)?,
                (K::Tw2, _) => d.provide_ref::<Tw2>(&v.b)?,
                (K::Password, _) => d.provide_ref::<Password>(&v.b)?,
                (K::Cb, _) => d.provide_ref::<ChannelBindings>(&v.b)?,
                (K::Iter, _) => d.provide_ref::<Iterations>(&v.n)?,
                (K::Kv, Held::Kv(x)) => d.provide_ref::<OAuthBearerKV>(x)?,
                (K::Stored, Held::St(x)) => d.provide_ref::<ScramStoredPassword<'static>>(x)?,
                (K::MyNum, Held::N(x)) => d.provide_ref::<MyNum>(x)?,
                (K::MyLt, Held::L(x)) => d.provide_ref::<MyLt>(x)?,
                _ => unreachable!("harness: held value"),
            };
        }
        d.done()
    }
}
type Items = Vec<(K, Val)>;
/// how the values are handed over
#[derive(Clone, Debug, Hash)]
struct Ctxt {
    shape: usize,
    items: Items,
}
fn with_prov<R>(c: &Ctxt, f: impl FnOnce(&dyn Provider) -> R) -> R {
    let held: Vec<(K, Val, Held)> = c
        .items
        .iter()
        .map(|(k, v)| {
            let h = match k {
                K::Kv => Held::Kv(v.kv.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect()),
                K::Stored => Held::St(ScramStoredPassword::new(v.n, &v.b, v.s.as_bytes(), &v.b)),
                K::MyNum => Held::N(u64::from(v.n) << 7),
                K::MyLt => Held::L((v.s.as_str(), v.n as u8)),
                _ => Held::None,
            };
            (*k, v.clone(), h)
        })
        .collect();
    let n = held.len();
    match c.shape {
        0 => f(&VecProv(&held)),
        1 => f(&VecProv(&held[..n / 2]).and(VecProv(&held[n / 2..]))),
        2 => f(&EmptyProvider.and(VecProv(&held)).and(EmptyProvider)),
        3 => f(&VecProv(&held[..n / 3]).and(VecProv(&held[n / 3..n / 2])).and(EmptyProvider.and(VecProv(&held[n / 2..])))),
        _ => match &held[..] {
            // the library's own single value provider in front
            [(K::AuthId, v, _), rest @ ..] => f(&ThisProvider::<AuthId>::with(&v.s).and(VecProv(rest))),
            [(K::Password, v, _), rest @ ..] => f(&ThisProvider::<Password>::with(&v.b).and(VecProv(rest))),
            [(K::Iter, v, _), rest @ ..] => f(&ThisProvider::<Iterations>::with(&v.n).and(VecProv(rest))),
            [(K::MyStr, v, _), rest @ ..] => f(&EmptyProvider.and(ThisProvider::<MyStr>::with(&v.s)).and(VecProv(rest))),
            [(K::Stored, _, Held::St(x)), rest @ ..] => {
                f(&ThisProvider::<ScramStoredPassword<'static>>::with(x).and(VecProv(rest)))
            }
            [rest @ .., (K::AuthId, v, _)] => f(&VecProv(rest).and(ThisProvider::<AuthId>::with(&v.s))),
            _ => f(&VecProv(&held)),
        },
    }
}
fn look(c: &[(K, Val)], k: K) -> Option<Vec<u8>> {
    c.iter().find(|(x, _)| *x == k).map(|(_, v)| canon(k, v))
}

#[derive(Clone, Debug, Hash)]
enum MOp {
    /// kind, required, the mechanism's closure fails
    Need(K, bool, bool),
    Action(K, Val),
    CbData(String, bool, bool),
    Validate,
}
#[derive(Clone, Debug, PartialEq, Eq)]
enum Got {
    Val(Vec<u8>),
    Absent,
    Done,
    Err(String),
}
fn dbg(e: &SessionError) -> String {
    format!("{e:?}")
}
fn closure_err() -> SessionError {
    SessionError::MissingChannelBindingData("from the mechanism's closure".into())
}
fn perform(d: &mut MechanismData, m: &MOp, c: &Ctxt, calls: &RefCell<usize>) -> Got {
    with_prov(c, |p| match m {
        MOp::Need(k, required, fail) => {
            macro_rules! n {
                ($t:ty, |$v:ident| $c:expr) => {{
                    let f = |$v: &<$t as Property<'_>>::Value| {
                        *calls.borrow_mut() += 1;
                        if *fail {
                            return Err(closure_err());
                        }
                        Ok($c)
                    };
                    if *required {
                        d.need_with::<$t, _, Vec<u8>>(p, f).map(Some)
                    } else {
                        d.maybe_need_with::<$t, _, Vec<u8>>(p, f)
                    }
                }};
            }
            let r = match k {
                K::AuthId => n!(AuthId, |v| v.as_bytes().to_vec()),
                K::AuthzId => n!(AuthzId, |v| v.as_bytes().to_vec()),
                K::Realm => n!(Realm, |v| v.as_bytes().to_vec()),
                K::Token => n!(OAuthBearerToken, |v| v.as_bytes().to_vec()),
                K::Hostname => n!(Hostname, |v| v.as_bytes().to_vec()),
                K::MyStr => n!(MyStr, |v| v.as_bytes().to_vec()),
                K::CbName => n!(ChannelBindingName, |v| v.as_bytes().to_vec()),
                K::Tw0 => n!(Tw0, |v| v.as_bytes().to_vec()),
                K::Tw1 => n!(Tw1, |v| v.as_bytes().to_vec()),
                K::Tw2 => n!(Tw2, |v| v.to_vec()),
                K::Password => n!(Password, |v| v.to_vec()),
                K::Cb => n!(ChannelBindings, |v| v.to_vec()),
                K::Kv => n!(OAuthBearerKV, |v| c_kv(v)),
                K::Iter => n!(Iterations, |v| v.to_be_bytes().to_vec()),
                K::Stored => n!(ScramStoredPassword<'static>, |v| c_st(v)),
                K::MyNum => n!(MyNum, |v| v.to_be_bytes().to_vec()),
                K::MyLt => n!(MyLt, |v| [v.0.as_bytes(), &[v.1]].concat()),
            };
            match r {
                Ok(Some(v)) => Got::Val(v),
                Ok(None) => Got::Absent,
                Err(e) => Got::Err(if e.is_missing_prop() && !dbg(&e).contains("harness") { "missing".into() } else { dbg(&e) }),
            }
        }
        MOp::Action(k, v) => match kinds!(*k, v, |T, r| d.action::<T>(p, r)) {
            Ok(()) => Got::Done,
            Err(e) => Got::Err(if e.is_missing_prop() && !dbg(&e).contains("harness") { "missing".into() } else { dbg(&e) }),
        },
        MOp::Validate => match d.validate(p) {
            Ok(()) => Got::Done,
            Err(e) => Got::Err(format!("{e:?}")),
        },
        MOp::CbData(..) => unreachable!("harness: cb data"),
    })
}
fn perform_cb(d: &mut MechanismData, n: &str, required: bool, fail: bool, c: &Ctxt, calls: &RefCell<usize>) -> Got {
    let held: Vec<(K, Val, Held)> = c.items.iter().map(|(k, v)| (*k, v.clone(), Held::None)).collect();
    let f = |v: &[u8]| {
        *calls.borrow_mut() += 1;
        if fail {
            return Err(closure_err());
        }
        Ok(v.to_vec())
    };
    // leaked: the provider's lifetime is tied to the name's
    let r = if required {
        d.need_cb_data(n, VecProv(&held), f).map(Some)
    } else {
        d.maybe_need_cb_data(n, VecProv(&held), f)
    };
    match r {
        Ok(Some(v)) => Got::Val(v),
        Ok(None) => Got::Absent,
        Err(e) => Got::Err(dbg(&e)),
    }
}

struct Model {
    obs: Vec<Obs>,
    got: Option<Got>, // None: not judged
    calls: Option<usize>,
}
fn model(m: &MOp, c: &Ctxt, prog: &Prog, hcb: &HCb, who: (&str, bool)) -> Model {
    let mut o = vec![];
    let mut items = c.items.clone();
    let (want, mode_action, required, fail): (K, Option<&Val>, bool, bool) = match m {
        MOp::Need(k, r, f) => (*k, None, *r, *f),
        MOp::Action(k, v) => (*k, Some(v), true, false),
        MOp::CbData(n, r, f) => {
            if let Some((_, d)) = hcb.data.iter().find(|(x, _)| x == n) {
                let got = if *f { Got::Err(dbg(&closure_err())) } else { Got::Val(d.clone()) };
                return Model { obs: o, got: Some(got), calls: Some(1) };
            }
            items.insert(0, (K::CbName, Val { s: n.clone(), ..Val::default() }));
            (K::Cb, None, *r, *f)
        }
        MOp::Validate => {
            o.push(Obs::Call);
            o.push(Obs::Who(who.0.into(), who.1));
            for op in &prog.ops {
                if let Op::Ctx(k) = op {
                    o.push(Obs::Bytes(look(&items, *k)));
                }
            }
            let got = if matches!(prog.end, End::Err(_)) { Got::Err("MissingRequiredProperty".into()) } else { Got::Done };
            return Model { obs: o, got: Some(got), calls: Some(0) };
        }
    };
    o.push(Obs::Call);
    o.push(Obs::Who(who.0.into(), who.1));
    let mut supplied: Option<Vec<u8>> = None;
    let mut taken = false;
    let mut calls = 0;
    let mut dirty = false; // the callback swallowed an error of the mechanism
    let mut early: Option<Option<String>> = None; // how the callback left: early return / an error
    for op in &prog.ops {
        match op {
            Op::Sat(k, v, p) | Op::SatWith(k, v, _, p) => {
                let with = matches!(op, Op::SatWith(..));
                let hit = mode_action.is_none() && *k == want && supplied.is_none();
                let push = |o: &mut Vec<Obs>, ok: bool, n: usize| o.push(if with { Obs::ResEvals(ok, n) } else { Obs::Res(ok) });
                if !hit {
                    push(&mut o, true, 0);
                    continue;
                }
                push(&mut o, false, 1);
                if let Op::SatWith(_, _, Some(f), _) = op {
                    if *p {
                        early = Some(Some(dbg(&inj_err(*f))));
                        break;
                    }
                    continue;
                }
                calls += 1;
                if fail {
                    if *p {
                        early = Some(Some(dbg(&closure_err())));
                        break;
                    }
                    dirty = true;
                    break;
                }
                supplied = Some(canon(*k, v));
                if *p {
                    early = Some(None);
                    break;
                }
            }
            Op::Get(k) => {
                let r = match mode_action {
                    Some(v) if *k == want && !taken => {
                        taken = true;
                        Some(canon(*k, v))
                    }
                    _ => None,
                };
                o.push(Obs::Bytes(r));
            }
            Op::Is(k) => o.push(Obs::Bool(*k == want)),
            Op::Ctx(k) => o.push(Obs::Bytes(look(&items, *k))),
        }
    }
    if dirty {
        return Model { obs: o, got: None, calls: None };
    }
    let end = match early {
        Some(None) => End::Ok,
        Some(Some(e)) => return Model { obs: o, got: Some(Got::Err(e)), calls: Some(calls) },
        None => prog.end.clone(),
    };
    let absent = || {
        if !required {
            return Got::Absent;
        }
        match m {
            MOp::CbData(n, ..) => Got::Err(dbg(&SessionError::MissingChannelBindingData(n.clone()))),
            _ => Got::Err("missing".into()),
        }
    };
    let got = match (end, mode_action.is_some()) {
        (End::Err(k), _) => Some(Got::Err(dbg(&inj_err(k)))),
        (End::Ok, true) => Some(if taken { Got::Done } else { Got::Err("missing".into()) }),
        (End::NoValue, true) => None,
        (End::Ok, false) => Some(supplied.map_or_else(absent, Got::Val)),
        (End::NoValue, false) if supplied.is_none() => Some(absent()),
        (End::NoValue, false) => None,
    };
    Model { obs: o, got, calls: Some(calls) }
}

fn cfg() -> Arc<SASLConfig> {
    static C: OnceLock<Arc<SASLConfig>> = OnceLock::new();
    static M: OnceLock<&'static [Mechanism]> = OnceLock::new();
    C.get_or_init(|| {
        let m = *M.get_or_init(|| Box::leak(vec![probe::PROBE, probe::BARE].into_boxed_slice()));
        SASLConfig::builder().with_registry(Registry::with_mechanisms(m)).with_callback(TlCb).expect("harness: config")
    })
    .clone()
}

fn pick_kind(rng: &mut Rng, near: K) -> K {
    if rng.chance(1, 2) {
        near
    } else {
        *rng.pick(&KINDS)
    }
}
fn program(rng: &mut Rng, near: K) -> Prog {
    let ops = (0..rng.below(7))
        .map(|_| match rng.below(9) {
            0..=2 => Op::Sat(pick_kind(rng, near), val(rng), rng.chance(2, 3)),
            3 | 4 => {
                let k = if SIZED.contains(&near) && rng.chance(2, 3) { near } else { *rng.pick(&SIZED) };
                Op::SatWith(k, val(rng), if rng.chance(1, 4) { Some(rng.below(N_ERRS)) } else { None }, rng.chance(2, 3))
            }
            5 | 6 => Op::Get(pick_kind(rng, near)),
            7 => Op::Is(pick_kind(rng, near)),
            _ => Op::Ctx(*rng.pick(&KINDS)),
        })
        .collect();
    let end = match rng.below(8) {
        0 => End::NoValue,
        1 => End::Err(rng.below(N_ERRS)),
        _ => End::Ok,
    };
    Prog { ops, end }
}

fn probe_case(w: &mut W, rng: &mut Rng) {
    let server = rng.chance(1, 2);
    let bare = rng.chance(1, 3);
    let name = if bare { "X-BARE" } else { "X-PROBE" };
    let names = ["tls-unique", "tls-exporter", "", "x"];
    let hcb = HCb { data: (0..rng.below(3)).map(|_| ((*rng.pick(&names)).to_string(), gen::blob(rng, 20))).collect(), log: None };
    let script: Vec<(MOp, Ctxt, Prog)> = (0..rng.range(1, 5))
        .map(|_| {
            let k = *rng.pick(&KINDS);
            let op = match rng.below(10) {
                0..=4 => MOp::Need(k, rng.chance(1, 2), rng.chance(1, 8)),
                5..=7 => MOp::Action(k, val(rng)),
                8 => MOp::CbData((*rng.pick(&names)).to_string(), rng.chance(1, 2), rng.chance(1, 8)),
                _ => MOp::Validate,
            };
            let mut items: Items = (0..rng.below(6)).map(|_| (*rng.pick(&KINDS), val(rng))).collect();
            let near = match &op {
                MOp::CbData(..) => {
                    items.retain(|(k, _)| !matches!(k, K::Kv | K::Stored | K::MyNum | K::MyLt));
                    K::Cb
                }
                _ => k,
            };
            let p = program(rng, near);
            (op, Ctxt { shape: rng.below(5), items }, p)
        })
        .collect();
    let fin = rng.below(4 + N_ERRS);
    let fin_of = move || match fin {
        0 | 1 => Ok(State::Running),
        2 => Ok(State::Finished(MessageSent::Yes)),
        3 => Ok(State::Finished(MessageSent::No)),
        k => Err(inj_err(k - 4)),
    };
    // run
    PROGS.with(|p| p.borrow_mut().clear());
    OBS.with(|p| p.borrow_mut().clear());
    let results: Rc<RefCell<Vec<(Got, usize, Vec<Obs>)>>> = Rc::default();
    let (r2, s2) = (results.clone(), script.clone());
    probe::set_step(move |d, _i, _w| {
        for (m, c, p) in &s2 {
            PROGS.with(|q| {
                let mut q = q.borrow_mut();
                q.clear();
                q.push_back(p.clone());
            });
            OBS.with(|p| p.borrow_mut().clear());
            let calls = RefCell::new(0);
            let g = match m {
                MOp::CbData(n, r, f) => perform_cb(d, n, *r, *f, c, &calls),
                _ => perform(d, m, c, &calls),
            };
            let n = *calls.borrow();
            r2.borrow_mut().push((g, n, OBS.with(|o| o.borrow().clone())));
        }
        fin_of()
    });
    let mut out = Vec::new();
    let r = if server {
        SASLServer::<crate::cb::V, HCb>::with_cb(cfg(), hcb.clone())
            .start_suggested(Mechname::parse(name.as_bytes()).unwrap())
            .expect("harness: probe server")
            .step(Some(b"x"), &mut out)
    } else {
        SASLClient::with_cb(cfg(), hcb.clone())
            .start_suggested(&[Mechname::parse(name.as_bytes()).unwrap()])
            .expect("harness: probe client")
            .step(Some(b"x"), &mut out)
    };
    let want = fin_of();
    w.want(format!("{r:?}") == format!("{want:?}"), "step-result-changed", || format!("mechanism returned {want:?}, step {r:?}"));
    let results = results.borrow();
    if !w.want(results.len() == script.len(), "step-not-run-once", || format!("{} of {}", results.len(), script.len())) {
        return;
    }
    let mut hits = 0;
    for ((m, c, p), (got, calls, obs)) in script.iter().zip(results.iter()) {
        let md = model(m, c, p, &hcb, (name, server));
        let ctx = || format!("mechanism {m:?}, program {p:?}, context {:?}, hcb {:?}: got {got:?} calls {calls}, model {:?} {:?}; observed {obs:?} model {:?}", c, hcb.data, md.got, md.calls, md.obs);
        if md.got.is_some() || md.calls.is_some() {
            // (whatever follows a swallowed mechanism error is not judged)
            w.want(*obs == md.obs, "callback-observations", ctx);
        }
        if let Some(g) = &md.got {
            let ok = match (g, got) {
                (Got::Err(a), Got::Err(b)) => a == b,
                (a, b) => a == b,
            };
            w.want(ok, match m {
                MOp::Action(..) => "action-result",
                MOp::CbData(..) => "channel-binding-data-result",
                MOp::Validate => "validate-result",
                MOp::Need(..) => "request-result",
            }, ctx);
            match g {
                Got::Val(_) => w.count("requests_satisfied"),
                Got::Absent => w.count("requests_absent"),
                Got::Done => w.count("actions_or_validations_done"),
                Got::Err(_) => w.count("requests_failed"),
            }
        } else {
            w.count("requests_not_judged");
        }
        if let Some(n) = md.calls {
            w.want(*calls == n, "value-used-more-than-once", ctx);
        }
        w.add("context_reads", p.ops.iter().filter(|o| matches!(o, Op::Ctx(_))).count() as u64);
        hits += usize::from(!p.ops.is_empty());
        w.eval((m, c, p, server), !p.ops.is_empty());
    }
    if hits > 0 {
        w.sample(|| json!({"mechanism": name, "server": server, "requests": script.iter().map(|(m, _, p)| format!("{m:?} answered by {p:?}").chars().take(300).collect::<String>()).collect::<Vec<_>>(),
            "results": results.iter().map(|(g, ..)| format!("{g:?}").chars().take(120).collect::<String>()).collect::<Vec<_>>()}));
    }
}

/// real mechanisms: an error at the n-th callback, or a property without a value
fn real_case(w: &mut W, rng: &mut Rng) {
    let m = *rng.pick(&ALL);
    let (mut cp, mut sp, hc, hs) = honest(m, rng);
    if m.starts_with("SCRAM") && rng.chance(1, 3) {
        cp.cached = {
            let st = &sp.stored[0];
            let k = crate::refimpl::keys(hash_of(m), cp.password.as_ref().unwrap(), &st.salt, st.iterations);
            Some((k.client, k.server))
        };
    }
    if rng.chance(1, 3) {
        let r = crate::cb::OAns::Reject("invalid_token".into(), None, None);
        sp.oauth = r.clone();
        sp.xoauth = r;
    }
    let on_server = rng.chance(1, 3);
    let target = if on_server { &mut sp } else { &mut cp };
    let inject = rng.chance(1, 2);
    let k = rng.below(N_ERRS);
    let nv = rng.chance(1, 2);
    let props: &[&'static str] = &[
        "AuthId", "AuthzId", "Password", "OAuthBearerToken", "OAuthBearerKV", "AnonymousToken", "ChannelBindings", "OverrideCBType",
        "ScramStoredPassword", "ScramCachedPassword", "SaltedPassword", "OAuthBearerValidate", "OAuthBearerErrored", "XOAuth2Validate", "XOAuth2Error",
    ];
    let gone = *rng.pick(props);
    if inject {
        target.inject = Some((rng.below(8), k));
    } else {
        target.without = Some(gone);
        target.no_value = nv;
    }
    // (a callback that answers NoValue after supplying a value is not judged: restrict it to the missing one)
    let at = target.inject.map(|x| x.0);
    if !inject {
        target.no_value = false;
    }
    let desc = format!("{m} inject {:?} without {:?} on_server {on_server}", target.inject, target.without);
    let had_cached = cp.cached.is_some() || cp.salted.is_some();
    let hcdata = if m.ends_with("-PLUS") { !hc.data.is_empty() } else { true };
    let mut c = Party::client(m, cp, hc);
    let mut s = Party::server(m, sp, hs);
    let mut server_turn = s.first();
    let mut input: Option<Vec<u8>> = None;
    let (mut cd, mut sd) = (false, false);
    let mut ncb = 0; // callbacks of the target so far
    let mut seen_cached = 0;
    let mut triggered = false;
    for _ in 0..8 {
        let p = if server_turn { &mut s } else { &mut c };
        let o = p.step(input.as_deref());
        let mut hit: Option<(&'static str, bool)> = None;
        if server_turn == on_server {
            for e in &o.ev {
                let name = match e {
                    Ev::Req { prop, .. } | Ev::Act { prop, .. } => *prop,
                    _ => continue,
                };
                if name == "ScramCachedPassword" {
                    seen_cached += 1;
                }
                let is_action = matches!(name, "OAuthBearerErrored" | "XOAuth2Error") || (name == "ScramCachedPassword" && seen_cached == 2);
                let this = if inject { at == Some(ncb) } else { name == gone };
                if this && hit.is_none() {
                    hit = Some((name, is_action));
                }
                ncb += 1;
            }
        }
        if let Some((name, is_action)) = hit {
            triggered = true;
            w.eval((m, name, is_action, inject, k, on_server, &input), true);
            let ctx = || format!("{desc}: request {name} action {is_action}: step {:?} err {:?} bytes {}", o.r, o.err.as_ref().map(dbg), show(&o.bytes));
            if is_action && name == "ScramCachedPassword" {
                // storing the keys is optional
            } else if inject {
                let want = dbg(&inj_err(k));
                w.count("errors_injected");
                w.want(o.err.as_ref().map(dbg).as_deref() == Some(&want), "callback-error-not-returned", || format!("want {want}; {}", ctx()));
            } else {
                w.count("properties_removed");
                let required = match name {
                    "AuthId" | "OAuthBearerToken" | "OAuthBearerValidate" | "XOAuth2Validate" | "OAuthBearerErrored" | "XOAuth2Error" => Some(true),
                    "Password" => Some(!(m.starts_with("SCRAM") && had_cached)),
                    "AuthzId" | "OAuthBearerKV" | "AnonymousToken" | "OverrideCBType" | "ScramCachedPassword" | "SaltedPassword" => Some(false),
                    _ => None,
                };
                match required {
                    Some(true) => {
                        w.want(o.err.as_ref().is_some_and(SessionError::is_missing_prop), "missing-required-property-accepted", ctx);
                    }
                    Some(false) => {
                        w.want(!o.err.as_ref().is_some_and(SessionError::is_missing_prop) || !hcdata, "missing-optional-property-refused", ctx);
                    }
                    None => {}
                }
            }
        }
        if o.r.is_err() {
            // an error must have a reason
            w.want(triggered, "honest-exchange-failed", || format!("{desc}: {:?}", o.err));
            break;
        }
        *(if server_turn { &mut sd } else { &mut cd }) |= o.r.is_fin();
        if o.r == R::FinNo || (cd && sd) {
            break;
        }
        input = Some(o.bytes);
        server_turn = !server_turn;
    }
    let _ = Props::default();
}

pub fn run(r: &mut Run) {
    assert!(crate::twin::check(), "harness: the twins differ in name");
    r.rule = "a request with a callback program of at least one operation, or a triggered injection on a real mechanism, distinct by all inputs".into();
    r.assumptions = vec![
        "not judged: a value supplied together with NoValue; a mechanism closure error the callback swallows; an action taken together with NoValue".into(),
        "the SCRAM client's action to store derived keys is optional by design: its outcome does not change the exchange".into(),
    ];
    r.cases("probe", r.n(150_000, 6_000_000), probe_case);
    r.cases("real", r.n(40_000, 1_500_000), real_case);
    r.require("requests_satisfied", 20_000);
    r.require("requests_absent", 5_000);
    r.require("actions_or_validations_done", 5_000);
    r.require("errors_injected", 3_000);
    r.require("properties_removed", 2_000);
    r.require("context_reads", 20_000);
}
