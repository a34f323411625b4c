//! C17: no undefined behaviour and no leaks through the safe API.
//!
//! The check runs the workloads of all other properties again as children under Miri, AddressSanitizer with
//! LeakSanitizer and MemorySanitizer, and two workloads of its own: `types` (properties, values and validations of
//! every shape, nested requests, objects counted until they are dropped) and `leaks` (memory that grows with every
//! repetition of the same exchange). Only what the tools and those monitors report is judged here.
use crate::c10::Scen;
use crate::cb::{utf8, HCb};
use crate::drive::*;
use crate::gen;
use crate::prng::Rng;
use crate::report::{guarded, show, Run, W};
use rsasl::callback::{Context, Request, SessionCallback, SessionData};
use rsasl::mechanism::{Authentication, Demand, DemandReply, EmptyProvider, MechanismData, Provider, ProviderExt, ThisProvider};
use rsasl::prelude::*;
use rsasl::property::*;
use rsasl::registry::{Matches, Named, Side};
use rsasl::validate::{Validate, ValidationError};
use serde_json::json;
use std::cell::{Cell, RefCell};
use std::hint::black_box;
use std::io::Write;
use std::sync::Arc;

// ---- properties of every shape
macro_rules! unsized_prop {
    ($($n:ident = $t:ty),*) => { $(pub struct $n; impl Property<'_> for $n { type Value = $t; })* };
}
unsized_prop!(PStr = str, PBytes = [u8], PWide = [u128], PPairs = [(u8, u64)]);
macro_rules! sized_prop {
    ($($n:ident = $t:ty),*) => { $(pub struct $n; impl SizedProperty<'_> for $n { type Value = $t; })* };
}
#[repr(align(64))]
#[derive(Clone, Copy)]
pub struct Al([u8; 3]);
sized_prop!(PUnit = (), PNum = u64, PAl = Al, PCell = Cell<u32>, PBig = [u64; 300], POwn = String, PBool = bool);
pub struct PDyn;
impl<'a> Property<'a> for PDyn {
    type Value = dyn Fn(u32) -> u32 + 'a;
}
pub struct View<'a> {
    s: &'a str,
    b: Option<&'a [u8]>,
}
pub struct PView;
impl<'a> SizedProperty<'a> for PView {
    type Value = View<'a>;
}
pub struct PRef;
impl<'a> SizedProperty<'a> for PRef {
    type Value = &'a str;
}
const N: usize = 16;

/// everything a value of one of the properties can be made of; on the heap, exactly as large as needed
#[derive(Clone)]
struct Src {
    s: Box<str>,
    b: Box<[u8]>,
    wide: Box<[u128]>,
    pairs: Box<[(u8, u64)]>,
    n: Box<u64>,
    al: Box<Al>,
    big: Box<[u64; 300]>,
    own: String,
    flag: bool,
}
impl Src {
    fn small() -> Self {
        Src {
            s: "".into(),
            b: Box::new([]),
            wide: Box::new([]),
            pairs: Box::new([]),
            n: Box::new(3),
            al: Box::new(Al([2; 3])),
            big: Box::new([0; 300]),
            own: String::new(),
            flag: true,
        }
    }
    fn new(rng: &mut Rng) -> Self {
        let n = gen::size(rng, 40);
        if cfg!(miri) {
            let k = rng.range(0, 9);
            let s = ["", "n", "=2C,", "\u{e9}\u{1f511}", "0123456789abcdef"][k % 5];
            return Src {
                s: s.into(),
                b: (0..k as u8).collect(),
                own: s.into(),
                big: Box::new([k as u64; 300]),
                n: Box::new(rng.u64()),
                flag: k % 2 == 0,
                wide: (0..k % 3).map(|i| i as u128).collect(),
                pairs: (0..k % 3).map(|i| (1, i as u64)).collect(),
                ..Src::small()
            };
        }
        Src {
            s: gen::nasty(rng).into(),
            b: gen::blob(rng, 100).into(),
            wide: (0..n % 5).map(|i| u128::from(rng.u64()) << i).collect(),
            pairs: (0..n % 7).map(|i| (i as u8, rng.u64())).collect(),
            n: Box::new(rng.u64()),
            al: Box::new(Al([n as u8; 3])),
            big: Box::new([rng.u64(); 300]),
            own: gen::word(rng),
            flag: rng.chance(1, 2),
        }
    }
}
fn sum(b: &[u8]) -> u64 {
    b.iter().fold(1469, |h, x| (h ^ u64::from(*x)).wrapping_mul(1_099_511_628_211))
}
// what a reader makes of a value: touches all of it
fn r_str(s: &str) -> u64 {
    utf8("property", s);
    sum(s.as_bytes())
}
fn r_wide(s: &[u128]) -> u64 {
    assert!(s.as_ptr() as usize % std::mem::align_of::<u128>() == 0, "harness: unaligned");
    s.iter().fold(s.len() as u64, |h, x| h.wrapping_mul(31).wrapping_add(*x as u64))
}
fn r_pairs(s: &[(u8, u64)]) -> u64 {
    s.iter().fold(s.len() as u64, |h, x| h.wrapping_mul(31).wrapping_add(x.1 ^ u64::from(x.0)))
}
fn r_al(a: &Al) -> u64 {
    (std::ptr::from_ref(a) as usize % 64) as u64 * 1000 + u64::from(a.0[0]) + u64::from(a.0[2])
}
fn r_view(v: &View) -> u64 {
    r_str(v.s) ^ v.b.map_or(7, sum)
}
fn r_big(b: &[u64; 300]) -> u64 {
    b.iter().step_by(if cfg!(miri) { 23 } else { 1 }).fold(b[299], |h, x| h ^ x.rotate_left(3))
}
macro_rules! each {
    ($k:expr, $v:expr, |$t:ident, $r:ident, $read:ident| $e:expr) => {{
        let v: &Src = $v;
        match $k {
            0 => { type $t = PStr; let $r: &str = &v.s; let $read = |x: &str| r_str(x); $e }
            1 => { type $t = PBytes; let $r: &[u8] = &v.b; let $read = |x: &[u8]| sum(x); $e }
            2 => { type $t = PWide; let $r: &[u128] = &v.wide; let $read = |x: &[u128]| r_wide(x); $e }
            3 => { type $t = PPairs; let $r: &[(u8, u64)] = &v.pairs; let $read = |x: &[(u8, u64)]| r_pairs(x); $e }
            4 => { type $t = PUnit; let $r: &() = &(); let $read = |_: &()| 5; $e }
            5 => { type $t = PNum; let $r: &u64 = &v.n; let $read = |x: &u64| *x; $e }
            6 => { type $t = PAl; let $r: &Al = &v.al; let $read = |x: &Al| r_al(x); $e }
            7 => { type $t = PCell; let c = Cell::new(*v.n as u32); let $r: &Cell<u32> = &c;
                   let $read = |x: &Cell<u32>| { let o = x.get(); x.set(o); u64::from(o) }; $e }
            8 => { type $t = PBig; let $r: &[u64; 300] = &v.big; let $read = |x: &[u64; 300]| r_big(x); $e }
            9 => { type $t = POwn; let $r: &String = &v.own; let $read = |x: &String| r_str(x); $e }
            10 => { type $t = PBool; let $r: &bool = &v.flag; let $read = |x: &bool| u64::from(*x); $e }
            11 => { type $t = PDyn; let n = *v.n as u32; let f = move |x: u32| x.wrapping_add(n); let $r: &dyn Fn(u32) -> u32 = &f;
                   let $read = |x: &dyn Fn(u32) -> u32| u64::from(x(3)); $e }
            12 => { type $t = PView; let w = View { s: &v.s, b: v.flag.then_some(&v.b) }; let $r: &View = &w; let $read = |x: &View| r_view(x); $e }
            14 => { type $t = crate::twin::Tw0; let $r: &str = &v.s; let $read = |x: &str| r_str(x); $e }
            15 => { type $t = crate::twin::Tw2; let $r: &[u8] = &v.b; let $read = |x: &[u8]| sum(x); $e }
            _ => { type $t = PRef; let s: &str = &v.s; let $r: &&str = &s; let $read = |x: &&str| r_str(x); $e }
        }
    }};
}
fn want(k: usize, v: &Src) -> u64 {
    each!(k, v, |T, r, read| {
        let _: Option<T> = None;
        read(r)
    })
}

// ---- objects that are counted
thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static DEAD: Cell<u64> = const { Cell::new(0) };
}
/// an object on the heap that counts; dropping it twice is an error, too
pub struct Tok(Box<u64>);
impl Tok {
    fn new() -> Self {
        LIVE.with(|l| l.set(l.get() + 1));
        Tok(Box::new(0x5eed_5eed))
    }
    fn ok(&self) -> bool {
        *self.0 == 0x5eed_5eed
    }
}
impl Drop for Tok {
    fn drop(&mut self) {
        assert!(self.ok(), "harness: object is dead");
        *self.0 = 0;
        LIVE.with(|l| l.set(l.get() - 1));
        DEAD.with(|l| l.set(l.get() + 1));
    }
}

pub struct TV;
impl Validation for TV {
    type Value = (Tok, String, Option<Al>);
}
pub struct TV2;
impl Validation for TV2 {
    type Value = Box<dyn Fn() -> u8>;
}

// ---- programs
struct Tc {
    tok: Tok,
    /// what the callback does; consumed front to back
    seed: u64,
}
thread_local! {
    static RNG: RefCell<Option<Rng>> = const { RefCell::new(None) };
    static BAD: RefCell<Vec<String>> = const { RefCell::new(vec![]) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static OPS: Cell<u64> = const { Cell::new(0) };
    static OFFER: RefCell<Option<(usize, u64, usize)>> = const { RefCell::new(None) };
}
fn bad(s: impl Into<String>) {
    BAD.with(|b| b.borrow_mut().push(s.into()));
}
fn rnd<T>(f: impl FnOnce(&mut Rng) -> T) -> T {
    // not held while `f`'s caller goes on: programs nest
    let mut r = RNG.with(|r| r.borrow_mut().take()).expect("harness: no rng");
    let t = f(&mut r);
    RNG.with(|x| *x.borrow_mut() = Some(r));
    t
}
fn op() {
    OPS.with(|o| o.set(o.get() + 1));
}
fn peek(c: &Context, n: usize) {
    for _ in 0..n {
        let k = rnd(|r| r.below(N));
        op();
        each!(k, &Src::small(), |T, r, read| {
            black_box(r);
            if let Some(a) = c.get_ref::<T>() {
                // twice: the second look must not disturb the first
                let x = read(a);
                let b = c.get_ref::<T>();
                if b.map(|b| read(b)) != Some(x) || read(a) != x {
                    bad(format!("property {k} changed while it was read"));
                }
            }
        });
    }
}
impl SessionCallback for Tc {
    fn callback(&self, sd: &SessionData, c: &Context, req: &mut Request) -> Result<(), SessionError> {
        if !self.tok.ok() {
            bad("callback object is dead");
        }
        black_box(self.seed);
        utf8("mechanism name", sd.mechanism().mechanism.as_str());
        let depth = DEPTH.with(Cell::get);
        let n = rnd(|r| r.below(6));
        peek(c, n);
        let n = rnd(|r| r.range(1, 8));
        for _ in 0..n {
            op();
            let (what, k, fits, prop) = rnd(|r| (r.below(8), r.below(N), r.chance(2, 3), r.chance(1, 3)));
            let offer = OFFER.with(|o| *o.borrow());
            // often the property that is really asked for
            let k = match offer {
                Some((x, _, _)) if fits => x,
                _ => k,
            };
            match what {
                0..=2 => {
                    // the value lives only as long as the call
                    let v = Box::new(rnd(Src::new));
                    let t = Tok::new();
                    let x = want(k, &v);
                    let r = each!(k, &v, |T, r, _read| req.satisfy::<T>(r).map(|_| ()));
                    if r.is_err() {
                        OFFER.with(|o| {
                            let mut o = o.borrow_mut();
                            match &mut *o {
                                Some((y, s, n)) if *y == k && *n == 0 => {
                                    *s = x;
                                    *n = 1;
                                }
                                Some((y, ..)) if *y == k => bad("a second value was taken"),
                                _ => bad(format!("value for property {k} taken, {offer:?} asked for")),
                            }
                        });
                    }
                    drop(v);
                    drop(t);
                    if prop {
                        r?;
                    }
                }
                3 => {
                    let v = Box::new(rnd(Src::new));
                    let x = want(5, &v);
                    let t = Tok::new();
                    let r = req.satisfy_with::<PNum, _>(move || {
                        black_box(&t);
                        Ok(*v.n)
                    });
                    if r.is_err() {
                        OFFER.with(|o| {
                            if let Some((5, s, n)) = &mut *o.borrow_mut() {
                                *s = x;
                                *n += 1;
                            } else {
                                bad("satisfy_with taken for another property");
                            }
                        });
                    }
                    if prop {
                        r?;
                    }
                }
                4 | 5 => {
                    let got = each!(k, &Src::small(), |T, r, read| {
                        black_box(r);
                        req.get_action::<T>().map(|x| read(x))
                    });
                    if let Some(g) = got {
                        match offer {
                            Some((y, s, 9)) if y == k && s == g => {}
                            _ => bad(format!("action {k} -> {g:x}, {offer:?} offered")),
                        }
                    }
                }
                6 => {
                    black_box(each!(k, &Src::small(), |T, r, _read| {
                        black_box(r);
                        req.is::<T>()
                    }));
                }
                _ => {
                    if depth < 2 && rnd(|r| r.chance(1, 3)) {
                        // another session on the same thread, inside of this callback
                        OFFER.with(|o| *o.borrow_mut() = None);
                        program(depth + 1);
                        OFFER.with(|o| *o.borrow_mut() = offer);
                    }
                    peek(c, 2);
                }
            }
        }
        rnd(|r| r.below(5)).eq(&0).then(|| Err(crate::cb::inj_err(1))).unwrap_or(Ok(()))
    }
    fn validate(&self, sd: &SessionData, c: &Context, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        if !self.tok.ok() {
            bad("callback object is dead");
        }
        utf8("mechanism name", sd.mechanism().mechanism.as_str());
        peek(c, 2);
        let n = rnd(|r| r.below(4));
        for _ in 0..n {
            op();
            match rnd(|r| r.below(6)) {
                0 => v.finalize::<TV2>(Box::new({
                    let t = Tok::new();
                    move || u8::from(t.ok())
                })),
                1 => {
                    v.with::<TV, _>(|| Err(ValidationError::MissingRequiredProperty))?;
                }
                2 => {
                    v.with::<TV, _>(|| Ok((Tok::new(), "with".into(), Some(Al([1; 3])))))?;
                }
                3 => {
                    black_box(v.is::<TV>());
                }
                _ => v.finalize::<TV>((Tok::new(), "final".into(), None)),
            }
        }
        Ok(())
    }
}

/// several values, some of them from a second provider
struct Ps<'a>(&'a Src, u32);
impl<'a> Provider<'a> for Ps<'a> {
    fn provide(&self, d: &mut Demand<'a>) -> DemandReply<()> {
        let v = self.0;
        let has = |k: u32| self.1 >> k & 1 == 1;
        if has(0) {
            d.provide_ref::<PStr>(&v.s)?;
        }
        if has(1) {
            d.provide_ref::<PBytes>(&v.b)?;
        }
        if has(2) {
            d.provide_ref::<PWide>(&v.wide)?;
        }
        if has(3) {
            d.provide_ref::<PPairs>(&v.pairs)?;
        }
        if has(4) {
            d.provide_ref::<PUnit>(&())?;
        }
        if has(5) {
            d.provide_ref::<PNum>(&v.n)?;
        }
        if has(6) {
            d.provide_ref::<PAl>(&v.al)?;
        }
        if has(8) {
            d.provide_ref::<PBig>(&v.big)?;
        }
        if has(9) {
            d.provide_ref::<POwn>(&v.own)?;
        }
        if has(10) {
            d.provide_ref::<PBool>(&v.flag)?;
        }
        if has(14) {
            d.provide_ref::<crate::twin::Tw0>(&v.s)?;
        }
        if has(15) {
            d.provide_ref::<crate::twin::Tw2>(&v.b)?;
        }
        d.done()
    }
    fn provide_mut(&mut self, d: &mut Demand<'a>) -> DemandReply<()> {
        self.provide(d)
    }
}

/// a mechanism with state of its own on the heap
struct Tm {
    tok: Tok,
    said: Vec<u8>,
}
impl Authentication for Tm {
    fn step(&mut self, d: &mut MechanismData, i: Option<&[u8]>, w: &mut dyn Write) -> Result<State, SessionError> {
        if !self.tok.ok() {
            bad("mechanism is dead");
        }
        self.said.extend_from_slice(i.unwrap_or(b"-"));
        let n = rnd(|r| r.range(1, 4));
        for _ in 0..n {
            one(d)?;
        }
        w.write_all(&self.said)?;
        Ok(if self.said.len() > 6 { State::Finished(MessageSent::Yes) } else { State::Running })
    }
}
fn one(d: &mut MechanismData) -> Result<(), SessionError> {
    op();
    let (what, k, set, set2, shape) = rnd(|r| (r.below(9), r.below(N), r.u64() as u32, r.u64() as u32, r.below(5)));
    let held = Box::new(rnd(Src::new));
    let view = View { s: &held.s, b: Some(&held.b) };
    let two = Box::new(rnd(Src::new));
    let f = |x: u32| x ^ 1;
    let cell = Cell::new(11);
    let mut go = |p: &dyn Provider| -> Result<(), SessionError> {
        match what {
            0..=3 => {
                OFFER.with(|o| *o.borrow_mut() = Some((k, 0, 0)));
                let t = Tok::new();
                // closure and its result are owned by the request
                let r: Result<Option<(Tok, u64)>, SessionError> = each!(k, &held, |T, _r, read| {
                    if what < 2 {
                        d.need_with::<T, _, _>(p, |v| Ok((t, read(v)))).map(Some)
                    } else {
                        d.maybe_need_with::<T, _, _>(p, |v| Ok((t, read(v))))
                    }
                });
                let o = OFFER.with(|o| o.borrow_mut().take());
                match (&r, o) {
                    (Ok(Some((t, x))), Some((_, s, n))) => {
                        if !t.ok() || *x != s || n == 0 {
                            bad(format!("property {k}: the mechanism got {x:x}, the callback gave {s:x} ({n})"));
                        }
                    }
                    (Ok(Some(_)), None) => bad("harness: offer is gone"),
                    _ => {}
                }
                if what == 0 {
                    r?;
                }
            }
            4 => {
                // a closure that fails
                OFFER.with(|o| *o.borrow_mut() = Some((k, 0, 0)));
                let t = Tok::new();
                let r: Result<Option<u8>, SessionError> = each!(k, &held, |T, _r, read| {
                    d.maybe_need_with::<T, _, _>(p, |v| {
                        black_box((&t, read(v)));
                        Err(SessionError::MechanismDone)
                    })
                });
                OFFER.with(|o| o.borrow_mut().take());
                black_box(r.is_ok());
            }
            5 | 6 => {
                OFFER.with(|o| *o.borrow_mut() = Some((k, want(k, &held), 9)));
                let r = each!(k, &held, |T, r, _read| d.action::<T>(p, r));
                OFFER.with(|o| o.borrow_mut().take());
                black_box(r.is_ok());
            }
            7 => {
                let r = d.validate(p);
                black_box(r.is_ok());
            }
            _ => {
                let r = d.need_cb_data(&held.s, EmptyProvider, |x| {
                    black_box(sum(x));
                    Ok(())
                });
                black_box(r.is_ok());
            }
        }
        Ok(())
    };
    match shape {
        0 => go(&Ps(&held, set)),
        1 => go(&Ps(&held, set).and(Ps(&two, set2))),
        2 => go(&ThisProvider::<PView>::with(&view).and(Ps(&held, set)).and(EmptyProvider)),
        3 => go(&ThisProvider::<PDyn>::with(&f).and(ThisProvider::<PRef>::with(&view.s)).and(Ps(&two, set2))),
        _ => go(&EmptyProvider.and(ThisProvider::<PCell>::with(&cell)).and(ThisProvider::<PStr>::with(&two.s))),
    }
}
struct SelT;
impl Named for SelT {
    fn mech() -> &'static Mechanism {
        &TYPES
    }
}
pub static TYPES: Mechanism = Mechanism::build(
    Mechname::const_new_unchecked(b"X-TYPES"),
    100,
    Some(|| Ok(Box::new(Tm { tok: Tok::new(), said: vec![] }))),
    Some(|_| Ok(Box::new(Tm { tok: Tok::new(), said: vec![] }))),
    Side::Client,
    |_| Some(Matches::<SelT>::name()),
    |_| true,
);
static LIST: [Mechanism; 1] = [TYPES];

/// a channel binding source that owns something
struct Src2 {
    tok: Tok,
    data: Box<[u8]>,
}
impl ChannelBindingCallback for Src2 {
    fn get_cb_data(&self, n: &str) -> Option<&[u8]> {
        if !self.tok.ok() {
            bad("channel binding object is dead");
        }
        (utf8("channel binding name", n) && n.len() % 2 == 0).then_some(&self.data)
    }
}

fn offered(rng: &mut Rng) -> Vec<Box<[u8]>> {
    let mut v: Vec<Box<[u8]>> = vec![Box::from(&b"X-TYPES"[..])];
    for _ in 0..rng.below(3) {
        let n = rng.range(1, 25);
        v.insert(0, (0..n).map(|_| *rng.pick(&b"ABCXYZ-_019"[..])).collect());
    }
    v
}
fn program(depth: u32) {
    DEPTH.with(|d| d.set(depth));
    let tc = Tc { tok: Tok::new(), seed: rnd(Rng::u64) };
    let cfg = SASLConfig::builder().with_registry(Registry::with_mechanisms(&LIST)).with_callback(tc).expect("harness: config");
    let cb = Src2 { tok: Tok::new(), data: rnd(|r| gen::blob(r, 40)).into() };
    let early = rnd(|r| r.chance(1, 2));
    let steps = rnd(|r| r.below(5));
    let held = rnd(offered);
    let feed = |i: usize| -> Option<Box<[u8]>> { rnd(|r| (i > 0 || r.chance(1, 2)).then(|| gen::blob(r, 5).into())) };
    if rnd(|r| r.chance(1, 2)) {
        let names: Vec<&Mechname> = held.iter().filter_map(|n| Mechname::parse(n).ok()).collect();
        let client = SASLClient::with_cb(cfg.clone(), cb);
        let (c, offers) = if early { (None, names) } else { (Some(cfg), names) };
        let Ok(mut s) = client.start_suggested(&offers) else { return bad("harness: client did not start") };
        drop(offers);
        drop(held);
        for i in 0..steps {
            let mut out = vec![];
            if s.step(feed(i).as_deref(), &mut out).is_err() {
                break;
            }
        }
        drop(c);
        let _: Option<()> = s.validation();
        utf8("mechanism name", s.get_mechname().as_str());
    } else {
        let server = SASLServer::<TV, _>::with_cb(cfg.clone(), cb);
        utf8("available", &server.get_available().into_iter().map(|m| m.mechanism.as_str()).collect::<String>());
        let name: Box<[u8]> = Box::from(&b"X-TYPES"[..]);
        let r = server.start_suggested(Mechname::parse(&name).expect("harness: name"));
        drop(name);
        let c = (!early).then_some(cfg);
        let Ok(mut s) = r else { return bad("harness: server did not start") };
        for i in 0..steps {
            let mut out = vec![];
            if s.step(feed(i).as_deref(), &mut out).is_err() {
                break;
            }
        }
        drop(c);
        if rnd(|r| r.chance(2, 3)) {
            if let Some((t, s, _)) = s.validation() {
                if !t.ok() {
                    bad("validation value is dead");
                }
                utf8("validation value", &s);
            }
        }
        utf8("mechanism name", s.get_mechname().as_str());
    }
    DEPTH.with(|d| d.set(depth));
}

fn types(w: &mut W, rng: &mut Rng) {
    let live0 = LIVE.with(Cell::get);
    let (ops0, dead0) = (OPS.with(Cell::get), DEAD.with(Cell::get));
    BAD.with(|b| b.borrow_mut().clear());
    OFFER.with(|o| *o.borrow_mut() = None);
    RNG.with(|r| *r.borrow_mut() = Some(Rng::new(rng.u64(), "types", w.case)));
    program(0);
    // mechanism names from buffers of exactly their size
    for _ in 0..3 {
        let b: Box<[u8]> = if rng.chance(1, 2) {
            let n = rng.range(0, 24);
            (0..n).map(|_| *rng.pick(&b"AZ09-_AAB\x80\xc3\xa9\xff a.\0"[..])).collect()
        } else {
            gen::blob(rng, 30).into()
        };
        if let Ok(m) = Mechname::parse(&b) {
            utf8("mechanism name", m.as_str());
            utf8("mechanism name", &format!("{m} {m:?}"));
            black_box(m == &b[..]);
            w.count("mechanism_names_parsed");
        } else {
            w.count("mechanism_names_refused");
        }
        if let Ok(t) = std::str::from_utf8(&b) {
            black_box(<&Mechname>::try_from(t).is_ok());
        }
    }
    for b in BAD.with(|b| std::mem::take(&mut *b.borrow_mut())) {
        if b.starts_with("harness") {
            w.acc.internal.push(b);
        } else {
            w.viol("wrong-object", b);
        }
    }
    let left = LIVE.with(Cell::get) - live0;
    if left != 0 {
        w.viol("objects-not-dropped", format!("{left} more objects than before the program (all of it was dropped)"));
    }
    let ops = OPS.with(Cell::get) - ops0;
    w.add("typed_operations", ops);
    w.add("objects_dropped", DEAD.with(Cell::get) - dead0);
    w.eval((w.case, ops), ops > 0);
}

/// one exchange: possibly hostile, base64 coded, with failing callbacks, dropped at some step
struct Walk {
    sc: Scen,
    stop: usize,
    b64: bool,
    hostile: Option<u64>,
    val: bool,
    /// the writer claims to have taken that many bytes more than it was given: a panic is fine, anything that
    /// reads memory behind the message is not
    lie: usize,
}
/// reads every byte it is given and claims more
struct Lying {
    over: usize,
    seen: u64,
}
impl Lying {
    fn take(&mut self, b: &[u8]) {
        for x in b {
            self.seen = self.seen.wrapping_mul(31).wrapping_add(u64::from(*x));
        }
    }
}
impl std::io::Write for Lying {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.take(b);
        Ok(b.len() + self.over)
    }
    fn write_vectored(&mut self, b: &[std::io::IoSlice<'_>]) -> std::io::Result<usize> {
        let mut n = self.over;
        for b in b {
            self.take(b);
            n += b.len();
        }
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
impl Walk {
    fn new(m: &'static str, variant: usize, rng: &mut Rng) -> Self {
        let mut sc = Scen::random(m, rng, variant);
        if m.ends_with("-PLUS") && rng.chance(1, 2) {
            sc.c.override_cb = Some(if rng.chance(2, 3) { sc.hc.data[0].0.clone() } else { gen::word(rng) });
        }
        if rng.chance(1, 4) {
            sc.s.inject = Some((rng.below(4), rng.below(crate::cb::N_ERRS)));
        }
        if rng.chance(1, 4) {
            sc.c.inject = Some((rng.below(4), rng.below(crate::cb::N_ERRS)));
        }
        sc.c.take_cached = rng.chance(1, 2);
        Walk {
            sc,
            stop: if rng.chance(1, 2) { 12 } else { rng.below(7) },
            b64: rng.chance(1, 3),
            hostile: rng.chance(1, 3).then(|| rng.u64()),
            val: rng.chance(1, 2),
            lie: if rng.chance(1, 8) { *rng.pick(&[1, 2, 7, 8, 64, 5000]) } else { 0 },
        }
    }
    /// a writer that lies, for one step: how often that ended in a panic
    fn lie(&self, p: &mut Party, input: Option<&[u8]>) -> u64 {
        let mut w = Lying { over: self.lie, seen: 0 };
        let r = guarded(|| if self.b64 { p.raw64(input, &mut w) } else { p.raw(input, &mut w) }.is_ok());
        black_box(w.seen);
        u64::from(r.is_err())
    }
    fn go(&self) -> u64 {
        let (mut c, mut s) = self.sc.parties();
        let mut srng = self.hostile.map(|h| Rng::new(h, "leaks", 0));
        let mut server = s.first();
        let mut input: Option<Vec<u8>> = None;
        let mut n = 0;
        for i in 0..self.stop.min(12) {
            let p = if server { &mut s } else { &mut c };
            if self.lie > 0 && i + 1 == self.stop.min(3) {
                n += 1;
                black_box(self.lie(p, input.as_deref()));
                break;
            }
            let o = if self.b64 { p.step64(input.as_deref()) } else { p.step(input.as_deref()) };
            n += 1;
            black_box(o.err.as_ref().map(|e| utf8("error text", &format!("{e} {e:?}"))));
            if o.r.is_err() || o.r == R::FinNo {
                break;
            }
            let mut m = o.bytes;
            if let Some(r) = &mut srng {
                if i + 1 == self.stop || r.chance(1, 4) {
                    m = gen::mutate(r, &m);
                }
            }
            input = Some(m);
            server = !server;
        }
        if self.val {
            black_box(s.validation().is_some());
        }
        n
    }
}
fn walk(w: &mut W, rng: &mut Rng) {
    let m = ALL[(w.case as usize) % ALL.len()];
    let x = Walk::new(m, (w.case as usize) / ALL.len(), rng);
    let n = x.go();
    w.add("walk_steps", n);
    if x.lie > 0 {
        w.count("walks_with_a_lying_writer");
    }
    w.eval((w.case, n), n > 0);
}

/// the same exchange again and again on this thread: what it keeps must not grow
#[cfg(not(miri))]
fn leaks(w: &mut W, rng: &mut Rng) {
    let m = ALL[(w.case as usize) % ALL.len()];
    let Walk { sc, stop, b64, .. } = &Walk::new(m, (w.case as usize) / ALL.len(), &mut rng.clone());
    let walk = Walk::new(m, (w.case as usize) / ALL.len(), rng);
    let once = || {
        black_box(walk.go());
    };
    let grow = |n: usize| {
        let a = crate::alloc::thread_live();
        for _ in 0..n {
            if let Err(p) = guarded(once) {
                if p.in_harness() {
                    panic!("{} at {}", p.msg, p.loc);
                }
            }
        }
        crate::alloc::thread_live() - a
    };
    grow(2);
    let mut g: Vec<i64> = (0..3).map(|_| grow(3)).collect();
    if g.iter().all(|x| *x > 0) {
        // tables that are filled once stop growing
        g.extend((0..6).map(|_| grow(5)));
    }
    w.add("exchanges_repeated", 11);
    if g.len() > 3 && g.iter().all(|x| *x > 0) {
        w.viol(
            format!("memory-grows-{m}"),
            format!(
                "{m} ({}): live memory grows by {g:?} bytes with every 3 (later 5) repetitions of the same exchange that was dropped after {stop} steps; client {:?}, server {:?}",
                sc.what, sc.c, sc.s
            ),
        );
    }
    w.count(&format!("leaks_{m}"));
    w.eval((w.case, m, stop, b64), true);
    w.sample(|| json!({"stream": "leaks", "mechanism": m, "what": sc.what, "steps": stop, "growth_per_3": g}));
}
#[cfg(miri)]
fn leaks(_: &mut W, _: &mut Rng) {}

/// threads that share a configuration and drop it in any order (Miri and the sanitizers watch)
fn threads(w: &mut W, rng: &mut Rng) {
    let seeds: Vec<u64> = (0..3).map(|_| rng.u64()).collect();
    let m = *rng.pick(&["PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER", "SCRAM-SHA-256", "SCRAM-SHA-1-PLUS"]);
    let (mut pc, ps, hc, hs) = honest(m, rng);
    pc.enable_cb = m.ends_with("-PLUS");
    let (cb, log) = crate::cb::Cb::new(pc.clone());
    let cfg_c = config(&[m], cb);
    let (cb, slog) = crate::cb::Cb::new(ps.clone());
    let cfg_s = config(&[m], cb);
    let hs2: Vec<_> = seeds
        .iter()
        .map(|s| {
            let (a, b, hc, hs, s) = (cfg_c.clone(), cfg_s.clone(), hc.clone(), hs.clone(), *s);
            let (log, slog) = (log.clone(), slog.clone());
            std::thread::spawn(move || {
                let mut r = Rng::new(s, "threads", 0);
                let off: Box<str> = m.into();
                let c = SASLClient::with_cb(a, hc).start_suggested(&[name(&off)]).expect("harness: client");
                let s = SASLServer::<crate::cb::V, HCb>::with_cb(b, hs).start_suggested(name(&off)).expect("harness: server");
                let (mut c, mut s) = (Party { s: Sess::C(c), log }, Party { s: Sess::S(s), log: slog });
                let x = exchange(&mut c, &mut s, |_, _, m| {
                    if r.chance(1, 6) {
                        *m = gen::mutate(&mut r, m);
                    }
                });
                black_box(s.validation());
                x.steps.len() as u64
            })
        })
        .collect();
    if rng.chance(1, 2) {
        drop((cfg_c, cfg_s));
    }
    for h in hs2 {
        w.add("threaded_steps", h.join().unwrap_or(0));
    }
    w.eval((w.case, m), true);
}

pub fn run(r: &mut Run) {
    if std::env::var("RV_ONLY").is_err() && !r.only.as_ref().is_some_and(|(s, _)| ["types", "walk", "leaks", "threads"].contains(&s.as_str())) {
        return orchestrate(r);
    }
    r.cases("types", 1000, types);
    r.cases("walk", 10_000, walk);
    r.cases("threads", 100, threads);
    r.cases("leaks", 1000, leaks);
}

// ---- children
#[cfg(miri)]
fn orchestrate(_: &mut Run) {}
#[cfg(not(miri))]
use orchestra::orchestrate;
#[cfg(not(miri))]
mod orchestra {
    use super::*;
    use crate::report::{root, Viol};
    use std::io::Read;
    use std::process::{Command, Stdio};
    use std::sync::atomic::{AtomicUsize, Ordering};
    use std::sync::Mutex;
    use std::time::{Duration, Instant};

    #[derive(Clone, Copy, PartialEq, Debug)]
    enum Tool {
        Native,
        Asan,
        Msan,
        Miri,
    }
    impl Tool {
        fn name(self) -> &'static str {
            match self {
                Tool::Native => "native",
                Tool::Asan => "asan",
                Tool::Msan => "msan",
                Tool::Miri => "miri",
            }
        }
    }
    struct Job {
        tool: Tool,
        prop: &'static str,
        only: String,
        cap: u64,
        id: usize,
    }
    /// stream=quick/thorough counts
    fn plan(thorough: bool) -> Vec<Job> {
        let mut v: Vec<Job> = vec![];
        let mut add = |tool, prop, only: &str, cap: u64| {
            let only = only
                .split(',')
                .map(|e| {
                    let (s, n) = e.split_once('=').expect("plan");
                    let (n, first) = n.split_once('@').unwrap_or((n, "0"));
                    let n: u64 = n.parse().expect("plan");
                    format!("{s}={}@{first}", if thorough && n > 50 { n * 6 } else { n })
                })
                .collect::<Vec<_>>()
                .join(",");
            let id = v.len();
            v.push(Job { tool, prop, only, cap: if thorough { cap * 5 / 2 } else { cap }, id });
        };
        use Tool::*;
        // Miri: one core each
        for (p, o, cap) in MIRI {
            add(Miri, p, o, *cap);
        }
        for (p, o, cap) in SAN {
            add(Asan, p, o, *cap);
        }
        for (p, o, cap) in SAN {
            if !matches!(*p, "C16" | "C05") {
                let o: Vec<String> = o
                    .split(',')
                    .map(|e| {
                        let (s, n) = e.split_once('=').expect("plan");
                        format!("{s}={}@1000000", (n.parse::<u64>().expect("plan") / 2).max(1))
                    })
                    .collect();
                add(Msan, p, &o.join(","), *cap);
            }
        }
        add(Native, "C17", "types=40000,walk=20000,leaks=6000", 60);
        v
    }
    // case counts far beyond what the time allows: the cap ends them
    const MIRI: &[(&str, &str, u64)] = &[
        ("C17", "types=100000", 90),
        ("C17", "types=100000@200000", 90),
        ("C17", "walk=100000", 90),
        ("C17", "walk=100000@200004", 90),
        ("C17", "threads=100000", 90),
        ("C12", "real=8,probe=100000", 90),
        ("C13", "program=100000", 90),
        ("C08", "messages=80,mechnames=100000", 90),
        ("C06", "names=20,fuzz=100000", 90),
        ("C06", "fuzz=100000@500000", 90),
        ("C06", "fuzz=100000@700000", 90),
        ("C09", "client=12,server=12,helper=12,defaults=100000", 90),
        ("C18", "custom=40,layerless=100000", 90),
        ("C17", "walk=100000@400008", 90),
        ("C17", "walk=100000@600000", 90),
        ("C14", "both=15,hostile=15,documents=100000", 90),
    ];
    const SAN: &[(&str, &str, u64)] = &[
        ("C06", "fuzz=100000,huge=50,names=1000", 60),
        ("C08", "messages=150000,names-sweep=1,mechnames=1000", 60),
        ("C16", "interleaved=6000,nested=300,rounds=6", 60),
        ("C17", "types=20000,walk=60000,threads=400,leaks=400", 60),
        ("C12", "probe=30000,real=8000", 60),
        ("C13", "program=40000,real=30000", 60),
        ("C07", "fields=80000", 60),
        ("C14", "both=30000,documents=20000,hostile=30000,failing=2000", 60),
        ("C15", "inserted=5000,hostile=5000,missing-end=600", 60),
        ("C10", "writers=60,long=60", 60),
        ("C11", "scripted=40000,real=3000", 60),
        ("C18", "custom=8000,layerless=3000", 60),
        ("C09", "client=40000,server=4000,helper=6000,defaults=2000", 60),
        ("C04", "flags=2000,server=20000,client-data=15000,mitm=15000", 60),
        ("C19", "scram=6000,helper=2000,others=4000", 60),
        ("C20", "honest=30000", 60),
        ("C05", "sessions=60", 60),
        ("C01", "final=3000,order=4000", 60),
        ("C02", "server-first=3000,server-final=3000", 60),
        ("C23", "server=20000,client=12000", 60),
        ("C03", "library-library=3000,reference-client=6000,reference-server=6000,tools=3000", 60),
    ];

    struct Ran {
        stats: Vec<(String, u64)>,
        done: bool,
        out: String,
        err: String,
        status: String,
        signal: Option<i32>,
        other: u64,
        secs: f64,
    }
    fn spawn(j: &Job, seed: u64, extra: &str) -> Result<Ran, String> {
        let t0 = Instant::now();
        let bin = |v: &str| std::env::var(v).map_err(|_| format!("{v} is not set"));
        let mut c = match j.tool {
            Tool::Native => Command::new(std::env::current_exe().map_err(|e| e.to_string())?),
            Tool::Asan => Command::new(bin("RV_ASAN_BIN")?),
            Tool::Msan => Command::new(bin("RV_MSAN_BIN")?),
            Tool::Miri => {
                let mut c = Command::new("bash");
                c.arg(format!("{}/tools/miri.sh", root()));
                c
            }
        };
        c.arg(j.prop)
            .env("RV_ONLY", &j.only)
            .env("RV_CAP", j.cap.to_string())
            .env("VERIF_SEED", seed.to_string())
            .env("VERIF_TIER", "quick")
            .env("RV_WORKERS", if j.tool == Tool::Miri { "1" } else { "4" })
            .env("MIRIFLAGS", format!("-Zmiri-disable-isolation -Zmiri-seed={} {extra}", j.id))
            .env("ASAN_OPTIONS", "allocator_may_return_null=1:detect_stack_use_after_return=1:detect_leaks=1:exitcode=97:quarantine_size_mb=64:symbolize=1")
            .env("LSAN_OPTIONS", "exitcode=98")
            .env("MSAN_OPTIONS", "exitcode=96")
            .stdin(Stdio::null())
            .stdout(Stdio::piped())
            .stderr(Stdio::piped());
        use std::os::unix::process::CommandExt;
        c.process_group(0);
        let mut ch = c.spawn().map_err(|e| format!("cannot start a child: {e}"))?;
        let (mut o, mut e) = (ch.stdout.take().expect("pipe"), ch.stderr.take().expect("pipe"));
        let to = std::thread::spawn(move || {
            let mut b = vec![];
            let _ = o.read_to_end(&mut b);
            String::from_utf8_lossy(&b).into_owned()
        });
        let te = std::thread::spawn(move || {
            let mut b = vec![];
            let _ = e.read_to_end(&mut b);
            String::from_utf8_lossy(&b).into_owned()
        });
        let limit = Duration::from_secs(j.cap + if j.tool == Tool::Miri { 150 } else { 90 });
        let mut killed = false;
        let st = loop {
            if let Some(s) = ch.try_wait().map_err(|e| e.to_string())? {
                break s;
            }
            if t0.elapsed() > limit && !killed {
                killed = true;
                unsafe { libc::kill(-(ch.id() as i32), libc::SIGKILL) };
            }
            std::thread::sleep(Duration::from_millis(30));
        };
        let (out, err) = (to.join().unwrap_or_default(), te.join().unwrap_or_default());
        use std::os::unix::process::ExitStatusExt;
        let mut stats = vec![];
        let mut other = 0;
        for l in out.lines() {
            if let Some(x) = l.strip_prefix("STAT ") {
                if let Some((k, v)) = x.rsplit_once(' ') {
                    let v = v.parse().unwrap_or(0);
                    if k == "other_verdicts" {
                        other = v;
                    }
                    stats.push((k.to_string(), v));
                }
            }
        }
        Ok(Ran {
            stats,
            done: out.lines().any(|l| l == "DONE"),
            out,
            err,
            status: if killed { "killed after its time".into() } else { st.to_string() },
            signal: if killed { Some(9) } else { st.signal() },
            other,
            secs: t0.elapsed().as_secs_f64(),
        })
    }
    fn part(s: &str, from: usize, n: usize) -> String {
        s.lines().skip(s[..from].matches('\n').count()).take(n).collect::<Vec<_>>().join("\n")
    }
    /// where in the library (or whatever comes first) a report points
    fn site(text: &str) -> String {
        let pick = |l: &str| {
            let l = l.trim();
            l.rsplit(|c: char| c.is_whitespace() || c == '(').find(|w| w.contains(".rs:")).map(|w| {
                let w = w.trim_end_matches(')');
                let f = w.split(".rs:").next().unwrap_or(w);
                let f = f.rsplit_once("/src/").map_or(f, |x| x.1);
                format!("{f}.rs")
            })
        };
        text.lines()
            .filter(|l| l.contains("/repo/src/") || l.contains("rsasl/src/"))
            .find_map(pick)
            .or_else(|| text.lines().filter(|l| !l.contains("/rustc/") && !l.contains("/library/")).find_map(pick))
            .unwrap_or_default()
    }
    /// what a tool reported, as (signature, text)
    fn verdicts(j: &Job, r: &Ran) -> Vec<(String, String)> {
        let mut v = vec![];
        let mut take = |key: &str, sig: &str, from: &str, n: usize| -> bool {
            if let Some(p) = from.find(key) {
                let t = part(from, p, n);
                v.push((format!("{sig}@{}", site(&t)), t));
                return true;
            }
            false
        };
        match j.tool {
            Tool::Miri => {
                if !take("error: Undefined Behavior", "miri-ub", &r.err, 60) {
                    take("error: memory leaked", "miri-leak", &r.err, 40);
                }
            }
            Tool::Asan | Tool::Msan => {
                let _ = take("ERROR: AddressSanitizer", "asan", &r.err, 60)
                    || take("WARNING: MemorySanitizer", "msan", &r.err, 50)
                    || (r.err.contains("SUMMARY:") && take("ERROR: LeakSanitizer: detected", "leak", &r.err, 50));
            }
            Tool::Native => {}
        }
        for l in r.out.lines() {
            if let Some(u) = l.strip_prefix("UTF8 ") {
                v.push(("not-utf8".into(), format!("text that is not UTF-8: {u}")));
                break;
            }
        }
        for l in r.out.lines() {
            if let Some(u) = l.strip_prefix("OWN ") {
                let sig = u.split(' ').next().unwrap_or("own").to_string();
                v.push((sig, u.to_string()));
            }
        }
        let overflow = r.err.contains("has overflowed its stack") || r.err.contains("stack-overflow");
        if v.is_empty() && matches!(r.signal, Some(4 | 6 | 7 | 8 | 11)) && !overflow && j.tool != Tool::Miri {
            v.push((format!("died@{}", r.status), format!("the process died ({}): {}", r.status, r.err.chars().rev().take(3000).collect::<Vec<_>>().into_iter().rev().collect::<String>())));
        }
        v
    }

    pub fn orchestrate(r: &mut Run) {
        r.rule = "one evaluation is one case of a workload executed to its end under Miri, AddressSanitizer+LeakSanitizer or MemorySanitizer \
                  (or, for types/leaks, natively with objects and live memory counted); distinct: fingerprints of inputs within each child"
            .into();
        r.assumptions = vec![
            "Miri runs with Stacked Borrows; what only that model objects to and Tree Borrows accepts is not reported".into(),
            "GSSAPI (C library) and the linkme registry are not run under Miri".into(),
            "Mechname::const_new_unchecked is only called with names inside its documented contract".into(),
        ];
        let mut jobs = plan(r.thorough);
        if let Some((_, c)) = &r.only {
            let c = *c as usize;
            jobs.retain(|j| j.id == c);
            r.only = Some(("child".into(), c as u64));
        }
        // Miri takes long and one core each: first; the others use four threads each
        let next = AtomicUsize::new(0);
        let results: Mutex<Vec<(usize, Result<Ran, String>)>> = Mutex::default();
        let seed = r.seed;
        std::thread::scope(|sc| {
            for _ in 0..8 {
                sc.spawn(|| loop {
                    let i = next.fetch_add(1, Ordering::SeqCst);
                    let Some(j) = jobs.get(i) else { break };
                    let mut x = spawn(j, seed, "");
                    if let Ok(y) = &x {
                        let t = &y.err;
                        if j.tool == Tool::Miri && t.contains("error: Undefined Behavior") && t.contains("Stacked Borrows") {
                            // an experimental model: only what Tree Borrows rejects, too, counts
                            x = spawn(j, seed, "-Zmiri-tree-borrows");
                        }
                    }
                    results.lock().unwrap().push((i, x));
                });
            }
        });
        let mut res = results.into_inner().unwrap();
        res.sort_by_key(|x| x.0);
        let mut a = r.acc.lock().unwrap();
        let mut children = vec![];
        for (i, x) in res {
            let j = &jobs[i];
            let x = match x {
                Ok(x) => x,
                Err(e) => {
                    a.internal.push(e);
                    continue;
                }
            };
            let get = |k: &str| x.stats.iter().find(|s| s.0 == k).map_or(0, |s| s.1);
            a.evals += get("evaluations");
            for n in 0..get("distinct") {
                a.distinct.insert(((j.id as u64 + 1) << 40) | n);
            }
            let t = j.tool.name();
            *a.counters.entry(format!("{t}_evaluations")).or_insert(0) += get("evaluations");
            *a.counters.entry(format!("{t}_children")).or_insert(0) += 1;
            *a.counters.entry("verdicts_of_other_properties_ignored".into()).or_insert(0) += x.other;
            for k in ["typed_operations", "objects_dropped", "exchanges_repeated", "threaded_steps", "mechanism_names_parsed"] {
                if get(k) > 0 {
                    *a.counters.entry(format!("{t}_{k}")).or_insert(0) += get(k);
                }
            }
            let vs = verdicts(j, &x);
            if std::env::var("RV_VERBOSE").is_ok() {
                println!("child {} {t} {} {}: {} evaluations, {:.0}s, {} {}", j.id, j.prop, j.only, get("evaluations"), x.secs, x.status, if x.done { "" } else { "NOT DONE" });
                for l in x.out.lines().filter(|l| l.starts_with("OTHER")) {
                    println!("    {l}");
                }
            }
            children.push(json!({"child": j.id, "tool": t, "workload": j.prop, "streams": j.only, "evaluations": get("evaluations"),
                "distinct": get("distinct"), "seconds": x.secs.round(), "end": x.status, "reports": vs.len()}));
            if x.err.contains("LeakSanitizer has encountered a fatal error") {
                *a.counters.entry("leak_sanitizer_could_not_run".into()).or_insert(0) += 1;
            }
            let none = vs.is_empty();
            for (sig, text) in vs {
                a.viol.push(Viol {
                    sig: format!("{sig}"),
                    detail: format!("{t} {} {}: {text}", j.prop, j.only),
                    stream: "child".into(),
                    case: j.id as u64,
                });
            }
            if none && !x.done {
                let tail: String = show(x.err.lines().rev().take(12).collect::<Vec<_>>().into_iter().rev().collect::<Vec<_>>().join("\n").as_bytes());
                if x.signal == Some(9) {
                    *a.counters.entry("children_killed".into()).or_insert(0) += 1;
                } else {
                    a.internal.push(format!("child {} ({t} {}) gave no result: {} {tail}", j.id, j.prop, x.status));
                }
            }
        }
        a.samples = children.iter().take(8).cloned().collect();
        a.extra.insert("children".into(), json!(children));
        drop(a);
        r.require("miri_evaluations", 150);
        r.require("asan_evaluations", 100_000);
        r.require("msan_evaluations", 50_000);
        r.require("native_evaluations", 10_000);
    }
}
