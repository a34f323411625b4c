//! Creating and stepping sessions.
use crate::cb::{Cb, Ev, HCb, Log, Props, ValOut, V};
use rsasl::mechanisms::{anonymous, external, login, oauthbearer, plain, scram, xoauth2};
use rsasl::prelude::*;
use rsasl::validate::NoValidation;
use std::collections::HashMap;
use std::io::Write;
use std::sync::{Arc, Mutex, OnceLock};

pub const ALL: [&str; 12] = [
    "SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS",
    "PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER",
];
pub const SCRAM: [&str; 6] = [
    "SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS",
];

pub fn mech(n: &str) -> Mechanism {
    match n {
        "SCRAM-SHA-1" => scram::SCRAM_SHA1,
        "SCRAM-SHA-256" => scram::SCRAM_SHA256,
        "SCRAM-SHA-512" => scram::SCRAM_SHA512,
        "SCRAM-SHA-1-PLUS" => scram::SCRAM_SHA1_PLUS,
        "SCRAM-SHA-256-PLUS" => scram::SCRAM_SHA256_PLUS,
        "SCRAM-SHA-512-PLUS" => scram::SCRAM_SHA512_PLUS,
        "PLAIN" => plain::PLAIN,
        "LOGIN" => login::LOGIN,
        "ANONYMOUS" => anonymous::ANONYMOUS,
        "EXTERNAL" => external::EXTERNAL,
        "XOAUTH2" => xoauth2::XOAUTH2,
        "OAUTHBEARER" => oauthbearer::OAUTHBEARER,
        _ => panic!("harness: unknown mechanism {n}"),
    }
}
pub fn name(n: &str) -> &Mechname {
    Mechname::parse(n.as_bytes()).expect("harness: mechname")
}

/// leaked (once per distinct list) static mechanism list
pub fn mechs(names: &[&str]) -> &'static [Mechanism] {
    static M: OnceLock<Mutex<HashMap<String, &'static [Mechanism]>>> = OnceLock::new();
    let mut m = M.get_or_init(Mutex::default).lock().unwrap();
    let key = names.join(" ");
    m.entry(key).or_insert_with(|| {
        let v: Vec<Mechanism> = names.iter().map(|n| mech(n)).collect();
        Box::leak(v.into_boxed_slice())
    })
}
pub fn config(names: &[&str], cb: Cb) -> Arc<SASLConfig> {
    SASLConfig::builder().with_registry(Registry::with_mechanisms(mechs(names))).with_callback(cb).expect("harness: config")
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum R {
    Run,
    FinYes,
    FinNo,
    Err(String),
}
impl R {
    pub fn is_err(&self) -> bool {
        matches!(self, R::Err(_))
    }
    pub fn is_fin(&self) -> bool {
        matches!(self, R::FinYes | R::FinNo)
    }
    pub fn of(r: &Result<State, SessionError>) -> R {
        match r {
            Ok(State::Running) => R::Run,
            Ok(State::Finished(MessageSent::Yes)) => R::FinYes,
            Ok(State::Finished(MessageSent::No)) => R::FinNo,
            Err(e) => R::Err(err_kind(e)),
        }
    }
    /// same outcome, ignoring which error it is
    pub fn same(&self, o: &R) -> bool {
        self == o || (self.is_err() && o.is_err())
    }
}
pub fn err_kind(e: &SessionError) -> String {
    let d = format!("{e:?}");
    d.chars().take_while(|c| c.is_alphanumeric()).collect()
}
pub fn input_required(e: &Option<SessionError>) -> bool {
    matches!(e, Some(SessionError::InputDataRequired))
}

pub enum Sess {
    C(Session<NoValidation, HCb>),
    S(Session<V, HCb>),
}
pub struct Party {
    pub s: Sess,
    pub log: Log,
}
pub struct Out {
    pub r: R,
    pub bytes: Vec<u8>,
    pub err: Option<SessionError>,
    pub ev: Vec<Ev>,
}
impl Out {
    pub fn validates(&self) -> usize {
        self.ev.iter().filter(|e| e.is_validate()).count()
    }
}

/// the message in a buffer of its own, of exactly its size and gone after the call: sanitizers see a read
/// behind it and a pointer that is kept
fn exact(input: Option<&[u8]>) -> Option<Box<[u8]>> {
    input.map(Into::into)
}
impl Party {
    pub fn client_reg(names: &[&str], offered: &[&str], p: Props, mut hcb: HCb) -> Result<Party, SASLError> {
        let (cb, log) = Cb::new(p);
        hcb.log = Some(log.clone());
        let cfg = config(names, cb);
        let off: Vec<Box<str>> = offered.iter().map(|n| (*n).into()).collect();
        let off: Vec<&Mechname> = off.iter().map(|n| name(n)).collect();
        let s = SASLClient::with_cb(cfg, hcb).start_suggested(&off)?;
        Ok(Party { s: Sess::C(s), log })
    }
    pub fn client(m: &str, p: Props, hcb: HCb) -> Party {
        let mut p = p;
        if m.ends_with("-PLUS") {
            p.enable_cb = true;
        }
        Self::client_reg(&[m], &[m], p, hcb).unwrap_or_else(|e| panic!("harness: cannot start client {m}: {e:?}"))
    }
    pub fn server_reg(names: &[&str], selected: &str, p: Props, mut hcb: HCb) -> Result<Party, SASLError> {
        let (cb, log) = Cb::new(p);
        hcb.log = Some(log.clone());
        let cfg = config(names, cb);
        let s = SASLServer::<V, HCb>::with_cb(cfg, hcb).start_suggested(name(&Box::<str>::from(selected)))?;
        Ok(Party { s: Sess::S(s), log })
    }
    pub fn server(m: &str, p: Props, hcb: HCb) -> Party {
        Self::server_reg(&[m], m, p, hcb).unwrap_or_else(|e| panic!("harness: cannot start server {m}: {e:?}"))
    }
    fn fin(&mut self, from: usize, bytes: Vec<u8>, r: Result<State, SessionError>) -> Out {
        let ev = self.log.lock().unwrap()[from..].to_vec();
        Out { r: R::of(&r), bytes, err: r.err(), ev }
    }
    pub fn step(&mut self, input: Option<&[u8]>) -> Out {
        let from = self.log.lock().unwrap().len();
        let mut w = Vec::new();
        let r = self.raw(input, &mut w);
        self.fin(from, w, r)
    }
    pub fn step64(&mut self, input: Option<&[u8]>) -> Out {
        let from = self.log.lock().unwrap().len();
        let mut w = Vec::new();
        let r = self.raw64(input, &mut w);
        self.fin(from, w, r)
    }
    pub fn raw(&mut self, input: Option<&[u8]>, w: &mut impl Write) -> Result<State, SessionError> {
        let b = exact(input);
        let input = b.as_deref();
        match &mut self.s {
            Sess::C(s) => s.step(input, w),
            Sess::S(s) => s.step(input, w),
        }
    }
    pub fn raw64(&mut self, input: Option<&[u8]>, w: &mut impl Write) -> Result<State, SessionError> {
        let b = exact(input);
        let input = b.as_deref();
        match &mut self.s {
            Sess::C(s) => s.step64(input, w),
            Sess::S(s) => s.step64(input, w),
        }
    }
    pub fn first(&self) -> bool {
        match &self.s {
            Sess::C(s) => s.are_we_first(),
            Sess::S(s) => s.are_we_first(),
        }
    }
    pub fn mech(&self) -> &str {
        match &self.s {
            Sess::C(s) => s.get_mechname().as_str(),
            Sess::S(s) => s.get_mechname().as_str(),
        }
    }
    pub fn is_server(&self) -> bool {
        matches!(self.s, Sess::S(_))
    }
    pub fn validation(&mut self) -> Option<ValOut> {
        match &mut self.s {
            Sess::C(s) => {
                let _: Option<()> = s.validation();
                None
            }
            Sess::S(s) => s.validation(),
        }
    }
    pub fn layer(&self) -> bool {
        match &self.s {
            Sess::C(s) => s.has_security_layer(),
            Sess::S(s) => s.has_security_layer(),
        }
    }
    pub fn encode(&mut self, i: &[u8], w: &mut impl Write) -> Result<usize, SessionError> {
        let b: Box<[u8]> = i.into();
        let i = &b[..];
        match &mut self.s {
            Sess::C(s) => s.encode(i, w),
            Sess::S(s) => s.encode(i, w),
        }
    }
    pub fn decode(&mut self, i: &[u8], w: &mut impl Write) -> Result<usize, SessionError> {
        let b: Box<[u8]> = i.into();
        let i = &b[..];
        match &mut self.s {
            Sess::C(s) => s.decode(i, w),
            Sess::S(s) => s.decode(i, w),
        }
    }
    pub fn events(&self) -> Vec<Ev> {
        self.log.lock().unwrap().clone()
    }
}

/// One recorded step of an exchange.
#[derive(Clone, Debug)]
pub struct Step {
    pub server: bool,
    pub r: R,
    pub bytes: Vec<u8>,
    pub had_input: bool,
}
pub struct Exchange {
    pub steps: Vec<Step>,
    pub c: R,
    pub s: R,
}
impl Exchange {
    pub fn show(&self) -> String {
        self.steps
            .iter()
            .map(|s| format!("{}:{:?}[{}]", if s.server { "S" } else { "C" }, s.r, crate::report::show(&s.bytes)))
            .collect::<Vec<_>>()
            .join(" ")
    }
}
/// Drive both sides until nobody has anything to do. `edit` may change messages in flight.
pub fn exchange(c: &mut Party, s: &mut Party, mut edit: impl FnMut(usize, bool, &mut Vec<u8>)) -> Exchange {
    let mut x = Exchange { steps: vec![], c: R::Run, s: R::Run };
    let mut server_turn = s.first();
    let mut input: Option<Vec<u8>> = None;
    for i in 0..12 {
        let p = if server_turn { &mut *s } else { &mut *c };
        let o = p.step(input.as_deref());
        x.steps.push(Step { server: server_turn, r: o.r.clone(), bytes: o.bytes.clone(), had_input: input.is_some() });
        if server_turn {
            x.s = o.r.clone();
        } else {
            x.c = o.r.clone();
        }
        match o.r {
            R::Err(_) => break,
            R::FinNo => {
                // no message: if the other side still runs, the protocol tells it that we are done
                break;
            }
            R::Run | R::FinYes => {
                let other = if server_turn { &x.c } else { &x.s };
                if other.is_fin() {
                    break;
                }
                let mut m = o.bytes;
                edit(i, server_turn, &mut m);
                input = Some(m);
                server_turn = !server_turn;
            }
        }
    }
    x
}

/// matching honest properties of both sides of a mechanism
pub fn honest(m: &str, rng: &mut crate::prng::Rng) -> (Props, Props, HCb, HCb) {
    use crate::gen;
    let mut c = Props::default();
    let mut s = Props::default();
    let (mut hc, mut hs) = (HCb::default(), HCb::default());
    let user = gen::prepped(rng, 40);
    let az = if rng.chance(1, 2) { Some(gen::prepped(rng, 20)) } else { None };
    let pw = gen::prepped(rng, 80);
    match m {
        "PLAIN" => {
            c.authid = Some(user);
            c.authzid = az;
            c.password = Some(pw.into_bytes());
        }
        "LOGIN" => {
            c.authid = Some(user);
            c.password = Some(pw.into_bytes());
        }
        "ANONYMOUS" => c.anon = if rng.chance(1, 5) { None } else { Some(user) },
        "EXTERNAL" => c.authzid = az,
        "XOAUTH2" => {
            c.authid = Some(user);
            c.token = Some(gen::word(rng));
        }
        "OAUTHBEARER" => {
            c.authzid = az.map(|_| gen::word(rng));
            c.token = Some(gen::word(rng));
            c.kv = if rng.chance(1, 2) {
                Some((0..rng.below(4)).map(|_| (gen::word(rng), gen::word(rng))).collect())
            } else {
                None
            };
        }
        _ => {
            let h = hash_of(m);
            let n = rng.range(1, 40);
            let salt = rng.bytes(n);
            let it = if cfg!(miri) { 1 } else { *rng.pick(&[1u32, 1, 2, 3, 17]) };
            let k = crate::refimpl::keys(h, pw.as_bytes(), &salt, it);
            s.stored.push(Stored2::of(&user, it, &salt, &k));
            c.authid = Some(user);
            c.authzid = az;
            c.password = Some(pw.into_bytes());
            c.take_cached = rng.chance(1, 2);
            if m.ends_with("-PLUS") {
                let t = *rng.pick(&["tls-exporter", "tls-unique"]);
                let n = rng.range(1, 64);
                let d = rng.bytes(n);
                hc = HCb::one(t, &d);
                hs = HCb::one(t, &d);
            }
        }
    }
    (c, s, hc, hs)
}
pub struct Stored2;
impl Stored2 {
    pub fn of(user: &str, it: u32, salt: &[u8], k: &crate::refimpl::Keys) -> crate::cb::Stored {
        crate::cb::Stored {
            user: user.into(),
            iterations: it,
            salt: salt.to_vec(),
            stored: k.stored.clone(),
            server: k.server.clone(),
        }
    }
}
pub fn hash_of(m: &str) -> crate::refimpl::Hash {
    use crate::refimpl::Hash;
    if m.contains("SHA-512") {
        Hash::Sha512
    } else if m.contains("SHA-256") {
        Hash::Sha256
    } else {
        Hash::Sha1
    }
}
