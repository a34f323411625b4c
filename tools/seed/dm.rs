#![allow(dead_code, unused_imports)]
//! Small driver shared by the demonstrations.
pub use rsasl::callback::{CallbackError, Context, Request, SessionCallback, SessionData};
pub use rsasl::prelude::*;
pub use rsasl::property::*;
pub use rsasl::mechanisms::anonymous::AnonymousToken;
pub use rsasl::mechanisms::{anonymous, external, login, oauthbearer, plain, scram, xoauth2};
pub use rsasl::validate::{NoValidation, Validate, ValidationError};
pub use std::sync::{atomic::*, Arc, Mutex};

pub struct V;
impl Validation for V {
    type Value = String;
}
type CbF = Box<dyn Fn(&SessionData, &Context, &mut Request) -> Result<(), SessionError> + Send + Sync>;
type ValF = Box<dyn Fn(&SessionData, &Context, &mut Validate<'_>) -> Result<(), ValidationError> + Send + Sync>;
pub struct D {
    pub cb: CbF,
    pub val: ValF,
    pub bind: bool,
}
pub fn d(cb: impl Fn(&SessionData, &Context, &mut Request) -> Result<(), SessionError> + Send + Sync + 'static) -> D {
    D {
        cb: Box::new(cb),
        val: Box::new(|_, c, v| {
            let id = c.get_ref::<AuthId>().unwrap_or("-").to_string();
            v.finalize::<V>(id);
            Ok(())
        }),
        bind: false,
    }
}
impl D {
    pub fn bind(mut self) -> D {
        self.bind = true;
        self
    }
    pub fn val(mut self, f: impl Fn(&SessionData, &Context, &mut Validate<'_>) -> Result<(), ValidationError> + Send + Sync + 'static) -> D {
        self.val = Box::new(f);
        self
    }
}
impl SessionCallback for D {
    fn callback(&self, s: &SessionData, c: &Context, r: &mut Request) -> Result<(), SessionError> {
        (self.cb)(s, c, r)
    }
    fn enable_channel_binding(&self) -> bool {
        self.bind
    }
    fn validate(&self, s: &SessionData, c: &Context, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        (self.val)(s, c, v)
    }
}
/// client callback with a name and a password
pub fn creds(authzid: Option<&'static str>, id: &'static str, pw: &'static [u8]) -> D {
    d(move |_, _, r| {
        r.satisfy::<AuthId>(id)?.satisfy::<Password>(pw)?;
        if let Some(a) = authzid {
            r.satisfy::<AuthzId>(a)?;
        }
        Ok(())
    })
}
/// channel binding data by type
pub struct Bind(pub Vec<(&'static str, Vec<u8>)>);
impl ChannelBindingCallback for Bind {
    fn get_cb_data(&self, n: &str) -> Option<&[u8]> {
        self.0.iter().find(|(k, _)| *k == n).map(|(_, v)| &v[..])
    }
}
pub fn mech(n: &str) -> Mechanism {
    match n {
        "SCRAM-SHA-1" => scram::SCRAM_SHA1,
        "SCRAM-SHA-256" => scram::SCRAM_SHA256,
        "SCRAM-SHA-512" => scram::SCRAM_SHA512,
        "SCRAM-SHA-1-PLUS" => scram::SCRAM_SHA1_PLUS,
        "SCRAM-SHA-256-PLUS" => scram::SCRAM_SHA256_PLUS,
        "SCRAM-SHA-512-PLUS" => scram::SCRAM_SHA512_PLUS,
        "PLAIN" => plain::PLAIN,
        "LOGIN" => login::LOGIN,
        "ANONYMOUS" => anonymous::ANONYMOUS,
        "EXTERNAL" => external::EXTERNAL,
        "XOAUTH2" => xoauth2::XOAUTH2,
        "OAUTHBEARER" => oauthbearer::OAUTHBEARER,
        _ => panic!("unknown mechanism"),
    }
}
pub fn config(mechs: &[&str], cb: D) -> Arc<SASLConfig> {
    let m: Vec<Mechanism> = mechs.iter().map(|m| mech(m)).collect();
    SASLConfig::builder().with_registry(Registry::with_mechanisms(m.leak())).with_callback(cb).unwrap()
}
pub fn client(m: &str, cb: D) -> Session<NoValidation, Bind> {
    client_of(&[m], &[m], cb, Bind(vec![])).unwrap()
}
pub fn client_of(mechs: &[&str], offered: &[&str], cb: D, b: Bind) -> Result<Session<NoValidation, Bind>, SASLError> {
    let o: Vec<&Mechname> = offered.iter().map(|n| Mechname::parse(n.as_bytes()).unwrap()).collect();
    SASLClient::with_cb(config(mechs, cb), b).start_suggested(&o)
}
pub fn server(m: &str, cb: D) -> Session<V, Bind> {
    server_of(&[m], m, cb, Bind(vec![])).unwrap()
}
pub fn server_of(mechs: &[&str], m: &str, cb: D, b: Bind) -> Result<Session<V, Bind>, SASLError> {
    SASLServer::<V, Bind>::with_cb(config(mechs, cb), b).start_suggested(Mechname::parse(m.as_bytes()).unwrap())
}
pub type Res = (Result<State, SessionError>, Vec<u8>);
pub fn step<X: Validation>(s: &mut Session<X, Bind>, i: Option<&[u8]>) -> Res {
    let mut o = Vec::new();
    let r = s.step(i, &mut o);
    (r, o)
}
pub fn ok<X: Validation>(s: &mut Session<X, Bind>, i: Option<&[u8]>) -> Vec<u8> {
    let (r, o) = step(s, i);
    r.expect("step failed");
    o
}
/// stored SCRAM-SHA-256 credentials of a password
pub struct Stored {
    pub salt: Vec<u8>,
    pub iter: u32,
    pub stored: Vec<u8>,
    pub server: Vec<u8>,
    pub client: Vec<u8>,
}
pub fn stored(pw: &[u8], salt: &[u8], iter: u32) -> Stored {
    use hmac::{Hmac, Mac};
    use sha2::{Digest, Sha256};
    let h = |k: &[u8], m: &[u8]| Hmac::<Sha256>::new_from_slice(k).unwrap().chain_update(m).finalize().into_bytes().to_vec();
    let mut u = h(pw, &[salt, &[0, 0, 0, 1]].concat());
    let mut s = u.clone();
    for _ in 1..iter {
        u = h(pw, &u);
        s.iter_mut().zip(&u).for_each(|(a, b)| *a ^= b);
    }
    let client = h(&s, b"Client Key");
    Stored { salt: salt.to_vec(), iter, stored: Sha256::digest(&client).to_vec(), server: h(&s, b"Server Key"), client }
}
pub fn hmac256(k: &[u8], m: &[u8]) -> Vec<u8> {
    use hmac::{Hmac, Mac};
    Hmac::<sha2::Sha256>::new_from_slice(k).unwrap().chain_update(m).finalize().into_bytes().to_vec()
}
pub fn b64(x: &[u8]) -> String {
    use base64::Engine;
    base64::engine::general_purpose::STANDARD.encode(x)
}
/// proof of the client key over an AuthMessage
pub fn proof(s: &Stored, am: &[u8]) -> Vec<u8> {
    hmac256(&s.stored, am).iter().zip(&s.client).map(|(a, b)| a ^ b).collect()
}
/// server callback knowing one user
pub fn knows(user: &'static str, s: Stored) -> D {
    d(move |_, c, r| {
        if c.get_ref::<AuthId>() == Some(user) {
            r.satisfy::<scram::properties::ScramStoredPassword>(&scram::properties::ScramStoredPassword::new(
                s.iter, &s.salt, &s.stored, &s.server,
            ))?;
        }
        Ok(())
    })
}
