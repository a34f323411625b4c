//! Prints what rsasl built with one set of cargo features does: lines of "key<TAB>value".
//! (C22 compares the lines of different feature sets.)
#![allow(dead_code, unused_imports)]
use rsasl::callback::{Context, Request, SessionCallback, SessionData};
use rsasl::prelude::*;
use rsasl::property::*;
use rsasl::validate::{Validate, ValidationError};
use std::fmt::Write as _;
use std::sync::{Arc, Mutex};

const NAMES: [&str; 13] = [
    "SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS", "SCRAM-SHA-512-PLUS",
    "PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER", "GSSAPI",
];
const USER: &str = "us,er=\u{e9}";
const AUTHZID: &str = "z,\u{e9}=";
const PASSWORD: &str = "p\u{e9}ncil pen";

/// what the callback knows
#[derive(Clone)]
struct Vals {
    user: String,
    authzid: String,
    pw: String,
    token: String,
    anon: String,
    kv: Vec<(String, String)>,
}
impl Default for Vals {
    fn default() -> Self {
        let kv = [("host", "example.org"), ("port", "143")].map(|(k, v)| (k.to_string(), v.to_string())).to_vec();
        Vals { user: USER.into(), authzid: AUTHZID.into(), pw: PASSWORD.into(), token: "t.o-k_e~n==".into(), anon: "tr\u{e9}ce".into(), kv }
    }
}
/// the same numbers in every build
struct Rng(u64);
impl Rng {
    fn below(&mut self, n: usize) -> usize {
        self.0 = self.0.wrapping_mul(6_364_136_223_846_793_005).wrapping_add(1_442_695_040_888_963_407);
        ((self.0 >> 33) as usize) % n
    }
}
/// pieces of every mechanism's messages
const WORDS: [&[u8]; 56] = [
    b"\0", b"\x01", b",", b"=", b"n,,", b"y,,", b"p=tls-unique,,", b"n,a=u,", b"user=", b"auth=", b"auth=Bearer ", b"Bearer ", b"bearer ", b"n=", b"r=", b"r=abc", b"c=biws",
    b"p=", b"s=", b"i=1", b"i=7", b"v=", b"e=", b"m=x", b"x=y", b"abc", b"us,er", b"=2C", b"=3D", b"host=h\x01", b"port=1\x01", b"user=u\x01", b"k=v\x01", b"mthd=GET\x01", b"path=/\x01",
    b"post=\x01", b"qs=q\x01", b"\x01\x01", b"u", b"\xc3\xa9", b"\xff", b" ", b"@", b"User Name\0", b"Password\0", b"{\"status\":\"x\"}", b"\"scope\":", b"{", b"}", b"\xe2\x80\x8b",
    b"anonymous", b"token", b"\n", b"SCRAM-SHA-1", b"PLAIN", b"aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa",
];
const WHOLE: [&[u8]; 12] = [
    b"\0u\0p", b"z\0u\0p", b"user=a\x01auth=Bearer t\x01\x01", b"n,,\x01auth=Bearer t\x01\x01", b"n,a=x,\x01auth=Bearer t\x01host=h\x01\x01", b"n,,n=u,r=abcdef", b"y,a=b,n=u,r=abcdef",
    b"r=abcdef,s=AAAA,i=1", b"{\"status\":\"x\",\"scope\":\"y\"}", b"user", b"trace@example.org", b"c=biws,r=abc,p=AAAA",
];
fn message(r: &mut Rng) -> Vec<u8> {
    let mut m = vec![];
    if r.below(3) > 0 {
        m.extend_from_slice(WHOLE[r.below(WHOLE.len())]);
        for _ in 0..r.below(3) {
            let w = WORDS[r.below(WORDS.len())];
            let i = r.below(m.len() + 1);
            match r.below(3) {
                0 => drop(m.splice(i..i, w.iter().copied())),
                1 if i < m.len() => drop(m.remove(i)),
                _ => {
                    // at a separator
                    let at: Vec<usize> = (0..m.len()).filter(|i| matches!(m[*i], b',' | 0 | 1)).map(|i| i + 1).chain([m.len()]).collect();
                    let i = at[r.below(at.len())];
                    drop(m.splice(i..i, w.iter().copied()));
                }
            }
        }
        return m;
    }
    for _ in 0..r.below(6) {
        m.extend_from_slice(WORDS[r.below(WORDS.len())]);
    }
    m
}
fn text(r: &mut Rng) -> String {
    let mut t = String::new();
    for _ in 0..r.below(4) {
        let w = match r.below(3) {
            0 => "us".into(),
            _ => String::from_utf8_lossy(WORDS[r.below(WORDS.len())]),
        };
        t.push_str(&w);
    }
    t
}
fn vals(r: &mut Rng) -> Vals {
    const KEYS: [&str; 16] = ["user", "host", "port", "mthd", "path", "post", "qs", "a", "n", "token", "authzid", "k", "auth", "p", "bearer", "cb"];
    let kv = (0..r.below(5)).map(|_| (KEYS[r.below(KEYS.len())].to_string(), text(r).replace('\u{1}', ""))).collect();
    Vals { user: text(r), authzid: text(r), pw: text(r), token: text(r), anon: text(r), kv }
}

struct Cb {
    log: Arc<Mutex<Vec<String>>>,
    has: bool,
    refuse: bool,
    bind: bool,
    v: Vals,
}
impl SessionCallback for Cb {
    fn callback(&self, sd: &SessionData, c: &Context, r: &mut Request) -> Result<(), SessionError> {
        let ctx = [c.get_ref::<AuthId>(), c.get_ref::<AuthzId>(), c.get_ref::<OAuthBearerToken>(), c.get_ref::<ChannelBindingName>()];
        let server = format!("{:?}", sd.side()) == "Server";
        let note = |what: &str| self.log.lock().unwrap().push(format!("{}{what}{ctx:?}", if server { 's' } else { 'c' }));
        macro_rules! p {
            ($($t:ty => $n:literal, $v:expr);* $(;)?) => { $( if r.is::<$t>() {
                note($n);
                if self.has { r.satisfy::<$t>($v)?; }
            } )* };
        }
        p! {
            AuthId => "AuthId", &self.v.user;
            AuthzId => "AuthzId", &self.v.authzid;
            Password => "Password", self.v.pw.as_bytes();
            OAuthBearerToken => "OAuthBearerToken", &self.v.token;
            OAuthBearerKV => "OAuthBearerKV", &self.v.kv.iter().map(|(k, v)| (k.as_str(), v.as_str())).collect::<Vec<_>>();
        }
        #[cfg(feature = "anonymous")]
        p! { rsasl::mechanisms::anonymous::AnonymousToken => "AnonymousToken", &self.v.anon }
        #[cfg(feature = "xoauth2")]
        {
            use rsasl::mechanisms::xoauth2::properties::*;
            if r.is::<XOAuth2Validate>() {
                note("XOAuth2Validate");
                if self.refuse {
                    r.satisfy::<XOAuth2Validate>(&Err("{\"status\":\"no\"}"))?;
                } else {
                    r.satisfy::<XOAuth2Validate>(&Ok(()))?;
                }
            } else if let Some(e) = r.get_action::<XOAuth2Error>() {
                self.log.lock().unwrap().push(format!("told {e}"));
            }
        }
        #[cfg(feature = "oauthbearer")]
        {
            use rsasl::mechanisms::oauthbearer::properties::*;
            if r.is::<OAuthBearerValidate>() {
                note("OAuthBearerValidate");
                if self.refuse {
                    r.satisfy::<OAuthBearerValidate>(&Err(OAuthBearerError::new("n\"o", Some("s"), None)))?;
                } else {
                    r.satisfy::<OAuthBearerValidate>(&Ok(()))?;
                }
            } else if let Some(e) = r.get_action::<OAuthBearerErrored>() {
                self.log.lock().unwrap().push(format!("told {} {:?} {:?}", e.status, e.scope, e.openid_config));
            }
        }
        #[cfg(any(feature = "scram-sha-1", feature = "scram-sha-2"))]
        {
            use rsasl::mechanisms::scram::properties::*;
            if r.is::<ScramStoredPassword<'static>>() {
                note("ScramStoredPassword");
                let known = c.get_ref::<AuthId>() == Some(USER) && !self.refuse;
                if known {
                    if let Some(k) = keys(sd.mechanism().mechanism.as_str()) {
                        r.satisfy::<ScramStoredPassword<'static>>(&ScramStoredPassword::new(2, b"salt-salt", &k.0, &k.1))?;
                    }
                }
            } else if r.is::<SaltedPassword>() {
                note("SaltedPassword");
            } else if r.is::<ScramCachedPassword<'static>>() {
                note("ScramCachedPassword");
            }
        }
        Ok(())
    }
    fn enable_channel_binding(&self) -> bool {
        self.bind
    }
    fn validate(&self, sd: &SessionData, c: &Context, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        let kv = c.get_ref::<OAuthBearerKV>().map(|k| format!("{k:?}"));
        let t = format!(
            "{} {:?} {:?} {:?} {:?} {kv:?}",
            sd.mechanism().mechanism, c.get_ref::<AuthId>(), c.get_ref::<AuthzId>(), c.get_ref::<Password>(), c.get_ref::<OAuthBearerToken>()
        );
        v.finalize::<V>(t);
        Ok(())
    }
}
struct V;
impl Validation for V {
    type Value = String;
}

/// stored and server key of USER/PASSWORD, salt "salt-salt", 2 iterations (computed with Python's hashlib)
#[cfg(any(feature = "scram-sha-1", feature = "scram-sha-2"))]
fn keys(m: &str) -> Option<(Vec<u8>, Vec<u8>)> {
    let k = KEYS.iter().find(|k| m.trim_end_matches("-PLUS") == k.0)?;
    let hex = |s: &str| (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect();
    Some((hex(k.1), hex(k.2)))
}
const KEYS: [(&str, &str, &str); 3] = [
    ("SCRAM-SHA-1", "6dffab0bc7ae6b818079096a4c7c1d90348883ed", "4366c88090c50486ab9b463f7d128685c290175e"),
    ("SCRAM-SHA-256", "907efd5b2c1a49a5320fc4002d002cac62c4451ee24d21ff85d77a6f73605ef7", "507ba3600a77039f27f51daf9a8ae815fb6866a3104addacef17ff605dec512a"),
    ("SCRAM-SHA-512", "1db7f6c4f7f07e356525abb488a11f948c040dcb22c266fdd727aa81895d367e7225b606a899b3310893aa00043325904fb4533be097943406a2b1cb89107a72", "458c8d54222b0df6c3060743514d8be2eff68784b62a1c99a9db85d7d2f98b605bfb9e25f6a931a41f7108e5632d021d59d79a5facab5047ca891357259b2aff"),
];

fn put(k: &str, v: impl std::fmt::Display) {
    println!("{k}\t{}", v.to_string().escape_default());
}
fn kind(e: &SessionError) -> String {
    let t = format!("{e:?}");
    let t: String = t.chars().take_while(|c| c.is_alphanumeric()).collect();
    format!("Err({t})")
}

#[cfg(all(feature = "provider", feature = "config_builder"))]
mod run {
    use super::*;
    type Log = Arc<Mutex<Vec<String>>>;
    fn name(n: &str) -> &Mechname {
        Mechname::parse(n.as_bytes()).unwrap()
    }
    fn config(has: bool, refuse: bool) -> (Arc<SASLConfig>, Log) {
        config_of(has, refuse, Vals::default())
    }
    fn config_of(has: bool, refuse: bool, v: Vals) -> (Arc<SASLConfig>, Log) {
        let log = Log::default();
        let c = SASLConfig::builder().with_defaults().with_callback(Cb { log: log.clone(), has, refuse, bind: false, v }).unwrap();
        (c, log)
    }
    fn client(m: &str, has: bool, refuse: bool) -> Option<(Session, Log)> {
        let (c, l) = config(has, refuse);
        Some((SASLClient::new(c).start_suggested(&[name(m)]).ok()?, l))
    }
    fn server(m: &str, has: bool, refuse: bool) -> Option<(Session<V>, Log)> {
        let (c, l) = config(has, refuse);
        Some((SASLServer::<V>::new(c).start_suggested(name(m)).ok()?, l))
    }
    /// SCRAM: the random parts are reduced to their length
    fn norm(m: &str, b: &[u8]) -> String {
        let t = String::from_utf8_lossy(b).into_owned();
        if !m.starts_with("SCRAM") {
            return t;
        }
        let f = |p: &str| {
            let fresh = ["r=", "p=", "v="].iter().any(|x| p.starts_with(x)) || p.starts_with("s=") && p != "s=c2FsdC1zYWx0";
            if fresh { format!("{}<{}>", &p[..2], p.len()) } else { p.to_string() }
        };
        t.split(',').map(f).collect::<Vec<_>>().join(",")
    }
    fn show<T: std::fmt::Debug>(r: &Result<T, SessionError>) -> String {
        match r {
            Ok(s) => format!("{s:?}"),
            Err(e) => kind(e),
        }
    }
    fn exchange(m: &str, has: bool, refuse: bool, six: bool) -> Option<String> {
        Some(talk(m, six, client(m, has, refuse)?, server(m, has, refuse)?))
    }
    fn talk<A: ChannelBindingCallback, B: ChannelBindingCallback>(m: &str, six: bool, c: (Session<rsasl::validate::NoValidation, A>, Log), s: (Session<V, B>, Log)) -> String {
        talk_edited(m, six, c, s, |_, _| {})
    }
    fn talk_edited<A: ChannelBindingCallback, B: ChannelBindingCallback>(m: &str, six: bool, c: (Session<rsasl::validate::NoValidation, A>, Log), s: (Session<V, B>, Log), mut edit: impl FnMut(usize, &mut Vec<u8>)) -> String {
        let ((mut c, cl), (mut s, sl)) = (c, s);
        let mut t = format!("first {}/{}", c.are_we_first(), s.are_we_first());
        let mut turn = s.are_we_first();
        let mut input: Option<Vec<u8>> = None;
        let (mut cf, mut sf) = (false, false);
        for step in 0..8 {
            let mut w = Vec::new();
            let r;
            #[cfg(feature = "provider_base64")]
            {
                if six {
                    let i = input.as_ref().map(|i| enc(i));
                    r = if turn { s.step64(i.as_deref(), &mut w) } else { c.step64(i.as_deref(), &mut w) };
                    w = dec(&w);
                } else {
                    r = if turn { s.step(input.as_deref(), &mut w) } else { c.step(input.as_deref(), &mut w) };
                }
            }
            #[cfg(not(feature = "provider_base64"))]
            {
                let _ = six;
                r = if turn { s.step(input.as_deref(), &mut w) } else { c.step(input.as_deref(), &mut w) };
            }
            let _ = write!(t, " | {} {} [{}]", if turn { 'S' } else { 'C' }, show(&r), if r.is_err() { String::new() } else { norm(m, &w) });
            let fin = matches!(r, Ok(State::Finished(_)));
            if turn { sf |= fin } else { cf |= fin }
            if r.is_err() || matches!(r, Ok(State::Finished(MessageSent::No))) || (turn && cf) || (!turn && sf) {
                break;
            }
            edit(step, &mut w);
            input = Some(w);
            turn = !turn;
        }
        let _ = write!(t, " | validated {:?}", s.validation());
        let mut seen = cl.lock().unwrap().clone();
        seen.extend(sl.lock().unwrap().iter().cloned());
        let _ = write!(t, " | asked {}", seen.join("; "));
        t
    }
    /// registries of the application's own: the -PLUS mechanisms
    #[cfg(all(feature = "unstable_custom_mechanism", any(feature = "scram-sha-1", feature = "scram-sha-2")))]
    mod own {
        use super::*;
        struct Data;
        impl ChannelBindingCallback for Data {
            fn get_cb_data(&self, n: &str) -> Option<&[u8]> {
                (n == "tls-exporter").then_some(&b"\xff\0exported"[..])
            }
        }
        fn config(reg: &'static [Mechanism], bind: bool) -> (Arc<SASLConfig>, Log) {
            let log = Log::default();
            let cb = Cb { log: log.clone(), has: true, refuse: false, bind, v: Vals::default() };
            (SASLConfig::builder().with_registry(Registry::with_mechanisms(reg)).with_callback(cb).unwrap(), log)
        }
        fn family(reg: &'static [Mechanism], kind: &str) {
            let names: Vec<&Mechname> = reg.iter().map(|m| m.mechanism).collect();
            for m in reg {
                let n = m.mechanism.as_str();
                for bind in [false, true] {
                    for offer in [&[m.mechanism][..], &names[..]] {
                        let (cc, cl) = config(reg, bind);
                        let key = format!("{kind} {bind} {}", offer.len());
                        let c = match SASLClient::with_cb(cc, Data).start_suggested(offer) {
                            Ok(c) => c,
                            Err(_) => {
                                put(&format!("exchange-own {n} {key}"), "no mechanism");
                                continue;
                            }
                        };
                        let picked = c.get_mechname().as_str().to_string();
                        let (sc, sl) = config(reg, bind);
                        let s = SASLServer::<V, _>::with_cb(sc, Data).start_suggested(name(&picked)).unwrap();
                        put(&format!("exchange-own {n} {key}"), format!("{picked} {}", talk(&picked, false, (c, cl), (s, sl))));
                    }
                }
                for h in [&b"y,,n=u,r=abc"[..], b"n,,n=u,r=abc", b"p=tls-exporter,,n=u,r=abc", b"p=tls-unique,,n=u,r=abc"] {
                    let (sc, sl) = config(reg, true);
                    let mut s = SASLServer::<V, _>::with_cb(sc, Data).start_suggested(m.mechanism).unwrap();
                    let mut w = Vec::new();
                    let r = s.step(Some(h), &mut w);
                    let out = if r.is_err() { String::new() } else { norm(n, &w) };
                    put(&format!("hostile-own {n} {kind} {}", String::from_utf8_lossy(&h[..h.len() - 10])), format!("{} [{out}] {}", show(&r), sl.lock().unwrap().join(";")));
                }
            }
        }
        pub fn all() {
            use rsasl::mechanisms::scram::*;
            #[cfg(feature = "scram-sha-1")]
            {
                static R: &[Mechanism] = &[SCRAM_SHA1, SCRAM_SHA1_PLUS];
                family(R, "both");
                static S: &[Mechanism] = &[SCRAM_SHA1];
                family(S, "plain");
                static P: &[Mechanism] = &[SCRAM_SHA1_PLUS];
                family(P, "plus");
            }
            #[cfg(feature = "scram-sha-2")]
            {
                static R: &[Mechanism] = &[SCRAM_SHA256, SCRAM_SHA256_PLUS];
                family(R, "both");
                static S: &[Mechanism] = &[SCRAM_SHA256];
                family(S, "plain");
                static P: &[Mechanism] = &[SCRAM_SHA256_PLUS];
                family(P, "plus");
                static R5: &[Mechanism] = &[SCRAM_SHA512_PLUS, SCRAM_SHA512];
                family(R5, "both");
                static S5: &[Mechanism] = &[SCRAM_SHA512];
                family(S5, "plain");
                static P5: &[Mechanism] = &[SCRAM_SHA512_PLUS];
                family(P5, "plus");
            }
        }
    }
    pub fn enc(b: &[u8]) -> Vec<u8> {
        const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        let mut o = vec![];
        for c in b.chunks(3) {
            let n = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
            for i in 0..4 {
                o.push(if i <= c.len() { A[(n >> (18 - 6 * i)) as usize & 63] } else { b'=' });
            }
        }
        o
    }
    pub fn dec(b: &[u8]) -> Vec<u8> {
        const A: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
        let mut o = vec![];
        let (mut acc, mut n) = (0u32, 0);
        for c in b {
            if *c == b'=' {
                continue;
            }
            let Some(v) = A.iter().position(|a| a == c) else { return b"<not base64>".to_vec() };
            acc = acc << 6 | v as u32;
            n += 6;
            if n >= 8 {
                n -= 8;
                o.push((acc >> n) as u8);
            }
        }
        if enc(&o) != b { b"<not base64>".to_vec() } else { o }
    }
    /// messages no honest client sends (and some that are fine)
    const HOSTILE: [&[u8]; 22] = [
        b"", b"\0", b"\0\0", b"\0a\0b", b"a\0b\0c\0", b"z\0u\0p", b"\xff\0u\0p", b"\0\xffu\0p", b"user=a\x01auth=Bearer t\x01\x01",
        b"user=a\x01auth=bearer t\x01\x01", b"user=\xff\x01auth=Bearer t\x01\x01", b"n,,\x01auth=Bearer t\x01\x01", b"n,a=x=2Cy,\x01auth=Bearer t\x01k=v\x01\x01",
        b"p=x,,\x01auth=Bearer t\x01\x01", b"n,,\x01\x01", b"n,,n=u,r=abc", b"y,,n=u,r=abc", b"p=tls-unique,,n=u,r=abc", b"n,a=q,n=a=2Cb,r=abc", b"n,,n=u=,r=abc",
        b"n,,n=,r=", b"\xff\xfe",
    ];
    const HOSTILE_C: [&[u8]; 8] = [
        b"", b"r=x,s=AAAA,i=1", b"v=AAAA", b"e=invalid-proof", b"{\"status\":\"x\"}", b"{", b"\xff", b"User Name\0",
    ];
    pub fn all() {
        #[cfg(all(feature = "unstable_custom_mechanism", any(feature = "scram-sha-1", feature = "scram-sha-2")))]
        own::all();
        let (c, _) = config(true, false);
        let s = SASLServer::<V>::new(c);
        let mut l: Vec<String> = s.get_available().into_iter().map(|m| m.mechanism.as_str().to_string()).collect();
        l.sort();
        put("available", l.join(" "));
        for az in [false, true] {
            let c = SASLConfig::with_credentials(az.then(|| AUTHZID.to_string()), USER.into(), PASSWORD.into()).unwrap();
            let s = SASLServer::<V>::new(c.clone());
            let l: Vec<String> = s.get_available().into_iter().map(|m| m.mechanism.as_str().to_string()).collect();
            put(&format!("credentials {az}"), l.join(" "));
            put(&format!("rank-credentials {az}"), rank(&c, &NAMES).join(" "));
        }
        let (c, _) = config(true, false);
        put("rank", rank(&c, &NAMES).join(" "));
        let mut rev = NAMES;
        rev.reverse();
        put("rank-reversed", rank(&c, &rev).join(" "));
        for m in NAMES {
            // GSSAPI needs a Kerberos environment to do more than start
            let cs = client(m, true, false).map(|(c, _)| format!("{} {}", c.get_mechname(), c.are_we_first()));
            let ss = server(m, true, false).map(|(c, _)| format!("{} {}", c.get_mechname(), c.are_we_first()));
            put(&format!("start {m}"), format!("{cs:?} {ss:?}"));
            if m == "GSSAPI" {
                continue;
            }
            for (has, refuse) in [(true, false), (true, true), (false, false)] {
                if let Some(t) = exchange(m, has, refuse, false) {
                    put(&format!("exchange {m} {has} {refuse}"), &t);
                    #[cfg(feature = "provider_base64")]
                    put(&format!("exchange64 {m} {has} {refuse}"), exchange(m, has, refuse, true).unwrap());
                }
            }
            let mut t = vec![];
            for h in HOSTILE {
                let Some((mut s, l)) = server(m, true, false) else { continue };
                let mut w = Vec::new();
                if s.are_we_first() {
                    let _ = s.step(None, &mut w);
                }
                w.clear();
                let r = s.step(Some(h), &mut w);
                t.push(format!("{} [{}] {:?} {}", show(&r), if r.is_err() { String::new() } else { norm(m, &w) }, s.validation(), l.lock().unwrap().join(";")));
            }
            if !t.is_empty() {
                put(&format!("hostile-server {m}"), t.join(" | "));
            }
            let mut t = vec![];
            for h in HOSTILE_C {
                let Some((mut c, _)) = client(m, true, false) else { continue };
                let mut w = Vec::new();
                if c.are_we_first() {
                    let _ = c.step(None, &mut w);
                }
                w.clear();
                if !m.starts_with("SCRAM") && c.are_we_first() && !m.contains("OAUTH") && m != "XOAUTH2" {
                    continue;
                }
                let r = c.step(Some(h), &mut w);
                t.push(format!("{} [{}]", show(&r), if r.is_err() { String::new() } else { norm(m, &w) }));
            }
            if !t.is_empty() {
                put(&format!("hostile-client {m}"), t.join(" | "));
            }
            generated(m);
        }
    }
    /// messages and values made of pieces of all mechanisms' messages
    fn generated(m: &str) {
        if client(m, true, false).is_none() && server(m, true, false).is_none() {
            return;
        }
        let mut r = Rng(7);
        for i in 0..600 {
            let h = message(&mut r);
            let refuse = i % 4 == 0;
            if let Some((mut s, l)) = server(m, true, refuse) {
                let mut w = Vec::new();
                if s.are_we_first() {
                    let _ = s.step(None, &mut w);
                    if i % 2 == 0 {
                        w.clear();
                        let _ = s.step(Some(b"user"), &mut w);
                    }
                }
                w.clear();
                let x = s.step(Some(&h), &mut w);
                put(
                    &format!("hostile-gen-server {m} {i}"),
                    format!("{} [{}] {:?} {}", show(&x), if x.is_err() { String::new() } else { norm(m, &w) }, s.validation(), l.lock().unwrap().join(";")),
                );
            }
            if let Some((mut c, l)) = client(m, true, false) {
                let mut w = Vec::new();
                if c.are_we_first() {
                    let x = c.step(None, &mut w);
                    if !matches!(x, Ok(State::Running)) {
                        continue;
                    }
                }
                w.clear();
                let x = c.step(Some(&h), &mut w);
                put(&format!("hostile-gen-client {m} {i}"), format!("{} [{}] {}", show(&x), if x.is_err() { String::new() } else { norm(m, &w) }, l.lock().unwrap().join(";")));
            }
        }
        for i in 0..250 {
            let v = if m.starts_with("SCRAM") { Vals { authzid: text(&mut r), ..Vals::default() } } else { vals(&mut r) };
            let (at, word, place) = (r.below(6), WORDS[r.below(WORDS.len())], r.below(20));
            // who is unknown is asked for many iterations: not often
            let at = if m.starts_with("SCRAM") && i % 25 > 0 { at.max(1) } else { at };
            let (cc, cl) = config_of(true, false, v.clone());
            let (sc, sl) = config_of(true, i % if m.starts_with("SCRAM") { 25 } else { 5 } == 1, v);
            let Ok(c) = SASLClient::new(cc).start_suggested(&[name(m)]) else { continue };
            let Ok(s) = SASLServer::<V>::new(sc).start_suggested(name(m)) else { continue };
            let t = talk_edited(m, false, (c, cl), (s, sl), |step, w| {
                if step == at {
                    let at: Vec<usize> = (0..w.len()).filter(|i| matches!(w[*i], b',' | 0 | 1)).map(|i| i + 1).chain([0, w.len()]).collect();
                    let i = at[place % at.len()];
                    drop(w.splice(i..i, word.iter().copied()));
                }
            });
            put(&format!("exchange-gen {m} {i}"), t);
        }
    }
    /// the order in which a client prefers what it has
    fn rank(c: &Arc<SASLConfig>, names: &[&'static str]) -> Vec<String> {
        let mut left: Vec<&Mechname> = names.iter().map(|n| name(n)).collect();
        let mut o = vec![];
        while let Ok(s) = SASLClient::new(c.clone()).start_suggested(&left) {
            let n = s.get_mechname().as_str().to_string();
            let before = left.len();
            left.retain(|x| x.as_str() != n);
            o.push(n);
            if left.len() == before {
                o.push("<not offered>".into());
                break;
            }
        }
        o
    }
}

fn main() {
    #[cfg(all(feature = "provider", feature = "config_builder"))]
    run::all();
    // an application crate without the provider parts still has names and the configuration
    #[cfg(feature = "config_builder")]
    put("config", SASLConfig::with_credentials(None, USER.into(), PASSWORD.into()).is_ok());
    put("mechname", format!("{:?} {:?}", Mechname::parse(b"SCRAM-SHA-1-PLUS").map(Mechname::as_str).ok(), Mechname::parse(b"lower").is_err()));
}
