//! C19: taint search for secrets in everything a session emits, and a monitor of password requests.
use crate::cb::{Cb, Ev, HCb, Log, Props, V};
use crate::drive::*;
use crate::gen;
use crate::io::{End, Wr};
use crate::prng::Rng;
use crate::refimpl::{b64, keys, unb64, Hash, Keys};
use crate::report::{show, Run, W};
use rsasl::callback::{Context, Request, SessionCallback, SessionData};
use rsasl::prelude::*;
use rsasl::validate::{Validate, ValidationError};
use serde_json::json;
use std::collections::HashSet;
use std::fmt::{Debug, Display};
use std::sync::{Arc, Mutex};

/// `(&Dbg(&x)).dbg()` renders x if it has a Debug impl, and nothing otherwise
pub struct Dbg<'a, T: ?Sized>(pub &'a T);
pub trait ViaDebug {
    fn dbg(&self) -> Option<String>;
}
impl<T: Debug + ?Sized> ViaDebug for Dbg<'_, T> {
    fn dbg(&self) -> Option<String> {
        Some(format!("{:?}\n{:#?}", self.0, self.0))
    }
}
pub trait ViaNothing {
    fn dbg(&self) -> Option<String>;
}
impl<T: ?Sized> ViaNothing for &Dbg<'_, T> {
    fn dbg(&self) -> Option<String> {
        None
    }
}
pub struct Dsp<'a, T: ?Sized>(pub &'a T);
pub trait ViaDisplay {
    fn dsp(&self) -> Option<String>;
}
impl<T: Display + ?Sized> ViaDisplay for Dsp<'_, T> {
    fn dsp(&self) -> Option<String> {
        Some(format!("{}", self.0))
    }
}
pub trait ViaNoDisplay {
    fn dsp(&self) -> Option<String>;
}
impl<T: ?Sized> ViaNoDisplay for &Dsp<'_, T> {
    fn dsp(&self) -> Option<String> {
        None
    }
}
macro_rules! render {
    ($out:expr, $what:literal, $x:expr) => {{
        if let Some(s) = (&Dbg($x)).dbg() {
            $out.push((concat!("debug of ", $what), s.into_bytes()));
        }
        if let Some(s) = (&Dsp($x)).dsp() {
            $out.push((concat!("display of ", $what), s.into_bytes()));
        }
    }};
}
type Outs = Vec<(&'static str, Vec<u8>)>;

fn error_text(out: &mut Outs, e: &SessionError) {
    render!(out, "an error", e);
    let mut s: Option<&dyn std::error::Error> = std::error::Error::source(e);
    while let Some(x) = s {
        out.push(("an error source", format!("{x} {x:?} {x:#?}").into_bytes()));
        s = x.source();
    }
}

/// wraps the scripted callback and renders everything it can see
struct Spy {
    inner: Cb,
    seen: Arc<Mutex<Outs>>,
}
impl SessionCallback for Spy {
    fn callback(&self, sd: &SessionData, c: &Context, r: &mut Request) -> Result<(), SessionError> {
        {
            let mut o = self.seen.lock().unwrap();
            render!(o, "SessionData", sd);
            render!(o, "Context", c);
            render!(o, "Request", &*r);
        }
        let x = self.inner.callback(sd, c, r);
        let mut o = self.seen.lock().unwrap();
        render!(o, "a satisfied Request", &*r);
        x
    }
    fn enable_channel_binding(&self) -> bool {
        self.inner.enable_channel_binding()
    }
    fn prefer<'a>(&self, a: Option<&'a Mechanism>, b: &'a Mechanism) -> std::cmp::Ordering {
        self.inner.prefer(a, b)
    }
    fn validate(&self, sd: &SessionData, c: &Context, v: &mut Validate<'_>) -> Result<(), ValidationError> {
        {
            let mut o = self.seen.lock().unwrap();
            render!(o, "Validate", &*v);
            render!(o, "a validation Context", c);
        }
        self.inner.validate(sd, c, v)
    }
}

// ---- taint search ----
const RAW: usize = 8;
const HEX: usize = 16;
const B64: usize = 12;
#[derive(Default)]
struct Taints {
    raw: HashSet<Vec<u8>>,
    hex: HashSet<Vec<u8>>,
    b64: HashSet<Vec<u8>>,
    names: Vec<(&'static str, Vec<u8>)>,
}
impl Taints {
    fn add(&mut self, name: &'static str, s: &[u8]) {
        if s.len() < RAW {
            return;
        }
        self.names.push((name, s.to_vec()));
        for w in s.windows(RAW) {
            self.raw.insert(w.to_vec());
        }
        let hex: Vec<u8> = s.iter().flat_map(|b| format!("{b:02x}").into_bytes()).collect();
        for w in hex.windows(HEX) {
            self.hex.insert(w.to_vec());
        }
        for a in 0..3 {
            // encodings in which the secret starts at any offset of a base64 group
            let mut v = vec![0; a];
            v.extend_from_slice(s);
            let e: Vec<u8> = b64(&v).into_iter().filter(|c| *c != b'=').collect();
            let skip = if a == 0 { 0 } else { 4 };
            let full = (s.len() + a) / 3 * 4;
            for w in e[skip.min(e.len())..full.min(e.len()).max(skip.min(e.len()))].windows(B64) {
                self.b64.insert(w.to_vec());
            }
        }
    }
    fn which(&self, at: &[u8]) -> String {
        self.names.iter().find(|(_, s)| s.windows(at.len()).any(|w| w == at)).map_or("a secret", |(n, _)| n).to_string()
    }
    /// the kind of the first disclosure
    fn scan(&self, o: &[u8]) -> Option<String> {
        if let Some(w) = o.windows(RAW).find(|w| self.raw.contains(*w)) {
            return Some(format!("{} (raw)", self.which(w)));
        }
        let low = o.to_ascii_lowercase();
        if let Some(w) = low.windows(HEX).find(|w| self.hex.contains(*w)) {
            return Some(format!("hex {}", show(w)));
        }
        let std: Vec<u8> = o.iter().map(|c| match c { b'-' => b'+', b'_' => b'/', c => *c }).collect();
        for v in [o, &std[..]] {
            if let Some(w) = v.windows(B64).find(|w| self.b64.contains(*w)) {
                return Some(format!("base64 {}", show(w)));
            }
        }
        None
    }
    /// debug renderings of byte lists in addition
    fn scan_text(&self, o: &[u8]) -> Option<String> {
        if let Some(x) = self.scan(o) {
            return Some(x);
        }
        let t = String::from_utf8_lossy(o);
        let toks: Vec<&str> = t.split(|c: char| !c.is_ascii_alphanumeric()).filter(|s| !s.is_empty()).collect();
        let dec: Vec<u8> = toks.iter().filter_map(|t| t.parse::<u8>().ok()).collect();
        if let Some(w) = dec.windows(RAW).find(|w| self.raw.contains(*w)) {
            return Some(format!("{} (list of numbers)", self.which(w)));
        }
        let hex: Vec<u8> = toks.iter().filter_map(|t| u8::from_str_radix(t.strip_prefix("0x").unwrap_or(t), 16).ok()).collect();
        if let Some(w) = hex.windows(RAW).find(|w| self.raw.contains(*w)) {
            return Some(format!("{} (list of hex numbers)", self.which(w)));
        }
        // "\x7f\u{e9}" escapes
        let b = t.as_bytes();
        let mut un = vec![];
        let mut i = 0;
        while i < b.len() {
            if b[i] == b'\\' && i + 1 < b.len() {
                match b[i + 1] {
                    b'x' if i + 3 < b.len() => {
                        if let Ok(v) = u8::from_str_radix(&String::from_utf8_lossy(&b[i + 2..i + 4]), 16) {
                            un.push(v);
                            i += 4;
                            continue;
                        }
                    }
                    b'n' => un.push(b'\n'),
                    b't' => un.push(b'\t'),
                    b'r' => un.push(b'\r'),
                    b'0' => un.push(0),
                    c => un.push(c),
                }
                i += 2;
                continue;
            }
            un.push(b[i]);
            i += 1;
        }
        un.windows(RAW).find(|w| self.raw.contains(*w)).map(|w| format!("{} (escaped)", self.which(w)))
    }
}

fn secret_text(rng: &mut Rng) -> String {
    let n = rng.range(16, 40);
    let cs: Vec<char> = "abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789".chars().collect();
    let mut s: String = (0..n).map(|_| *rng.pick(&cs)).collect();
    if rng.chance(1, 4) {
        s.insert(n / 2, *rng.pick(&['é', 'ß', '日', '🔑']));
    }
    s
}

struct Case {
    m: &'static str,
    pw: String,
    k: Keys,
    t: Taints,
    c: Props,
    s: Props,
    hc: HCb,
    hs: HCb,
    mode: usize,
}
fn make(rng: &mut Rng) -> Case {
    let m: &'static str = *rng.pick(&SCRAM);
    let h = hash_of(m);
    let pw = secret_text(rng);
    let n = rng.range(4, 40);
    let salt = rng.bytes(n);
    let it = *rng.pick(&[1u32, 2, 3, 100]);
    let k = keys(h, pw.as_bytes(), &salt, it);
    let mut t = Taints::default();
    t.add("password", pw.as_bytes());
    t.add("salted password", &k.salted);
    t.add("client key", &k.client);
    t.add("stored key", &k.stored);
    t.add("server key", &k.server);
    let user = gen::prepped(rng, 30);
    let mut c = Props { authid: Some(user.clone()), ..Props::default() };
    let mut s = Props::default();
    c.take_cached = rng.chance(1, 2);
    c.no_value = rng.chance(1, 3);
    s.no_value = rng.chance(1, 3);
    if rng.chance(1, 3) {
        c.authzid = Some(gen::prepped(rng, 20));
    }
    let mode = rng.below(4);
    // whoever has the keys does not care how expensive it was to derive them
    let said = if mode < 2 && rng.chance(1, 2) { *rng.pick(&[4096, 65_535, 100_001, 1_000_000, 0x7fff_ffff, u32::MAX]) } else { it };
    match mode {
        0 => c.cached = Some((k.client.clone(), k.server.clone())),
        1 => c.salted = Some(k.salted.clone()),
        // the empty salted password means "not provided"
        2 if rng.chance(1, 2) => c.salted = Some(vec![]),
        _ => {}
    }
    // the password is always there: the monitor looks whether it is asked for without need
    c.password = Some(pw.clone().into_bytes());
    s.stored.push(Stored2::of(&user, said, &salt, &k));
    // a server callback that would answer anything
    s.password = c.password.clone();
    s.salted = Some(k.salted.clone());
    s.cached = Some((k.client.clone(), k.server.clone()));
    let (mut hc, mut hs) = (HCb::default(), HCb::default());
    if m.ends_with("-PLUS") {
        let d = rng.bytes(32);
        hc = HCb::one("tls-exporter", &d);
        hs = HCb::one("tls-exporter", &d);
        c.enable_cb = true;
    }
    Case { m, pw, k, t, c, s, hc, hs, mode }
}

fn spy(p: Props) -> (Spy, Log, Arc<Mutex<Outs>>) {
    let (inner, log) = Cb::new(p);
    let seen: Arc<Mutex<Outs>> = Arc::default();
    (Spy { inner, seen: seen.clone() }, log, seen)
}

const EDITS: [&str; 14] = [
    "odd keys",
    "honest", "honest", "honest", "wrong password", "unknown user", "bad stored key", "server-first nonce", "server-first iterations",
    "server-first salt", "server-first extension", "mutated", "binding mismatch", "write failure",
];

fn scram(w: &mut W, rng: &mut Rng) {
    let mut x = make(rng);
    let class = EDITS[(w.case as usize) % EDITS.len()];
    let m = x.m;
    match class {
        "wrong password" => {
            let st = &mut x.s.stored[0];
            let other = secret_text(rng);
            let k = keys(hash_of(m), other.as_bytes(), &st.salt, st.iterations.min(100));
            x.t.add("stored password", other.as_bytes());
            x.t.add("stored key on the server", &k.stored);
            x.t.add("server key on the server", &k.server);
            st.stored = k.stored;
            st.server = k.server;
        }
        "unknown user" => {
            x.s.stored.clear();
            // the decoy uses many iterations: nothing the client would agree to
            x.c.max_iter = 1000;
        }
        "bad stored key" => {
            let st = &mut x.s.stored[0];
            if rng.chance(1, 2) {
                st.stored.truncate(st.stored.len() - 1);
            } else {
                st.server.push(7);
            }
        }
        // key material of another mechanism, or cut off
        "odd keys" => {
            let n = rng.bytes(32);
            let h = *rng.pick(&[Hash::Sha1, Hash::Sha256, Hash::Sha512]);
            let k = keys(h, x.pw.as_bytes(), &n, 1);
            let mut v = [k.salted.clone(), k.client.clone(), k.server.clone(), k.stored.clone()];
            for i in &mut v {
                match rng.below(4) {
                    0 => i.truncate(rng.range(RAW, i.len())),
                    1 => {
                        let more = rng.bytes(40);
                        i.extend(more);
                    }
                    _ => {}
                }
            }
            for (n, i) in ["odd salted password", "odd client key", "odd server key", "odd stored key"].iter().zip(&v) {
                x.t.add(n, i);
            }
            let [salted, client, server, stored] = v;
            match rng.below(3) {
                0 => {
                    x.s.stored[0].stored = stored;
                    x.s.stored[0].server = server;
                }
                1 => {
                    x.c.cached = None;
                    x.c.salted = Some(salted);
                    x.mode = 4;
                }
                _ => {
                    x.c.salted = None;
                    x.c.cached = Some((client, server));
                    x.mode = 4;
                }
            }
        }
        "binding mismatch" if m.ends_with("-PLUS") => x.hs = HCb::one("tls-exporter", b"other"),
        _ => {}
    }
    let (cs, clog, cseen) = spy(x.c.clone());
    let (ss, slog, sseen) = spy(x.s.clone());
    let mut outs: Outs = vec![];
    let cb = SASLConfig::builder().with_registry(Registry::with_mechanisms(mechs(&[m])));
    render!(outs, "ConfigBuilder", &SASLConfig::builder());
    let ccfg = cb.with_callback(cs).expect("harness: config");
    let scfg = SASLConfig::builder().with_registry(Registry::with_mechanisms(mechs(&[m]))).with_callback(ss).expect("harness: config");
    render!(outs, "SASLConfig", &*ccfg);
    render!(outs, "SASLConfig", &*scfg);
    render!(outs, "SASLClient", &SASLClient::new(ccfg.clone()));
    let cl = SASLClient::with_cb(ccfg, x.hc.clone());
    let sv = SASLServer::<V, HCb>::with_cb(scfg, x.hs.clone());
    render!(outs, "SASLServer", &sv);
    let mut c = cl.start_suggested(&[name(m)]).expect("harness: start client");
    let mut s = sv.start_suggested(name(m)).expect("harness: start server");
    let ctx = format!("{m} {class} mode {}", x.mode);
    let mut input: Option<Vec<u8>> = None;
    let mut trace: Vec<(bool, R, String)> = vec![];
    let mut client_asked = vec![];
    let mut wire: Vec<Vec<u8>> = vec![];
    let mut rejected_server_first = false;
    let mut write_fail = class == "write failure";
    for turn in 0..5 {
        let server = turn % 2 == 1;
        let before = clog.lock().unwrap().len();
        let end = if write_fail && rng.chance(1, 3) {
            write_fail = false;
            End::Err(rng.below(60), std::io::ErrorKind::BrokenPipe)
        } else {
            End::Never
        };
        let mut wr = Wr::new(vec![rng.range(1, 200)], 0, rng.chance(1, 2), end);
        let six = rng.chance(1, 4);
        let inp = input.as_ref().map(|i| if six { b64(i) } else { i.clone() });
        let r = match (server, six) {
            (true, false) => s.step(inp.as_deref(), &mut wr),
            (true, true) => s.step64(inp.as_deref(), &mut wr),
            (false, false) => c.step(inp.as_deref(), &mut wr),
            (false, true) => c.step64(inp.as_deref(), &mut wr),
        };
        let out = R::of(&r);
        let mut msg = wr.got;
        outs.push((if server { "bytes of the server" } else { "bytes of the client" }, msg.clone()));
        if six {
            if let Some(d) = unb64(&msg) {
                msg = d;
            }
        }
        outs.push((if server { "message of the server" } else { "message of the client" }, msg.clone()));
        wire.push(msg.clone());
        if server {
            render!(outs, "the server session", &s);
        } else {
            render!(outs, "the client session", &c);
        }
        trace.push((server, out.clone(), show(&msg)));
        if let Ok(st) = &r {
            render!(outs, "State", st);
        }
        if let Err(e) = &r {
            error_text(&mut outs, e);
        }
        let asked: Vec<&'static str> = clog.lock().unwrap()[before..].iter().filter_map(Ev::req).collect();
        client_asked.push(asked);
        if out.is_err() {
            break;
        }
        if out.is_fin() && (!server || out == R::FinNo) {
            break;
        }
        // edits in flight
        if turn == 1 && class.starts_with("server-first") {
            let mut p: Vec<Vec<u8>> = msg.split(|b| *b == b',').map(<[u8]>::to_vec).collect();
            rejected_server_first = true;
            match class {
                "server-first nonce" => {
                    if rng.chance(1, 2) {
                        p[0][2] = if p[0][2] == b'x' { b'y' } else { b'x' };
                    } else {
                        let n = wire[0].split(|b| *b == b',').next_back().unwrap_or(b"").to_vec();
                        p[0] = n;
                    }
                }
                "server-first iterations" => p[2] = rng.pick::<&[u8]>(&[b"i=0", b"i=-1", b"i=", b"i=x", b"i=99999999999"]).to_vec(),
                "server-first salt" => p[1] = b"s=%%%%".to_vec(),
                _ => p.insert(0, b"m=x".to_vec()),
            }
            msg = p.join(&b","[..]);
        }
        if class == "mutated" && rng.chance(1, 2) {
            msg = gen::mutate(rng, &msg);
        }
        input = Some(msg);
    }
    outs.extend(cseen.lock().unwrap().drain(..));
    outs.extend(sseen.lock().unwrap().drain(..));
    w.eval((m, class, &x.pw, x.mode), trace.len() > 2);
    w.count(&format!("scenario:{class}"));
    w.add("outputs_searched", outs.len() as u64);
    let d = || format!("{ctx} password {:?}: {trace:?}", x.pw);
    for (what, o) in &outs {
        w.add("bytes_searched", o.len() as u64);
        let text = !what.contains("bytes") && !what.contains("message");
        let hit = if text { x.t.scan_text(o) } else { x.t.scan(o) };
        if text {
            w.count(what);
        }
        if let Some(hit) = hit {
            w.viol(format!("secret-disclosed@{what}"), format!("{hit} in {what} {}: {}", show(o), d()));
        }
    }
    // an exchange that nobody disturbed consists of the prescribed attributes only
    if class == "honest" {
        let fin = trace.len() == 5 && trace[4].1 == R::FinNo;
        w.want(fin, "honest-exchange-fails", d);
        if fin {
            let shape: Vec<Vec<u8>> = wire
                .iter()
                .enumerate()
                .map(|(i, m)| {
                    let skip = if i == 0 { 2 } else { 0 };
                    m.split(|b| *b == b',').skip(skip).map(|a| a.first().copied().unwrap_or(b'?')).collect()
                })
                .collect();
            let want: Vec<Vec<u8>> = [&b"nr"[..], b"rsi", b"crp", b"v", b"?"].iter().map(|s| s.to_vec()).collect();
            w.want(shape == want, "unprescribed-attributes", d);
            let hl = x.k.client.len();
            let p = wire[2].split(|b| *b == b',').next_back().and_then(|p| p.strip_prefix(b"p=")).and_then(unb64);
            w.want(p.is_some_and(|p| p.len() == hl), "proof-size", d);
        }
    }
    // the password is only asked for when it is going to be used
    let secret = |p: &&&'static str| matches!(**p, "Password" | "SaltedPassword" | "ScramCachedPassword");
    for (t, asked) in client_asked.iter().enumerate() {
        let n = asked.iter().filter(secret).count();
        w.want(t == 2 || n == 0, "secret-asked-too-early-or-late", || format!("{asked:?} in turn {t}: {}", d()));
        w.want(!(t == 2 && rejected_server_first) || n == 0, "secret-asked-for-refused-challenge", || format!("{asked:?}: {}", d()));
        let pws = asked.iter().filter(|p| **p == "Password").count();
        w.want(pws <= 1, "password-asked-repeatedly", || format!("{asked:?}: {}", d()));
        if x.mode <= 1 {
            w.want(pws == 0, "password-asked-without-need", || format!("{asked:?}: {}", d()));
            w.count("requests_with_cached_keys");
        }
        if x.mode == 0 {
            w.want(!asked.contains(&"SaltedPassword"), "salted-password-asked-without-need", || format!("{asked:?}: {}", d()));
        }
        w.add("password_requests", pws as u64);
    }
    for e in slog.lock().unwrap().iter() {
        let bad = match e {
            Ev::Req { prop, ctx, .. } => secret(&prop) || ctx.password.is_some(),
            Ev::Validate { ctx, .. } => ctx.password.is_some(),
            Ev::Act { prop, .. } => secret(&prop),
            Ev::CbData { .. } => false,
        };
        w.want(!bad, "server-asks-for-secret", || format!("{e:?}: {}", d()));
        w.count("server_callbacks");
    }
    w.sample(|| json!({"mech": m, "scenario": class, "outputs": outs.iter().map(|o| o.0).collect::<Vec<_>>(), "trace": format!("{trace:?}")}));
}

/// the credentials helper
fn helper(w: &mut W, rng: &mut Rng) {
    let (id, pw, az) = (secret_text(rng), secret_text(rng), if rng.chance(1, 2) { Some(secret_text(rng)) } else { None });
    let mut t = Taints::default();
    t.add("authid", id.as_bytes());
    t.add("password", pw.as_bytes());
    if let Some(a) = &az {
        t.add("authzid", a.as_bytes());
    }
    let cfg = SASLConfig::with_credentials(az, id.clone(), pw.clone()).expect("harness: credentials");
    let mut outs: Outs = vec![];
    render!(outs, "SASLConfig", &*cfg);
    render!(outs, "Arc<SASLConfig>", &cfg);
    render!(outs, "SASLClient", &SASLClient::new(cfg.clone()));
    let m = *rng.pick(&["SCRAM-SHA-1", "SCRAM-SHA-256", "SCRAM-SHA-512", "PLAIN"]);
    let mut s = SASLClient::new(cfg.clone()).start_suggested(&[name(m)]).expect("harness: start");
    render!(outs, "the client session", &s);
    let mut o = vec![];
    let r = s.step(None, &mut o);
    if let Err(e) = &r {
        error_text(&mut outs, e);
    }
    render!(outs, "the client session", &s);
    // refused challenges
    let bad: &[u8] = *rng.pick::<&[u8]>(&[b"r=x,s=eA==,i=1", b"", b"e=other-error", b"\xff", b"r=,s=,i="]);
    if let Err(e) = s.step(Some(bad), &mut vec![]) {
        error_text(&mut outs, &e);
    }
    render!(outs, "the client session", &s);
    // nothing in common
    if let Err(e) = SASLClient::new(cfg).start_suggested(&[name("ANONYMOUS")]) {
        render!(outs, "a start error", &e);
    }
    w.eval((&id, &pw, m), true);
    for (what, o) in &outs {
        w.count(what);
        if let Some(hit) = t.scan_text(o) {
            w.viol(format!("credentials-in-diagnostics@{what}"), format!("{hit} in {what}: {}", show(o)));
        }
    }
}

/// password requests of every mechanism and errors of all of them
fn others(w: &mut W, rng: &mut Rng) {
    let m = *rng.pick(&["PLAIN", "LOGIN", "ANONYMOUS", "EXTERNAL", "XOAUTH2", "OAUTHBEARER"]);
    let (mut c, mut s, hc, hs) = honest(m, rng);
    let pw = secret_text(rng);
    let token = secret_text(rng);
    c.password = Some(pw.clone().into_bytes());
    if c.token.is_some() {
        c.token = Some(token.clone());
    }
    s.password = c.password.clone();
    s.token = c.token.clone();
    // a secret that some mechanism refuses
    let odd = rng.chance(1, 3);
    if odd {
        let bad: &[u8] = *rng.pick::<&[u8]>(&[b"\0", b"\x01", b"\xff", b"\xc3", "\u{e000}".as_bytes(), "\u{200e}".as_bytes(), "\u{627}1".as_bytes(), b"\n"]);
        let mut p = pw.clone().into_bytes();
        let at = *rng.pick(&[0, p.len() / 2, p.len()]);
        p.splice(at..at, bad.iter().copied());
        if c.token.is_some() {
            c.token = Some(match rng.below(3) {
                0 => format!("{token}\u{1}"),
                1 => format!("\0{token}"),
                _ => format!("{token}\u{1}{token}"),
            });
        }
        c.password = Some(p);
        w.count("refusable_secrets");
    }
    if rng.chance(1, 4) {
        c.authid = Some(format!("{}\0\u{1}", c.authid.unwrap_or_default()));
    }
    if rng.chance(1, 4) {
        s.xoauth = crate::cb::OAns::Reject("no".into(), None, None);
        s.oauth = crate::cb::OAns::Reject("no".into(), None, None);
    }
    let cp = Party::client(m, c, hc);
    let sp = Party::server(m, s, hs);
    let (mut cp, mut sp) = (cp, sp);
    let mutate = rng.chance(1, 3);
    let mut errs: Outs = vec![];
    let mut server = sp.first();
    let mut input: Option<Vec<u8>> = None;
    for _ in 0..6 {
        let o = if server { sp.step(input.as_deref()) } else { cp.step(input.as_deref()) };
        if let Some(e) = &o.err {
            error_text(&mut errs, e);
        }
        if o.r.is_err() || o.r == R::FinNo {
            break;
        }
        let mut b = o.bytes;
        if mutate {
            b = gen::mutate(rng, &b);
        }
        input = Some(b);
        server = !server;
    }
    w.eval((m, &pw, mutate, odd), true);
    for e in cp.events() {
        let asks = e.req() == Some("Password");
        w.want(!asks || m == "PLAIN" || m == "LOGIN", &format!("password-asked-without-need@{m}"), || format!("{e:?}"));
    }
    for e in sp.events() {
        let asks = matches!(e.req(), Some("Password" | "SaltedPassword" | "ScramCachedPassword" | "OAuthBearerToken"));
        w.want(!asks, &format!("server-asks-for-secret@{m}"), || format!("{e:?}"));
    }
    let mut t = Taints::default();
    t.add("password", pw.as_bytes());
    t.add("token", token.as_bytes());
    for (what, o) in &errs {
        w.count(&format!("{what} of {m}"));
        if let Some(hit) = t.scan_text(o) {
            w.viol(format!("secret-in-error@{m}"), format!("{hit} in {what}: {}", show(o)));
        }
    }
}

/// what the library prints while it works, seen from outside
const PW: &str = "Tr0ub4dorAndThreeQuietPenguins";
fn fixed() -> (Props, Props, Taints) {
    let k = keys(crate::refimpl::Hash::Sha256, PW.as_bytes(), b"fixed salt", 3);
    let mut t = Taints::default();
    t.add("password", PW.as_bytes());
    t.add("salted password", &k.salted);
    t.add("client key", &k.client);
    t.add("stored key", &k.stored);
    t.add("server key", &k.server);
    let c = Props { authid: Some("user".into()), password: Some(PW.as_bytes().to_vec()), ..Props::default() };
    let mut s = Props::default();
    s.stored.push(Stored2::of("user", 3, b"fixed salt", &k));
    (c, s, t)
}
pub fn child() {
    let (c, s, _) = fixed();
    for i in 0..40 {
        let mut c = c.clone();
        if i % 4 == 1 {
            c.password = Some(b"something else".to_vec());
        }
        let mut cp = Party::client("SCRAM-SHA-256", c, HCb::default());
        let mut sp = Party::server("SCRAM-SHA-256", s.clone(), HCb::default());
        let mut rng = Rng::new(i, "child", i);
        exchange(&mut cp, &mut sp, |_, _, m| {
            if i % 4 == 2 {
                *m = gen::mutate(&mut rng, m);
            }
        });
    }
}
fn printed(w: &mut W) {
    let exe = std::env::current_exe().expect("harness: exe");
    let o = std::process::Command::new(exe).env("RV_C19_CHILD", "1").env("RUST_LOG", "trace").args(["C19"]).output().expect("harness: child");
    if !o.status.success() {
        w.acc.internal.push(format!("child process failed: {:?}", o.status));
        return;
    }
    let (_, _, t) = fixed();
    w.eval("printed", true);
    w.count("child_processes");
    w.add("bytes_printed", (o.stdout.len() + o.stderr.len()) as u64);
    for (what, b) in [("stdout", &o.stdout), ("stderr", &o.stderr)] {
        if let Some(hit) = t.scan_text(b) {
            w.viol(format!("secret-printed@{what}"), format!("{hit} on {what}: {}", show(b)));
        }
    }
}

/// the search itself finds what it is meant to find
fn search_works(w: &mut W, rng: &mut Rng) {
    for _ in 0..50 {
        let n = rng.range(20, 64);
        let s = rng.bytes(n);
        let mut t = Taints::default();
        t.add("x", &s);
        let a = rng.range(0, 9);
        let pad: Vec<u8> = rng.bytes(a);
        let mut whole = pad.clone();
        whole.extend_from_slice(&s);
        whole.extend(rng.bytes(5));
        let hex: String = whole.iter().map(|b| format!("{b:02X}")).collect();
        let hits = [
            t.scan(&whole),
            t.scan(hex.as_bytes()),
            t.scan(&b64(&whole)),
            t.scan_text(format!("{whole:?}").as_bytes()),
            t.scan_text(format!("{whole:#x?}").as_bytes()),
            t.scan_text(format!("{}", whole.escape_ascii()).as_bytes()),
        ];
        if let Some(i) = hits.iter().position(Option::is_none) {
            w.acc.internal.push(format!("the taint search misses encoding {i} of {s:?}"));
        }
        let other = rng.bytes(400);
        if t.scan_text(&other).is_some() || t.scan(&b64(&other)).is_some() {
            w.acc.internal.push("the taint search finds what is not there".into());
        }
        w.add("search_self_tests", 6);
    }
}

pub fn run(r: &mut Run) {
    if std::env::var("RV_C19_CHILD").is_ok() {
        child();
        std::process::exit(0);
    }
    r.rule = "one evaluation = one exchange or diagnostic whose complete output is searched; distinct by mechanism, scenario and secret; non-trivial when the exchange got past the client's first message".into();
    r.assumptions = vec![
        "a disclosure shows at least 8 consecutive bytes of a secret raw, or as hex, base64 or a list of numbers".into(),
        "property values handed to the callbacks themselves are the user's own data".into(),
    ];
    if let Some(mut w) = r.single("search") {
        let mut rng = Rng::new(r.seed, "C19/search", 0);
        search_works(&mut w, &mut rng);
        r.merge(w);
    }
    if let Some(mut w) = r.single("printed") {
        printed(&mut w);
        r.merge(w);
    }
    r.cases("scram", r.n(60_000, 3_000_000), scram);
    r.cases("helper", r.n(20_000, 500_000), helper);
    r.cases("others", r.n(40_000, 1_500_000), others);
    for k in ["debug of SASLConfig", "debug of SASLClient", "debug of an error", "server_callbacks", "password_requests", "requests_with_cached_keys"] {
        r.require(k, 500);
    }
    r.require("child_processes", 1);
}
