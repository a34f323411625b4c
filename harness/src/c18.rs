//! C18: security layers.
use crate::c10::{replay, Scen};
use crate::cb::HCb;
use crate::drive::*;
use crate::gen;
use crate::io::{End, Wr};
use crate::prng::Rng;
use crate::probe;
use crate::report::{show, Run, W};
use rsasl::prelude::*;
use serde_json::json;
use std::cell::RefCell;
use std::io::Write;
use std::rc::Rc;

/// has_security_layer is false and both directions fail without touching the writer
fn no_layer(p: &mut Party, rng: &mut Rng, mut bad: impl FnMut(&str, String)) {
    if p.layer() {
        bad("reports-layer", String::new());
    }
    let data = gen::blob(rng, 300);
    for enc in [true, false] {
        let mut wr = Wr::new(vec![], 0, true, End::Never);
        let r = if enc { p.encode(&data, &mut wr) } else { p.decode(&data, &mut wr) };
        if !matches!(r, Err(SessionError::NoSecurityLayer)) {
            bad("wrong-result", format!("encode {enc}: {r:?}"));
        }
        if wr.calls != 0 || !wr.got.is_empty() {
            bad("writes", format!("encode {enc}: [{}]", show(&wr.got)));
        }
    }
}

fn layerless(w: &mut W, rng: &mut Rng) {
    let m = ALL[(w.case as usize) % ALL.len()];
    let sc = Scen::random(m, rng, (w.case as usize) / ALL.len());
    let total = replay(&sc, usize::MAX, |_, _| unreachable!()).steps.len();
    for k in 0..total {
        let mut r2 = Rng::new(rng.u64(), "layerless", k as u64);
        let mut bad = vec![];
        replay(&sc, k, |p, i| {
            no_layer(p, &mut r2, |s, d| bad.push((s.to_string(), format!("before: {d}"))));
            let o = p.step(i);
            no_layer(p, &mut r2, |s, d| bad.push((s.to_string(), format!("after {:?}: {d}", o.r))));
            w.count(if o.r.is_fin() { "layerless_finished" } else { "layerless_unfinished" });
            (o.r, o.bytes)
        });
        w.eval((w.case, k), true);
        for (s, d) in bad {
            w.viol(format!("layerless-{s}@{m}"), format!("{m} step {k} ({}): {d}", sc.what));
        }
    }
}

/// a custom mechanism's own layer goes through the session unchanged
fn custom(w: &mut W, rng: &mut Rng) {
    let bare = rng.chance(1, 4);
    let server = rng.chance(1, 2);
    let steps = rng.below(4);
    probe::set_step(move |_, _, wr| {
        wr.write_all(b"m")?;
        Ok(State::Running)
    });
    probe::set_layer(false, None);
    let mut p = crate::c11::probe_named(if bare { "X-BARE" } else { "X-PROBE" }, server, Default::default());
    for _ in 0..steps {
        if bare {
            no_layer(&mut p, rng, |s, d| w.viol(format!("default-layer-{s}"), format!("custom mechanism without a layer: {d}")));
        } else if p.layer() {
            w.viol("custom-reports-layer", "has_security_layer before the mechanism installed one");
        }
        let o = p.step(Some(b"x"));
        w.want(o.r == R::Run, "custom-step", || format!("{:?}", o.r));
    }
    if bare {
        no_layer(&mut p, rng, |s, d| w.viol(format!("default-layer-{s}"), format!("custom mechanism without a layer: {d}")));
        w.count("custom_without_layer");
        w.eval(w.case, true);
        return;
    }
    let seen: Rc<RefCell<Vec<(bool, Vec<u8>)>>> = Rc::default();
    for round in 0..rng.range(1, 5) {
        let out = gen::blob(rng, 400);
        let cut = rng.below(out.len() + 1);
        let ret = rng.u64() as usize;
        let fail = rng.below(6);
        let (s2, o2) = (seen.clone(), out.clone());
        probe::set_layer(
            true,
            Some(Rc::new(move |enc, i, wr| {
                s2.borrow_mut().push((enc, i.to_vec()));
                wr.write_all(&o2[..cut])?;
                match fail {
                    0 => return Err(SessionError::MechanismDone),
                    1 => return Err(SessionError::NoSecurityLayer),
                    _ => {}
                }
                wr.write_all(&o2[cut..])?;
                Ok(ret)
            })),
        );
        w.want(p.layer(), "custom-layer-hidden", || "has_security_layer is false although the mechanism reports one".into());
        let data = gen::blob(rng, 2000);
        let enc = rng.chance(1, 2);
        let limit = if rng.chance(1, 3) { rng.below(out.len() + 2) } else { usize::MAX };
        let chunks: Vec<usize> = (0..rng.below(3)).map(|_| rng.range(1, 40)).collect();
        let mut wr = Wr::new(chunks, rng.below(4), true, if limit == usize::MAX { End::Never } else { End::Err(limit, std::io::ErrorKind::Other) });
        let r = if enc { p.encode(&data, &mut wr) } else { p.decode(&data, &mut wr) };
        let want_bytes = if fail < 2 { &out[..cut] } else { &out[..] };
        let io_fails = limit < want_bytes.len();
        let want_bytes = &want_bytes[..want_bytes.len().min(limit)];
        let ctx = || format!("round {round} encode {enc} fail {fail} limit {limit}: {r:?} wrote [{}] of [{}]", show(&wr.got), show(&out));
        w.want(seen.borrow().last() == Some(&(enc, data.clone())), "custom-layer-input", ctx);
        w.want(wr.got == want_bytes, "custom-layer-output", ctx);
        let ok = match (&r, io_fails, fail) {
            (Err(SessionError::Io { .. }), true, _) => true,
            (_, true, _) => false,
            (Err(SessionError::MechanismDone), _, 0) | (Err(SessionError::NoSecurityLayer), _, 1) => true,
            (Ok(n), _, 2..) => *n == ret,
            _ => false,
        };
        w.want(ok, "custom-layer-result", ctx);
        w.count(if r.is_ok() { "custom_layer_ok" } else { "custom_layer_error" });
        w.eval((w.case, round), true);
    }
    w.want(seen.borrow().len() > 0, "custom-layer-not-called", String::new);
    probe::set_layer(false, None);
    w.want(!p.layer(), "custom-layer-stays", || "has_security_layer stays true after the mechanism removed its layer".into());
    w.sample(|| json!({"custom_layer_calls": seen.borrow().len(), "server": server}));
}

#[cfg(feature = "gssapi")]
pub mod g {
    use super::*;
    use crate::gss::{self, Cfg, Gev, CONF, INTEG, MUTUAL};
    use rsasl::callback::{Context, Request, SessionCallback, SessionData};
    use rsasl::mechanisms::gssapi::properties::{GssSecurityLayer, GssService, SecurityLayer};
    use rsasl::mechanisms::gssapi::GSSAPI;
    use rsasl::property::{AuthId, Hostname};
    use rsasl::validate::{Validate, Validation, ValidationError};
    use std::sync::{Arc, Mutex};

    pub const NONE_L: u8 = 1;
    pub const INT_L: u8 = 2;
    pub const CONF_L: u8 = 4;
    static MECHS: [Mechanism; 1] = [GSSAPI];

    #[derive(Clone, Debug, PartialEq)]
    pub enum E {
        Req(&'static str),
        Validate { authid: Option<String>, mech: String },
    }
    type Log = Arc<Mutex<Vec<E>>>;
    #[derive(Clone, Debug, Default)]
    pub struct Set {
        pub service: Option<String>,
        pub host: Option<String>,
        pub layers: Option<u8>,
        pub fail_layers: bool,
        /// false: validation sets nothing
        pub accept: bool,
        pub fail_validation: bool,
    }
    struct GCb {
        s: Set,
        log: Log,
    }
    pub struct GV;
    impl Validation for GV {
        type Value = String;
    }
    impl SessionCallback for GCb {
        fn callback(&self, _: &SessionData, _: &Context, r: &mut Request) -> Result<(), SessionError> {
            let mut l = self.log.lock().unwrap();
            if r.is::<GssService>() {
                l.push(E::Req("GssService"));
                if let Some(s) = &self.s.service {
                    r.satisfy::<GssService>(s)?;
                }
            } else if r.is::<Hostname>() {
                l.push(E::Req("Hostname"));
                if let Some(s) = &self.s.host {
                    r.satisfy::<Hostname>(s)?;
                }
            } else if r.is::<GssSecurityLayer>() {
                l.push(E::Req("GssSecurityLayer"));
                if self.s.fail_layers {
                    return Err(SessionError::NoValidate);
                }
                if let Some(b) = self.s.layers {
                    r.satisfy::<GssSecurityLayer>(&SecurityLayer::from_bits_truncate(b))?;
                }
            } else {
                l.push(E::Req("other"));
            }
            Ok(())
        }
        fn validate(&self, d: &SessionData, c: &Context, v: &mut Validate<'_>) -> Result<(), ValidationError> {
            let authid = c.get_ref::<AuthId>().map(String::from);
            self.log.lock().unwrap().push(E::Validate { authid: authid.clone(), mech: d.mechanism().mechanism.as_str().into() });
            if self.s.fail_validation {
                return Err(ValidationError::Boxed("injected".into()));
            }
            if self.s.accept {
                v.with::<GV, _>(|| Ok(authid.unwrap_or_default()))?;
            }
            Ok(())
        }
    }
    pub enum S {
        C(Session),
        S(Session<GV>),
    }
    pub struct P {
        pub s: S,
        pub log: Log,
    }
    macro_rules! both {
        ($p:expr, $s:ident => $e:expr) => {
            match &mut $p.s {
                S::C($s) => $e,
                S::S($s) => $e,
            }
        };
    }
    #[derive(Debug)]
    pub struct O {
        pub r: R,
        pub bytes: Vec<u8>,
        pub err: Option<SessionError>,
    }
    impl P {
        pub fn new(server: bool, s: Set) -> P {
            let log = Log::default();
            let cfg = SASLConfig::builder()
                .with_registry(Registry::with_mechanisms(&MECHS))
                .with_callback(GCb { s, log: log.clone() })
                .expect("harness: config");
            let n = Mechname::parse(b"GSSAPI").unwrap();
            let s = if server {
                S::S(SASLServer::<GV>::new(cfg).start_suggested(n).expect("harness: start"))
            } else {
                S::C(SASLClient::new(cfg).start_suggested(&[n]).expect("harness: start"))
            };
            P { s, log }
        }
        pub fn raw(&mut self, i: Option<&[u8]>, w: &mut impl Write) -> Result<State, SessionError> {
            both!(self, s => s.step(i, w))
        }
        pub fn step(&mut self, i: Option<&[u8]>) -> O {
            let mut b = vec![];
            let r = self.raw(i, &mut b);
            O { r: R::of(&r), bytes: b, err: r.err() }
        }
        pub fn step64(&mut self, i: Option<&[u8]>) -> O {
            let mut b = vec![];
            let e = i.map(crate::refimpl::b64);
            let r = both!(self, s => s.step64(e.as_deref(), &mut b));
            O { r: R::of(&r), bytes: crate::refimpl::unb64(&b).unwrap_or_else(|| b"not base64".to_vec()), err: r.err() }
        }
        pub fn layer(&mut self) -> bool {
            both!(self, s => s.has_security_layer())
        }
        pub fn first(&mut self) -> bool {
            both!(self, s => s.are_we_first())
        }
        pub fn enc(&mut self, i: &[u8], w: &mut impl Write) -> Result<usize, SessionError> {
            both!(self, s => s.encode(i, w))
        }
        pub fn dec(&mut self, i: &[u8], w: &mut impl Write) -> Result<usize, SessionError> {
            both!(self, s => s.decode(i, w))
        }
        pub fn validation(&mut self) -> Option<String> {
            match &mut self.s {
                S::C(s) => {
                    let _: Option<()> = s.validation();
                    None
                }
                S::S(s) => s.validation(),
            }
        }
        pub fn validates(&self) -> usize {
            self.log.lock().unwrap().iter().filter(|e| matches!(e, E::Validate { .. })).count()
        }
        pub fn name(&self) -> &'static str {
            if matches!(self.s, S::S(_)) {
                "server"
            } else {
                "client"
            }
        }
    }

    fn no_layer(p: &mut P, w: &mut W, when: &str) {
        let n = p.name();
        w.want(!p.layer(), &format!("gss-layer-too-early@{n}"), || when.to_string());
        for enc in [true, false] {
            let mut wr = Wr::new(vec![], 0, true, End::Never);
            let r = if enc { p.enc(b"data", &mut wr) } else { p.dec(b"data", &mut wr) };
            w.want(matches!(r, Err(SessionError::NoSecurityLayer)) && wr.calls == 0, &format!("gss-usable-without-layer@{n}"), || format!("{when}: encode {enc}: {r:?} [{}]", show(&wr.got)));
        }
    }
    fn no_leak(w: &mut W, what: &str) {
        gss::with(|m| {
            w.want(m.live().is_empty(), "gss-leak", || format!("{what}: still live after dropping the sessions: {:?}", m.live()));
            w.want(m.misuse.is_empty(), "gss-misuse", || format!("{what}: {:?}", m.misuse));
        });
    }
    fn set(rng: &mut Rng, server: bool) -> Set {
        Set {
            service: (!server).then(|| gen::ascii_name(rng, 12)),
            host: (!server).then(|| gen::ascii_name(rng, 20)),
            layers: if rng.chance(1, 5) { None } else { Some(*rng.pick(&[0, 1, 2, 3, 4, 5, 6, 7, 1, 2, 3, 4, 5, 6, 7, 7])) },
            accept: rng.chance(3, 4),
            ..Set::default()
        }
    }
    fn flags(rng: &mut Rng) -> u32 {
        let f = *rng.pick(&[INTEG | CONF, INTEG | CONF, INTEG | CONF, INTEG, 0]);
        let extra = (rng.u64() as u32) & (4 | 8 | 128 | 256);
        f | extra | if rng.chance(5, 6) { MUTUAL } else { 0 }
    }
    /// layers a context can carry; None: both readings are possible
    fn caps(flags: u32) -> (u8, u8) {
        let mut must = NONE_L;
        let mut may = NONE_L;
        if flags & INTEG != 0 {
            must |= INT_L;
            may |= INT_L;
        }
        if flags & CONF != 0 {
            may |= CONF_L;
            if flags & MUTUAL != 0 {
                must |= CONF_L;
            }
        }
        (must, may)
    }
    fn strongest(b: u8) -> u8 {
        [CONF_L, INT_L, NONE_L].into_iter().find(|x| b & x != 0).unwrap_or(0)
    }

    struct Trace(Vec<(bool, R, Vec<u8>)>);
    impl Trace {
        fn show(&self) -> String {
            self.0.iter().map(|(s, r, b)| format!("{} {r:?} [{}]", if *s { "S" } else { "C" }, show(b))).collect::<Vec<_>>().join("; ")
        }
    }
    /// drives by State only; stops at the first error or when both finished
    fn exchange(c: &mut P, s: &mut P, rng: &mut Rng, six: bool, mut at: impl FnMut(&mut P, usize) -> bool) -> (Trace, Option<String>) {
        let mut t = Trace(vec![]);
        let mut input: Option<Vec<u8>> = None;
        let mut server = false;
        let mut done = [false; 2];
        for k in 0..24 {
            let p = if server { &mut *s } else { &mut *c };
            if !at(p, k) {
                return (t, Some("aborted".into()));
            }
            let o = if six && rng.chance(1, 2) { p.step64(input.as_deref()) } else { p.step(input.as_deref()) };
            t.0.push((server, o.r.clone(), o.bytes.clone()));
            match o.r {
                R::Err(e) => return (t, Some(e)),
                R::FinNo => {
                    if !o.bytes.is_empty() {
                        return (t, Some("no-message-but-bytes".into()));
                    }
                    done[usize::from(server)] = true;
                    if done == [true; 2] {
                        return (t, None);
                    }
                    return (t, Some("peer-left-waiting".into()));
                }
                R::FinYes => done[usize::from(server)] = true,
                R::Run => {}
            }
            if done[usize::from(!server)] {
                return (t, Some("message-to-finished-peer".into()));
            }
            input = Some(o.bytes);
            server = !server;
        }
        (t, Some("does-not-terminate".into()))
    }

    /// data in both directions over an installed layer, with tampering
    fn data_phase(w: &mut W, rng: &mut Rng, c: &mut P, s: &mut P, conf: bool, d: &str) {
        let key = gss::with(|m| m.key()).expect("harness: key");
        for _ in 0..rng.range(1, 6) {
            let from_client = rng.chance(1, 2);
            let (a, b) = if from_client { (&mut *c, &mut *s) } else { (&mut *s, &mut *c) };
            let an = a.name();
            let data = match rng.below(8) {
                0 => vec![],
                // no message is too long for the layer: the application was given no limit
                1 if rng.chance(1, 400) => {
                    w.count("gss_messages_over_a_megabyte");
                    let n = *rng.pick(&[1_048_560, 1_048_576, 1_048_577, 1_500_000, 2_097_152, 4_194_305, 16_777_215, 16_777_216, 16_777_217]);
                    let step = rng.range(1, 250) as u8;
                    let mut x = 0u8;
                    (0..n + rng.below(3))
                        .map(|i| {
                            x = x.wrapping_add(step) ^ (i >> 12) as u8;
                            x
                        })
                        .collect()
                }
                _ => gen::blob(rng, 3000),
            };
            let piece = if data.len() > 1_000_000 { 70_001 } else { 700 };
            let lim = if rng.chance(1, 6) { Some(rng.below(data.len() + 15)) } else { None };
            let mut wr = Wr::new(vec![rng.range(piece / 700, piece)], rng.below(3), false, lim.map_or(End::Never, |l| End::Err(l, std::io::ErrorKind::BrokenPipe)));
            let r = a.enc(&data, &mut wr);
            if lim.is_some() {
                w.want(matches!(r, Err(SessionError::Io { .. })), "gss-encode-write-failure", || format!("{d}: {an} {r:?} wrote {} of {}", wr.got.len(), data.len() + 15));
                w.count("gss_encode_write_failure");
                return; // the peer's sequence is broken now
            }
            let msg = wr.got;
            w.want(r.as_ref().ok() == Some(&data.len()), "gss-encode-length", || format!("{d}: {an} encoded {} bytes: {r:?}", data.len()));
            let Some(o) = gss::open(&key, &msg) else {
                w.viol("gss-encode-garbled", format!("{d}: {an} [{}]", show(&msg)));
                return;
            };
            w.want(o.conf == conf && o.initiator == from_client && o.data == data, "gss-wrong-protection", || {
                format!("{d}: {an} sent a message of {} bytes with {} of them and confidentiality {}, negotiated {conf}", data.len(), o.data.len(), o.conf)
            });
            let real_only = rng.chance(1, 2);
            if !real_only {
                // what the peer did not receive intact is refused, and nothing of it delivered
                let mut bad = gen::mutate(rng, &msg);
                match rng.below(5) {
                    0 => bad = data.clone(),
                    1 => bad = gss::seal(&key, !from_client, conf, o.seq, &data),
                    2 => bad = gss::seal(&[0; 16], from_client, conf, o.seq, &data),
                    3 => bad = gss::seal(&key, from_client, conf, o.seq + 1, &data),
                    _ => {}
                }
                if bad != msg {
                    let mut wr = Wr::new(vec![], 0, true, End::Never);
                    let r = b.dec(&bad, &mut wr);
                    w.want(r.is_err() && wr.got.is_empty(), "gss-accepts-tampered", || format!("{d}: {r:?} delivered [{}] of [{}]", show(&wr.got), show(&bad)));
                    w.count("gss_tampered");
                }
            }
            let dlim = if rng.chance(1, 8) && !data.is_empty() { Some(rng.below(data.len())) } else { None };
            let mut wr = Wr::new(vec![rng.range(piece / 700, piece)], rng.below(3), false, dlim.map_or(End::Never, |l| End::Zero(l)));
            let r = b.dec(&msg, &mut wr);
            if dlim.is_some() {
                w.want(matches!(r, Err(SessionError::Io { .. })), "gss-decode-write-failure", || format!("{d}: {r:?} wrote {} of {}", wr.got.len(), data.len()));
                w.count("gss_decode_write_failure");
                continue;
            }
            w.want(r.as_ref().ok() == Some(&msg.len()) && wr.got == data, "gss-round-trip", || {
                format!("{d}: decode {r:?} of {} bytes gave {} bytes [{}] for {} bytes [{}]", msg.len(), wr.got.len(), show(&wr.got), data.len(), show(&data))
            });
            let mut wr2 = Wr::new(vec![], 0, true, End::Never);
            if rng.chance(1, 3) {
                let r = b.dec(&msg, &mut wr2);
                w.want(r.is_err() && wr2.got.is_empty(), "gss-accepts-replay", || format!("{d}: {r:?}"));
                w.count("gss_replayed");
            }
            w.count(if conf { "gss_messages_conf" } else { "gss_messages_int" });
        }
    }

    fn honest(w: &mut W, rng: &mut Rng) {
        let f = flags(rng);
        let tokens = rng.range(1, 6);
        gss::reset(Cfg { tokens, flags: f, fail_at: None, empty_nonnull: rng.chance(1, 2) }, rng.u64());
        let (cs, ss) = (set(rng, false), set(rng, true));
        let (a, b) = (cs.layers.unwrap_or(7), ss.layers.unwrap_or(7));
        let mut c = P::new(false, cs.clone());
        let mut s = P::new(true, ss.clone());
        let d = format!("client allows {a:03b} ({:?}), server allows {b:03b} ({:?}), context flags {f:x}, {tokens} tokens", cs.layers, ss.layers);
        w.eval((&d, w.case), true);
        w.want(c.first() && !s.first(), "gss-turn-order", || d.clone());
        let six = rng.chance(1, 3);
        let probe = rng.chance(1, 4);
        let nodata = rng.chance(1, 3);
        let mut r2 = Rng::new(rng.u64(), "gss-honest", 0);
        let last_server_none = tokens % 2 == 0;
        let (t, end) = exchange(&mut c, &mut s, rng, six, |p, k| {
            if probe {
                no_layer(p, w, &format!("{d}: before step {k}"));
            }
            // the step in which the server offers its layers needs nothing of the client (RFC 4752 3.2) unless it
            // finishes the context; every other step but the first one needs data
            let offer = p.name() == "server" && last_server_none && k == tokens + 1;
            if nodata && k > 0 && !offer {
                for _ in 0..r2.range(1, 2) {
                    let o = p.step(None);
                    let before = p.log.lock().unwrap().len();
                    let n = p.name();
                    w.want(input_required(&o.err) && o.bytes.is_empty(), &format!("gss-no-data@{n}"), || format!("{d}: step {k} without data: {o:?}"));
                    w.want(p.log.lock().unwrap().len() == before, &format!("gss-no-data-callback@{n}"), || d.clone());
                    w.count("gss_steps_without_data");
                }
            }
            true
        });
        let ctx = || format!("{d}: {} -> {end:?}", t.show());
        // the target name
        let want = format!("{}@{}", cs.service.as_ref().unwrap(), cs.host.as_ref().unwrap());
        let imported: Vec<Vec<u8>> = gss::with(|m| m.log.iter().filter_map(|e| if let Gev::Import(n) = e { Some(n.clone()) } else { None }).collect());
        w.want(imported == [want.clone().into_bytes()], "gss-target", || format!("{}: imported {:?} instead of {want}", ctx(), imported.iter().map(|i| show(i)).collect::<Vec<_>>()));
        let (must, may) = caps(f);
        let certain = must == may;
        let offered = b & may;
        let common = a & b;
        let res_must = strongest(common & must);
        let res_may = strongest(common & may);
        w.want(c.validates() == 0, "gss-client-validates", ctx);
        if end.is_none() {
            let fin: Vec<&(bool, R, Vec<u8>)> = t.0.iter().rev().take(2).collect();
            let (cl, sl) = (c.layer(), s.layer());
            let mut key = [0; 16];
            key.copy_from_slice(&t.0[0].2[5..21]);
            // find the layer messages on the wire
            let offer = t.0.iter().rev().filter(|x| x.0).nth(1).and_then(|x| gss::open(&key, &x.2));
            let choice = gss::open(&key, &fin[1].2);
            match (&offer, &choice) {
                (Some(o), Some(ch)) => {
                    w.want(!o.conf && !ch.conf, "gss-negotiation-encrypted", ctx);
                    w.want(o.data.len() == 4 && o.data[0] & !(b & may) == 0 && o.data[0] & (b & must) == b & must, "gss-offer", || format!("{} offered {:?}, allowed {:03b}", ctx(), o.data, offered));
                    w.want(o.data[0] & 6 != 0 || o.data[1..] == [0, 0, 0], "gss-offer-size", || format!("{} {:?}", ctx(), o.data));
                    let l = ch.data[0];
                    w.want(ch.data.len() == 4 && (l == res_must || l == res_may), "gss-choice", || format!("{} chose {:?} expected {res_must}/{res_may}", ctx(), ch.data));
                    w.want(l != NONE_L || ch.data[1..] == [0, 0, 0], "gss-choice-size", || format!("{} {:?}", ctx(), ch.data));
                    w.want(cl == (l != NONE_L) && sl == cl, "gss-layer-state", || format!("{}: client layer {cl}, server layer {sl}, chosen {l}", ctx()));
                    w.count(&format!("gss_negotiated_{l}"));
                    w.want(s.validates() == 1, "gss-server-validation", || format!("{}: the validation callback was called {} times", ctx(), s.validates()));
                    let who = s.log.lock().unwrap().iter().find_map(|e| if let E::Validate { authid, mech } = e { Some((authid.clone(), mech.clone())) } else { None });
                    w.want(who == Some((Some("client@REALM".into()), "GSSAPI".into())), "gss-server-validation", || format!("{}: validated {who:?}", ctx()));
                    let v = (s.validation(), s.validation(), c.validation());
                    w.want(v == (ss.accept.then(|| "client@REALM".to_string()), None, None), "gss-validation-result", || format!("{}: {v:?}", ctx()));
                    if cl && sl {
                        data_phase(w, rng, &mut c, &mut s, l == CONF_L, &d);
                    } else {
                        no_layer(&mut c, w, "finished without layer");
                        no_layer(&mut s, w, "finished without layer");
                    }
                }
                _ => w.viol("gss-negotiation-garbled", ctx()),
            }
            let k = t.0.len();
            // tokens, an empty message if the server had the last token, offer, choice, end
            let want_len = tokens + usize::from(last_server_none) + 3;
            w.want(k == want_len, "gss-turns", || format!("{} took {k} steps instead of {want_len}", ctx()));
        } else {
            let how = end.as_deref().unwrap_or_default();
            w.want(!["no-message-but-bytes", "peer-left-waiting", "message-to-finished-peer", "does-not-terminate"].contains(&how), "gss-turn-order", ctx);
            w.want(res_must == 0 || !certain, "gss-negotiation-fails", || format!("{}: common layer {res_must}", ctx()));
            w.want(!c.layer() && !s.layer() || !certain, "gss-layer-after-failure", ctx);
            w.want(s.validates() == 0, "gss-validates-failed-exchange", ctx);
            w.count("gss_no_common_layer");
        }
        w.want(end.is_some() || res_may != 0, "gss-layer-without-common", ctx);
        w.sample(|| json!({"gss": d, "end": end, "steps": t.0.len()}));
        drop((c, s));
        no_leak(w, &d);
    }

    /// a server of the harness offers arbitrary layers to the real client
    fn hostile_server(w: &mut W, rng: &mut Rng) {
        let f = flags(rng);
        gss::reset(Cfg { tokens: 2, flags: f, fail_at: None, empty_nonnull: rng.chance(1, 2) }, rng.u64());
        let cs = set(rng, false);
        let a = cs.layers.unwrap_or(7);
        let mut c = P::new(false, cs);
        let o = c.step(None);
        let key = gss::with(|m| m.key()).expect("harness: key");
        w.want(o.r == R::Run && o.bytes == gss::ctx_token(0, &key), "gss-first-token", || format!("{o:?}"));
        let o = c.step(Some(&gss::ctx_token(1, &key)));
        if o.r.is_err() {
            // legitimate only if no acceptable layer fits the context
            w.want(a & caps(f).0 == 0 || caps(f).0 != caps(f).1, "gss-client-refuses-context", || format!("allows {a:03b}, flags {f:x}: {o:?}"));
            w.count("gss_client_refuses_context");
        } else {
            w.want(o.r == R::Run && o.bytes.is_empty(), "gss-client-context", || format!("{o:?}"));
            let bits = if rng.chance(1, 2) { rng.range(0, 7) as u8 } else { rng.u64() as u8 };
            let mut m = vec![bits];
            m.extend(rng.bytes(3));
            let len = if rng.chance(1, 4) { *rng.pick(&[0, 1, 2, 3, 5, 6, 8, 64]) } else { 4 };
            m.resize(len, 7);
            let tamper = rng.chance(1, 5);
            let mut tok = gss::seal(&key, false, rng.chance(1, 4), 0, &m);
            if tamper {
                let t = gen::mutate(rng, &tok);
                tok = if t == tok { vec![] } else { t };
            }
            let o = c.step(Some(&tok));
            let ctx = || format!("client allows {a:03b}, flags {f:x}, server offers {m:?} tampered {tamper}: {o:?}");
            let (must, may) = caps(f);
            let sel_must = if bits & !7 == 0 { strongest(bits & a & must) } else { 0 };
            let sel_may = strongest(bits & a & may);
            w.eval((a, f, &m, tamper), true);
            if let R::Err(_) = o.r {
                w.want(tamper || len != 4 || sel_must == 0 || must != may, "gss-client-refuses-offer", ctx);
                w.want(!c.layer(), "gss-layer-after-failure", ctx);
                w.count("gss_offer_refused");
            } else {
                let ch = gss::open(&key, &o.bytes);
                let l = ch.as_ref().map_or(0, |c| c.data.first().copied().unwrap_or(0));
                w.want(!tamper && len == 4, "gss-client-accepts-garbled-offer", ctx);
                w.want(l != 0 && (l == sel_may || l == sel_must) && l & a & bits & may == l && l.count_ones() == 1, "gss-client-choice", || format!("{} chose {l:03b}", ctx()));
                w.want(o.r == R::FinYes, "gss-client-end", ctx);
                w.want(ch.is_some_and(|c| c.data.len() >= 4 && !c.conf && c.initiator), "gss-choice-message", ctx);
                w.want(c.layer() == (l != NONE_L), "gss-layer-state", ctx);
                if c.layer() {
                    let mut b = vec![];
                    let r = c.enc(b"some data", &mut b);
                    let conf = gss::open(&key, &b).map(|x| x.conf);
                    w.want(r.is_ok() && conf == Some(l == CONF_L), "gss-wrong-protection", || format!("{}: {r:?} confidentiality {conf:?}", ctx()));
                }
                w.count(&format!("gss_offer_accepted_{l}"));
            }
        }
        drop(c);
        no_leak(w, "hostile server");
    }
    /// a client of the harness selects arbitrary layers at the real server
    fn hostile_client(w: &mut W, rng: &mut Rng) {
        let f = flags(rng);
        gss::reset(Cfg { tokens: 1, flags: f, fail_at: None, empty_nonnull: rng.chance(1, 2) }, rng.u64());
        let mut ss = set(rng, true);
        ss.fail_validation = rng.chance(1, 6);
        let b = ss.layers.unwrap_or(7);
        let mut s = P::new(true, ss.clone());
        let mut key = [0; 16];
        key.copy_from_slice(&rng.bytes(16));
        let o = s.step(Some(&gss::ctx_token(0, &key)));
        let (must, may) = caps(f);
        let mut offered = 0;
        if o.r.is_err() {
            w.want(b & must == 0 || must != may, "gss-server-refuses-context", || format!("allows {b:03b}, flags {f:x}: {o:?}"));
            w.count("gss_server_refuses_context");
        } else {
            let off = gss::open(&key, &o.bytes);
            offered = off.as_ref().map_or(0, |x| x.data.first().copied().unwrap_or(0));
            w.want(o.r == R::Run && off.is_some_and(|x| x.data.len() == 4) && offered & !(b & may) == 0 && offered & (b & must) == b & must, "gss-offer", || {
                format!("allows {b:03b}, flags {f:x}: offered {offered:03b} {o:?}")
            });
            let bits = match rng.below(4) {
                0 => rng.u64() as u8,
                1 => rng.range(0, 7) as u8,
                _ => 1 << rng.below(3),
            };
            let mut m = vec![bits];
            m.extend(if bits == 1 { vec![0; 3] } else { rng.bytes(3) });
            let len = if rng.chance(1, 4) { *rng.pick(&[0, 1, 2, 3, 5, 6, 8, 64]) } else { 4 };
            m.resize(len, if rng.chance(1, 2) { b'a' } else { 0xff });
            let tamper = rng.chance(1, 5);
            let mut tok = gss::seal(&key, true, rng.chance(1, 4), 0, &m);
            if tamper {
                let t = gen::mutate(rng, &tok);
                tok = if t == tok { vec![] } else { t };
            }
            let o = s.step(Some(&tok));
            let ctx = || format!("server offered {offered:03b}, flags {f:x}, client selects {m:?} tampered {tamper} validation fails {}: {o:?}", ss.fail_validation);
            w.eval((b, f, &m, tamper, ss.fail_validation), true);
            let valid = !tamper && len == 4 && bits.count_ones() == 1 && bits & offered != 0;
            if o.r.is_err() {
                w.want(!valid || ss.fail_validation, "gss-server-refuses-choice", ctx);
                w.want(s.validates() == usize::from(valid), "gss-server-validation", ctx);
                w.want(!s.layer() && s.validation().is_none(), "gss-layer-after-failure", ctx);
                w.count("gss_choice_refused");
            } else {
                // an authorization identity may follow, if it is supported
                let well = !tamper && len >= 4 && bits.count_ones() == 1 && bits & offered != 0 && !ss.fail_validation;
                w.want(well && o.r == R::FinNo && o.bytes.is_empty(), "gss-server-accepts-choice", ctx);
                w.want(s.layer() == (bits != NONE_L), "gss-layer-state", ctx);
                w.want(s.validates() == 1, "gss-server-validation", ctx);
                if s.layer() {
                    let mut b = vec![];
                    let r = s.enc(b"some data", &mut b);
                    let conf = gss::open(&key, &b).map(|x| x.conf);
                    w.want(r.is_ok() && conf == Some(bits == CONF_L), "gss-wrong-protection", || format!("{}: {r:?} confidentiality {conf:?}", ctx()));
                }
                w.count(&format!("gss_choice_accepted_{bits}"));
            }
        }
        let _ = offered;
        drop(s);
        no_leak(w, "hostile client");
    }
    /// failing GSS calls, failing writers, missing properties, arbitrary tokens, early drops
    fn faults(w: &mut W, rng: &mut Rng) {
        let tokens = rng.range(1, 4);
        let kind = rng.below(5);
        let fail_at = (kind == 0).then(|| rng.range(1, 24));
        gss::reset(Cfg { tokens, flags: INTEG | CONF | MUTUAL, fail_at, empty_nonnull: rng.chance(1, 2) }, rng.u64());
        let (mut cs, mut ss) = (set(rng, false), set(rng, true));
        cs.layers = None;
        ss.layers = None;
        let mut expect_err = None;
        if kind == 1 {
            match rng.below(4) {
                0 => cs.service = None,
                1 => cs.host = None,
                2 => cs.fail_layers = true,
                _ => ss.fail_layers = true,
            }
            expect_err = Some(true);
        }
        let mut c = P::new(false, cs);
        let mut s = P::new(true, ss);
        let stop = rng.below(8);
        let mut r2 = Rng::new(rng.u64(), "gss-faults", 0);
        w.eval((tokens, kind, fail_at, stop, w.case), true);
        match kind {
            0 | 1 => {
                let (t, end) = exchange(&mut c, &mut s, rng, false, |_, _| true);
                let failed = gss::with(|m| m.log.iter().any(|e| matches!(e, Gev::Failed(_))));
                let ctx = || format!("fail_at {fail_at:?} failed {failed}: {} -> {end:?}", t.show());
                w.want(end.is_some() == (failed || expect_err == Some(true)), "gss-ignores-failure", ctx);
                w.want(end.is_none() || t.0.last().is_some_and(|x| x.1.is_err()), "gss-ignores-failure", ctx);
                w.want(end.is_none() || !s.layer(), "gss-layer-after-failure", ctx);
                w.count(if failed { "gss_injected_failure" } else { "gss_no_failure_reached" });
            }
            2 => {
                // arbitrary tokens at any step
                let (_, _) = exchange(&mut c, &mut s, rng, false, |p, k| {
                    if k != stop {
                        return true;
                    }
                    let key = gss::with(|m| m.key()).unwrap_or_default();
                    let j = match r2.below(4) {
                        0 => gen::blob(&mut r2, 200),
                        1 => {
                            let t = gss::ctx_token(r2.below(6), &key);
                            gen::mutate(&mut r2, &t)
                        }
                        2 => {
                            let b = r2.bytes(4);
                            let t = gss::seal(&key, r2.chance(1, 2), false, 0, &b);
                            gen::mutate(&mut r2, &t)
                        }
                        _ => vec![],
                    };
                    let o = p.step(Some(&j));
                    let n = p.name();
                    w.want(!(o.r.is_fin() && p.layer() && k < tokens), &format!("gss-finishes-on-junk@{n}"), || format!("step {k} of {tokens} tokens: {o:?} on [{}]", show(&j)));
                    w.count("gss_junk");
                    false
                });
            }
            3 => {
                // a writer that fails within the message
                let mut n = 0;
                let (_, _) = exchange(&mut c, &mut s, rng, false, |p, k| {
                    n = k;
                    if k != stop {
                        return true;
                    }
                    false
                });
                if n == stop {
                    // the same deterministic exchange three times: into a Vec, through a writer that
                    // takes small pieces, and through one that fails within the message
                    drop((c, s));
                    let (c0, s0) = (set(rng, false), set(rng, true));
                    let lim = r2.below(20);
                    let chunk = r2.range(1, 5);
                    let ends = [End::Never, if r2.chance(1, 2) { End::Zero(lim) } else { End::Err(lim, std::io::ErrorKind::Other) }];
                    let mut whole: Option<(R, Vec<u8>)> = None;
                    let mut last = None;
                    for pass in 0..3 {
                        gss::reset(Cfg { tokens, flags: INTEG | CONF | MUTUAL, fail_at: None, empty_nonnull: false }, 1);
                        c = P::new(false, c0.clone());
                        s = P::new(true, s0.clone());
                        let mut input: Option<Vec<u8>> = None;
                        for k in 0..stop {
                            let p = if k % 2 == 0 { &mut c } else { &mut s };
                            let o = p.step(input.as_deref());
                            if o.r.is_err() {
                                break;
                            }
                            input = Some(o.bytes);
                        }
                        let p = if stop % 2 == 0 { &mut c } else { &mut s };
                        let n = p.name();
                        if pass == 0 {
                            let o = p.step(input.as_deref());
                            whole = Some((o.r, o.bytes));
                        } else {
                            let mut wr = Wr::new(vec![chunk], 0, false, ends[pass - 1].clone());
                            let r = p.raw(input.as_deref(), &mut wr);
                            let (wr0, want) = whole.as_ref().unwrap();
                            let d = || format!("step {stop}: {:?} after [{}], with a Vec {wr0:?} [{}]", R::of(&r), show(&wr.got), show(want));
                            w.want(wr.refused == 0 || r.is_err(), &format!("gss-truncated-message@{n}"), d);
                            if r.is_ok() {
                                w.want(wr0.is_err() || wr.got == *want, &format!("gss-truncated-message@{n}"), d);
                            } else {
                                w.want(wr.refused > 0 || wr0.is_err(), &format!("gss-refuses-partial-writer@{n}"), d);
                                w.want(wr0.is_err() || want.starts_with(&wr.got), &format!("gss-truncated-message@{n}"), d);
                            }
                            w.count(if wr.refused > 0 { "gss_write_failure" } else { "gss_write_fits" });
                        }
                        last = Some((c, s));
                        if pass < 2 {
                            last = None;
                        }
                    }
                    let Some(x) = last else { return };
                    c = x.0;
                    s = x.1;
                }
            }
            _ => {
                // dropped in the middle
                let (_, _) = exchange(&mut c, &mut s, rng, false, |_, k| k != stop);
                w.count("gss_dropped_early");
            }
        }
        drop((c, s));
        no_leak(w, &format!("fault kind {kind} at {stop}"));
    }
    pub fn share(r: &mut Run, keep: &[&str], quick: u64) {
        let n = r.n(quick, quick * 20);
        r.cases_of("gss-honest", n, keep, honest);
        r.cases_of("gss-hostile-server", n, keep, hostile_server);
        r.cases_of("gss-hostile-client", n, keep, hostile_client);
        r.cases_of("gss-faults", n, keep, faults);
        r.require("gss_negotiated_4", 100);
        r.assumptions.push("GSSAPI runs against a stand-in for the Kerberos library".into());
    }
    pub fn run(r: &mut Run) {
        r.cases("gss-honest", r.n(240_000, 6_000_000), honest);
        r.cases("gss-hostile-server", r.n(160_000, 4_000_000), hostile_server);
        r.cases("gss-hostile-client", r.n(160_000, 4_000_000), hostile_client);
        r.cases("gss-faults", r.n(160_000, 4_000_000), faults);
        for l in [1, 2, 4] {
            r.require(&format!("gss_negotiated_{l}"), 200);
            r.require(&format!("gss_offer_accepted_{l}"), 100);
            r.require(&format!("gss_choice_accepted_{l}"), 100);
        }
        for c in ["gss_no_common_layer", "gss_messages_conf", "gss_messages_int", "gss_tampered", "gss_replayed", "gss_offer_refused", "gss_choice_refused", "gss_injected_failure", "gss_write_failure", "gss_steps_without_data", "gss_junk"] {
            r.require(c, 200);
        }
        r.require("gss_messages_over_a_megabyte", 10);
    }
}

/// the GSSAPI exchanges as part of another property's check
pub fn gss_share(_r: &mut Run, _keep: &[&str], _scale: u64) {
    #[cfg(feature = "gssapi")]
    g::share(_r, _keep, _scale);
    #[cfg(not(feature = "gssapi"))]
    if std::env::var("RV_NO_GSS").is_ok() {
        _r.assumptions.push("GSSAPI was not part of this run: rsasl did not build with that feature".into());
    }
}

pub fn run(r: &mut Run) {
    r.rule = "one evaluation = one session state probed for a layer, one layer call through a custom mechanism, or one GSSAPI exchange; distinct by configuration and messages".into();
    r.assumptions = vec![
        "GSSAPI runs against a stand-in for the Kerberos library with its own message protection: what is judged is rsasl's use of GSS, not Kerberos".into(),
        "the unwrap call of the libgssapi crate does not report whether a received message was encrypted, so a peer that downgrades single messages is not observable".into(),
        "an authorization identity in the client's final GSSAPI token and non-zero sizes without a layer may be refused or accepted".into(),
    ];
    r.cases("layerless", r.n(24_000, 600_000), layerless);
    r.cases("custom", r.n(60_000, 2_000_000), custom);
    r.require("layerless_finished", 500);
    r.require("layerless_unfinished", 500);
    r.require("custom_layer_ok", 1000);
    r.require("custom_layer_error", 1000);
    r.require("custom_without_layer", 1000);
    #[cfg(feature = "gssapi")]
    g::run(r);
    let _ = HCb::default();
}
