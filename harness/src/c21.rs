//! C21: a failed step names its cause. Single faults are put into exchanges that would succeed; the error the step
//! returns has to be the one of that fault.
use crate::c10::Scen;
use crate::cb::{inj_err, Ev, OAns, Refused, VAct, N_ERRS};
use crate::drive::*;
use crate::gen;
use crate::io::{End, Wr};
use crate::prng::Rng;
use crate::refimpl::{b64, unb64};
use crate::report::{show, Run, W};
use rsasl::callback::CallbackError;
use rsasl::prelude::*;
use rsasl::validate::ValidationError;
use serde_json::json;
use std::io::ErrorKind;

/// the causes a step can name
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
enum Cause {
    /// the callback has no value for this property
    Missing(String),
    /// channel binding data of this type
    MissingCb(String),
    /// exactly this error (its debug text)
    Same(String),
    Io(ErrorKind),
    Input,
    Base64,
    /// the peer's message (or a value that can not be sent); `true`: the peer reports that authentication failed
    Mech(bool),
    Mutual,
    Layer,
    Other(String),
}
fn cause(e: &SessionError) -> Cause {
    match e {
        SessionError::CallbackError(CallbackError::NoCallback(n)) => {
            let n = n.split('<').next().unwrap_or(n);
            Cause::Missing(n.rsplit("::").next().unwrap_or(n).to_string())
        }
        SessionError::MissingChannelBindingData(n) => Cause::MissingCb(n.to_string()),
        SessionError::Io { source } => Cause::Io(source.kind()),
        SessionError::InputDataRequired => Cause::Input,
        SessionError::Base64 { .. } => Cause::Base64,
        SessionError::MechanismError(m) => Cause::Mech(matches!(m.kind(), rsasl::mechanism::MechanismErrorKind::Outcome)),
        SessionError::MutualAuthenticationFailed => Cause::Mutual,
        SessionError::NoSecurityLayer => Cause::Layer,
        e => Cause::Other(format!("{e:?}").chars().take(60).collect()),
    }
}

/// the error itself is consistent: predicates, text, source
fn consistent(w: &mut W, m: &str, e: &SessionError) {
    let c = cause(e);
    let ok = e.is_missing_prop() == matches!(c, Cause::Missing(_)) && e.is_mechanism_error() == matches!(c, Cause::Mech(_));
    w.want(ok, &format!("predicates@{m}"), || format!("{e:?}: is_missing_prop {}, is_mechanism_error {}", e.is_missing_prop(), e.is_mechanism_error()));
    let mut n = 0;
    let mut s: Option<&dyn std::error::Error> = std::error::Error::source(e);
    while let Some(x) = s {
        n += 1;
        if x.to_string().is_empty() || n > 20 {
            w.viol(format!("error-source@{m}"), format!("{e:?}"));
            return;
        }
        s = x.source();
    }
    w.want(!e.to_string().is_empty(), &format!("no-text@{m}"), || format!("{e:?}"));
    if matches!(c, Cause::Io(_) | Cause::Base64) {
        w.want(n > 0, &format!("source-lost@{m}"), || format!("{e:?}"));
    }
}

struct Trace {
    steps: Vec<(bool, Out)>,
}
/// the exchange, with step `at` done by `f`
fn go(sc: &Scen, at: usize, mut f: impl FnMut(&mut Party, Option<&[u8]>) -> Out) -> (Trace, Party, Party) {
    let (mut c, mut s) = sc.parties();
    let mut server = s.first();
    let mut input: Option<Vec<u8>> = None;
    let mut t = Trace { steps: vec![] };
    let (mut cf, mut sf) = (false, false);
    for i in 0..12 {
        let p = if server { &mut s } else { &mut c };
        let o = if i == at { f(p, input.as_deref()) } else { p.step(input.as_deref()) };
        let r = o.r.clone();
        input = Some(o.bytes.clone());
        t.steps.push((server, o));
        if server {
            sf |= r.is_fin();
        } else {
            cf |= r.is_fin();
        }
        if r.is_err() || r == R::FinNo || (server && cf) || (!server && sf) {
            break;
        }
        server = !server;
    }
    (t, c, s)
}
fn six(p: &mut Party, i: Option<&[u8]>) -> Out {
    let e = i.map(b64);
    let mut o = p.step64(e.as_deref());
    o.bytes = unb64(&o.bytes).unwrap_or(o.bytes);
    o
}

/// what a request that stays unanswered leads to. None: the property is optional
fn unanswered(m: &str, server: bool, prop: &str, ev: &[Ev], at: usize) -> Option<Cause> {
    let req = match (server, prop) {
        (false, "AuthId" | "Password" | "OAuthBearerToken" | "XOAuth2Error" | "OAuthBearerErrored") => true,
        (true, "XOAuth2Validate" | "OAuthBearerValidate") => true,
        _ => false,
    };
    let _ = m;
    if prop == "ChannelBindings" {
        let Ev::Req { ctx, .. } = &ev[at] else { return None };
        // the protocol has the data of the type that is used
        if ev.iter().any(|e| matches!(e, Ev::CbData { found: true, .. })) {
            return None;
        }
        return Some(Cause::MissingCb(ctx.cbname.clone().unwrap_or_default()));
    }
    req.then(|| Cause::Missing(prop.to_string()))
}

/// judge the outcome of the step a fault was put into
fn judge(w: &mut W, m: &str, what: &str, t: &Trace, k: usize, want: &Cause, ctx: &dyn Fn() -> String) {
    let got = t.steps.get(k).and_then(|(_, o)| o.err.as_ref());
    let side = if t.steps.get(k).is_some_and(|x| x.0) { "server" } else { "client" };
    match got {
        None => w.viol(format!("{what}-unnoticed@{m}-{side}"), format!("{}: expected {want:?}, steps {:?}", ctx(), t.steps.iter().map(|x| &x.1.r).collect::<Vec<_>>())),
        Some(e) => {
            let ok = match want {
                Cause::Same(d) => *d == format!("{e:?}"),
                // (an action is not a request for a value: a callback's "no value" is its own error)
                Cause::Missing(p) if ["XOAuth2Error", "OAuthBearerErrored"].contains(&p.as_str()) => {
                    cause(e) == *want || matches!(e, SessionError::CallbackError(CallbackError::NoValue))
                }
                c => cause(e) == *c,
            };
            w.want(ok, &format!("{what}-misnamed@{m}-{side}"), || format!("{}: expected {want:?}, got {e:?}", ctx()));
            consistent(w, m, e);
            w.count(match want {
                Cause::Missing(_) => "missing_named",
                Cause::MissingCb(_) => "missing_bindings_named",
                Cause::Same(_) => "callback_errors_unchanged",
                Cause::Io(_) => "writer_errors_named",
                Cause::Input => "missing_input_named",
                Cause::Base64 => "base64_named",
                Cause::Mech(_) => "peer_faults_named",
                Cause::Mutual => "mutual_failures_named",
                Cause::Layer => "layer_named",
                Cause::Other(_) => "other",
            });
        }
    }
}

const KINDS: [ErrorKind; 10] = [
    ErrorKind::BrokenPipe, ErrorKind::ConnectionReset, ErrorKind::WouldBlock, ErrorKind::Other, ErrorKind::UnexpectedEof,
    ErrorKind::TimedOut, ErrorKind::PermissionDenied, ErrorKind::InvalidData, ErrorKind::InvalidInput, ErrorKind::WriteZero,
];
pub const E_VALUES: [&str; 11] = [
    "invalid-encoding", "extensions-not-supported", "invalid-proof", "channel-bindings-dont-match", "server-does-support-channel-binding",
    "channel-binding-not-supported", "unsupported-channel-binding-type", "unknown-user", "invalid-username-encoding", "no-resources", "other-error",
];

/// does the client's error say what the server reported, and nothing else a server can report?
fn says(e: &SessionError, v: &str) -> bool {
    let norm = |s: &str| s.to_lowercase().chars().filter(|c| c.is_ascii_alphanumeric()).collect::<String>();
    let mut text = norm(&e.to_string());
    let mut s: Option<&dyn std::error::Error> = std::error::Error::source(e);
    while let Some(x) = s {
        text.push_str(&norm(&x.to_string()));
        s = x.source();
    }
    E_VALUES.iter().all(|x| text.contains(&norm(x)) == (*x == v))
}

fn scen(w: &W, rng: &mut Rng) -> Scen {
    let m = ALL[(w.case as usize) % ALL.len()];
    let mut sc = Scen::random(m, rng, (w.case as usize) / ALL.len());
    for p in [&mut sc.c, &mut sc.s] {
        p.no_value = rng.chance(1, 4);
    }
    // binding data answered by the application's callback instead of the protocol
    if m.ends_with("-PLUS") && rng.chance(1, 2) {
        if rng.chance(1, 2) {
            let name = format!("x-{}", gen::word(rng).chars().filter(char::is_ascii_alphanumeric).collect::<String>());
            let d = sc.hc.data[0].1.clone();
            sc.hc.data = vec![(name.clone(), d.clone())];
            sc.hs.data = vec![(name.clone(), d)];
            sc.c.override_cb = Some(name);
        }
        sc.c.cbs = std::mem::take(&mut sc.hc.data);
        if rng.chance(1, 2) {
            sc.s.cbs = std::mem::take(&mut sc.hs.data);
        }
    }
    sc
}

/// every single local fault of an exchange
fn local(w: &mut W, rng: &mut Rng) {
    let sc = scen(w, rng);
    let m = sc.m;
    let (base, mut bc, mut bs) = go(&sc, usize::MAX, |_, _| unreachable!());
    let head = format!("{m} {} (no_value {}/{})", sc.what, sc.c.no_value, sc.s.no_value);
    w.eval((m, sc.what, w.case), true);
    if let Some((k, (server, o))) = base.steps.iter().enumerate().find(|(_, x)| x.1.r.is_err()) {
        // the server said that authentication failed
        let said = k > 0 && base.steps[k - 1].1.bytes.starts_with(b"e=");
        let ok = said && !*server && matches!(o.err.as_ref().map(cause), Some(Cause::Mech(true)));
        w.want(ok, &format!("reported-failure-misnamed@{m}"), || format!("{head}: step {k} (server {server}) {:?}", o.err));
        w.count("reported_failures_named");
    }
    // nothing here installs a layer
    for p in [&mut bc, &mut bs] {
        let mut o = Vec::new();
        let e = [p.encode(b"data", &mut o).err(), p.decode(b"data", &mut o).err()];
        for e in e {
            let ok = e.as_ref().map(cause) == Some(Cause::Layer) && o.is_empty();
            w.want(ok, &format!("no-layer-misnamed@{m}"), || format!("{head}: {e:?} wrote {}", o.len()));
            w.count("layer_named");
        }
    }
    // indexes of the callback's requests, per side
    let mut n = [0usize, 0];
    for (k, (server, o)) in base.steps.iter().enumerate() {
        let side = usize::from(*server);
        let d0 = || format!("{head}: step {k} of the {}", if *server { "server" } else { "client" });
        for (i, e) in o.ev.iter().enumerate() {
            let prop = match e {
                Ev::Req { prop, .. } | Ev::Act { prop, .. } => *prop,
                Ev::Validate { .. } if *server => {
                    for f in 0..3 {
                        let err = match f {
                            0 => ValidationError::Boxed(Box::new(Refused)),
                            1 => ValidationError::MissingRequiredProperty,
                            _ => ValidationError::Boxed(Box::new(SessionError::MechanismDone)),
                        };
                        let mut sc = sc.clone();
                        sc.s.validate = VAct::Fail(f);
                        let want = Cause::Same(format!("{:?}", SessionError::ValidationError(err)));
                        let (t, ..) = go(&sc, usize::MAX, |_, _| unreachable!());
                        judge(w, m, "validation-error", &t, k, &want, &|| format!("{}, validation fails", d0()));
                    }
                    continue;
                }
                _ => continue,
            };
            let offer = prop == "ScramCachedPassword" && !*server && k > 1;
            let at = n[side];
            n[side] += 1;
            // the callback fails
            let f = rng.below(N_ERRS);
            let mut sc2 = sc.clone();
            let p = if *server { &mut sc2.s } else { &mut sc2.c };
            p.inject = Some((at, f));
            let (t, ..) = go(&sc2, k, if rng.chance(1, 4) { six } else { |p: &mut Party, i: Option<&[u8]>| p.step(i) });
            if !offer {
                let want = Cause::Same(format!("{:?}", inj_err(f)));
                judge(w, m, "callback-error", &t, k, &want, &|| format!("{}, callback for {prop} fails", d0()));
            }
            // it has no value
            let mut sc2 = sc.clone();
            let p = if *server { &mut sc2.s } else { &mut sc2.c };
            p.without = Some(prop);
            let want = unanswered(m, *server, prop, &o.ev, i);
            let first = base.steps.iter().take(k).any(|(s, o)| s == server && o.ev.iter().any(|e| e.req() == Some(prop) || e.act() == Some(prop)));
            if first || prop == "OverrideCBType" && sc.c.override_cb.is_some() {
                continue;
            }
            let (t, ..) = go(&sc2, usize::MAX, |_, _| unreachable!());
            match want {
                Some(want) => {
                    // a client without the exporter tries the next type
                    let want = match want {
                        Cause::MissingCb(n) if !*server && sc.c.override_cb.is_none() && n == "tls-exporter" => Cause::MissingCb("tls-unique".into()),
                        x => x,
                    };
                    judge(w, m, "missing-value", &t, k, &want, &|| format!("{}, no value for {prop}", d0()));
                }
                None => {
                    let e = t.steps.get(k).and_then(|x| x.1.err.as_ref());
                    w.want(e.is_none() || o.err.is_some(), &format!("optional-value-required@{m}"), || format!("{}, no value for {prop}: {e:?}", d0()));
                    w.count("optional_absent");
                }
            }
        }
        if o.r.is_err() {
            break;
        }
        // the writer fails
        for enc in [false, true] {
            let len = if enc { o.bytes.len().div_ceil(3) * 4 } else { o.bytes.len() };
            if len == 0 {
                continue;
            }
            for _ in 0..3 {
                let at = rng.below(len);
                let kind = *rng.pick(&KINDS);
                let (end, kind) = match rng.below(4) {
                    0 => (End::Zero(at), ErrorKind::WriteZero),
                    1 => (End::Once(at, kind), kind),
                    _ => (End::Err(at, kind), kind),
                };
                let chunks = if rng.chance(1, 2) { vec![] } else { vec![rng.range(1, 9)] };
                let mut wr = Wr::new(chunks, 0, rng.chance(1, 2), end);
                let (t, ..) = go(&sc, k, |p, i| {
                    let r = if enc {
                        let e = i.map(b64);
                        p.raw64(e.as_deref(), &mut wr)
                    } else {
                        p.raw(i, &mut wr)
                    };
                    Out { r: R::of(&r), bytes: wr.got.clone(), err: r.err(), ev: vec![] }
                });
                judge(w, m, "writer-error", &t, k, &Cause::Io(kind), &|| format!("{}, base64 {enc}, writer {wr:?}", d0()));
            }
        }
        // no message from the peer
        if crate::c15::needs(m, *server, k) == Some(true) {
            let (t, ..) = go(&sc, k, |p, _| p.step(None));
            judge(w, m, "no-input", &t, k, &Cause::Input, &|| format!("{}, no input", d0()));
            let (t, ..) = go(&sc, k, |p, _| p.step64(None));
            judge(w, m, "no-input", &t, k, &Cause::Input, &|| format!("{}, no input (base64)", d0()));
        }
        // not base64
        if k > 0 {
            let f = rng.below(5);
            let (t, ..) = go(&sc, k, |p, i| {
                let mut e = b64(i.unwrap_or(b""));
                match f {
                    0 => e.push(b'*'),
                    1 if !e.is_empty() => e[0] = b'\n',
                    2 if !e.is_empty() => {
                        e.pop();
                    }
                    3 => e.extend(b"===="),
                    _ => e.extend([0xff, 0xff, 0xff, 0xff]),
                }
                p.step64(Some(&e))
            });
            judge(w, m, "bad-base64", &t, k, &Cause::Base64, &|| format!("{}, damage {f}", d0()));
        }
    }
    w.sample(|| json!({"mech": m, "scenario": sc.what, "steps": base.steps.len()}));
}

/// what the peer may cause
fn peer(w: &mut W, rng: &mut Rng) {
    let mut sc = scen(w, rng);
    if sc.what == "unknown user" && rng.chance(3, 4) {
        sc = scen(w, rng);
    }
    let m = sc.m;
    let (base, ..) = go(&sc, usize::MAX, |_, _| unreachable!());
    let ks: Vec<usize> = (1..base.steps.len()).filter(|k| !base.steps[*k].1.r.is_err()).collect();
    if ks.is_empty() {
        return;
    }
    for _ in 0..6 {
        let k = *rng.pick(&ks);
        let scram = m.starts_with("SCRAM");
        let last = scram && !base.steps[k].0 && k == 4;
        let mut sent = vec![];
        let mut right = vec![];
        let how = rng.below(if last { 9 } else { 4 });
        let enc = rng.chance(1, 4);
        let (t, ..) = go(&sc, k, |p, i| {
            right = i.unwrap_or(b"").to_vec();
            sent = match how {
                0 => {
                    let n = gen::size(rng, 200);
                    gen::blob(rng, n)
                }
                1..=3 => gen::mutate(rng, &right),
                4 => format!("e={}", rng.pick(&E_VALUES)).into_bytes(),
                5 => {
                    // another verifier of the same or another length
                    let v = unb64(right.strip_prefix(b"v=").unwrap_or(b"")).unwrap_or_default();
                    let mut v2 = v.clone();
                    match rng.below(4) {
                        0 => {
                            let n = rng.below(v2.len().max(1));
                            v2[n] ^= 1 << rng.below(8);
                        }
                        1 => v2.truncate(rng.below(v.len().max(1))),
                        2 => v2.push(rng.below(256) as u8),
                        _ => v2 = rng.bytes(v.len()),
                    }
                    [&b"v="[..], &b64(&v2)].concat()
                }
                6 => format!("e={}", gen::word(rng)).into_bytes(),
                7 => [&right[..], b"!"].concat(),
                _ => b"v=".to_vec(),
            };
            if enc { six(p, Some(&sent)) } else { p.step(Some(&sent)) }
        });
        let (server, o) = &t.steps[k];
        let side = if *server { "server" } else { "client" };
        let ctx = || format!("{m} {} step {k} of the {side}, message [{}] instead of [{}]: {:?} {:?}", sc.what, show(&sent), show(&right), o.r, o.err);
        w.eval((m, k, &sent), true);
        let Some(e) = &o.err else {
            w.count("hostile_not_refused");
            continue;
        };
        consistent(w, m, e);
        let got = cause(e);
        let known_e = sent.strip_prefix(b"e=").is_some_and(|v| E_VALUES.iter().any(|x| x.as_bytes() == v));
        let verifier = sent.strip_prefix(b"v=").filter(|_| !sent.contains(&b',')).and_then(unb64);
        let ok = if last && known_e {
            w.count("server_errors_named");
            let v = std::str::from_utf8(&sent[2..]).unwrap_or("");
            w.want(says(e, v), &format!("reported-cause-misnamed@{m}"), || format!("{}: {e} names something else", ctx()));
            got == Cause::Mech(true)
        } else if last && sent.starts_with(b"e=") {
            matches!(got, Cause::Mech(_))
        } else if last && verifier.is_some() && !sent.is_empty() {
            // (an empty verifier is no verifier: a malformed message, or one that does not verify)
            w.count("wrong_verifiers");
            got == Cause::Mutual || verifier.as_ref().is_some_and(Vec::is_empty) && got == Cause::Mech(false)
        } else if last && sent.starts_with(b"v=") {
            matches!(got, Cause::Mech(false) | Cause::Mutual)
        } else if scram && *server && k == 1 && sent.starts_with(b"p=") {
            // the client names a type nobody has data for
            let name = sent[2..].split(|b| *b == b',').next().unwrap_or(b"");
            matches!(got, Cause::Mech(false)) || matches!(&got, Cause::MissingCb(n) if n.as_bytes() == name && !sc.hs.data.iter().chain(&sc.s.cbs).any(|d| d.0 == *n))
        } else if scram && !*server && k == 2 {
            // (the callback refuses to compute very many iterations)
            matches!(got, Cause::Mech(false)) || format!("{e:?}") == format!("{:?}", SessionError::Boxed(Box::new(Refused)))
        } else {
            got == Cause::Mech(false)
        };
        w.want(ok, &format!("peer-fault-misnamed@{m}-{side}{k}"), ctx);
        w.count("peer_faults_named");
    }
}

/// the one thing that makes a SCRAM server refuse is what it reports, and what its client is told
fn said(w: &mut W, rng: &mut Rng) {
    let ms: Vec<&'static str> = ALL.iter().copied().filter(|m| m.starts_with("SCRAM")).collect();
    let m = ms[w.case as usize % ms.len()];
    let i = w.case as usize / ms.len();
    let (sc, v) = match i % 3 {
        0 => (Scen::random(m, rng, 1), "unknown-user"),
        1 if m.ends_with("-PLUS") => {
            let mut sc = Scen::random(m, rng, 0);
            // some other data for the type that is used
            for d in &mut sc.hs.data {
                match rng.below(4) {
                    0 if !d.1.is_empty() => {
                        let k = rng.below(d.1.len());
                        d.1[k] ^= 1 << rng.below(8);
                    }
                    1 if !d.1.is_empty() => {
                        d.1.pop();
                    }
                    2 => d.1.push(rng.below(256) as u8),
                    _ => {
                        let old = d.1.clone();
                        let k = 1 + rng.below(60);
                        d.1 = rng.bytes(k);
                        if d.1 == old {
                            d.1.push(0);
                        }
                    }
                }
            }
            (sc, "channel-bindings-dont-match")
        }
        _ => {
            let sc = Scen::random(m, rng, 2);
            (sc, "invalid-proof")
        }
    };
    let (t, ..) = go(&sc, usize::MAX, |_, _| unreachable!());
    w.eval((m, v, w.case), true);
    let d = || format!("{m} {v}: {:?}", t.steps.iter().map(|x| (x.0, x.1.r.clone(), show(&x.1.bytes), x.1.err.as_ref().map(|e| format!("{e:?}")))).collect::<Vec<_>>());
    let Some((_, o)) = t.steps.get(3) else {
        w.viol(&format!("refusal-not-reported@{m}"), d());
        return;
    };
    w.want(o.bytes == format!("e={v}").as_bytes(), &format!("refusal-misreported@{m}-{v}"), d);
    let e = t.steps.get(4).and_then(|x| x.1.err.as_ref());
    w.want(e.is_some_and(|e| says(e, v) && cause(e) == Cause::Mech(true)), &format!("reported-cause-misnamed@{m}-{v}"), d);
    w.count(&format!("said_{}", v.replace('-', "_")));
}

/// values of the own callback that no message can carry
fn unsendable(w: &mut W, rng: &mut Rng) {
    let mut sc = scen(w, rng);
    let m = sc.m;
    let bad = |rng: &mut Rng, v: &str| match rng.below(7) {
        0 => format!("{v}\0"),
        1 => format!("\u{1}{v}"),
        2 => String::new(),
        3 => format!("{v}\u{e0001}"),
        4 => format!("\u{7f}{v}\u{fffd}"),
        5 => format!("{v},=\u{627}1"),
        _ => gen::nasty(rng),
    };
    let c = &mut sc.c;
    let which = rng.below(4);
    match which {
        0 => c.authid = c.authid.as_ref().map(|v| bad(rng, v)),
        1 => c.authzid = Some(bad(rng, "z")),
        2 => {
            c.password = Some(bad(rng, "p").into_bytes());
            c.token = c.token.as_ref().map(|v| bad(rng, v));
        }
        _ => {
            c.kv = Some(vec![(bad(rng, "k"), bad(rng, "v"))]);
            c.anon = Some(bad(rng, "a"));
        }
    }
    let (t, ..) = go(&sc, usize::MAX, |_, _| unreachable!());
    w.eval((m, which, format!("{:?}", sc.c)), true);
    for (k, (server, o)) in t.steps.iter().enumerate() {
        let Some(e) = &o.err else { continue };
        consistent(w, m, e);
        let side = if *server { "server" } else { "client" };
        w.want(matches!(cause(e), Cause::Mech(_)), &format!("unsendable-misnamed@{m}-{side}{k}"), || format!("{m} client with {:?}: step {k} {e:?}", sc.c));
        w.count("unsendable_named");
    }
}

pub fn run(r: &mut Run) {
    r.rule = "one evaluation = one exchange (local stream: with every single local fault put into it, one at a time; peer and unsendable \
              streams: one foreign message or one value that no message can carry); the error of the step is compared with the fault's name"
        .into();
    r.assumptions = vec!["property names are the last path segment of the type name the error carries".into()];
    r.cases("local", r.n(2_400, 120_000), local);
    r.cases("peer", r.n(9_000, 500_000), peer);
    r.cases("said", r.n(600, 30_000), said);
    r.cases("unsendable", r.n(6_000, 200_000), unsendable);
    for c in ["missing_named", "missing_bindings_named", "callback_errors_unchanged", "writer_errors_named", "missing_input_named", "base64_named", "peer_faults_named", "wrong_verifiers", "server_errors_named", "unsendable_named", "layer_named", "optional_absent", "said_unknown_user", "said_invalid_proof", "said_channel_bindings_dont_match"] {
        r.require(c, 100);
    }
}
