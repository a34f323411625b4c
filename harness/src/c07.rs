//! C07: what the client supplies is what the server sees.
use crate::cb::{Ctx, Ev, HCb, Props};
use crate::drive::*;
use crate::gen;
use crate::grammar::norm;
use crate::prng::Rng;
use crate::refimpl::{b64, keys, unb64};
use crate::report::{show, Run, W};
use serde_json::json;

fn text(rng: &mut Rng) -> String {
    match rng.below(12) {
        0 => String::new(),
        1..=3 => gen::nasty(rng),
        4 => gen::ascii_name(rng, 1000),
        5 => (*rng.pick(&["\u{ad}", "\u{2163}", "a\u{ad}b", "\u{a0}x", "\u{627}1", "\u{aa}", "\u{fb01}", "I\u{323}\u{307}"])).to_string(),
        6 => {
            // looks like the mechanisms' own syntax
            (*rng.pick(&[
                "a=2Cb", "=3D", "=2C=3D", "n,,", "a,b=c", "user=x", "Bearer x", "bearer y", "auth=Bearer z", "x\u{1}auth=Bearer evil", "\u{1}", "\u{1}\u{1}", "a\0b", "\0", "a\0b\0c",
                ",a=admin,", "k=v", "=", ",", "p=tls-unique,,", "User Name\0", "x,r=y", "x,m=1",
            ]))
            .to_string()
        }
        7 => {
            let mut s = gen::word(rng);
            let c = *rng.pick(&['\0', '\u{1}', ',', '=', '\n', '\r', ' ', '\u{7f}', '\u{80}', '\u{10ffff}']);
            let at = s.char_indices().map(|x| x.0).nth(rng.below(s.chars().count().max(1))).unwrap_or(0);
            s.insert(at, c);
            s
        }
        _ => gen::word(rng),
    }
}

struct Case {
    c: Props,
    s: Props,
    hc: HCb,
    hs: HCb,
    /// what the server must see (normalised)
    want: Ctx,
    /// representable: the exchange must succeed
    must: bool,
    ascii_ok: bool,
}
fn prep(s: &str) -> Option<String> {
    stringprep::saslprep(s).ok().map(|c| c.into_owned()).filter(|p| !p.is_empty())
}
fn build(m: &'static str, rng: &mut Rng) -> Case {
    let mut c = Props::default();
    let mut s = Props::default();
    let (mut hc, mut hs) = (HCb::default(), HCb::default());
    let user = text(rng);
    let az = if rng.chance(1, 2) { Some(text(rng)) } else { None };
    let mut want = Ctx::default();
    let must;
    match m {
        "PLAIN" => {
            let pw = if rng.chance(1, 8) { gen::blob(rng, 40) } else { text(rng).into_bytes() };
            let pp = std::str::from_utf8(&pw).ok().and_then(prep);
            let up = prep(&user);
            must = up.is_some() && pp.is_some() && !az.as_ref().is_some_and(|a| a.contains('\0'));
            want.authid = up;
            want.authzid.clone_from(&az);
            want.password = Some(match std::str::from_utf8(&pw) {
                Ok(_) => pp.unwrap_or_default().into_bytes(),
                Err(_) => pw.clone(),
            });
            c.authid = Some(user);
            c.authzid = az;
            c.password = Some(pw);
        }
        "LOGIN" => {
            let pw = gen::blob(rng, 60);
            must = !user.is_empty() && !pw.is_empty();
            want.authid = Some(user.clone());
            want.password = Some(pw.clone());
            c.authid = Some(user);
            c.password = Some(pw);
        }
        "ANONYMOUS" => {
            must = true;
            want.anon = Some(if rng.chance(1, 10) { String::new() } else { user.clone() });
            c.anon = want.anon.clone().filter(|a| !a.is_empty() || rng.chance(1, 2));
        }
        "EXTERNAL" => {
            must = !az.as_ref().is_some_and(|a| a.contains('\0'));
            want.authzid.clone_from(&az);
            c.authzid = az;
        }
        "XOAUTH2" => {
            let t = text(rng);
            must = !user.is_empty() && !t.is_empty() && !user.contains('\u{1}') && !t.contains('\u{1}');
            want.authid = Some(user.clone());
            want.token = Some(t.clone());
            c.authid = Some(user);
            c.token = Some(t);
        }
        "OAUTHBEARER" => {
            let t = text(rng);
            let kv: Option<Vec<(String, String)>> = if rng.chance(1, 2) {
                Some(
                    (0..rng.below(4))
                        .map(|_| {
                            let k = match rng.below(6) {
                                0 => text(rng),
                                1 => "auth".into(),
                                _ => (*rng.pick(&["host", "port", "Auth", "x", "authx"])).to_string(),
                            };
                            (k, text(rng))
                        })
                        .collect(),
                )
            } else {
                None
            };
            let vis = |s: &str| s.bytes().all(|b| matches!(b, 0x20..=0x7e | b'\t' | b'\r' | b'\n'));
            let kv_ok = kv.iter().flatten().all(|(k, v)| !k.is_empty() && k.bytes().all(|b| b.is_ascii_alphabetic()) && k != "auth" && vis(v));
            let az_ok = az.as_ref().map_or(true, |a| !a.is_empty() && !a.contains(['\0', '\u{1}']));
            must = kv_ok && az_ok && !t.is_empty() && vis(&t);
            want.token = Some(t.clone());
            want.authzid.clone_from(&az);
            want.kv.clone_from(&kv);
            c.token = Some(t);
            c.authzid = az;
            c.kv = kv;
        }
        _ => {
            let h = hash_of(m);
            let pw = gen::blob(rng, 30);
            let n = rng.range(1, 20);
            let salt = rng.bytes(n);
            let k = keys(h, &pw, &salt, 1);
            s.stored.push(Stored2::of(&user, 1, &salt, &k));
            // near misses in the database must not be confused with the user
            s.stored.insert(0, Stored2::of(&crate::refimpl::esc(&user).replace('a', "b"), 1, &salt, &keys(h, b"other", &salt, 1)));
            let first = s.stored[0].user.clone();
            if first == user {
                s.stored.remove(0);
            }
            must = !user.is_empty() && !user.contains('\0') && az.as_ref().map_or(true, |a| !a.is_empty() && !a.contains('\0'));
            want.authid = Some(user.clone());
            want.authzid.clone_from(&az);
            c.authid = Some(user);
            c.authzid = az;
            c.password = Some(pw);
            if m.ends_with("-PLUS") {
                hc = HCb::one("tls-exporter", b"data");
                hs = hc.clone();
            }
        }
    }
    let ascii_ok = true;
    Case { c, s, hc, hs, want, must, ascii_ok }
}

fn one(w: &mut W, rng: &mut Rng) {
    let m = ALL[(w.case as usize) % ALL.len()];
    let k = build(m, rng);
    let through64 = rng.chance(1, 5);
    let (cp, sup) = (k.c.clone(), k.s.clone());
    let mut c = Party::client(m, k.c.clone(), k.hc.clone());
    let mut s = Party::server(m, k.s.clone(), k.hs.clone());
    let mut server_turn = s.first();
    let mut input: Option<Vec<u8>> = None;
    let (mut cr, mut sr) = (R::Run, R::Run);
    let mut steps = vec![];
    for _ in 0..8 {
        let p = if server_turn { &mut s } else { &mut c };
        let o = if through64 {
            let mut o = p.step64(input.as_deref().map(b64).as_deref());
            if !o.r.is_err() {
                o.bytes = unb64(&o.bytes).unwrap_or_default();
            }
            o
        } else {
            p.step(input.as_deref())
        };
        steps.push(format!("{}:{:?}[{}]", if server_turn { "S" } else { "C" }, o.r, show(&o.bytes)));
        *(if server_turn { &mut sr } else { &mut cr }) = o.r.clone();
        let other = if server_turn { &cr } else { &sr };
        if o.r.is_err() || o.r == R::FinNo || other.is_fin() {
            break;
        }
        input = Some(o.bytes);
        server_turn = !server_turn;
    }
    let ok = sr.is_fin() && (cr.is_fin() || m.contains("OAUTH"));
    let ev = s.events();
    let ctx = || format!("{m}: client {:?}; stored users {:?}; want {:?}; steps {steps:?}; server events {ev:?}", short(&cp), sup.stored.iter().map(|s| &s.user).collect::<Vec<_>>(), k.want);
    if k.must {
        w.count("representable");
        w.want(ok, &format!("representable-refused@{m}"), ctx);
    } else {
        w.count("unrepresentable");
    }
    let val = s.validation();
    let mut saw = false;
    for e in &ev {
        let (c, is_val) = match e {
            Ev::Validate { ctx, .. } => (ctx, true),
            Ev::Req { ctx, .. } => (ctx, false),
            _ => continue,
        };
        saw = true;
        let c = norm(c);
        let want = norm(&k.want);
        if is_val {
            w.want(c == want, &format!("server-saw-other-fields@{m}"), ctx);
        } else {
            // a request shows a subset
            w.want(
                (c.authid.is_none() || c.authid == want.authid)
                    && (c.authzid.is_none() || c.authzid == want.authzid)
                    && (c.token.is_none() || c.token == want.token)
                    && (c.password.is_none() || c.password == want.password)
                    && (c.kv.is_none() || c.kv == want.kv),
                &format!("server-saw-other-fields@{m}"),
                ctx,
            );
        }
    }
    if ok {
        w.count("completed");
        w.want(ev.iter().any(Ev::is_validate), &format!("completed-without-validation@{m}"), ctx);
        w.want(val.is_some_and(|v| norm(&v.ctx) == norm(&k.want)), &format!("validation-value@{m}"), ctx);
        if m.starts_with("SCRAM") {
            // the lookup was for this very user
            let looked = ev.iter().any(|e| matches!(e, Ev::Req { prop: "ScramStoredPassword", ctx, .. } if ctx.authid == k.want.authid));
            w.want(looked, "credential-lookup-missing", ctx);
        }
    } else {
        w.count("refused");
        w.want(val.is_none() || m.contains("OAUTH"), &format!("refused-but-validated@{m}"), ctx);
    }
    let _ = k.ascii_ok;
    w.eval((m, short(&cp)), saw || !ok);
    w.sample(|| json!({"mechanism": m, "supplied": short(&cp), "server_saw": ev.iter().map(|e| format!("{e:?}").chars().take(160).collect::<String>()).collect::<Vec<_>>()}));
}
fn short(c: &Props) -> String {
    format!("authid {:?} authzid {:?} password {:?} token {:?} anon {:?} kv {:?}", c.authid, c.authzid, c.password.as_deref().map(show), c.token, c.anon, c.kv)
}

pub fn run(r: &mut Run) {
    r.rule = "an exchange between a client and a server session of the library with generated values, in which the server saw fields or someone refused; distinct by mechanism and values".into();
    r.assumptions = vec!["SCRAM names are compared without SASLprep (the library leaves preparation to its user)".into()];
    r.cases("fields", r.n(600_000, 20_000_000), one);
    r.require("completed", 50_000);
    r.require("representable", 50_000);
    r.require("unrepresentable", 20_000);
    r.require("refused", 20_000);
}
