//! C03: SCRAM interoperates with RFC 5802 for every credential, salt and iteration count.
use crate::cb::{Ev, HCb, Props};
use crate::drive::*;
use crate::gen;
use crate::prng::Rng;
use crate::refimpl::*;
use crate::report::{show, Run, W};
use crate::scram_util::*;
use serde_json::json;

fn big_cred(h: Hash, rng: &mut Rng) -> Cred {
    let user = gen::prepped(rng, 1200);
    let pw = gen::prepped(rng, 1200);
    let n = gen::size(rng, 1100).max(1);
    let salt = rng.bytes(n);
    let it = match rng.below(12) {
        0 => rng.range(2, 64) as u32,
        1 => *rng.pick(&[9u32, 10, 11, 99, 100, 101, 255, 256]),
        2 if rng.chance(1, 8) => *rng.pick(&[1000u32, 4096, 9999, 10000]),
        _ => *rng.pick(&[1u32, 1, 2, 3]),
    };
    let keys = keys(h, pw.as_bytes(), &salt, it);
    Cred { user, pw, salt, it, keys }
}

struct Setup {
    h: Hash,
    m: String,
    c: Cred,
    authzid: Option<String>,
    flag: String,
    data: Vec<u8>,
    hcb: HCb,
    s: Props,
}
fn setup(rng: &mut Rng) -> Setup {
    let h = *rng.pick(&HASHES);
    let plus = rng.chance(1, 3);
    let m = if plus { format!("{}-PLUS", h.name()) } else { h.name().to_string() };
    let c = big_cred(h, rng);
    let authzid = if rng.chance(1, 2) { Some(gen::prepped(rng, 300)) } else { None };
    let (flag, data, hcb) = if plus {
        let t = *rng.pick(&["tls-exporter", "tls-unique"]);
        let n = gen::size(rng, 1100);
        let d = rng.bytes(n);
        (format!("p={t}"), d.clone(), HCb::one(t, &d))
    } else {
        ("n".into(), vec![], HCb::default())
    };
    let mut s = Props { stored: vec![stored(&c)], ..Props::default() };
    let other = cred(h, rng, 10);
    if other.user != c.user {
        s.stored.push(stored(&other));
    }
    Setup { h, m, c, authzid, flag, data, hcb, s }
}
/// many iterations
fn deep(w: &mut W, rng: &mut Rng) {
    const EDGES: [u32; 10] = [65_535, 65_536, 65_537, 99_999, 100_001, 131_072, 200_000, 262_145, 600_000, 1_048_577];
    let mut x = setup(rng);
    let top = if w.thorough { 21 } else { 20 };
    let it = match w.case as usize {
        c if c < EDGES.len() => EDGES[c],
        _ => {
            let b = rng.range(14, top);
            (1u32 << b) + rng.below(1 << b) as u32
        }
    };
    x.c.it = it;
    x.c.keys = keys(x.h, x.c.pw.as_bytes(), &x.c.salt, it);
    x.s.stored = vec![stored(&x.c)];
    let mut p = client_props(&x, 0);
    p.max_iter = u32::MAX;
    let mut c = Party::client(&x.m, p, x.hcb.clone());
    let mut s = Party::server(&x.m, x.s.clone(), x.hcb.clone());
    let ex = exchange(&mut c, &mut s, |_, _, _| {});
    w.eval((&x.m, it, &x.c.salt, &x.c.pw), true);
    w.count("deep_exchanges");
    let e = w.acc.counters.entry("max_iterations".into()).or_insert(0);
    *e = (*e).max(it.into());
    let v = s.validation();
    let ok = ex.c == R::FinNo && ex.s.is_fin() && v.as_ref().is_some_and(|v| v.ctx.authid.as_deref() == Some(&x.c.user));
    w.want(ok, "honest-exchange-fails", || format!("{} it={it} salt={}B pw={}B: {} {v:?}", x.m, x.c.salt.len(), x.c.pw.len(), ex.show()));
    let got = c.events().iter().any(|e| matches!(e, Ev::Act { prop: "ScramCachedPassword", vals, .. } if *vals == vec![x.c.keys.client.clone(), x.c.keys.server.clone()]));
    w.want(got, "cached-keys-wrong", || format!("{} it={it}", x.m));
}

fn client_props(x: &Setup, mode: usize) -> Props {
    let mut p = Props { authid: Some(x.c.user.clone()), authzid: x.authzid.clone(), take_cached: true, ..Props::default() };
    match mode {
        0 => p.password = Some(x.c.pw.clone().into_bytes()),
        1 => p.salted = Some(x.c.keys.salted.clone()),
        _ => p.cached = Some((x.c.keys.client.clone(), x.c.keys.server.clone())),
    }
    p
}
fn nonce_ok(n: &[u8]) -> bool {
    n.len() >= 24 && n.iter().all(|b| (0x21..=0x7e).contains(b) && *b != b',')
}

/// library client against library server, every message checked against the reference
fn both(w: &mut W, rng: &mut Rng) {
    let x = setup(rng);
    let mut finals = vec![];
    for mode in 0..3 {
        if mode > 0 && rng.chance(1, 2) {
            continue;
        }
        let mut c = Party::client(&x.m, client_props(&x, mode), x.hcb.clone());
        let mut s = Party::server(&x.m, x.s.clone(), x.hcb.clone());
        let ex = exchange(&mut c, &mut s, |_, _, _| {});
        let d = || {
            format!(
                "{} mode={mode} user={:?} authzid={:?} pw={:?} salt={}B it={} : {}",
                x.m,
                x.c.user,
                x.authzid,
                x.c.pw,
                x.c.salt.len(),
                x.c.it,
                ex.show()
            )
        };
        w.eval((&x.m, mode, &ex.steps.first().map(|s| s.bytes.clone())), true);
        w.sample(|| json!({"mechanism": x.m, "mode": mode, "iterations": x.c.it, "salt_len": x.c.salt.len(), "exchange": ex.show()}));
        if ex.steps.len() != 5 || ex.c != R::FinNo || !ex.s.is_fin() {
            w.viol("honest-exchange-fails", d());
            continue;
        }
        let b: Vec<&[u8]> = ex.steps.iter().map(|s| &s.bytes[..]).collect();
        // client-first
        let nonce = b[0].split(|c| *c == b',').next_back().and_then(|n| n.strip_prefix(b"r=")).unwrap_or(b"").to_vec();
        let mut rc = RefClient::new(x.h, &x.flag, x.authzid.as_deref(), &x.c.user, &nonce, &x.data);
        w.want(rc.first() == b[0] && nonce_ok(&nonce), "client-first-not-rfc", d);
        // server-first
        let sfx = [&b",s="[..], &b64(&x.c.salt), b",i=", x.c.it.to_string().as_bytes()].concat();
        let full = b[1].strip_prefix(b"r=").and_then(|r| r.strip_suffix(&sfx[..])).unwrap_or(b"").to_vec();
        w.want(full.strip_prefix(&nonce[..]).is_some_and(nonce_ok), "server-first-not-rfc", d);
        rc.server_first = b[1].to_vec();
        let fin = rc.final_msg(&x.c.keys, &full);
        w.want(fin == b[2], "client-final-not-rfc", || format!("expected {} ; {}", show(&fin), d()));
        let v = [&b"v="[..], &b64(&rc.verifier(&x.c.keys, &full))].concat();
        w.want(v == b[3], "server-final-not-rfc", || format!("expected {} ; {}", show(&v), d()));
        w.want(b[4].is_empty(), "client-wrote-after-server-final", d);
        // what the callbacks saw
        let val = s.validation();
        w.want(
            val.as_ref().is_some_and(|v| v.ctx.authid.as_deref() == Some(&x.c.user) && v.ctx.authzid.as_deref().unwrap_or("") == x.authzid.as_deref().unwrap_or("")),
            "server-validated-other-identity",
            || format!("{val:?}; {}", d()),
        );
        for e in &c.events() {
            if let Ev::Act { prop: "ScramCachedPassword", vals, .. } = e {
                w.count("cached_keys_seen");
                w.want(*vals == vec![x.c.keys.client.clone(), x.c.keys.server.clone()], "cached-keys-wrong", d);
            }
            if let Ev::Req { prop: "Password" | "SaltedPassword" | "ScramCachedPassword", ctx, .. } = e {
                w.want(ctx.salt.as_deref() == Some(&x.c.salt[..]) && ctx.iterations == Some(x.c.it), "wrong-salt-or-iterations-in-context", d);
            }
        }
        finals.push(mode);
        w.count(&format!("mode:{mode}"));
        w.count("library_exchanges");
        if x.c.it >= 1000 {
            w.count("iterations>=1000");
        }
    }
}

/// reference client (own nonces, optional extensions) against the library server
fn ref_client(w: &mut W, rng: &mut Rng) {
    let mut x = setup(rng);
    if !x.m.ends_with("PLUS") && rng.chance(1, 3) {
        x.flag = "y".into();
    }
    let cn = nonce(rng);
    let mut rc = RefClient::new(x.h, &x.flag, x.authzid.as_deref(), &x.c.user, &cn, &x.data);
    let ext1 = rng.chance(1, 8);
    let ext2 = rng.chance(1, 8);
    if ext1 {
        rc.bare.extend_from_slice(*rng.pick::<&[u8]>(&[b",x=y", b",b=cde,f=123"]));
    }
    let mut s = Party::server(&x.m, x.s.clone(), x.hcb.clone());
    let o = s.step(Some(&rc.first()));
    let what = if ext1 || ext2 { "extension" } else { "plain" };
    let d0 = |o: &Out| format!("{} ({what}) {} -> {:?} {}", x.m, show(&rc.first()), o.r, show(&o.bytes));
    w.eval((&x.m, what, rc.first()), true);
    let sf = parse_server_first(&o.bytes);
    let ok = o.r == R::Run
        && sf.as_ref().is_some_and(|f| {
            f.nonce.strip_prefix(&cn[..]).is_some_and(nonce_ok) && f.salt == x.c.salt && f.iterations == x.c.it && o.bytes.len() == 9 + f.nonce.len() + b64(&f.salt).len() + x.c.it.to_string().len() - 1
        });
    if !w.want(ok, if what == "plain" { "reference-client-refused" } else { "reference-client-with-extension-refused" }, || d0(&o)) {
        return;
    }
    let full = sf.unwrap().nonce;
    let first = rc.first();
    rc.server_first = o.bytes;
    let mut wp = rc.without_proof(&full);
    if ext2 {
        wp.extend_from_slice(*rng.pick::<&[u8]>(&[b",x=y", b",b=cde,f=123"]));
    }
    let am = [&rc.bare[..], b",", &rc.server_first, b",", &wp].concat();
    let fin = [&wp[..], b",p=", &b64(&xor(&x.c.keys.client, &x.h.hmac(&x.c.keys.stored, &[&am])))].concat();
    let want = [&b"v="[..], &b64(&x.h.hmac(&x.c.keys.server, &[&am]))].concat();
    let o = s.step(Some(&fin));
    let val = s.validation();
    let d = || format!("{} ({what}) {} {} {} -> {:?} {} expected {} value {val:?}", x.m, show(&first), show(&rc.server_first), show(&fin), o.r, show(&o.bytes), show(&want));
    w.want(
        o.r.is_fin() && o.bytes == want,
        if what == "plain" { "reference-client-refused" } else { "reference-client-with-extension-refused" },
        d,
    );
    if o.r.is_fin() && o.bytes == want {
        w.want(
            val.as_ref().is_some_and(|v| v.ctx.authid.as_deref() == Some(&x.c.user) && v.ctx.authzid.as_deref().unwrap_or("") == x.authzid.as_deref().unwrap_or("")),
            "server-validated-other-identity",
            d,
        );
        w.count(if what == "plain" { "reference_client_accepted" } else { "reference_client_ext_accepted" });
    }
}

/// library client against a reference server (own nonces, any salt)
fn ref_server(w: &mut W, rng: &mut Rng) {
    let x = setup(rng);
    let mode = rng.below(3);
    let mut c = Party::client(&x.m, client_props(&x, mode), x.hcb.clone());
    let o = c.step(None);
    let cn = o.bytes.split(|b| *b == b',').next_back().and_then(|n| n.strip_prefix(b"r=")).unwrap_or(b"").to_vec();
    let mut rc = RefClient::new(x.h, &x.flag, x.authzid.as_deref(), &x.c.user, &cn, &x.data);
    w.eval((&x.m, mode, &o.bytes), true);
    if !w.want(o.r == R::Run && rc.first() == o.bytes, "client-first-not-rfc", || format!("{} {:?} {} expected {}", x.m, o.r, show(&o.bytes), show(&rc.first()))) {
        return;
    }
    let full = [&cn[..], &nonce(rng)].concat();
    // a count with leading zeros is not RFC 5802, a client may refuse it, but must not sign another message than it got
    let zeros = if rng.chance(1, 12) { rng.range(1, 3) } else { 0 };
    rc.server_first = [&b"r="[..], &full, b",s=", &b64(&x.c.salt), b",i=", "0".repeat(zeros).as_bytes(), x.c.it.to_string().as_bytes()].concat();
    let fin = rc.final_msg(&x.c.keys, &full);
    let o = c.step(Some(&rc.server_first));
    if zeros > 0 && o.r.is_err() {
        w.count("leading_zeros_refused");
        return;
    }
    if !w.want(o.r == R::Run && o.bytes == fin, "client-final-not-rfc", || {
        format!("{} mode={mode} {} {} -> {:?} {} expected {}", x.m, show(&rc.first()), show(&rc.server_first), o.r, show(&o.bytes), show(&fin))
    }) {
        return;
    }
    let v = [&b"v="[..], &b64(&rc.verifier(&x.c.keys, &full))].concat();
    let o = c.step(Some(&v));
    w.want(o.r == R::FinNo && o.bytes.is_empty(), "right-verifier-refused", || format!("{} mode={mode} {} -> {:?}", x.m, show(&v), o.r));
    w.count("reference_server_exchanges");
}

/// the published derivation helpers
fn tools(w: &mut W, rng: &mut Rng) {
    use rsasl::mechanisms::scram::tools::{derive_keys, hash_password};
    let h = *rng.pick(&HASHES);
    let pw = gen::blob(rng, 4100);
    let salt = gen::blob(rng, 1100);
    let it = match rng.below(6) {
        0 => rng.range(1, 300) as u32,
        _ => rng.range(1, 4) as u32,
    };
    macro_rules! go {
        ($d:ty) => {{
            let mut out = sha1::digest::Output::<$d>::default();
            hash_password::<$d>(&pw, it, &salt, &mut out);
            let (c, s) = derive_keys::<$d>(&out);
            (out.to_vec(), c.to_vec(), s.to_vec())
        }};
    }
    let (sp, c, s) = match h {
        Hash::Sha1 => go!(sha1::Sha1),
        Hash::Sha256 => go!(sha2::Sha256),
        Hash::Sha512 => go!(sha2::Sha512),
    };
    let k = keys(h, &pw, &salt, it);
    w.want(sp == k.salted && c == k.client && s == k.server, "derivation-not-rfc", || {
        format!("{h:?} pw={} salt={} it={it}", show(&pw), show(&salt))
    });
    w.eval((h as u8, &pw, &salt, it), true);
    w.count("derivations");
}

pub fn run(r: &mut Run) {
    r.rule = "one case is one complete exchange (or one key derivation) whose every message was compared with the reference; distinct by mechanism, \
              mode and first message (fresh nonces)"
        .into();
    r.assumptions = vec![
        "strings are in SASLprep form (checked with the stringprep crate); SCRAM here does not normalise".into(),
        "reference implementation written from RFC 5802, checked against the RFC 5802/7677 and RFC 6070 vectors at start".into(),
    ];
    r.cases("library-library", r.n(30_000, 1_000_000), both);
    r.cases("reference-client", r.n(60_000, 2_000_000), ref_client);
    r.cases("reference-server", r.n(60_000, 2_000_000), ref_server);
    r.cases("deep", r.n(24, 400), deep);
    r.require("deep_exchanges", 20);
    r.cases("tools", r.n(30_000, 1_000_000), tools);
    r.require("cached_keys_seen", 1000);
    r.require("iterations>=1000", 20);
}
