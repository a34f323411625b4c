//! C02: a SCRAM client only finishes with a server that proved it knows the keys.
use crate::cb::{Ev, HCb, Props};
use crate::drive::*;
use crate::gen;
use crate::prng::Rng;
use crate::refimpl::*;
use crate::report::{show, Run, W};
use crate::scram_util::*;
use serde_json::json;

pub struct Cl {
    pub p: Party,
    pub h: Hash,
    pub m: String,
    pub c: Cred,
    pub rc: RefClient,
    pub first: Vec<u8>,
    pub mode: usize,
}
/// start a client and take its first message apart
fn client(w: &mut W, rng: &mut Rng) -> Option<Cl> {
    let h = *rng.pick(&HASHES);
    let m = if rng.chance(1, 3) { format!("{}-PLUS", h.name()) } else { h.name().to_string() };
    let mut c = cred(h, rng, 40);
    let mut p = Props { authid: Some(c.user.clone()), take_cached: rng.chance(1, 2), ..Props::default() };
    if rng.chance(1, 2) {
        p.authzid = Some(gen::prepped(rng, 20));
    }
    let mode = rng.below(3);
    match mode {
        0 => p.password = Some(c.pw.clone().into_bytes()),
        1 => p.salted = Some(c.keys.salted.clone()),
        _ => p.cached = Some((c.keys.client.clone(), c.keys.server.clone())),
    }
    if mode > 0 && rng.chance(1, 3) {
        c.it = any_count(rng);
        w.count("clients_with_large_iteration_counts");
    }
    let (hc, data, flag) = if m.ends_with("PLUS") {
        let n = rng.range(0, 60);
        let d = rng.bytes(n);
        (HCb::one("tls-exporter", &d), d, "p=tls-exporter".to_string())
    } else {
        (HCb::default(), vec![], "n".to_string())
    };
    let authzid = p.authzid.clone();
    let mut p = Party::client(&m, p, hc);
    let o = p.step(None);
    if o.r != R::Run {
        w.count("client_first_failed");
        return None;
    }
    let nonce = o.bytes.split(|b| *b == b',').next_back().and_then(|x| x.strip_prefix(b"r=")).unwrap_or(b"").to_vec();
    let rc = RefClient::new(h, &flag, authzid.as_deref(), &c.user, &nonce, &data);
    if rc.first() != o.bytes {
        w.count("client_first_unexpected");
        return None;
    }
    Some(Cl { p, h, m, c, rc, first: o.bytes, mode })
}
fn cached_event(ev: &[Ev]) -> bool {
    ev.iter().any(|e| e.act() == Some("ScramCachedPassword"))
}

const SF: [&str; 26] = [
    "honest", "nonce-equal", "nonce-truncated", "nonce-flipped", "nonce-case", "nonce-unrelated", "nonce-suffix", "nonce-empty", "nonce-missing",
    "iter-zero", "iter-zeros", "iter-empty", "iter-negative", "iter-plus", "iter-junk", "iter-overflow", "iter-space", "iter-missing", "salt-bad",
    "salt-missing", "mandatory-ext", "reordered", "server-final-instead", "error-instead", "mutated", "random",
];
fn server_first(w: &mut W, rng: &mut Rng, class: &str) {
    let Some(mut cl) = client(w, rng) else { return };
    let cn = cl.rc.nonce.clone();
    let sn = nonce(rng);
    let mut n = [&cn[..], &sn].concat();
    let mut salt = b64(&cl.c.salt);
    let mut it = cl.c.it.to_string().into_bytes();
    let mut parts = 7;
    match class {
        "nonce-equal" => n = cn.clone(),
        "nonce-truncated" => {
            let k = rng.range(1, cn.len());
            n = if rng.chance(1, 2) { cn[..cn.len() - k].to_vec() } else { [&cn[..cn.len() - k], &sn].concat() };
        }
        "nonce-flipped" => {
            let i = rng.below(cn.len());
            n[i] = if n[i] == b'z' { b'y' } else { b'z' };
        }
        "nonce-case" => {
            for b in &mut n {
                *b = if b.is_ascii_lowercase() { b.to_ascii_uppercase() } else { b.to_ascii_lowercase() };
            }
        }
        "nonce-unrelated" => n = [&nonce(rng)[..], &sn].concat(),
        "nonce-suffix" => n = [&sn[..], &cn].concat(),
        "nonce-empty" => n.clear(),
        "nonce-missing" => parts &= !1,
        "iter-zero" => it = b"0".to_vec(),
        "iter-zeros" => it = b"0000".to_vec(),
        "iter-empty" => it.clear(),
        "iter-negative" => it.insert(0, b'-'),
        "iter-plus" => it.insert(0, b'+'),
        "iter-junk" => it = rng.pick::<&[u8]>(&[b"abc", b"1x", b"0x10", b"1.5", b"1e3", b"\xff", b"1\0", "\u{0661}".as_bytes()]).to_vec(),
        "iter-overflow" => it = rng.pick::<&[u8]>(&[b"4294967296", b"4294967297", b"99999999999999999999999", b"18446744073709551617"]).to_vec(),
        "iter-space" => {
            if rng.chance(1, 2) {
                it.push(b' ')
            } else {
                it.insert(0, b' ')
            }
        }
        "iter-missing" => parts &= !4,
        "salt-bad" => match rng.below(4) {
            0 => salt = b"!!!!".to_vec(),
            1 => salt.push(b'A'),
            2 => {
                salt.pop();
            }
            _ => salt.insert(1, b'\n'),
        },
        "salt-missing" => parts &= !2,
        _ => {}
    }
    let mut v: Vec<Vec<u8>> = vec![];
    for (i, (k, x)) in [(b"r=", &n), (b"s=", &salt), (b"i=", &it)].iter().enumerate() {
        if parts >> i & 1 == 1 {
            v.push([&k[..], x].concat());
        }
    }
    match class {
        "mandatory-ext" => v.insert(0, b"m=x".to_vec()),
        "reordered" => {
            let i = rng.below(3);
            v.swap(i, (i + 1) % 3);
        }
        _ => {}
    }
    let mut msg = v.join(&b","[..]);
    match class {
        "server-final-instead" => msg = [&b"v="[..], &b64(&cl.rc.verifier(&cl.c.keys, &cn))].concat(),
        "error-instead" => msg = [b"e=", server_error(rng)].concat(),
        "mutated" => msg = gen::mutate(rng, &msg),
        "random" => msg = gen::blob(rng, 300),
        _ => {}
    }
    let o = cl.p.step(Some(&msg));
    // three-valued reading of the message
    let strict = parse_server_first(&msg);
    let honest = strict.as_ref().is_some_and(|s| s.nonce.len() > cn.len() && s.nonce.starts_with(&cn));
    let lenient = {
        let ps: Vec<&[u8]> = msg.split(|b| *b == b',').collect();
        ps.len() >= 3
            && ps[0].strip_prefix(b"r=").is_some_and(|n| n.len() > cn.len() && n.starts_with(&cn))
            && ps[1].strip_prefix(b"s=").is_some_and(|s| unb64(s).is_some())
            && ps[2].strip_prefix(b"i=").is_some_and(|i| {
                !i.is_empty() && i.iter().all(u8::is_ascii_digit) && std::str::from_utf8(i).unwrap().parse::<u32>().is_ok_and(|i| i > 0)
            })
    };
    let d = || format!("{} class={class}: sent {} ; server-first {} -> {:?} wrote {}", cl.m, show(&cl.first), show(&msg), o.r, show(&o.bytes));
    w.want(!cached_event(&o.ev), "keys-cached-before-verification", d);
    w.want(!o.r.is_fin(), "finished-without-verifier", d);
    if !lenient {
        w.want(o.r.is_err() && o.bytes.is_empty(), "bad-server-first-answered", d);
        w.count("server_first_refused");
    } else if honest && o.r == R::Run {
        w.count("server_first_answered");
    }
    w.eval((class, &cl.m, &msg), true);
    w.count(&format!("sf:{class}"));
    w.sample(|| json!({"mechanism": cl.m, "class": class, "server_first": show(&msg), "result": format!("{:?}", o.r)}));
}

/// Every value RFC 5802 names, and some it does not
fn server_error(rng: &mut Rng) -> &'static [u8] {
    rng.pick::<&[u8]>(&[
        b"invalid-encoding",
        b"extensions-not-supported",
        b"invalid-proof",
        b"channel-bindings-dont-match",
        b"server-does-support-channel-binding",
        b"server-does-not-support-channel-binding",
        b"channel-binding-not-supported",
        b"unsupported-channel-binding-type",
        b"unknown-user",
        b"invalid-username-encoding",
        b"no-resources",
        b"other-error",
        b"",
        b"x",
        b"success",
        b"\xff\xfe",
    ])
}

const FIN: [&str; 28] = [
    "honest", "bitflip", "truncated", "truncated-b64", "extended", "empty-verifier", "empty-message", "none", "error", "zero", "random", "client-key",
    "stored-key", "client-signature", "wrong-password", "other-session", "first-exchange-verifier", "noncanonical", "upper", "prefix", "trailing-attr", "echo-client-final",
    "echo-server-first", "one-byte", "not-b64", "other-hash-keys", "mutated", "proof-as-verifier",
];
fn server_final(w: &mut W, rng: &mut Rng, class: &str) {
    let Some(mut cl) = client(w, rng) else { return };
    let full = [&cl.rc.nonce[..], &nonce(rng)].concat();
    cl.rc.server_first = [&b"r="[..], &full, b",s=", &b64(&cl.c.salt), b",i=", cl.c.it.to_string().as_bytes()].concat();
    let o = cl.p.step(Some(&cl.rc.server_first));
    if o.r != R::Run {
        w.count("honest_server_first_failed");
        return;
    }
    w.want(!cached_event(&o.ev), "keys-cached-before-verification", || cl.m.clone());
    let cfin = o.bytes;
    let v = cl.rc.verifier(&cl.c.keys, &full);
    let right = [&b"v="[..], &b64(&v)].concat();
    let mk = |x: &[u8]| [&b"v="[..], &b64(x)].concat();
    let msg: Option<Vec<u8>> = match class {
        "honest" => Some(right.clone()),
        "bitflip" => {
            let mut x = v.clone();
            let i = rng.below(x.len());
            x[i] ^= 1 << rng.below(8);
            Some(mk(&x))
        }
        "truncated" => {
            let n = if rng.chance(1, 2) { v.len() - 1 } else { rng.below(v.len()) };
            Some(mk(&v[..n]))
        }
        "truncated-b64" => {
            let n = rng.range(1, right.len() - 1);
            Some(right[..n].to_vec())
        }
        "extended" => {
            let n = rng.range(1, 20);
            Some(mk(&[&v[..], &rng.bytes(n)].concat()))
        }
        "empty-verifier" => Some(b"v=".to_vec()),
        "empty-message" => Some(vec![]),
        "none" => None,
        "error" => {
            let e = server_error(rng);
            Some(match rng.below(3) {
                0 => [b"e=", e].concat(),
                1 => [&right[..], b",e=", e].concat(),
                _ => [b"e=", e, b",", &right].concat(),
            })
        }
        "zero" => Some(mk(&vec![0; v.len()])),
        "random" => {
            let n = v.len();
            Some(mk(&rng.bytes(n)))
        }
        "client-key" => Some(mk(&cl.h.hmac(&cl.c.keys.client, &[&cl.rc.auth_message(&full)]))),
        "stored-key" => Some(mk(&cl.h.hmac(&cl.c.keys.stored, &[&cl.rc.auth_message(&full)]))),
        "client-signature" | "proof-as-verifier" => Some(if class == "client-signature" {
            mk(&xor(&cl.rc.proof(&cl.c.keys, &full), &cl.c.keys.client))
        } else {
            mk(&cl.rc.proof(&cl.c.keys, &full))
        }),
        "wrong-password" => {
            let k = keys(cl.h, &gen::prepped(rng, 20).into_bytes(), &cl.c.salt, cl.c.it.min(6));
            Some(mk(&cl.rc.verifier(&k, &full)))
        }
        "other-session" => {
            let mut r = cl.rc.clone();
            let f = [&cl.rc.nonce[..], &nonce(rng)].concat();
            match rng.below(3) {
                0 => {}
                1 => r.server_first = [&b"r="[..], &f, b",s=AAAA,i=1"].concat(),
                _ => r.gs2 = b"y,,".to_vec(),
            }
            let f = if r.gs2 == cl.rc.gs2 && r.server_first == cl.rc.server_first { f } else { full.clone() };
            Some(mk(&r.verifier(&cl.c.keys, &f)))
        }
        "first-exchange-verifier" => {
            // verifier without the nonces / server-first
            Some(mk(&cl.h.hmac(&cl.c.keys.server, &[&cl.rc.bare])))
        }
        "noncanonical" => {
            let mut x = right.clone();
            match rng.below(3) {
                0 => {
                    while x.last() == Some(&b'=') {
                        x.pop();
                    }
                    if x == right {
                        x.push(b'=');
                    }
                }
                1 => x.push(b'\n'),
                _ => {
                    let i = x.iter().rposition(|b| *b != b'=').unwrap();
                    x[i] = if x[i] == b'/' { b'A' } else { b'/' };
                }
            }
            Some(x)
        }
        "upper" => Some([&b"V="[..], &right[2..]].concat()),
        "prefix" => Some([*rng.pick::<&[u8]>(&[b" ", b",", b"m=x,", b"x=y,", b"\0"]), &right].concat()),
        "trailing-attr" => Some([&right[..], *rng.pick::<&[u8]>(&[b",x=y", b",", b",v=AAAA", b",m=x"])].concat()),
        "echo-client-final" => Some(cfin.clone()),
        "echo-server-first" => Some(cl.rc.server_first.clone()),
        "one-byte" => Some(vec![*rng.pick(&[b'v', b'e', 0, b'=', 0xff])]),
        "not-b64" => Some([b"v=", *rng.pick::<&[u8]>(&[b"!!!!", b"====", b"\xff\xff\xff\xff", b"A", b"AA A"])].concat()),
        "other-hash-keys" => {
            let o = *rng.pick(&HASHES);
            let k = keys(o, cl.c.pw.as_bytes(), &cl.c.salt, cl.c.it.min(6));
            Some(mk(&o.hmac(&k.server, &[&cl.rc.auth_message(&full)])))
        }
        _ => Some(gen::mutate(rng, &right)),
    };
    let o = cl.p.step(msg.as_deref());
    let exact = msg.as_deref() == Some(&right[..]);
    // the verifier followed by extensions is the verifier as far as security goes
    let with_ext = msg.as_deref().is_some_and(|m| m.starts_with(&[&right[..], b","].concat()));
    let d = || {
        format!(
            "{} class={class} mode={}: client-first {} server-first {} client-final {} server-final {} (right one: {}) -> {:?} wrote {} keys cached: {}",
            cl.m,
            cl.mode,
            show(&cl.first),
            show(&cl.rc.server_first),
            show(&cfin),
            msg.as_deref().map_or("None".into(), show),
            show(&right),
            o.r,
            show(&o.bytes),
            cached_event(&o.ev)
        )
    };
    if exact {
        if o.r.is_fin() {
            w.count("right_verifier_finished");
        } else {
            w.count("right_verifier_refused");
        }
    } else if with_ext {
        w.want(o.r.is_err() || o.r.is_fin(), "still-running-after-verifier", d);
    } else {
        w.want(o.r.is_err(), "finished-with-unproven-server", d);
        w.want(!cached_event(&o.ev), "keys-cached-for-unproven-server", d);
        w.count("wrong_final_cases");
    }
    w.eval((class, &cl.m, &msg, &full), true);
    w.count(&format!("fin:{class}"));
    w.sample(|| json!({"mechanism": cl.m, "class": class, "server_final": msg.as_deref().map(show), "result": format!("{:?}", o.r)}));
}

pub fn run(r: &mut Run) {
    r.rule = "a case counts when the client's reaction to one concrete server-first or server-final message was compared with the reference; \
              distinct by (class, mechanism, message bytes, session nonce)"
        .into();
    r.assumptions = vec![
        "the reference HMAC/PBKDF2 is right (RFC vectors checked at start)".into(),
        "extensions after a correct verifier may be accepted or refused (RFC 5802 allows them)".into(),
    ];
    let a = r.n(12_000, 500_000);
    r.cases("server-first", a * SF.len() as u64, |w, rng| {
        let c = SF[(w.case % SF.len() as u64) as usize];
        server_first(w, rng, c);
    });
    r.cases("server-final", a * FIN.len() as u64, |w, rng| {
        let c = FIN[(w.case % FIN.len() as u64) as usize];
        server_final(w, rng, c);
    });
    r.require("right_verifier_finished", a * 9 / 10);
    r.require("server_first_answered", a * 9 / 10);
    r.require("wrong_final_cases", a * 20);
    r.require("server_first_refused", a * 15);
}
