//! C01: a SCRAM server only accepts a client that proved knowledge of the password.
use crate::cb::{HCb, Props};
use crate::drive::*;
use crate::gen;
use crate::prng::Rng;
use crate::refimpl::*;
use crate::report::{show, Run, W};
use crate::scram_util::*;
use serde_json::json;

const CLASSES: [&str; 38] = [
    "honest", "wrong-password", "wrong-user-keys", "wrong-salt", "wrong-iterations", "proof-bitflip", "proof-truncated",
    "proof-extended", "proof-empty", "proof-zero", "proof-random", "nonce-client-part", "nonce-server-part",
    "nonce-without-server-part", "nonce-extended", "nonce-other-session", "replay-final", "gs2-flag-lie", "gs2-authzid-lie", "cbdata-lie",
    "cbind-empty", "reordered", "extension-covered", "extension-uncovered", "mandatory-extension", "stored-key-as-client-key",
    "server-key-as-proof", "unknown-user", "unknown-user-stored-of-other", "bad-stored-length", "b64-noncanonical", "first-edited",
    "first-extension", "mutated", "empty-keys", "signature-as-proof", "stored-key-edited", "odd-stored",
];

struct Srv {
    p: Party,
    server_first: Vec<u8>,
}
/// start a server session and feed the client-first message
fn start(w: &mut W, m: &str, reg: &[&str], props: &Props, hs: &HCb, first: &[u8]) -> Option<Srv> {
    let mut p = match Party::server_reg(reg, m, props.clone(), hs.clone()) {
        Ok(p) => p,
        Err(e) => panic!("harness: server {m} does not start: {e:?}"),
    };
    let o = p.step(Some(first));
    w.want(o.validates() == 0, "validated-at-client-first", || format!("{m}: validation ran on {}", show(first)));
    if o.r != R::Run {
        w.want(!o.bytes.windows(2).any(|x| x == b"v="), "verifier-at-client-first", || show(&o.bytes));
        w.want(p.validation().is_none(), "validation-value-at-client-first", || show(first));
        w.count("client_first_refused");
        return None;
    }
    Some(Srv { p, server_first: o.bytes })
}

fn case(w: &mut W, rng: &mut Rng, class: &str) {
    let h = *rng.pick(&HASHES);
    let plus = rng.chance(1, 3);
    let m = if plus { format!("{}-PLUS", h.name()) } else { h.name().to_string() };
    let both = [h.name(), &format!("{}-PLUS", h.name())].map(str::to_string);
    let reg: Vec<&str> = if rng.chance(1, 2) { both.iter().map(String::as_str).collect() } else { vec![&m] };
    // credentials
    let mut c = cred(h, rng, 60);
    if rng.chance(1, 6) {
        c.it = any_count(rng);
    }
    let mut d = cred(h, rng, 30);
    if d.user == c.user {
        d.user.push('x');
    }
    let mut props = Props { stored: vec![stored(&c), stored(&d)], ..Props::default() };
    if class == "bad-stored-length" {
        let s = &mut props.stored[0];
        match rng.below(6) {
            0 => s.stored.truncate(rng.below(h.len())),
            1 => s.server.truncate(rng.below(h.len())),
            2 => s.stored.push(0),
            3 => s.server.push(7),
            4 => {
                s.stored.clear();
                s.server.clear();
            }
            _ => {
                // keys of another hash
                let o = *rng.pick(&HASHES.iter().copied().filter(|o| *o != h).collect::<Vec<_>>());
                let k = keys(o, c.pw.as_bytes(), &c.salt, c.it.min(6));
                s.stored = k.stored;
                s.server = k.server;
            }
        }
    }
    if class == "stored-key-edited" {
        let n = h.len();
        let i = match rng.below(4) {
            0 => n - 1,
            1 => rng.range(n / 2, n - 1),
            _ => rng.below(n),
        };
        props.stored[0].stored[i] ^= 1 << rng.below(8);
    }
    if class == "odd-stored" {
        // keys which no password has
        let s = &mut props.stored[0];
        let flat = vec![*rng.pick(&[0u8, 0, 1, 0xff, b'A']); h.len()];
        match rng.below(6) {
            0 => s.stored = s.server.clone(),
            1 => s.server = s.stored.clone(),
            2 => s.stored = flat,
            3 => s.server = flat,
            4 => s.stored = c.keys.client.clone(),
            _ => {
                s.stored = flat.clone();
                s.server = flat;
            }
        }
    }
    // binding
    let cbname = *rng.pick(&["tls-exporter", "tls-unique", "x-y.z"]);
    let n = rng.range(1, 80);
    let cbdata = rng.bytes(n);
    let use_p = plus || rng.chance(1, 6);
    let flag = if use_p {
        format!("p={cbname}")
    } else if reg.len() == 1 && rng.chance(1, 3) {
        "y".into()
    } else {
        "n".into()
    };
    let hs = if use_p { HCb::one(cbname, &cbdata) } else { HCb::default() };
    let data: &[u8] = if use_p { &cbdata } else { &[] };
    let authzid = if rng.chance(1, 2) { Some(gen::prepped(rng, 30)) } else { None };
    let unknown = class.starts_with("unknown-user");
    let user = if unknown { format!("{}-nobody", c.user) } else { c.user.clone() };
    let cn = nonce(rng);
    let mut rc = RefClient::new(h, &flag, authzid.as_deref(), &user, &cn, data);
    if class == "first-extension" {
        rc.bare.extend_from_slice(*rng.pick::<&[u8]>(&[b",x=y", b",e=1,f=abc", b",z=,", b",q", b",m=must"]));
    }
    // what the server gets
    let honest_first = rc.first();
    let first = if class == "first-edited" {
        let mut f = gen::mutate(rng, &honest_first);
        if f == honest_first || rng.chance(1, 3) {
            f = RefClient::new(h, &flag, Some("root"), &user, &cn, data).first();
        }
        f
    } else {
        honest_first.clone()
    };
    let Some(mut s) = start(w, &m, &reg, &props, &hs, &first) else {
        w.eval((class, &m, "first refused", &first), class == "first-edited" || class == "first-extension" || class == "bad-stored-length");
        return;
    };
    rc.server_first = s.server_first.clone();
    // lenient read of nonce, salt, iterations
    let parts: Vec<&[u8]> = s.server_first.split(|b| *b == b',').collect();
    let full = parts.first().and_then(|p| p.strip_prefix(b"r=")).unwrap_or(b"").to_vec();
    // the keys the simulated client uses
    let mut k = c.keys.clone();
    match class {
        "wrong-password" => {
            let pw = match rng.below(5) {
                0 => String::new(),
                1 => format!("{} ", c.pw),
                2 => c.pw.to_uppercase() + "\0",
                3 => c.pw.chars().skip(1).collect(),
                _ => gen::prepped(rng, 40),
            };
            k = keys(h, pw.as_bytes(), &c.salt, c.it.min(6));
        }
        "wrong-user-keys" => k = d.keys.clone(),
        "wrong-salt" => {
            let mut s = c.salt.clone();
            let i = rng.below(s.len());
            s[i] ^= 1 << rng.below(8);
            k = keys(h, c.pw.as_bytes(), &s, c.it.min(6));
        }
        "wrong-iterations" => k = keys(h, c.pw.as_bytes(), &c.salt, if rng.chance(1, 2) { c.it.min(6) + 1 } else { c.it.min(6) * 2 }),
        "unknown-user" => {
            // a guess based on what the server announced, or degenerate keys
            match rng.below(4) {
                0 => k = Keys { salted: vec![], client: vec![0; h.len()], stored: vec![0; h.len()], server: vec![0; h.len()] },
                1 => k = keys_from_salted(h, &[]),
                _ => {}
            }
        }
        "unknown-user-stored-of-other" => k = d.keys.clone(),
        "stored-key-as-client-key" => k.client = k.stored.clone(),
        // everything the server stored is known, but it is not the hash of this client key
        "stored-key-edited" => k.stored = props.stored[0].stored.clone(),
        "empty-keys" => k = Keys { salted: vec![], client: vec![0; h.len()], stored: vec![], server: vec![] },
        _ => {}
    }
    // build the final message
    let honest = rc.final_msg(&k, &full);
    let proof = rc.proof(&k, &full);
    let wp = rc.without_proof(&full);
    let with = |wp: &[u8], p: &[u8]| [wp, b",p=", &b64(p)].concat();
    let rebuild = |rc: &RefClient, nonce: &[u8]| rc.final_msg(&k, nonce);
    let fin: Vec<u8> = match class {
        "proof-bitflip" => {
            let mut p = proof.clone();
            let i = rng.below(p.len());
            p[i] ^= 1 << rng.below(8);
            with(&wp, &p)
        }
        "proof-truncated" => {
            let n = if rng.chance(1, 2) { proof.len() - 1 } else { rng.below(proof.len()) };
            with(&wp, &proof[..n])
        }
        "proof-extended" => {
            let n = rng.range(1, 5);
            let t = rng.bytes(n);
            with(&wp, &[&proof[..], &t].concat())
        }
        "proof-empty" => [&wp[..], b",p="].concat(),
        "proof-zero" => with(&wp, &vec![0; h.len()]),
        "proof-random" => {
            let n = h.len();
            with(&wp, &rng.bytes(n))
        }
        "server-key-as-proof" => with(&wp, &k.server),
        "signature-as-proof" => {
            let am = rc.auth_message(&full);
            let key = if rng.chance(1, 2) { &k.stored } else { &k.server };
            with(&wp, &h.hmac(key, &[&am]))
        }
        "nonce-client-part" | "nonce-server-part" => {
            let mut n = full.clone();
            let i = if class == "nonce-client-part" { rng.below(cn.len()) } else { rng.range(cn.len(), n.len() - 1) };
            n[i] = if n[i] == b'Q' { b'R' } else { b'Q' };
            rebuild(&rc, &n)
        }
        "nonce-without-server-part" => {
            let n = rng.range(0, full.len() - 1);
            rebuild(&rc, &full[..n])
        }
        "nonce-extended" => rebuild(&rc, &[&full[..], b"x"].concat()),
        "nonce-other-session" => {
            let mut p = props.clone();
            p.validate = crate::cb::VAct::Set;
            let Some(o) = start(w, &m, &reg, &p, &hs, &first) else { return };
            let other = o.server_first.split(|b| *b == b',').next().unwrap()[2..].to_vec();
            rebuild(&rc, &other)
        }
        "replay-final" => {
            // a complete accepted exchange with the same client nonce, its final replayed here
            let Some(mut o) = start(w, &m, &reg, &props, &hs, &first) else { return };
            let mut r2 = rc.clone();
            r2.server_first = o.server_first.clone();
            let other = o.server_first.split(|b| *b == b',').next().unwrap()[2..].to_vec();
            let f = r2.final_msg(&k, &other);
            let a = o.p.step(Some(&f));
            if a.bytes.starts_with(b"v=") {
                w.count("replayed_an_accepted_final");
            }
            f
        }
        "gs2-flag-lie" => {
            let mut r = rc.clone();
            let nf = *rng.pick(&["n", "y", "p=tls-exporter", "p=tls-unique", "p=tls-server-end-point"]);
            let rest = rc.gs2.iter().position(|b| *b == b',').unwrap();
            r.gs2 = [nf.as_bytes(), &rc.gs2[rest..]].concat();
            if rng.chance(1, 2) {
                r.cbdata.clear();
            }
            rebuild(&r, &full)
        }
        "gs2-authzid-lie" => {
            let mut r = rc.clone();
            let az = if authzid.is_some() && rng.chance(1, 2) { None } else { Some("root") };
            r.gs2 = RefClient::new(h, &flag, az, &user, &cn, data).gs2;
            rebuild(&r, &full)
        }
        "cbdata-lie" => {
            let mut r = rc.clone();
            match rng.below(4) {
                0 => r.cbdata.push(0),
                1 => {
                    r.cbdata.pop();
                }
                2 => r.cbdata.clear(),
                _ => {
                    if r.cbdata.is_empty() {
                        r.cbdata.push(1);
                    } else {
                        let i = rng.below(r.cbdata.len());
                        r.cbdata[i] ^= 1 << rng.below(8);
                    }
                }
            }
            rebuild(&r, &full)
        }
        "cbind-empty" => {
            let wp = [&b"c=,r="[..], &full].concat();
            let am = [&rc.bare[..], b",", &rc.server_first, b",", &wp].concat();
            with(&wp, &xor(&k.client, &h.hmac(&k.stored, &[&am])))
        }
        "reordered" => {
            let mut ps: Vec<&[u8]> = honest.split(|b| *b == b',').collect();
            match rng.below(5) {
                0 => ps.swap(0, 1),
                1 => ps.swap(1, 2),
                2 => ps.swap(0, 2),
                3 => {
                    let i = rng.below(3);
                    ps.remove(i);
                }
                _ => {
                    let i = rng.below(3);
                    ps.insert(i, ps[i]);
                }
            }
            ps.join(&b","[..])
        }
        "extension-covered" | "mandatory-extension" => {
            let e: &[u8] = if class == "mandatory-extension" { b",m=x" } else { *rng.pick::<&[u8]>(&[b",x=y", b",e=abc,f=g", b",t=,"]) };
            let wp = [&wp[..], e].concat();
            let am = [&rc.bare[..], b",", &rc.server_first, b",", &wp].concat();
            with(&wp, &xor(&k.client, &h.hmac(&k.stored, &[&am])))
        }
        "extension-uncovered" => {
            let e: &[u8] = *rng.pick::<&[u8]>(&[b",x=y", b",a=root", b",m=x", b",", b",c=biws", b",n=root"]);
            match rng.below(3) {
                0 => [&wp[..], e, b",p=", &b64(&proof)].concat(),
                1 => [&honest[..], e].concat(),
                _ => [&e[1..], b",", &honest].concat(),
            }
        }
        "b64-noncanonical" => {
            let mut f = honest.clone();
            match rng.below(4) {
                0 => {
                    while f.last() == Some(&b'=') {
                        f.pop();
                    }
                }
                1 => f.push(b'='),
                2 => {
                    // set the unused bits of the last symbol
                    let i = f.iter().rposition(|b| *b != b'=').unwrap();
                    if f.len() - 1 > i {
                        f[i] = match f[i] {
                            b'Z' => b'a',
                            b'z' => b'0',
                            b'9' => b'+',
                            b'+' => b'/',
                            b'/' => b'A',
                            x => x + 1,
                        };
                    } else {
                        f.push(b'\n');
                    }
                }
                _ => f.insert(f.len() - 3, *rng.pick::<u8>(&b" \n\r"[..])),
            }
            f
        }
        "mutated" => gen::mutate(rng, &honest),
        "odd-stored" => {
            let n = h.len();
            match rng.below(5) {
                0 => with(&wp, &vec![0; n]),
                1 => with(&wp, &rng.bytes(n)),
                2 => with(&wp, &props.stored[0].stored),
                3 => {
                    // the client key would be what is stored
                    let mut k = k.clone();
                    k.client = props.stored[0].stored.clone();
                    k.stored = props.stored[0].stored.clone();
                    rc.final_msg(&k, &full)
                }
                _ => honest.clone(),
            }
        }
        _ => honest.clone(),
    };
    // oracle
    let srec = if unknown { None } else { Some(&props.stored[0]) };
    let srec = if class == "first-edited" {
        raw_first(&first).and_then(|f| f.user).and_then(|u| props.stored.iter().find(|s| s.user == u))
    } else {
        srec
    };
    let sdata: &[u8] = if class == "first-edited" {
        match raw_first(&first) {
            Some(f) if f.flag.starts_with(b"p=") => &cbdata,
            _ => &[],
        }
    } else {
        data
    };
    let v = match srec {
        Some(s) if s.server.len() == h.len() => verdict(h, &s.stored, &first, sdata, &rc.server_first, &fin),
        _ => Verdict::Reject,
    };
    let o = s.p.step(Some(&fin));
    let val = s.p.validation();
    let accepted = o.bytes.starts_with(b"v=") || o.validates() > 0 || val.is_some();
    let d = || {
        format!(
            "{m} class={class} verdict={v:?}: client-first {} server-first {} client-final {} -> {:?} {} validate x{} value {}",
            show(&first),
            show(&rc.server_first),
            show(&fin),
            o.r,
            show(&o.bytes),
            o.validates(),
            val.is_some()
        )
    };
    match v {
        Verdict::Reject => {
            w.want(!accepted, "accepted-without-proof", d);
            w.want(
                matches!(o.r, R::Err(_)) && !o.bytes.windows(2).any(|x| x == b"v=") || o.r.is_fin() && o.bytes.starts_with(b"e="),
                "rejection-not-reported",
                d,
            );
            w.count("rejected_finals");
        }
        Verdict::Accept | Verdict::Either => {
            if accepted {
                let s = srec.unwrap();
                let wl = fin.iter().rposition(|b| *b == b',').unwrap();
                let am = [&rc.bare[..], b",", &rc.server_first, b",", &fin[..wl]].concat();
                let want = [&b"v="[..], &b64(&h.hmac(&s.server, &[&am]))].concat();
                w.want(o.r.is_fin() && o.bytes == want, "wrong-success-message", d);
                let who = val.as_ref().map(|v| (v.ctx.authid.clone(), v.ctx.authzid.clone().unwrap_or_default()));
                if class != "first-edited" {
                    w.want(who == Some((Some(user.clone()), authzid.clone().unwrap_or_default())), "wrong-identity-validated", || {
                        format!("{who:?}, expected {user:?}/{authzid:?}; {}", d())
                    });
                }
                w.count("accepted_finals");
                if class == "honest" {
                    w.count("accepted_honest");
                }
            } else {
                w.count(if v == Verdict::Accept { "refused_valid_proof" } else { "refused_covered_extension" });
            }
        }
    }
    w.eval((class, &m, &fin), true);
    w.sample(|| json!({"mechanism": m, "class": class, "client_final": show(&fin), "verdict": format!("{v:?}"), "result": format!("{:?} {}", o.r, show(&o.bytes))}));
    w.count(&format!("class:{class}"));
}

/// Messages out of protocol order: a client-final first, the client-first repeated, a final for a fresh session.
fn order(w: &mut W, rng: &mut Rng) {
    let h = *rng.pick(&HASHES);
    let m = h.name();
    let c = cred(h, rng, 30);
    let props = Props { stored: vec![stored(&c)], ..Props::default() };
    let cn = nonce(rng);
    let rc = RefClient::new(h, "n", None, &c.user, &cn, &[]);
    let hs = HCb::default();
    let Some(mut s) = start(w, m, &[m], &props, &hs, &rc.first()) else { return };
    let mut r = rc.clone();
    r.server_first = s.server_first.clone();
    let full = s.server_first.split(|b| *b == b',').next().unwrap()[2..].to_vec();
    let fin = r.final_msg(&c.keys, &full);
    let (which, o, mut p) = match rng.below(4) {
        0 => {
            let mut p = Party::server(m, props.clone(), hs.clone());
            let o = p.step(Some(&fin));
            ("final-first", o, p)
        }
        1 => {
            let o = s.p.step(Some(&rc.first()));
            ("first-twice", o, s.p)
        }
        2 => {
            let o = s.p.step(Some(&s.server_first.clone()));
            ("server-first-echoed", o, s.p)
        }
        _ => {
            let o = s.p.step(Some(&[&rc.first()[..], b",", &fin].concat()));
            ("both-at-once", o, s.p)
        }
    };
    let val = p.validation();
    w.want(
        o.validates() == 0 && val.is_none() && !o.bytes.starts_with(b"v=") && (o.r.is_err() || o.bytes.starts_with(b"e=")),
        "accepted-out-of-order",
        || format!("{m} {which}: {:?} {}", o.r, show(&o.bytes)),
    );
    w.eval((which, m, &full), true);
    w.count("order_cases");
}

pub fn run(r: &mut Run) {
    r.rule = "a case counts when the server's verdict on one concrete client-final (or client-first) message was compared with the reference \
              RFC 5802 verifier; distinct by (message class, mechanism, message bytes)"
        .into();
    r.assumptions = vec![
        "the reference verifier (own HMAC/PBKDF2 over the sha1/sha2 crates' compression functions, RFC test vectors checked at start) is right".into(),
        "credentials use 1-5 iterations: the verdict does not depend on the count beyond the derived keys".into(),
    ];
    let per = r.n(20_000, 800_000);
    r.cases("final", per * CLASSES.len() as u64, |w, rng| {
        let class = CLASSES[(w.case % CLASSES.len() as u64) as usize];
        case(w, rng, class);
    });
    r.cases("order", r.n(40_000, 600_000), order);
    r.require("accepted_honest", per * 9 / 10);
    r.require("rejected_finals", per * 15);
    r.require("replayed_an_accepted_final", per / 2);
}
