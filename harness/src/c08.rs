//! C08: servers read raw messages exactly as the grammar defines them.
use crate::cb::{Ctx, Ev, HCb, OAns, Props};
use crate::drive::*;
use crate::gen;
use crate::grammar::{self, norm, Ver};
use crate::prng::Rng;
use crate::report::{show, Run, W};
use rsasl::prelude::Mechname;
use serde_json::json;
use std::convert::TryFrom;

const SIMPLE: [&str; 6] = ["PLAIN", "LOGIN", "EXTERNAL", "ANONYMOUS", "XOAUTH2", "OAUTHBEARER"];

fn field(rng: &mut Rng) -> Vec<u8> {
    match rng.below(10) {
        0 => vec![],
        1 => gen::blob(rng, 30),
        2 => gen::nasty(rng).into_bytes(),
        3 => b"a".to_vec(),
        4 => {
            // invalid or truncated UTF-8
            let mut v = gen::word(rng).into_bytes();
            let bad: &[u8] = rng.pick::<&[u8]>(&[b"\xc3", b"\xe2\x82", b"\xed\xa0\x80", b"\xc0\x80", b"\xf5\x80\x80\x80", b"\xff", b"\x80"]);
            let at = rng.below(v.len() + 1);
            v.splice(at..at, bad.iter().copied());
            v
        }
        _ => gen::word(rng).into_bytes(),
    }
}
pub fn edit(rng: &mut Rng, v: &mut Vec<u8>, seps: &[&[u8]]) {
    match rng.below(9) {
        0 => {
            let at = rng.below(v.len() + 1);
            let s = (*rng.pick(seps)).to_vec();
            v.splice(at..at, s);
        }
        1 => {
            // remove one separator
            let s = *rng.pick(seps);
            let at: Vec<usize> = (0..v.len().saturating_sub(s.len() - 1)).filter(|i| &v[*i..*i + s.len()] == s).collect();
            if !at.is_empty() {
                let i = *rng.pick(&at);
                v.drain(i..i + s.len());
            }
        }
        2 => {
            let n = rng.below(v.len() + 1);
            v.truncate(n);
        }
        3 => {
            if !v.is_empty() {
                let i = rng.below(v.len());
                v[i] = rng.u64() as u8;
            }
        }
        4 => {
            if !v.is_empty() {
                let i = rng.below(v.len());
                v.remove(i);
            }
        }
        5 => v.extend_from_slice(&field(rng)),
        6 => {
            if !v.is_empty() {
                let i = rng.below(v.len());
                v[i] ^= 0x20;
            }
        }
        7 => {
            // swap a separator for another one
            let s = *rng.pick(seps);
            let t = *rng.pick(seps);
            let at: Vec<usize> = (0..v.len().saturating_sub(s.len() - 1)).filter(|i| &v[*i..*i + s.len()] == s).collect();
            if !at.is_empty() {
                let i = *rng.pick(&at);
                v.splice(i..i + s.len(), t.iter().copied());
            }
        }
        _ => *v = gen::mutate(rng, v),
    }
}
pub fn saslname(rng: &mut Rng) -> Vec<u8> {
    match rng.below(8) {
        0 => rng.pick::<&[u8]>(&[b"a=2Cb", b"=3D", b"=2c", b"a=", b"a=2", b"=3D=2C", b"x=41", b"=2C=", b"==", b"\0", b"a\0b"]).to_vec(),
        1 => field(rng),
        _ => crate::refimpl::esc(&gen::ascii_name(rng, 20)).into_bytes(),
    }
}
fn message(m: &str, rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    let mut seps: Vec<&[u8]> = vec![b"\0", b"\x01", b","];
    match m {
        "PLAIN" => {
            let (a, b) = (field(rng), field(rng));
            let c = match rng.below(4) {
                0 => rng.pick::<&[u8]>(&["\u{ad}".as_bytes(), "\u{2163}".as_bytes(), "a\u{ad}b".as_bytes(), "\u{a0}".as_bytes(), b"\x7f", "\u{627}1".as_bytes(), "\u{e000}".as_bytes(), "\u{aa}".as_bytes()]).to_vec(),
                _ => field(rng),
            };
            let b = if rng.chance(1, 6) { c.clone() } else { b };
            v = [&a[..], &b[..], &c[..]].join(&0u8);
        }
        "XOAUTH2" => {
            v.extend_from_slice(b"user=");
            v.extend_from_slice(&field(rng));
            v.extend_from_slice(b"\x01auth=Bearer ");
            v.extend_from_slice(&field(rng));
            v.extend_from_slice(b"\x01\x01");
            seps.extend([&b"user="[..], b"auth=", b"Bearer ", b"\x01\x01", b"auth=Bearer ", b"\x01auth=Bearer ", b" "]);
        }
        "OAUTHBEARER" => {
            v.extend_from_slice(rng.pick::<&[u8]>(&[b"n", b"n", b"n", b"n", b"n", b"n", b"y", b"p=tls-unique", b"", b"N", b"nn"]));
            v.push(b',');
            if rng.chance(1, 2) {
                v.extend_from_slice(b"a=");
                v.extend_from_slice(&saslname(rng));
            }
            v.push(b',');
            let n = rng.below(5);
            let auth = if n == 0 { 0 } else { rng.below(n + 1) };
            for i in 0..=n {
                v.push(1);
                if i == auth && !rng.chance(1, 15) {
                    v.extend_from_slice(rng.pick::<&[u8]>(&[b"auth=Bearer ", b"auth=Bearer ", b"auth=Bearer ", b"auth=", b"auth=bearer ", b"auth=Basic ", b"auth=Bearer"]));
                    v.extend_from_slice(&field(rng));
                } else {
                    let k: Vec<u8> = match rng.below(8) {
                        0 => field(rng),
                        1 => b"auth".to_vec(),
                        2 => b"Auth".to_vec(),
                        3 => b"authx".to_vec(),
                        4 => vec![],
                        _ => rng.pick::<&[u8]>(&[b"host", b"port", b"X", b"abcXYZ"]).to_vec(),
                    };
                    v.extend_from_slice(&k);
                    if !rng.chance(1, 12) {
                        v.push(b'=');
                    }
                    let f = match rng.below(4) {
                        0 => b"a=b=c".to_vec(),
                        1 => b"=".to_vec(),
                        _ => field(rng),
                    };
                    v.extend_from_slice(&f);
                }
            }
            v.extend_from_slice(b"\x01\x01");
            seps.extend([&b"="[..], b"n,", b"a=", b"auth=", b"\x01\x01", b"\x01auth=Bearer x", b",,", b"Bearer "]);
        }
        _ => v = field(rng),
    }
    for _ in 0..*rng.pick(&[0usize, 0, 0, 1, 1, 2, 3]) {
        edit(rng, &mut v, &seps);
    }
    v
}

fn judge(m: &str, msgs: &[Vec<u8>]) -> Ver {
    match m {
        "PLAIN" => grammar::plain(&msgs[0]),
        "LOGIN" => grammar::login(&msgs[0], &msgs[1]),
        "EXTERNAL" => grammar::external(&msgs[0]),
        "ANONYMOUS" => grammar::anonymous(&msgs[0]),
        "XOAUTH2" => grammar::xoauth2(&msgs[0]),
        _ => grammar::oauthbearer(&msgs[0]),
    }
}

fn messages(w: &mut W, rng: &mut Rng) {
    let m = SIMPLE[(w.case as usize) % SIMPLE.len()];
    let msgs: Vec<Vec<u8>> = (0..if m == "LOGIN" { 2 } else { 1 }).map(|_| message(m, rng)).collect();
    let b64 = rng.chance(1, 5);
    let mut p = Props::default();
    let reject = rng.chance(1, 4);
    if reject {
        p.oauth = OAns::Reject("invalid_token".into(), None, None);
        p.xoauth = OAns::Reject("{}".into(), None, None);
    }
    let mut s = Party::server(m, p, HCb::default());
    let mut outs = vec![];
    if m == "LOGIN" {
        s.step(None);
    }
    for i in &msgs {
        let o = if b64 { s.step64(Some(&crate::refimpl::b64(i))) } else { s.step(Some(i)) };
        let stop = o.r.is_err();
        outs.push(o);
        if stop {
            break;
        }
    }
    let v = judge(m, &msgs);
    let last = outs.last().expect("harness: no step");
    let ok = !last.r.is_err();
    let ev: Vec<Ev> = outs.iter().flat_map(|o| o.ev.clone()).collect();
    let seen: Vec<(&str, Ctx)> = ev
        .iter()
        .filter_map(|e| match e {
            Ev::Validate { ctx, .. } => Some(("validate", ctx.clone())),
            Ev::Req { prop, ctx, .. } => Some((*prop, ctx.clone())),
            _ => None,
        })
        .collect();
    let ctx = || format!("{m} messages {:?}: grammar says {v:?}, server {:?}, callbacks {seen:?}", msgs.iter().map(|x| show(x)).collect::<Vec<_>>(), last.r);
    match &v {
        Ver::Reject => {
            w.count("must_reject");
            w.want(!ok, &format!("ungrammatical-accepted@{m}"), ctx);
            w.want(seen.is_empty(), &format!("ungrammatical-reached-callback@{m}"), ctx);
            w.want(s.validation().is_none(), &format!("ungrammatical-validated@{m}"), ctx);
        }
        Ver::Must(f) | Ver::Either(f) => {
            let must = matches!(v, Ver::Must(_));
            w.count(if must { "must_accept" } else { "open" });
            if must {
                w.want(ok, &format!("grammatical-refused@{m}"), ctx);
            }
            // whatever a callback saw must be the grammar's reading
            for (_, c) in &seen {
                w.want(norm(c) == norm(f), &format!("fields-differ@{m}"), ctx);
            }
            if ok {
                w.count("accepted");
                w.want(seen.iter().filter(|s| s.0 == "validate").count() == 1, &format!("not-validated-once@{m}"), ctx);
                let val = s.validation();
                w.want(val.as_ref().is_some_and(|x| norm(&x.ctx) == norm(f) && x.mech == m), &format!("validation-value@{m}"), ctx);
            }
        }
    }
    w.eval((m, &msgs, reject), !msgs.concat().is_empty());
    w.sample(|| json!({"mechanism": m, "messages": msgs.iter().map(|x| show(x)).collect::<Vec<_>>(), "grammar": format!("{v:?}").chars().take(200).collect::<String>(), "server": format!("{:?}", last.r)}));
}

/// every single byte inserted, replaced and removed at every position of small messages
fn sweep(w: &mut W, _rng: &mut Rng) {
    let base: [(&str, &[u8]); 6] = [
        ("PLAIN", b"z\0u\0p"),
        ("EXTERNAL", b"xy"),
        ("ANONYMOUS", b"xy"),
        ("XOAUTH2", b"user=u\x01auth=Bearer t\x01\x01"),
        ("OAUTHBEARER", b"n,a=z,\x01auth=Bearer t\x01\x01"),
        ("OAUTHBEARER", b"n,,\x01k=v\x01auth=Bearer t\x01h=w\x01\x01"),
    ];
    let (m, b) = base[w.case as usize % 6];
    let mut all: Vec<Vec<u8>> = vec![];
    for i in 0..=b.len() {
        for x in 0..=255u8 {
            let mut v = b.to_vec();
            v.insert(i, x);
            all.push(v);
            if i < b.len() {
                let mut v = b.to_vec();
                v[i] = x;
                all.push(v);
            }
        }
        if i < b.len() {
            let mut v = b.to_vec();
            v.remove(i);
            all.push(v);
        }
        all.push(b[..i].to_vec());
        all.push(b[i..].to_vec());
    }
    for v in all {
        let mut s = Party::server(m, Props::default(), HCb::default());
        let o = s.step(Some(&v));
        let g = judge(m, &[v.clone()]);
        let seen: Vec<Ctx> = o
            .ev
            .iter()
            .filter_map(|e| match e {
                Ev::Validate { ctx, .. } | Ev::Req { ctx, .. } => Some(ctx.clone()),
                _ => None,
            })
            .collect();
        w.eval((m, &v), true);
        w.count("sweep_messages");
        let ctx = || format!("{m} message [{}]: grammar says {g:?}, server {:?}, callbacks {seen:?}", show(&v), o.r);
        match &g {
            Ver::Reject => {
                w.want(o.r.is_err() && seen.is_empty(), &format!("ungrammatical-accepted@{m}"), ctx);
            }
            Ver::Must(f) => {
                w.want(!o.r.is_err() && !seen.is_empty() && seen.iter().all(|c| norm(c) == norm(f)), &format!("grammatical-refused@{m}"), ctx);
            }
            Ver::Either(f) => {
                w.want(seen.iter().all(|c| norm(c) == norm(f)), &format!("fields-differ@{m}"), ctx);
            }
        }
    }
}

fn mechnames(w: &mut W, rng: &mut Rng) {
    for _ in 0..200 {
        let n = gen::size(rng, 60);
        let set = b"ABCXYZ0189-_";
        let mut v: Vec<u8> = (0..n).map(|_| *rng.pick::<u8>(&set[..])).collect();
        match rng.below(6) {
            0 => v = gen::blob(rng, 30),
            1 | 2 => {
                let i = rng.below(v.len() + 1);
                v.insert(i, rng.u64() as u8);
            }
            3 => v = gen::word(rng).into_bytes(),
            4 => {
                // long, and only one character is wrong, often one of the last
                let n = rng.range(20, 3000);
                v = (0..n).map(|_| *rng.pick::<u8>(&set[..])).collect();
                let i = if rng.chance(1, 2) { n - 1 - rng.below(4) } else { rng.below(n) };
                v[i] = *rng.pick::<u8>(&b"a/.+ \0\xffz"[..]);
            }
            _ => {}
        }
        mechname(w, &v);
    }
}
fn mechname(w: &mut W, v: &[u8]) {
    let first_bad = v.iter().position(|b| !(b.is_ascii_uppercase() || b.is_ascii_digit() || *b == b'-' || *b == b'_'));
    let want = !v.is_empty() && first_bad.is_none();
    let r = Mechname::parse(v);
    w.count(if want { "names_valid" } else { "names_invalid" });
    w.eval(v, !v.is_empty());
    let ctx = || format!("name [{}]: valid {want}, parse {r:?}", show(v));
    w.want(r.is_ok() == want, "mechname-parse", ctx);
    if let Ok(n) = &r {
        let s = std::str::from_utf8(v).unwrap_or("<not utf-8>");
        w.want(n.as_bytes() == v && n.as_str() == s && n.to_string() == s && **n == *s && **n == *v && &***n == s, "mechname-reads-back", ctx);
        let other = format!("{s}A");
        w.want(**n != *other.as_str() && **n != *other.as_bytes(), "mechname-equality", ctx);
        w.want(*v == **n && *s == **n && *other.as_str() != **n && *other.as_bytes() != **n, "mechname-equality", ctx);
        w.want(Mechname::parse(other.as_bytes()).map(|o| o != *n).unwrap_or(false), "mechname-equality", ctx);
    }
    let t = <&Mechname>::try_from(v);
    w.want(t.is_ok() == want, "mechname-try-from", ctx);
    if let Ok(s) = std::str::from_utf8(v) {
        w.want(<&Mechname>::try_from(s).is_ok() == want, "mechname-try-from", ctx);
    }
}
fn names_sweep(w: &mut W, _rng: &mut Rng) {
    mechname(w, b"");
    for a in 0..=255u8 {
        mechname(w, &[a]);
        for b in 0..=255u8 {
            mechname(w, &[a, b]);
        }
        mechname(w, &[b'A', b'B', a, b'C']);
        mechname(w, &[&[b'X'; 19][..], &[a], b"Y"].concat());
    }
}

pub fn run(r: &mut Run) {
    r.rule = "a raw client message (or mechanism name) judged by the independent grammar, distinct by content, not empty".into();
    r.assumptions = vec![
        "left open (refused, or accepted with the exact fields): empty XOAUTH2 user or token, empty LOGIN fields, PLAIN passwords that are not UTF-8, \
         OAUTHBEARER flag y, empty a=, keys that are not letters, values outside printable ASCII, a token without or with a differently cased scheme"
            .into(),
        "SASLprep as implemented by the stringprep crate".into(),
    ];
    r.cases("messages", r.n(1_200_000, 40_000_000), messages);
    r.cases("sweep", 6, sweep);
    r.cases("mechnames", r.n(3_000, 100_000), mechnames);
    r.cases("names-sweep", 1, names_sweep);
    r.require("must_reject", 200_000);
    r.require("must_accept", 100_000);
    r.require("accepted", 100_000);
    r.require("sweep_messages", 10_000);
    r.require("names_valid", 20_000);
}
