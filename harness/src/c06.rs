//! C06: no peer message can make a session panic, hang or allocate out of proportion.
use crate::c10::{replay, Scen};
use crate::drive::*;
use crate::gen;
use crate::prng::Rng;
use crate::refimpl::b64;
use crate::report::{guarded, show, Run, W};
use rsasl::prelude::*;
use serde_json::json;
use std::error::Error;

fn attr_soup(rng: &mut Rng) -> Vec<u8> {
    let mut v = vec![];
    for i in 0..rng.range(1, 9) {
        if i > 0 || rng.chance(1, 8) {
            v.push(b',');
        }
        match rng.below(12) {
            0 => {}
            1 => v.push(*rng.pick::<u8>(&b"nyprscmieva=\0\xff"[..])),
            2 => v.extend_from_slice(&[*rng.pick::<u8>(&b"nyprscmieva"[..]), b'=']),
            3 => v.extend_from_slice(&[*rng.pick::<u8>(&b"nyprscmieva"[..]), 0xc3]),
            4 => v.extend_from_slice("ä=ö".as_bytes()),
            5 => v.extend_from_slice("n=\u{1F511}".as_bytes()),
            6 => v.extend_from_slice(*rng.pick::<&[u8]>(&[b"p=tls-unique", b"p=", b"y", b"n", b"a=", b"n=x", b"n==", b"n==2", b"n==2C", b"n==3D=", b"r=a", b"i=0", b"i=4294967295", b"i=4294967296", b"i=99999999999999999999999", b"i=-1", b"i=+1", b"i=", b"s=", b"s=A", b"s=====", b"v=", b"v=AA==", b"e=other-error", b"e=", b"c=biws", b"c=", b"m=x"])),
            _ => {
                v.push(*rng.pick::<u8>(&b"nyprscmieva"[..]));
                v.push(b'=');
                let b = gen::blob(rng, 40);
                v.extend(b.iter().filter(|c| **c != b','));
            }
        }
    }
    v
}
/// an otherwise honest message in which a number (or the value of an attribute) is an extreme one
fn extreme_number(rng: &mut Rng, base: &[u8]) -> Vec<u8> {
    let mut parts: Vec<Vec<u8>> = base.split(|b| *b == b',').map(<[u8]>::to_vec).collect();
    let numeric: Vec<usize> = (0..parts.len()).filter(|i| parts[*i].len() > 2 && parts[*i][1] == b'=' && parts[*i][2..].iter().all(u8::is_ascii_digit)).collect();
    let i = if numeric.is_empty() || rng.chance(1, 8) { rng.below(parts.len()) } else { *rng.pick(&numeric) };
    let n: u64 = match rng.below(4) {
        0 => (1u64 << rng.below(64)).wrapping_sub(rng.below(2) as u64),
        1 => *rng.pick(&[0, 1, 20_001, 65_536, 1 << 20, 300_000_000, i32::MAX as u64, 1 << 31, u64::from(u32::MAX), 1 << 32, i64::MAX as u64, u64::MAX]),
        2 => rng.u64() >> 32,
        _ => rng.u64() >> rng.below(64),
    };
    let p = &mut parts[i];
    p.truncate(2);
    p.extend(n.to_string().into_bytes());
    parts.join(&b","[..])
}
fn hostile(rng: &mut Rng, honest: Option<&[u8]>, corpus: &[Vec<u8>]) -> Vec<u8> {
    let base = |rng: &mut Rng| -> Vec<u8> {
        match honest {
            Some(h) if rng.chance(2, 3) => h.to_vec(),
            _ if !corpus.is_empty() => rng.pick(corpus).clone(),
            _ => vec![],
        }
    };
    match rng.below(16) {
        0 => vec![],
        14 | 15 => {
            let a = base(rng);
            extreme_number(rng, &a)
        }
        1 => gen::blob(rng, 5000),
        2 | 3 => attr_soup(rng),
        4 => base(rng),
        5 => {
            // splice two messages
            let (a, b) = (base(rng), base(rng));
            let i = rng.below(a.len() + 1);
            let j = rng.below(b.len() + 1);
            [&a[..i], &b[j..]].concat()
        }
        6 => {
            // one byte position after the other
            let mut a = base(rng);
            let n = rng.below(a.len() + 1);
            a.truncate(n);
            a
        }
        7 => {
            // multi-byte characters around every kind of boundary
            let mut a = base(rng);
            if rng.chance(1, 4) {
                // a whole field of them
                let t = gen::multibyte(rng, 5000).into_bytes();
                if rng.chance(1, 3) {
                    return t;
                }
                let i = rng.below(a.len() + 1);
                a.splice(i..i, t);
                return a;
            }
            for _ in 0..rng.range(1, 4) {
                let i = rng.below(a.len() + 1);
                let s = *rng.pick::<&[u8]>(&["ä".as_bytes(), "\u{1F511}".as_bytes(), b"\xc3", b"\xf0\x9f", b"\x80", b"\xed\xa0\x80", b"\xff\xfe", b"\0", b"\x01", b"\x01\x01", b",", b"=", b",,", b"=2", b"=2C"]);
                a.splice(i..i, s.iter().copied());
            }
            a
        }
        8 => vec![*rng.pick::<u8>(&b"\0\x01,=nyp{[\"\\ 9A\xff\xc3"[..]); gen::size(rng, 5000)],
        9 => {
            let n = rng.range(1, 6);
            vec![*rng.pick::<u8>(&b"\0\x01,=nypa:r"[..]); n]
        }
        _ => {
            let mut a = base(rng);
            for _ in 0..rng.range(1, 5) {
                a = gen::mutate(rng, &a);
            }
            a
        }
    }
}

/// values the callbacks may hold: not hostile peers, but states a peer can drive the session through
fn odd_props(sc: &mut Scen, rng: &mut Rng) {
    if !sc.scram() {
        return;
    }
    let n = hash_of(sc.m).len();
    let len = |rng: &mut Rng| *rng.pick(&[0usize, 1, n - 1, n, n + 1, 2 * n, 200]);
    match rng.below(6) {
        0 => {
            let (a, b) = (len(rng), len(rng));
            sc.c.cached = Some((rng.bytes(a), rng.bytes(b)));
        }
        1 => {
            let a = len(rng);
            sc.c.salted = Some(rng.bytes(a));
        }
        2 => {
            let (a, b) = (len(rng), len(rng));
            if let Some(s) = sc.s.stored.first_mut() {
                s.stored = rng.bytes(a);
                s.server = rng.bytes(b);
            }
        }
        3 => {
            if let Some(s) = sc.s.stored.first_mut() {
                let n = gen::size(rng, 3000);
                s.salt = rng.bytes(n);
            }
        }
        4 => sc.c.password = Some(vec![]),
        _ => {}
    }
    sc.c.max_iter = 20;
}

fn corpus(rng: &mut Rng) -> Vec<Vec<u8>> {
    let m = *rng.pick(&ALL);
    let sc = Scen::random(m, rng, rng.clone().below(4));
    if sc.what == "unknown user" {
        return vec![];
    }
    replay(&sc, usize::MAX, |_, _| unreachable!()).steps.into_iter().map(|s| s.2).collect()
}

fn fuzz(w: &mut W, rng: &mut Rng) {
    let m = ALL[(w.case as usize) % ALL.len()];
    let mut sc = Scen::random(m, rng, (w.case as usize) / ALL.len());
    if rng.chance(1, 4) {
        odd_props(&mut sc, rng);
    }
    let corpus = if rng.chance(1, 4) { corpus(rng) } else { vec![] };
    let len = match m {
        "LOGIN" => 5,
        "PLAIN" | "EXTERNAL" | "ANONYMOUS" => 2,
        "XOAUTH2" | "OAUTHBEARER" => 4,
        _ => 5,
    };
    let at = rng.below(len);
    let six = rng.chance(1, 4);
    let mut found: Vec<(String, String)> = vec![];
    let mut stats = (0u64, 0u64, 0u64);
    let mut reached = None;
    let outer = guarded(|| {
        replay(&sc, at, |p, honest| {
            let server = p.is_server();
            reached = Some(server);
            let mut given = vec![];
            for n in 0..5 {
                let mut h = hostile(rng, if n == 0 { honest } else { None }, &corpus);
                if six && rng.chance(5, 6) {
                    h = b64(&h);
                }
                given.push(h.clone());
                let mut out = Vec::with_capacity(64);
                let v0 = crate::alloc::volume();
                let r = guarded(|| if six { p.raw64(Some(&h), &mut out) } else { p.raw(Some(&h), &mut out) });
                let used = crate::alloc::volume() - v0;
                stats.0 += 1;
                let ctx = || {
                    format!("{m} {} step {at} ({}), base64 {six}, hostile messages {:?}", if server { "server" } else { "client" }, sc.what, given.iter().map(|g| show(g)).collect::<Vec<_>>())
                };
                let side = if server { "server" } else { "client" };
                let bound = 256 * 1024 + 64 * (h.len() as u64 + sc.weight());
                stats.1 = stats.1.max(used);
                if used > bound {
                    found.push((format!("allocation@{m}-{side}"), format!("{}: allocated {used} bytes for {} bytes of input", ctx(), h.len())));
                }
                match r {
                    Err(p) if p.in_harness() => panic!("harness: {} at {}", p.msg, p.loc),
                    Err(p) => {
                        found.push((p.sig(), format!("{}: panicked: {} at {}", ctx(), p.msg, p.loc)));
                        break;
                    }
                    Ok(Err(e)) => {
                        // diagnostics are produced for a hostile message, too
                        let t = guarded(|| {
                            let mut s = format!("{e} {e:?} {e:#?}");
                            let mut c: Option<&dyn Error> = e.source();
                            for _ in 0..20 {
                                let Some(x) = c else { break };
                                s += &format!("{x} {x:?}");
                                c = x.source();
                            }
                            crate::cb::utf8("error text", &s);
                            s.len()
                        });
                        if let Err(p) = t {
                            found.push((p.sig(), format!("{}: error cannot be shown: {} at {}", ctx(), p.msg, p.loc)));
                        }
                        stats.2 += 1;
                        break;
                    }
                    Ok(Ok(State::Finished(_))) => {
                        // encode and decode have nothing to work with
                        for enc in [false, true] {
                            let mut o = Vec::new();
                            let r = guarded(|| if enc { p.encode(&h, &mut o) } else { p.decode(&h, &mut o) });
                            match r {
                                Ok(r) => {
                                    if r.is_ok() || !o.is_empty() {
                                        found.push((format!("layerless-{}@{m}", if enc { "encode" } else { "decode" }), ctx()));
                                    }
                                }
                                Err(p) => found.push((p.sig(), format!("{}: {} at {}", ctx(), p.msg, p.loc))),
                            }
                        }
                        break;
                    }
                    Ok(Ok(State::Running)) => {
                        if rng.chance(1, 3) {
                            break;
                        }
                    }
                }
            }
            w.eval((m, at, server, &given, six), true);
            (R::Err("stop".into()), vec![])
        })
    });
    if let Err(p) = outer {
        if p.in_harness() {
            panic!("harness: {} at {}", p.msg, p.loc);
        }
        found.push((p.sig(), format!("{m} before the hostile step: {} at {}", p.msg, p.loc)));
    }
    w.add("hostile_steps", stats.0);
    w.add("errors", stats.2);
    let e = w.acc.counters.entry("max_step_allocation".into()).or_insert(0);
    *e = (*e).max(stats.1);
    if let Some(server) = reached {
        w.count(&format!("reached:{m}-{}-{at}", if server { "server" } else { "client" }));
    }
    for (s, d) in found {
        w.viol(s, d);
    }
    w.sample(|| json!({"mech": m, "step": at, "scenario": sc.what}));
}

/// every single byte value and every truncation of every honest message of every mechanism
fn sweep(w: &mut W, rng: &mut Rng) {
    let m = ALL[(w.case as usize) % ALL.len()];
    let mut sc = Scen::random(m, rng, rng.clone().below(4));
    // short values keep the sweep small
    sc.c.max_iter = 20;
    let reference = replay(&sc, usize::MAX, |_, _| unreachable!());
    for k in 0..reference.steps.len() {
        let honest = if k == 0 { vec![] } else { reference.steps[k - 1].2.clone() };
        let n = honest.len().min(160);
        let mut inputs: Vec<Vec<u8>> = (0..=n).map(|i| honest[..i].to_vec()).collect();
        inputs.extend((0..=n).map(|i| honest[i..].to_vec()));
        for i in 0..n {
            for b in [0u8, 1, b',', b'=', 0x80, 0xc3, 0xff, rng.u64() as u8] {
                let mut v = honest.clone();
                v[i] = b;
                inputs.push(v.clone());
                v.insert(i, b',');
                inputs.push(v);
            }
            let mut v = honest.clone();
            v.remove(i);
            inputs.push(v);
        }
        if w.case < 12 * 2 {
            inputs.extend((0..=255u8).map(|b| vec![b]));
            for a in [b'n', b'y', b'p', b'r', b'v', b'e', b'c', b'a', b'=', b',', 0, 1, 0xff] {
                inputs.extend((0..=255u8).map(|b| vec![a, b]));
            }
        }
        for h in inputs {
            let mut panic = None;
            let g = guarded(|| {
                replay(&sc, k, |p, _| {
                    let mut o = Vec::new();
                    if let Err(e) = guarded(|| p.raw(Some(&h), &mut o).map_err(|e| e.to_string()).is_ok()) {
                        panic = Some(e);
                    }
                    (R::Err("stop".into()), vec![])
                })
            });
            w.count("swept_inputs");
            if let Some(p) = panic.or(g.err()) {
                if p.in_harness() {
                    panic!("harness: {} at {}", p.msg, p.loc);
                }
                w.viol(p.sig(), format!("{m} step {k} input [{}]: {} at {}", show(&h), p.msg, p.loc));
            }
        }
        w.eval((w.case, k), true);
    }
}

/// megabytes: CPU time is watched by the watchdog, allocation here
fn huge(w: &mut W, rng: &mut Rng) {
    let m = ALL[(w.case as usize) % ALL.len()];
    let mut sc = Scen::random(m, rng, 0);
    sc.c.max_iter = 20;
    let at = rng.below(if m == "LOGIN" { 5 } else { 3 });
    let n = if cfg!(miri) { 60 } else { rng.range(1 << 19, 3 << 20) };
    let unit: &[u8] = rng.pick::<&[u8]>(&[b",", b"=", b"\x01", b"\0", b"A", b"\xff", b"n=,", b"m=x,", b"a=b\x01", b"=2C", b"[", b"{\"a\":", b"\"\\u0041", b" ", "ä".as_bytes()]);
    let body: Vec<u8> = unit.iter().copied().cycle().take(n).collect();
    let mut found = vec![];
    let mut hit = false;
    let mut worst = 0;
    replay(&sc, at, |p, honest| {
        hit = true;
        let honest = honest.unwrap_or(b"").to_vec();
        let i = rng.below(honest.len() + 1);
        let h = match rng.below(4) {
            0 => body.clone(),
            1 => [&honest[..], &body].concat(),
            2 => [&body, &honest[..]].concat(),
            _ => [&honest[..i], &body, &honest[i..]].concat(),
        };
        let six = rng.chance(1, 4);
        let wire = if six { b64(&h) } else { h };
        let mut out = Vec::new();
        let v0 = crate::alloc::volume();
        let r = guarded(|| if six { p.raw64(Some(&wire), &mut out) } else { p.raw(Some(&wire), &mut out) });
        let used = crate::alloc::volume() - v0;
        worst = used / (wire.len() as u64).max(1);
        // (errors may quote the message, growing vectors count every reallocation)
        if used > 64 * (wire.len() as u64 + sc.weight()) + (1 << 20) {
            found.push((format!("allocation@{m}"), format!("{m} step {at}: {used} bytes allocated for {} bytes of [{}]...", wire.len(), show(unit))));
        }
        if let Err(p) = r {
            found.push((p.sig(), format!("{m} step {at} {} bytes of [{}]: {} at {}", wire.len(), show(unit), p.msg, p.loc)));
        }
        (R::Err("stop".into()), vec![])
    });
    if hit {
        w.count("huge_messages");
        w.eval((w.case, m, at, n), true);
    }
    let e = w.acc.counters.entry("max_huge_allocation_ratio".into()).or_insert(0);
    *e = (*e).max(worst);
    for (s, d) in found {
        w.viol(s, d);
    }
}

fn cpu_ms() -> u64 {
    if cfg!(miri) {
        return 0;
    }
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::clock_gettime(libc::CLOCK_THREAD_CPUTIME_ID, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}
/// well-formed messages with a part that is repeated very often: the time must not grow faster than the message
fn scale(w: &mut W, rng: &mut Rng) {
    let m = ALL[(w.case as usize) % ALL.len()];
    let variant = usize::from(m.contains("OAUTH") && rng.chance(1, 2));
    let mut sc = Scen::random(m, rng, variant);
    sc.c.max_iter = 20;
    let at = rng.below(if m == "LOGIN" || m.starts_with("SCRAM") { 5 } else { 3 });
    let unit: &[u8] = rng.pick::<&[u8]>(&[
        b"k=v\x01", b"a=\x01", b"x=y,", b"x=,", b"=2C", b"=3D", b"A", b"AAAA", b"\"a\":1,", b"\\u0041", b"\\n", b"[", b"{\"a\":", "\u{e9}".as_bytes(), "e\u{301}\u{300}".as_bytes(), b",", b"\0",
    ]);
    let numbered = rng.chance(1, 3);
    let pick = rng.u64() as usize;
    // two sizes: what is already too slow is not tried with the larger one
    for (n, limit) in [(1usize << 18, 1500), (1 << 20, 4000)] {
        let n = if cfg!(miri) { 40 } else { n };
        let mut body = Vec::with_capacity(n + 20);
        let mut i = 0;
        while body.len() < n {
            if numbered && unit.len() > 2 && unit[1] == b'=' {
                // names that differ
                body.extend_from_slice(format!("{}{}", if unit[0] == b'x' { 'x' } else { 'k' }, (b'a' + (i % 26) as u8) as char).as_bytes());
                body.extend_from_slice(&unit[1..]);
            } else {
                body.extend_from_slice(unit);
            }
            i += 1;
        }
        let mut slow = None;
        replay(&sc, at, |p, honest| {
            let honest = honest.unwrap_or(b"");
            let places: Vec<usize> = (0..=honest.len())
                .filter(|i| *i == 0 || *i == honest.len() || matches!(honest[i - 1], b',' | b'=' | 1 | 0 | b'{' | b'"' | b' ') || matches!(honest[*i], b',' | 1 | 0 | b'"' | b'}'))
                .collect();
            let i = places[pick % places.len()];
            let wire = [&honest[..i], &body, &honest[i..]].concat();
            let mut out = Vec::new();
            let t = cpu_ms();
            let r = guarded(|| p.raw(Some(&wire), &mut out));
            let t = cpu_ms() - t;
            w.count("scaled_messages");
            if matches!(r, Ok(Ok(_))) {
                w.count("scaled_messages_taken");
            }
            let e = w.acc.counters.entry("max_scaled_cpu_ms".into()).or_insert(0);
            *e = (*e).max(t);
            if let Err(p) = r {
                w.viol(p.sig(), format!("{m} step {at} {} bytes of [{}]: {} at {}", wire.len(), show(unit), p.msg, p.loc));
            }
            if t > limit {
                slow = Some(format!("{m} step {at}: {t} ms for {} bytes of [{}] at {i} of [{}]", wire.len(), show(unit), show(honest)));
            }
            (R::Err("stop".into()), vec![])
        });
        if let Some(s) = slow {
            w.viol(format!("time@{m}"), s);
            break;
        }
    }
    w.eval((m, at, unit, numbered, pick), true);
}

fn names(w: &mut W, rng: &mut Rng) {
    for _ in 0..100 {
        let mut v = gen::blob(rng, 4100);
        if rng.chance(1, 2) {
            v = rng.pick(&ALL).as_bytes().to_vec();
            v = gen::mutate(rng, &v);
        }
        let r = guarded(|| {
            let a = Mechname::parse(&v).map(|n| format!("{n} {n:?}").len()).map_err(|e| format!("{e} {e:?}").len());
            let b = <&Mechname>::try_from(&v[..]).is_ok();
            (a.is_ok(), b)
        });
        w.count("names");
        if let Err(p) = r {
            w.viol(p.sig(), format!("mechanism name [{}]: {} at {}", show(&v), p.msg, p.loc));
        }
        w.eval(&v, !v.is_empty());
    }
}

pub fn run(r: &mut Run) {
    r.rule = "one evaluation = up to five hostile messages given to one side of one mechanism in one state; distinct by content".into();
    r.assumptions = vec![
        "the password callback refuses iteration counts it does not want (the library itself has no limit)".into(),
        format!("a case that uses {} s of CPU time counts as not returning", crate::report::CPU_LIMIT_S),
        "allocation bound: 256 kB + 64 bytes per byte of the message and of the application's data in one step".into(),
    ];
    r.cases("fuzz", r.n(1_000_000, 40_000_000), fuzz);
    r.cases("sweep", r.n(96, 3000), sweep);
    r.cases("huge", r.n(600, 12_000), huge);
    r.cases("scale", r.n(1_500, 30_000), scale);
    r.cases("names", r.n(3_000, 100_000), names);
    for k in ["PLAIN-server-1", "LOGIN-client-1", "LOGIN-server-2", "LOGIN-server-4", "XOAUTH2-server-1", "XOAUTH2-client-2", "OAUTHBEARER-server-1", "OAUTHBEARER-client-2", "SCRAM-SHA-1-server-1",
        "SCRAM-SHA-256-client-2", "SCRAM-SHA-512-server-3", "SCRAM-SHA-256-client-4", "SCRAM-SHA-512-PLUS-server-3", "EXTERNAL-server-1", "ANONYMOUS-server-1"] {
        r.require(&format!("reached:{k}"), 2000);
    }
    r.require("huge_messages", 200);
    r.require("scaled_messages", 2_000);
    r.require("scaled_messages_taken", 300);
    r.require("swept_inputs", 50_000);
    crate::c18::gss_share(r, &[], 40_000);
}
