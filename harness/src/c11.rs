//! C11: step64 == base64(step).
use crate::c10::{replay, same_msg, Scen};
use crate::cb::{Ev, HCb, Props};
use crate::drive::*;
use crate::gen;
use crate::io::{End, Wr};
use crate::prng::Rng;
use crate::probe;
use crate::refimpl::{b64, unb64};
use crate::report::{show, Run, W};
use rsasl::prelude::*;
use serde_json::json;
use std::cell::RefCell;
use std::io::{ErrorKind, IoSlice, Write};
use std::rc::Rc;

/// text that is base64 or nearly so
pub fn near_b64(rng: &mut Rng) -> Vec<u8> {
    let n = gen::size(rng, 1000);
    let mut e = b64(&rng.bytes(n));
    let k = rng.below(18);
    let ins = |e: &mut Vec<u8>, rng: &mut Rng, s: &[u8]| {
        let at = rng.below(e.len() + 1);
        e.splice(at..at, s.iter().copied());
    };
    match k {
        0 => e.push(b'\n'),
        1 => e.extend_from_slice(b"\r\n"),
        2 => ins(&mut e, rng, b" "),
        3 => {
            while e.last() == Some(&b'=') {
                e.pop();
            }
        }
        4 => e.push(b'='),
        5 => {
            // non-zero trailing bits
            let n = 1 + rng.below(2);
            e = b64(&rng.bytes(n));
            let i = if n == 1 { 1 } else { 2 };
            let set = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
            let v = set.iter().position(|x| *x == e[i]).unwrap() | (1 + rng.below(if n == 1 { 15 } else { 3 }));
            e[i] = set[v];
            if rng.chance(1, 2) {
                let pre = rng.range(0, 5) * 3;
                let mut p = b64(&rng.bytes(pre));
                p.extend_from_slice(&e);
                e = p;
            }
        }
        6 => {
            for b in &mut e {
                if *b == b'+' {
                    *b = b'-';
                }
                if *b == b'/' {
                    *b = b'_';
                }
            }
            if e.iter().all(|b| *b != b'-' && *b != b'_') {
                e.extend_from_slice(b"-_==");
            }
        }
        7 => {
            let f = b64(&rng.bytes(4));
            e.extend_from_slice(&f);
        }
        8 => e = rng.pick::<&[u8]>(&[b"=", b"==", b"====", b"A", b"AA", b"AAA", b"A===", b"AA=", b"AAA=A", b"\0", b"*", b"AB=="]).to_vec(),
        9 => {
            let n = rng.below(40);
            e = rng.bytes(n);
        }
        10 => {
            if !e.is_empty() {
                let i = rng.below(e.len());
                e[i] = rng.u64() as u8;
            }
        }
        11 => {
            let n = rng.below(e.len() + 1);
            e.truncate(n);
        }
        12 => ins(&mut e, rng, b"="),
        13 => ins(&mut e, rng, b"\r\n"),
        _ => {}
    }
    e
}

/// the probe mechanism writes a scripted message in scripted pieces
fn scripted(w: &mut W, rng: &mut Rng) {
    #[derive(Clone, Debug)]
    enum Piece {
        All(Vec<u8>),
        Single(Vec<u8>),
        Vectored(Vec<Vec<u8>>),
        Flush,
        Fmt(String),
    }
    let pieces: Vec<Piece> = (0..rng.below(6))
        .map(|_| match rng.below(6) {
            0 => Piece::Single(gen::blob(rng, 40)),
            1 => Piece::Vectored((0..rng.below(4)).map(|_| gen::blob(rng, 20)).collect()),
            2 => Piece::Flush,
            3 => Piece::Fmt(gen::nasty(rng)),
            _ => Piece::All(gen::blob(rng, 5000)),
        })
        .collect();
    let mut msg = vec![];
    for p in &pieces {
        match p {
            Piece::All(b) | Piece::Single(b) => msg.extend_from_slice(b),
            Piece::Vectored(v) => msg.extend_from_slice(&v.concat()),
            Piece::Flush => {}
            Piece::Fmt(s) => msg.extend_from_slice(s.as_bytes()),
        }
    }
    let outcome = rng.below(5);
    let seen: Rc<RefCell<Vec<Option<Vec<u8>>>>> = Rc::default();
    let (s2, p2) = (seen.clone(), pieces.clone());
    probe::set_step(move |_d, i, w| {
        s2.borrow_mut().push(i.map(<[u8]>::to_vec));
        for p in &p2 {
            match p {
                Piece::All(b) => w.write_all(b)?,
                Piece::Single(b) => {
                    for x in b {
                        w.write_all(&[*x])?;
                    }
                }
                Piece::Vectored(v) => {
                    for b in v {
                        let mut rest = &b[..];
                        while !rest.is_empty() {
                            let n = w.write_vectored(&[IoSlice::new(rest), IoSlice::new(&[])])?;
                            if n == 0 {
                                return Err(std::io::Error::from(ErrorKind::WriteZero).into());
                            }
                            rest = &rest[n..];
                        }
                    }
                }
                Piece::Flush => w.flush()?,
                Piece::Fmt(s) => write!(w, "{s}")?,
            }
        }
        match outcome {
            0 => Ok(State::Finished(MessageSent::Yes)),
            1 => Ok(State::Finished(MessageSent::No)),
            2 => Err(SessionError::MutualAuthenticationFailed),
            _ => Ok(State::Running),
        }
    });
    let server = rng.chance(1, 2);
    let input: Option<Vec<u8>> = if rng.chance(1, 6) { None } else { Some(near_b64(rng)) };
    let dec = input.as_ref().map(|i| unb64(i));
    let mut p = crate::c11::probe_party(server);
    let mut wr = if rng.chance(1, 3) {
        let at = rng.below(msg.len().div_ceil(3) * 4 + 2);
        let end = match rng.below(3) {
            0 => End::Zero(at),
            1 => End::Once(at, ErrorKind::Other),
            _ => End::Err(at, ErrorKind::BrokenPipe),
        };
        Wr::new(if rng.chance(1, 2) { vec![1, 7] } else { vec![] }, rng.below(3), rng.chance(1, 2), end)
    } else {
        Wr::new(if rng.chance(1, 2) { vec![1, 7] } else { vec![] }, rng.below(3), rng.chance(1, 2), End::Never)
    };
    let r = p.raw64(input.as_deref(), &mut wr);
    let rr = R::of(&r);
    let seen = seen.borrow().clone();
    w.count("scripted_steps");
    w.eval((&input, outcome, msg.len(), msg.len() % 3), !msg.is_empty() || input.is_some());
    let ctx = || {
        format!("input {:?} ({}), message of {} bytes, mechanism outcome {outcome}, result {rr:?}, mechanism saw {:?}, writer refused {} accepted [{}]",
            input.as_deref().map(show), if dec == Some(None) { "not canonical base64" } else { "valid" }, msg.len(),
            seen.iter().map(|s| s.as_deref().map(show)).collect::<Vec<_>>(), wr.refused, show(&wr.got))
    };
    match &dec {
        Some(None) => {
            w.count("malformed_inputs");
            w.want(rr.is_err(), "malformed-base64-accepted", ctx);
            w.want(seen.is_empty(), "malformed-base64-reaches-mechanism", ctx);
            w.want(wr.got.is_empty(), "malformed-base64-writes", ctx);
        }
        _ => {
            let want = dec.clone().flatten();
            if !w.want(seen.len() == 1 && seen[0] == want, "mechanism-input-differs", ctx) {
                return;
            }
            let expect = match outcome {
                0 => R::FinYes,
                1 => R::FinNo,
                2 => R::Err("MutualAuthenticationFailed".into()),
                _ => R::Run,
            };
            if wr.refused > 0 {
                w.count("faults_hit");
                w.want(rr.is_err(), "fault-reported-as-success64", ctx);
            } else {
                w.want(rr == expect, "state-differs64", ctx);
                if !expect.is_err() {
                    w.count("messages_compared");
                    w.want(wr.got == b64(&msg), "encoding-differs64", ctx);
                }
            }
        }
    }
    w.sample(|| json!({"input": input.as_deref().map(show), "message_len": msg.len(), "result": format!("{rr:?}")}));
}

pub fn probe_party(server: bool) -> Party {
    probe_with(server, Props::default())
}
pub fn probe_with(server: bool, p: Props) -> Party {
    probe_named("X-PROBE", server, p)
}
/// X-PROBE or X-BARE
pub fn probe_named(mech: &str, server: bool, p: Props) -> Party {
    static REG: [Mechanism; 2] = [probe::PROBE, probe::BARE];
    let (cb, log) = crate::cb::Cb::new(p);
    let cfg = SASLConfig::builder().with_registry(Registry::with_mechanisms(&REG)).with_callback(cb).expect("harness: config");
    let hcb = HCb { data: vec![], log: Some(log.clone()) };
    let n = name(mech);
    let s = if server {
        Sess::S(SASLServer::<crate::cb::V, HCb>::with_cb(cfg, hcb).start_suggested(n).expect("harness: probe server"))
    } else {
        Sess::C(SASLClient::with_cb(cfg, hcb).start_suggested(&[n]).expect("harness: probe client"))
    };
    Party { s, log }
}

fn strip(ev: &[Ev]) -> Vec<Ev> {
    // decoy salts are fresh in every session
    ev.iter()
        .map(|e| match e {
            Ev::Req { prop, ctx, mech, server } => {
                let mut ctx = ctx.clone();
                ctx.salt = None;
                Ev::Req { prop, ctx, mech: mech.clone(), server: *server }
            }
            e => e.clone(),
        })
        .collect()
}

/// real mechanisms: a whole exchange raw, and one where a random subset of the steps goes through base64
fn real(w: &mut W, rng: &mut Rng) {
    let m = ALL[(w.case as usize) % ALL.len()];
    let sc = Scen::random(m, rng, (w.case as usize) / ALL.len());
    let evs: RefCell<Vec<Vec<Ev>>> = RefCell::default();
    let mut raw_ev = vec![];
    // raw reference, with events per step
    let reference = {
        let r0 = replay(&sc, usize::MAX, |_, _| unreachable!());
        for k in 0..r0.steps.len() {
            replay(&sc, k, |p, i| {
                let o = p.step(i);
                evs.borrow_mut().push(o.ev.clone());
                (o.r, o.bytes)
            });
        }
        raw_ev.extend(evs.borrow().iter().map(|e| strip(e)));
        r0
    };
    for (k, (server, r0, msg)) in reference.steps.iter().enumerate() {
        let mut wire = vec![];
        let mut ev = vec![];
        let rep = replay(&sc, k, |p, i| {
            let e = i.map(b64);
            let o = p.step64(e.as_deref());
            wire = o.bytes.clone();
            ev = strip(&o.ev);
            (o.r, unb64(&o.bytes).unwrap_or_default())
        });
        let (_, r, got) = &rep.steps[k];
        w.count("paired_steps");
        w.eval((w.case, k), true);
        let side = if *server { "server" } else { "client" };
        let ctx = || format!("{m} {side} step {k} ({}): raw {r0:?} [{}], base64 {r:?} [{}]; events {:?} vs {ev:?}", sc.what, show(msg), show(&wire), raw_ev[k]);
        w.want(r == r0, &format!("state-differs@{m}-{side}"), ctx);
        w.want(ev == raw_ev[k], &format!("callback-effects-differ@{m}-{side}"), ctx);
        if !r.is_err() && !r0.is_err() {
            w.want(unb64(&wire).is_some() && same_msg(&sc, msg, got), &format!("output-differs@{m}-{side}"), ctx);
            let a: Vec<_> = reference.steps.iter().map(|s| &s.1).collect();
            let b: Vec<_> = rep.steps.iter().map(|s| &s.1).collect();
            w.want(a == b, &format!("continuation-differs@{m}"), || format!("{}: {a:?} vs {b:?}", ctx()));
        }
        // malformed base64 in the same state: error, no effects
        for _ in 0..4 {
            let bad = loop {
                let b = near_b64(rng);
                if unb64(&b).is_none() {
                    break b;
                }
            };
            let mut res = (R::Run, vec![], vec![]);
            replay(&sc, k, |p, _| {
                let o = p.step64(Some(&bad));
                res = (o.r.clone(), o.bytes, o.ev);
                (R::Err("stop".into()), vec![])
            });
            w.count("malformed_inputs");
            w.want(res.0.is_err() && res.1.is_empty() && res.2.is_empty(), &format!("malformed-base64@{m}-{side}"), || {
                format!("{m} {side} step {k}: input [{}] gave {:?}, wrote [{}], events {:?}", show(&bad), res.0, show(&res.1), res.2)
            });
        }
        // hostile bytes: raw and base64 agree (deterministic mechanisms; SCRAM by result and length)
        for _ in 0..3 {
            let h = if rng.chance(1, 2) { gen::blob(rng, 200) } else { gen::mutate(rng, msg) };
            let run = |b64in: bool| {
                let mut res = (R::Run, vec![], vec![]);
                replay(&sc, k, |p, _| {
                    let o = if b64in { p.step64(Some(&b64(&h))) } else { p.step(Some(&h)) };
                    let out = if b64in { unb64(&o.bytes).unwrap_or_else(|| b"<not base64>".to_vec()) } else { o.bytes };
                    res = (o.r.clone(), out, strip(&o.ev));
                    (R::Err("stop".into()), vec![])
                });
                res
            };
            let (a, b) = (run(false), run(true));
            w.count("hostile_pairs");
            let out_ok = a.0.is_err() || same_msg(&sc, &a.1, &b.1);
            w.want(a.0 == b.0 && a.2 == b.2 && out_ok, &format!("hostile-input-differs@{m}-{side}"), || {
                format!("{m} {side} step {k} input [{}]: raw {:?} [{}] {:?}, base64 {:?} [{}] {:?}", show(&h), a.0, show(&a.1), a.2, b.0, show(&b.1), b.2)
            });
        }
    }
}

pub fn run(r: &mut Run) {
    r.rule = "one evaluation = one step64 compared with the raw step (scripted custom mechanism or real mechanism); \
              non-trivial if there was input or output"
        .into();
    r.assumptions = vec!["what a failing step wrote is unspecified".into()];
    r.cases("scripted", r.n(300_000, 12_000_000), scripted);
    r.cases("real", r.n(24_000, 900_000), real);
    r.require("malformed_inputs", 20_000);
    r.require("messages_compared", 20_000);
    r.require("faults_hit", 5_000);
}
