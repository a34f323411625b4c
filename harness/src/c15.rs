//! C15: a step without peer data never advances an exchange that needs it.
use crate::c10::{replay, same_msg, Scen};
use crate::cb::{Ev, Props};
use crate::drive::*;
use crate::prng::Rng;
use crate::refimpl::b64;
use crate::report::{show, Run, W};
use serde_json::json;

/// Does this step need the peer's message? (None: the property does not say)
pub fn needs(m: &str, server: bool, k: usize) -> Option<bool> {
    match (m, server) {
        // the prompts of LOGIN servers carry no information, the initial steps have no peer message
        ("LOGIN", false) | ("EXTERNAL" | "ANONYMOUS", _) | ("PLAIN", false) => None,
        ("LOGIN", true) => Some(k > 0),
        // documented: the last step of the client may come without data, the last one of the server ignores it
        ("XOAUTH2" | "OAUTHBEARER", _) => Some(k == 1),
        ("PLAIN", true) => Some(true),
        _ => Some(k > 0),
    }
}
fn strip(ev: &[Ev]) -> Vec<Ev> {
    // nonces are not in any context, decoy salts are fresh
    ev.iter()
        .map(|e| match e {
            Ev::Req { prop, ctx, mech, server } => {
                let mut ctx = ctx.clone();
                ctx.salt = None;
                Ev::Req { prop, ctx, mech: mech.clone(), server: *server }
            }
            e => e.clone(),
        })
        .collect()
}

fn case(w: &mut W, rng: &mut Rng) {
    let m = ALL[(w.case as usize) % ALL.len()];
    let sc = Scen::random(m, rng, (w.case as usize) / ALL.len());
    let mut evs = vec![];
    let reference = replay(&sc, usize::MAX, |_, _| unreachable!());
    for k in 0..reference.steps.len() {
        replay(&sc, k, |p, i| {
            let o = p.step(i);
            evs.push(strip(&o.ev));
            (o.r, o.bytes)
        });
    }
    for (k, (server, r0, msg)) in reference.steps.iter().enumerate() {
        if needs(m, *server, k) != Some(true) {
            continue;
        }
        for _ in 0..2 {
            let plan: Vec<bool> = (0..rng.range(1, 4)).map(|_| rng.chance(1, 3)).collect();
            let last64 = rng.chance(1, 4);
            let mut bad = vec![];
            let mut real: Option<Vec<Ev>> = None;
            let side = if *server { "server" } else { "client" };
            let rep = replay(&sc, k, |p, i| {
                for six in &plan {
                    let o = if *six { p.step64(None) } else { p.step(None) };
                    let mut why = vec![];
                    if !o.r.is_err() {
                        why.push("success");
                    } else if !input_required(&o.err) {
                        why.push("other-error");
                    }
                    if !o.bytes.is_empty() {
                        why.push("writes");
                    }
                    if !o.ev.is_empty() {
                        why.push("callback");
                    }
                    if p.validation().is_some() {
                        why.push("validation");
                    }
                    for y in why {
                        bad.push((y, format!("{:?} [{}] {:?} {:?}", o.r, show(&o.bytes), o.err, o.ev)));
                    }
                }
                let o = if last64 {
                    let e = i.map(b64);
                    let mut o = p.step64(e.as_deref());
                    if let Some(b) = crate::refimpl::unb64(&o.bytes) {
                        o.bytes = b;
                    }
                    o
                } else {
                    p.step(i)
                };
                real = Some(strip(&o.ev));
                (o.r, o.bytes)
            });
            w.add("steps_without_data", plan.len() as u64);
            w.count(&format!("state:{m}-{side}-{k}"));
            w.eval((w.case, k, &plan, last64), true);
            let ctx = || format!("{m} {side} step {k} ({}) after {} steps without data", sc.what, plan.len());
            for (y, d) in bad {
                w.viol(format!("{y}-without-data@{m}-{side}"), format!("{}: {d}", ctx()));
            }
            let (_, r, got) = &rep.steps[k];
            w.want(r == r0 && (r.is_err() || same_msg(&sc, msg, got)), &format!("session-damaged@{m}-{side}"), || {
                format!("{}: then {r:?} [{}], without them {r0:?} [{}]", ctx(), show(got), show(msg))
            });
            w.want(real.as_ref() == Some(&evs[k]), &format!("callbacks-differ@{m}-{side}"), || format!("{}: {real:?} vs {:?}", ctx(), evs[k]));
            let a: Vec<_> = reference.steps.iter().map(|s| &s.1).collect();
            let b: Vec<_> = rep.steps.iter().map(|s| &s.1).collect();
            w.want(a == b, &format!("continuation-differs@{m}"), || format!("{}: {a:?} vs {b:?}", ctx()));
        }
    }
    w.sample(|| json!({"mech": m, "scenario": sc.what, "steps": reference.steps.len()}));
}

/// the same state is also unharmed for a hostile message: it is judged as without the insertion
fn hostile(w: &mut W, rng: &mut Rng) {
    let m = ALL[(w.case as usize) % ALL.len()];
    let sc = Scen::random(m, rng, (w.case as usize) / ALL.len());
    let reference = replay(&sc, usize::MAX, |_, _| unreachable!());
    for (k, (server, _, _)) in reference.steps.iter().enumerate() {
        if needs(m, *server, k) != Some(true) {
            continue;
        }
        let honest_in = if k == 0 { vec![] } else { reference.steps[k - 1].2.clone() };
        let fixed = if rng.chance(1, 3) { crate::gen::blob(rng, 60) } else { crate::gen::mutate(rng, &honest_in) };
        // SCRAM messages after the first depend on fresh nonces: edits whose effect does not depend on them
        let edit = (k > 1 && sc.scram() && rng.chance(2, 3)).then(|| (rng.below(5), rng.range(1, 30)));
        let h = std::cell::RefCell::new(vec![]);
        let run = |n: usize| {
            let mut out = (R::Run, vec![], vec![]);
            replay(&sc, k, |p, i| {
                for _ in 0..n {
                    p.step(None);
                }
                let m = match (edit, i) {
                    (Some((e, n)), Some(i)) => {
                        let mut parts: Vec<&[u8]> = i.split(|b| *b == b',').collect();
                        let at = n % parts.len();
                        match e {
                            0 => i[..i.len().saturating_sub(n)].to_vec(),
                            1 => [i, &vec![b'A'; n][..]].concat(),
                            2 => {
                                parts.remove(at);
                                parts.join(&b","[..])
                            }
                            3 => {
                                parts.insert(at, b"x=ext");
                                parts.join(&b","[..])
                            }
                            _ => i[n.min(i.len())..].to_vec(),
                        }
                    }
                    _ => fixed.clone(),
                };
                let o = p.step(Some(&m));
                *h.borrow_mut() = m;
                out = (o.r.clone(), o.bytes, strip(&o.ev));
                (R::Err("stop".into()), vec![])
            });
            out
        };
        let (a, b) = (run(0), run(rng.range(1, 3)));
        let side = if *server { "server" } else { "client" };
        w.count("hostile_pairs");
        let h = h.borrow();
        w.eval((w.case, k, &*h), true);
        // an edited name may be unknown: then the salt is fresh, too
        let mut sc2 = sc.clone();
        sc2.s.stored.clear();
        w.want(a.0 == b.0 && a.2 == b.2 && (a.0.is_err() || same_msg(&sc2, &a.1, &b.1)), &format!("hostile-differs@{m}-{side}"), || {
            format!("{m} {side} step {k} input [{}]: {:?} [{}] {:?} but after a step without data {:?} [{}] {:?}", show(&h), a.0, show(&a.1), a.2, b.0, show(&b.1), b.2)
        });
    }
}

/// a SCRAM client must not finish if the server's last message never comes
fn missing_end(w: &mut W, rng: &mut Rng) {
    let m = SCRAM[(w.case as usize) % SCRAM.len()];
    let sc = Scen::random(m, rng, 0);
    let _: &Props = &sc.c;
    let mut bad = None;
    let mut hit = false;
    replay(&sc, 4, |p, _| {
        hit = true;
        for n in 0..3 {
            let o = p.step(None);
            if !o.r.is_err() || !o.ev.is_empty() || !o.bytes.is_empty() {
                bad = Some(format!("call {n}: {:?} {:?}", o.r, o.ev));
            }
        }
        // an empty message is not the verifier either
        let o = p.step(Some(b""));
        if !o.r.is_err() || !o.ev.is_empty() {
            bad = Some(format!("empty message: {:?} {:?}", o.r, o.ev));
        }
        (R::Err("stop".into()), vec![])
    });
    w.eval((w.case, m), hit);
    if hit {
        w.count("missing_final_message");
    }
    if let Some(b) = bad {
        w.viol(format!("finished-without-server-final@{m}"), b);
    }
}

pub fn run(r: &mut Run) {
    r.rule = "one evaluation = one data-requiring state of one exchange, entered 1 to 4 times without data (raw or base64) before the real message; \
              compared with the same exchange without these calls"
        .into();
    r.assumptions = vec![
        "LOGIN clients, the initial steps of client-first clients, EXTERNAL and ANONYMOUS servers (None reads as empty, tested upstream) and the last OAuth steps do not need peer data".into(),
    ];
    r.cases("inserted", r.n(36_000, 1_400_000), case);
    r.cases("hostile", r.n(36_000, 1_400_000), hostile);
    r.cases("missing-end", r.n(6_000, 200_000), missing_end);
    for s in ["PLAIN-server-1", "LOGIN-server-2", "LOGIN-server-4", "XOAUTH2-server-1", "OAUTHBEARER-server-1", "SCRAM-SHA-1-server-1", "SCRAM-SHA-256-server-3",
        "SCRAM-SHA-512-client-2", "SCRAM-SHA-512-PLUS-client-4", "SCRAM-SHA-256-PLUS-client-2"] {
        r.require(&format!("state:{s}"), 500);
    }
    r.require("missing_final_message", 1000);
    crate::c18::gss_share(r, &["gss-no-data"], 40_000);
}
