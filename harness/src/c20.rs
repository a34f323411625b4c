//! C20: turn order and termination of honest exchanges.
use crate::c10::Scen;
use crate::cb::HCb;
use crate::drive::*;
use crate::prng::Rng;
use crate::refimpl::{b64, unb64};
use crate::report::{show, Run, W};
use serde_json::json;

/// what each mechanism prescribes: (server?, result) of every step, in turn
fn script(m: &str, rejected: bool) -> Vec<(bool, R)> {
    let (c, s) = (false, true);
    match m {
        "LOGIN" => vec![(s, R::Run), (c, R::Run), (s, R::Run), (c, R::FinYes), (s, R::FinNo)],
        "PLAIN" | "ANONYMOUS" | "EXTERNAL" => vec![(c, R::FinYes), (s, R::FinNo)],
        // the server answers nothing or an empty message; the client then has to be stepped a last time
        "XOAUTH2" | "OAUTHBEARER" if !rejected => vec![(c, R::Run), (s, R::FinNo), (c, R::FinNo)],
        "XOAUTH2" | "OAUTHBEARER" => vec![(c, R::Run), (s, R::Run), (c, R::FinYes), (s, R::FinNo)],
        _ => vec![(c, R::Run), (s, R::Run), (c, R::Run), (s, R::FinYes), (c, R::FinNo)],
    }
}

fn case(w: &mut W, rng: &mut Rng) {
    let m = ALL[(w.case as usize) % ALL.len()];
    let oauth = m == "XOAUTH2" || m == "OAUTHBEARER";
    let variant = if oauth { rng.below(4) } else { *rng.pick(&[0, 0, 3, 1]) };
    let mut sc = Scen::random(m, rng, if m.starts_with("SCRAM") && variant == 1 { 0 } else { variant });
    let rejected = sc.what == "token rejected";
    let scram = m.starts_with("SCRAM");
    // more ways to hold the same credential
    if scram {
        match rng.below(4) {
            0 => {
                let st = &sc.s.stored[0];
                let k = crate::refimpl::keys(hash_of(m), sc.c.password.as_ref().unwrap(), &st.salt, st.iterations);
                if rng.chance(1, 2) {
                    sc.c.salted = Some(k.salted);
                } else {
                    sc.c.cached = Some((k.client, k.server));
                }
                sc.c.password = None;
            }
            1 => sc.c.authzid = None,
            _ => {}
        }
    }
    sc.c.no_value = rng.chance(1, 4);
    // empty values where a mechanism can carry them
    if rng.chance(1, 6) {
        let e = Some(String::new());
        match m {
            "LOGIN" => match rng.below(3) {
                0 => sc.c.authid = e,
                1 => sc.c.password = Some(vec![]),
                _ => (sc.c.authid, sc.c.password) = (e, Some(vec![])),
            },
            "XOAUTH2" => match rng.below(3) {
                0 => sc.c.authid = e,
                1 => sc.c.token = e,
                _ => (sc.c.authid, sc.c.token) = (e.clone(), e),
            },
            "OAUTHBEARER" => match rng.below(3) {
                0 => sc.c.authzid = e,
                1 => sc.c.token = e,
                _ => sc.c.kv = Some(vec![("k".into(), String::new())]),
            },
            "PLAIN" | "EXTERNAL" => sc.c.authzid = e,
            "ANONYMOUS" => sc.c.anon = e,
            _ => {}
        }
        w.count("empty_values");
    }
    // start through different registries and offers
    let (mut c, mut s) = if rng.chance(1, 2) {
        sc.parties()
    } else {
        let mut names: Vec<&str> = ALL.iter().copied().filter(|n| *n == m || rng.chance(1, 3)).collect();
        rng.shuffle(&mut names);
        // enabling the -PLUS variant makes a server insist on it if the client could have used it
        names.retain(|n| *n == m || !n.ends_with("-PLUS"));
        let mut off: Vec<&str> = ALL.iter().copied().filter(|n| *n == m || (rng.chance(1, 3) && !n.ends_with("-PLUS"))).collect();
        rng.shuffle(&mut off);
        let mut cp = sc.c.clone();
        cp.prefer = Some(vec![m.to_string()]);
        cp.enable_cb |= m.ends_with("-PLUS");
        let c = Party::client_reg(&names, &off, cp, sc.hc.clone());
        let s = Party::server_reg(&names, m, sc.s.clone(), HCb { data: sc.hs.data.clone(), log: None });
        match (c, s) {
            (Ok(c), Ok(s)) => (c, s),
            (c, s) => {
                w.viol(format!("cannot-start@{m}"), format!("{m} registry {names:?} offer {off:?}: client {:?} server {:?}", c.err(), s.err()));
                return;
            }
        }
    };
    let use64 = [rng.chance(1, 3), rng.chance(1, 3)];
    let want = script(m, rejected);
    w.eval((m, variant, &sc.c.authid, &sc.c.authzid, &sc.c.kv, &sc.c.password, &sc.c.token, use64, w.case), true);
    let (cf, sf) = (c.first(), s.first());
    let d0 = format!("{m} ({}): client first {cf}, server first {sf}", sc.what);
    if !w.want(cf != sf && sf == (m == "LOGIN") && c.mech() == m && s.mech() == m, &format!("turn-order@{m}"), || d0.clone()) {
        return;
    }
    // the drivers know nothing about mechanisms: they only look at are_we_first and State
    let mut server = sf;
    let mut input: Option<Vec<u8>> = None;
    let mut done = [false, false];
    let mut trace = vec![];
    let mut sent = 0;
    for _ in 0..10 {
        let p = if server { &mut s } else { &mut c };
        let six = use64[usize::from(server)];
        let o = if six {
            let i = input.as_ref().map(|i| b64(i));
            let mut o = p.step64(i.as_deref());
            match unb64(&o.bytes) {
                Some(b) => o.bytes = b,
                None if o.r.is_err() => {}
                None => {
                    w.viol(format!("not-base64@{m}"), format!("{d0}: {}", show(&o.bytes)));
                    return;
                }
            }
            o
        } else {
            p.step(input.as_deref())
        };
        trace.push((server, o.r.clone(), show(&o.bytes)));
        w.count("steps");
        let ctx = || format!("{d0}: {trace:?}");
        if o.r.is_err() {
            w.viol(format!("honest-exchange-fails@{m}"), format!("{} {:?}", ctx(), o.err));
            return;
        }
        done[usize::from(server)] = o.r.is_fin();
        let layer = p.layer();
        w.want(!layer, &format!("security-layer@{m}"), ctx);
        w.want(p.mech() == m && p.first() == (server == sf), &format!("session-identity-changes@{m}"), ctx);
        match o.r {
            R::FinNo => {
                w.want(o.bytes.is_empty(), &format!("no-message-but-bytes@{m}"), ctx);
                if done == [true, true] {
                    break;
                }
                // nothing was sent: the other side may only be stepped without data or with an empty message
                input = if oauth && rng.chance(1, 2) { Some(vec![]) } else { None };
                if !oauth {
                    w.viol(format!("peer-left-waiting@{m}"), ctx());
                    return;
                }
            }
            _ => {
                sent += 1;
                if done[usize::from(!server)] {
                    w.viol(format!("message-to-finished-peer@{m}"), ctx());
                    return;
                }
                input = Some(o.bytes);
            }
        }
        server = !server;
    }
    let got: Vec<(bool, R)> = trace.iter().map(|t| (t.0, t.1.clone())).collect();
    w.want(done == [true, true], &format!("does-not-terminate@{m}"), || format!("{d0}: {trace:?}"));
    w.want(got == want, &format!("unexpected-turns@{m}"), || format!("{d0}: {trace:?} expected {want:?}"));
    w.count(&format!("completed:{m}"));
    w.add("messages", sent);
    w.sample(|| json!({"mech": m, "scenario": sc.what, "base64": use64, "trace": format!("{trace:?}")}));
}

/// one side against a peer that says anything: whatever the state promises about the message has to be true
fn any_peer(w: &mut W, rng: &mut Rng) {
    let m = ALL[(w.case as usize) % ALL.len()];
    let oauth = m == "XOAUTH2" || m == "OAUTHBEARER";
    let variant = if oauth { rng.below(4) } else { 0 };
    let sc = Scen::random(m, rng, variant);
    let (mut c, mut s) = sc.parties();
    let server = rng.chance(1, 2);
    // most successful steps a session of this side can make
    let most = match (m, server) {
        ("LOGIN", true) => 3,
        ("LOGIN", false) => 2,
        ("PLAIN" | "ANONYMOUS" | "EXTERNAL", _) => 1,
        ("XOAUTH2" | "OAUTHBEARER", _) => 2,
        (_, true) => 2,
        (_, false) => 3,
    };
    let mut input: Option<Vec<u8>> = None;
    let (me, peer) = if server { (&mut s, &mut c) } else { (&mut c, &mut s) };
    let mut trace = vec![];
    let mut ok = 0;
    w.eval((m, server, w.case), true);
    if !me.first() {
        let o = peer.step(None);
        if !o.r.is_err() {
            input = Some(o.bytes);
        }
    }
    for turn in 0..6 {
        let honest = input.clone();
        let given = match rng.below(6) {
            0 => None,
            1 => Some(vec![]),
            2 => Some(crate::gen::blob(rng, 40)),
            3 => Some(rng.pick::<&[u8]>(&[b"Username:", b"User Name", b"Password:", b"VXNlcm5hbWU6", b"\0", b" ", b"+", b"e=other-error", b"{}", b"\x01", b"*"]).to_vec()),
            _ if turn == 0 && me.first() => None,
            _ => honest,
        };
        let o = me.step(given.as_deref());
        trace.push((given.as_deref().map(show), o.r.clone(), show(&o.bytes)));
        let ctx = || format!("{m} ({}) {}: {trace:?}", sc.what, if server { "server" } else { "client" });
        w.count("steps_with_any_peer");
        if o.r == R::FinNo {
            w.want(o.bytes.is_empty(), &format!("no-message-but-bytes@{m}"), ctx);
        }
        if o.r.is_err() {
            w.want(m != "LOGIN" || server, "login-client-reads-prompts", ctx);
            break;
        }
        ok += 1;
        w.want(ok <= most, &format!("too-many-steps@{m}"), ctx);
        if m == "LOGIN" && !server {
            w.want(o.r == [R::Run, R::FinYes][usize::from(ok == 2)], "login-client-reads-prompts", ctx);
        }
        w.count(&format!("any:{m}:{:?}", o.r));
        if o.r.is_fin() {
            break;
        }
        let a = peer.step(Some(&o.bytes));
        input = if !a.r.is_err() { Some(a.bytes) } else { None };
    }
}

pub fn run(r: &mut Run) {
    r.rule = "one evaluation = one complete exchange of matching credentials driven only by are_we_first and State; distinct by mechanism, credential and driver".into();
    r.assumptions = vec![
        "a client whose last step is Running is stepped without data when the server finished without a message (documented duty of the caller)".into(),
    ];
    r.cases("honest", r.n(240_000, 9_000_000), case);
    r.cases("any-peer", r.n(80_000, 3_000_000), any_peer);
    for m in ["any:LOGIN:FinYes", "any:LOGIN:FinNo", "any:XOAUTH2:FinYes", "any:XOAUTH2:FinNo", "any:OAUTHBEARER:FinYes", "any:PLAIN:FinNo", "any:PLAIN:FinYes"] {
        r.require(m, 100);
    }
    for m in ALL {
        r.require(&format!("completed:{m}"), 1000);
    }
    crate::c18::gss_share(r, &["gss-turn", "gss-negotiation-fails"], 40_000);
}
