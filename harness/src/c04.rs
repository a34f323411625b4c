//! C04: channel binding is enforced and cannot be downgraded.
use crate::cb::{HCb, Props};
use crate::drive::*;
use crate::gen;
use crate::prng::Rng;
use crate::refimpl::*;
use crate::report::{show, Run, W};
use crate::scram_util::*;
use serde_json::json;

fn subset(mask: usize, bare: &str, plus: &str) -> Vec<String> {
    let mut v = vec![];
    if mask & 1 != 0 {
        v.push(bare.to_string());
    }
    if mask & 2 != 0 {
        v.push(plus.to_string());
    }
    v
}
fn refs(v: &[String]) -> Vec<&str> {
    v.iter().map(String::as_str).collect()
}

/// many other mechanisms around those in question (registries are leaked, so from a bounded pool)
fn crowd(reg: &mut Vec<String>, rng: &mut Rng, not: &str) {
    let mut r = Rng::new(rng.below(200) as u64, "crowd", 0);
    let others: Vec<&str> = ALL.iter().copied().filter(|m| !m.starts_with(not)).collect();
    for _ in 0..r.range(1, 40) {
        let o = *r.pick(&others);
        let at = r.below(reg.len() + 1);
        reg.insert(at, o.to_string());
    }
}

/// (A) which variant is selected and which flag is sent: hash x registry x offer x order x cb x preference
fn flags(w: &mut W, rng: &mut Rng) {
    let mut k = w.case as usize;
    let mut take = |n: usize| {
        let v = k % n;
        k /= n;
        v
    };
    let h = HASHES[take(3)];
    let (reg_m, off_m, reg_rev, off_rev, cb, pref, noise) = (take(4), take(4), take(2), take(2), take(2), take(3), take(3));
    let (bare, plus) = (h.name().to_string(), format!("{}-PLUS", h.name()));
    let mut reg = subset(reg_m, &bare, &plus);
    let mut off = subset(off_m, &bare, &plus);
    if reg_rev == 1 {
        reg.reverse();
    }
    if off_rev == 1 {
        off.reverse();
    }
    // other mechanisms around it that must not influence the choice between the two
    let others: Vec<String> =
        SCRAM.iter().filter(|m| !m.starts_with(h.name())).chain(&["PLAIN", "EXTERNAL"]).map(|s| s.to_string()).collect();
    let prefer: Option<Vec<String>> = match pref {
        0 => None,
        1 => Some(vec![bare.clone(), plus.clone()]),
        _ => Some(vec![plus.clone(), bare.clone()]),
    };
    if noise > 0 && pref > 0 {
        for _ in 0..noise * 2 {
            let o = rng.pick(&others).clone();
            let at = rng.below(off.len() + 1);
            off.insert(at, o.clone());
            if rng.chance(1, 2) && !reg.contains(&o) {
                let at = rng.below(reg.len() + 1);
                reg.insert(at, o);
            }
        }
        if rng.chance(1, 6) {
            for i in 0..rng.below(200) {
                let at = rng.below(off.len() + 1);
                off.insert(at, format!("F-{i}"));
            }
        }
        if rng.chance(1, 2) && !off.is_empty() {
            let d = rng.pick(&off).clone();
            off.push(d);
        }
        // near misses of the PLUS name are not the PLUS name
        if rng.chance(1, 2) {
            let nm = *rng.pick(&["X", "SCRAM-SHA-", "-PLUS", "SCRAM-SHA-1-PLUS2", "SCRAM-SHA-256-PLU", "SCRAM-SHA-384-PLUS"]);
            off.push(nm.to_string());
        }
    }
    let rb = reg.contains(&bare);
    let rp = reg.contains(&plus);
    let ob = off.contains(&bare);
    let op = off.contains(&plus);
    let can_bare = rb && ob;
    let can_plus = rp && op && cb == 1;
    let n = rng.range(1, 50);
    let data = rng.bytes(n);
    let p = Props {
        authid: Some("user".into()),
        password: Some(b"pw".to_vec()),
        enable_cb: cb == 1,
        prefer,
        ..Props::default()
    };
    let r = Party::client_reg(&refs(&reg), &refs(&off), p, HCb::one("tls-exporter", &data));
    let want = match (can_bare, can_plus) {
        (false, false) => None,
        (true, false) => Some(&bare),
        (false, true) => Some(&plus),
        (true, true) => Some(if pref == 1 { &bare } else { &plus }),
    };
    let d = |x: &str| format!("registry {reg:?} offered {off:?} cb={cb} preference={pref}: {x}");
    w.eval((&reg, &off, cb, pref), true);
    match (r, want) {
        (Err(_), None) => w.count("no_shared_mechanism"),
        (Ok(p), None) => w.viol("unoffered-or-disabled-variant-selected", d(p.mech())),
        (Err(e), Some(m)) => w.viol("variant-not-selected", d(&format!("{e:?}, expected {m}"))),
        (Ok(mut p), Some(m)) => {
            let got = p.mech().to_string();
            if !w.want(got == *m, "wrong-variant-selected", || d(&format!("got {got} expected {m}"))) {
                return;
            }
            let o = p.step(None);
            let flag = o.bytes.split(|b| *b == b',').next().unwrap_or(b"").to_vec();
            let exp: &[u8] = if *m == plus {
                b"p=tls-exporter"
            } else if cb == 1 && !op {
                b"y"
            } else {
                b"n"
            };
            w.want(o.r == R::Run && flag == exp, "wrong-gs2-flag", || d(&format!("{m} sent {} expected flag {}", show(&o.bytes), show(exp))));
            w.count(&format!("flag_sent:{}", show(exp)));
            w.sample(|| json!({"registry": reg, "offered": off, "cb": cb, "selected": m, "client_first": show(&o.bytes)}));
        }
    }
}

const TYPES: [&str; 5] = ["tls-exporter", "tls-unique", "tls-server-end-point", "a", "X.y-9"];

/// (B) honest reference client with every flag against every server setup
fn server(w: &mut W, rng: &mut Rng) {
    let h = *rng.pick(&HASHES);
    let (bare, plus) = (h.name().to_string(), format!("{}-PLUS", h.name()));
    let sel_plus = rng.chance(1, 2);
    let sel = if sel_plus { &plus } else { &bare };
    let mut reg = match rng.below(3) {
        0 => vec![sel.clone()],
        1 => vec![bare.clone(), plus.clone()],
        _ => vec![plus.clone(), bare.clone()],
    };
    let only = reg.len() == 1;
    if rng.chance(1, 4) {
        let at = rng.below(reg.len() + 1);
        reg.insert(at, "PLAIN".into());
    }
    // another hash's PLUS does not make this one channel binding capable
    if rng.chance(1, 3) {
        let o = SCRAM.iter().find(|m| m.ends_with("PLUS") && !m.starts_with(h.name())).unwrap();
        let at = rng.below(reg.len() + 1);
        reg.insert(at, (*o).into());
    }
    if rng.chance(1, 6) {
        crowd(&mut reg, rng, h.name());
    }
    let c = cred(h, rng, 20);
    let t = *rng.pick(&TYPES);
    let other = *rng.pick(&TYPES.iter().copied().filter(|x| *x != t).collect::<Vec<_>>());
    let flag = match rng.below(4) {
        0 => "n".to_string(),
        1 => "y".to_string(),
        _ => format!("p={t}"),
    };
    let n = gen::size(rng, 300);
    let (d1, n2) = (rng.bytes(n), gen::size(rng, 300).max(1));
    let d2 = rng.bytes(n2);
    let mut s = Props { stored: vec![stored(&c)], enable_cb: rng.chance(1, 2), ..Props::default() };
    let mut hs = HCb::default();
    let src = rng.below(6);
    match src {
        0 => hs.data.push((t.into(), d1.clone())),
        1 => s.cbs.push((t.into(), d1.clone())),
        2 => {
            // both: the protocol's data wins
            hs.data.push((t.into(), d1.clone()));
            s.cbs.push((t.into(), d2.clone()));
        }
        3 => hs.data.push((other.into(), d1.clone())),
        4 => {
            hs.data.push((other.into(), d2.clone()));
            s.cbs.push((t.into(), d1.clone()));
        }
        _ => {}
    }
    let available = matches!(src, 0 | 1 | 2 | 4);
    // data the client binds to
    let cdata: Vec<u8> = match rng.below(6) {
        0 => d2.clone(),
        1 => vec![],
        2 => [&d1[..], b"x"].concat(),
        _ => d1.clone(),
    };
    let bound: &[u8] = if flag.starts_with('p') { &cdata } else { &[] };
    let cn = nonce(rng);
    let az = if rng.chance(1, 3) { Some(gen::prepped(rng, 10)) } else { None };
    let mut rc = RefClient::new(h, &flag, az.as_deref(), &c.user, &cn, bound);
    let mut p = match Party::server_reg(&refs(&reg), sel, s, hs) {
        Ok(p) => p,
        Err(e) => panic!("harness: server does not start {e:?}"),
    };
    let o = p.step(Some(&rc.first()));
    let mut o2 = None;
    let mut accepted = o.bytes.starts_with(b"v=") || o.validates() > 0;
    if o.r == R::Run {
        rc.server_first = o.bytes.clone();
        let full = parse_server_first(&o.bytes).map_or(vec![], |f| f.nonce);
        let x = p.step(Some(&rc.final_msg(&c.keys, &full)));
        accepted |= x.bytes.starts_with(b"v=") || x.validates() > 0;
        o2 = Some(x);
    }
    accepted |= p.validation().is_some();
    let same = available && cdata == d1;
    let may = match (sel_plus, flag.as_bytes()[0]) {
        (true, b'p') => same,
        (true, _) => false,
        (false, b'n') => true,
        (false, b'y') => only,
        // p= on the bare mechanism: only ever with the right data
        (false, _) => same,
    };
    let d = || {
        format!(
            "server {sel} registry {reg:?} flag {flag} source {src} (data available: {available}, equal: {}): {} -> {:?} {} ; {:?} {}",
            cdata == d1,
            show(&rc.first()),
            o.r,
            show(&o.bytes),
            o2.as_ref().map(|o| o.r.clone()),
            o2.as_ref().map_or(String::new(), |o| show(&o.bytes))
        )
    };
    w.eval((sel, &reg, &flag, src, &cdata, &d1), true);
    if !may {
        w.want(!accepted, "unbound-or-downgraded-client-accepted", d);
        w.count(&format!("server_refused:plus={sel_plus},flag={}", &flag[..1]));
        if flag.starts_with('p') && !available {
            w.want(o.r.is_err() && o.bytes.is_empty(), "step-proceeds-without-binding-data", d);
        }
    } else if sel_plus || flag.starts_with(['n', 'y']) {
        w.want(accepted, "correctly-bound-client-refused", d);
        w.count(&format!("server_accepted:plus={sel_plus},flag={}", &flag[..1]));
    }
}

/// (C) which type and data a -PLUS client uses
fn client_data(w: &mut W, rng: &mut Rng) {
    let h = *rng.pick(&HASHES);
    let m = format!("{}-PLUS", h.name());
    let c = cred(h, rng, 20);
    let mut p = Props { authid: Some(c.user.clone()), password: Some(c.pw.clone().into_bytes()), no_value: rng.chance(1, 4), ..Props::default() };
    if rng.chance(1, 3) {
        p.override_cb = Some(rng.pick(&TYPES).to_string());
    }
    let mut hc = HCb::default();
    let mut pick = |v: &mut Vec<(String, Vec<u8>)>, rng: &mut Rng| {
        for t in TYPES {
            if rng.chance(1, 3) {
                let n = gen::size(rng, 100);
                v.push((t.into(), rng.bytes(n)));
            }
        }
    };
    pick(&mut hc.data, rng);
    pick(&mut p.cbs, rng);
    let get = |t: &str| -> Option<Vec<u8>> {
        hc.data.iter().find(|x| x.0 == t).or_else(|| p.cbs.iter().find(|x| x.0 == t)).map(|x| x.1.clone())
    };
    let want: Option<(String, Vec<u8>)> = match &p.override_cb {
        Some(t) => get(t).map(|d| (t.clone(), d)),
        None => ["tls-exporter", "tls-unique"].iter().find_map(|t| get(t).map(|d| (t.to_string(), d))),
    };
    let desc = format!("{m} override {:?} protocol {:?} callback {:?}", p.override_cb, hc.data, p.cbs);
    let mut s = Party::client(&m, p, hc);
    let o = s.step(None);
    w.eval(&desc, true);
    let Some((t, data)) = want else {
        w.want(o.r.is_err() && o.bytes.is_empty(), "client-proceeds-without-binding-data", || format!("{desc}: {:?} {}", o.r, show(&o.bytes)));
        w.count("client_without_data");
        return;
    };
    let cn = o.bytes.split(|b| *b == b',').next_back().and_then(|n| n.strip_prefix(b"r=")).unwrap_or(b"").to_vec();
    let mut rc = RefClient::new(h, &format!("p={t}"), None, &c.user, &cn, &data);
    if !w.want(o.r == R::Run && o.bytes == rc.first(), "wrong-binding-type-announced", || format!("{desc}: {:?} {}", o.r, show(&o.bytes))) {
        return;
    }
    let full = [&cn[..], &nonce(rng)].concat();
    rc.server_first = [&b"r="[..], &full, b",s=", &b64(&c.salt), b",i=", c.it.to_string().as_bytes()].concat();
    let o = s.step(Some(&rc.server_first));
    let fin = rc.final_msg(&c.keys, &full);
    w.want(o.bytes == fin, "wrong-binding-data-used", || format!("{desc}: {:?} {} expected {}", o.r, show(&o.bytes), show(&fin)));
    w.count(&format!("client_used:{t}"));
}

/// (D) somebody edits the GS2 header or the offer between a library client and a library server
fn mitm(w: &mut W, rng: &mut Rng) {
    let h = *rng.pick(&HASHES);
    let (bare, plus) = (h.name().to_string(), format!("{}-PLUS", h.name()));
    let c = cred(h, rng, 20);
    let n = rng.range(1, 60);
    let d = rng.bytes(n);
    let mut d2 = d.clone();
    let i = rng.below(n);
    d2[i] ^= 1 << rng.below(8);
    let types = ["tls-exporter", "tls-unique"];
    let (ct, st) = (*rng.pick(&types), *rng.pick(&types));
    let same_data = rng.chance(1, 2);
    let sd = if same_data { &d } else { &d2 };
    // the attacker shows the client a reduced offer
    let off: Vec<&str> = match rng.below(3) {
        0 => vec![&bare],
        1 => vec![&plus],
        _ => vec![&bare, &plus],
    };
    let cb = rng.chance(3, 4);
    let cp = Props { authid: Some(c.user.clone()), password: Some(c.pw.clone().into_bytes()), enable_cb: cb, ..Props::default() };
    let Ok(mut cl) = Party::client_reg(&[&bare, &plus], &off, cp, HCb::one(ct, &d)) else {
        w.count("mitm_nothing_selected");
        return;
    };
    let used_plus = cl.mech() == plus;
    // ... and possibly asks the server for the other variant
    let lie = rng.chance(1, 4);
    let sel = if used_plus != lie { &plus } else { &bare };
    let sp = Props { stored: vec![stored(&c)], ..Props::default() };
    let mut hs = HCb::one(st, sd);
    if rng.chance(1, 2) {
        let o = if st == types[0] { types[1] } else { types[0] };
        hs.data.push((o.into(), sd.clone()));
    }
    let have = hs.data.iter().any(|x| x.0 == ct);
    let mut sv = Party::server_reg(&[&bare, &plus], sel, sp, hs).unwrap_or_else(|e| panic!("harness: {e:?}"));
    let edit = rng.below(8);
    let new_flag = *rng.pick(&["n", "y", "p=tls-unique", "p=tls-exporter", "p=x"]);
    let mut changed = false;
    let ex = exchange(&mut cl, &mut sv, |i, server, m| {
        if i == 0 && !server && edit < 5 {
            let at = m.iter().position(|b| *b == b',').unwrap_or(0);
            if &m[..at] != new_flag.as_bytes() {
                m.splice(..at, new_flag.bytes());
                changed = true;
            }
        }
    });
    let accepted = ex.s.is_fin() && sv.events().iter().any(crate::cb::Ev::is_validate) || sv.validation().is_some();
    // the client was shown an offer without PLUS although the server has it: its `y` must be refused
    let stripped = cb && !off.contains(&&plus[..]);
    let may = !changed
        && if used_plus { have && same_data } else { sel == &bare && !stripped };
    let desc = || format!("client {} (offer {off:?}, cb {cb}, type {ct}) server {sel} type {st} same data {same_data} flag edited {changed} to {new_flag}: {}", if used_plus { &plus } else { &bare }, ex.show());
    w.eval((used_plus, sel, ct, st, same_data, changed, new_flag, &off, cb, &d), true);
    if may {
        if sel == &plus || !used_plus {
            w.want(accepted && ex.c == R::FinNo, "honest-exchange-refused", desc);
            w.count("mitm_honest_accepted");
        }
    } else {
        w.want(!accepted && !ex.c.is_fin(), "downgrade-or-relay-accepted", desc);
        w.count("mitm_refused");
        if stripped && !changed {
            w.count("mitm_stripped_offer_refused");
        }
    }
}

pub fn run(r: &mut Run) {
    r.rule = "one case is one (registry, offer, flag, binding source, edit) configuration driven through start and exchange; distinct by that configuration \
              and the binding data"
        .into();
    r.assumptions = vec![
        "a client is channel-binding capable if its callback enables channel binding (enable_channel_binding)".into(),
        "a server offers -PLUS if its configuration enables it".into(),
        "p= on a bare mechanism may be accepted or refused as long as the data matches".into(),
    ];
    // full table (3*4*4*2*2*2*3) times the noise variants, repeated with different noise
    let table = 3 * 4 * 4 * 2 * 2 * 2 * 3 * 3;
    r.cases("flags", table * r.n(20, 400), flags);
    r.cases("server", r.n(150_000, 4_000_000), server);
    r.cases("client-data", r.n(100_000, 3_000_000), client_data);
    r.cases("mitm", r.n(100_000, 3_000_000), mitm);
    for k in ["flag_sent:y", "flag_sent:n", "flag_sent:p=tls-exporter", "server_accepted:plus=true,flag=p", "server_accepted:plus=false,flag=y", "server_refused:plus=true,flag=n", "client_without_data", "mitm_honest_accepted", "mitm_stripped_offer_refused"] {
        r.require(k, 100);
    }
}
