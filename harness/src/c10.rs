//! C10: a step that succeeds delivered its whole message; a writer fault anywhere makes the step fail.
use crate::cb::{HCb, OAns, Props};
use crate::drive::*;
use crate::gen;
use crate::io::{End, Wr};
use crate::prng::Rng;
use crate::refimpl::unb64;
use crate::report::{show, Run, W};
use serde_json::json;
use std::io::ErrorKind;

#[derive(Clone)]
pub struct Scen {
    pub m: &'static str,
    pub c: Props,
    pub s: Props,
    pub hc: HCb,
    pub hs: HCb,
    pub what: &'static str,
}
impl Scen {
    /// honest exchanges and exchanges in which one side answers with an error message
    pub fn random(m: &'static str, rng: &mut Rng, variant: usize) -> Self {
        let (c, s, hc, hs) = honest(m, rng);
        let mut x = Scen { m, c, s, hc, hs, what: "honest" };
        let scram = m.starts_with("SCRAM");
        match variant % 4 {
            1 if scram => {
                // the decoy has a high iteration count: cached keys avoid computing it thousands of times
                x.s.stored.clear();
                let n = hash_of(m).len();
                x.c.cached = Some((rng.bytes(n), rng.bytes(n)));
                x.what = "unknown user";
            }
            2 if scram => {
                x.c.password = Some(gen::word(rng).into_bytes());
                x.what = "wrong password";
            }
            3 if scram && !m.ends_with("-PLUS") => {
                x.c.enable_cb = false;
                x.what = "honest2";
            }
            1 | 2 if m == "XOAUTH2" || m == "OAUTHBEARER" => {
                let t = loop {
                    let t = gen::nasty(rng);
                    if !t.is_empty() {
                        break t;
                    }
                };
                let opt = |rng: &mut Rng| rng.chance(1, 2).then(|| gen::nasty(rng));
                let r = OAns::Reject(t, opt(rng), opt(rng));
                x.s.oauth = r.clone();
                x.s.xoauth = r;
                x.what = "token rejected";
            }
            1 if m == "EXTERNAL" || m == "ANONYMOUS" => {
                x.c.authzid = None;
                x.c.anon = None;
                x.what = "empty message";
            }
            _ => {}
        }
        x
    }
    pub fn parties(&self) -> (Party, Party) {
        (Party::client(self.m, self.c.clone(), self.hc.clone()), Party::server(self.m, self.s.clone(), self.hs.clone()))
    }
    /// bytes of data both applications hand to their sessions
    pub fn weight(&self) -> u64 {
        let h = |h: &HCb| h.data.iter().map(|(k, v)| k.len() + v.len()).sum::<usize>();
        (self.c.weight() + self.s.weight() + h(&self.hc) + h(&self.hs)) as u64
    }
    pub fn scram(&self) -> bool {
        self.m.starts_with("SCRAM")
    }
}

/// one step of an exchange, done by `f` for step `at`
pub struct Rep {
    pub steps: Vec<(bool, R, Vec<u8>)>,
}
pub fn replay(sc: &Scen, at: usize, mut f: impl FnMut(&mut Party, Option<&[u8]>) -> (R, Vec<u8>)) -> Rep {
    let (mut c, mut s) = sc.parties();
    let mut server = s.first();
    let mut input: Option<Vec<u8>> = None;
    let mut rep = Rep { steps: vec![] };
    let (mut cf, mut sf) = (false, false);
    for i in 0..12 {
        let p = if server { &mut s } else { &mut c };
        let (r, bytes) = if i == at {
            f(p, input.as_deref())
        } else {
            let o = p.step(input.as_deref());
            (o.r, o.bytes)
        };
        rep.steps.push((server, r.clone(), bytes.clone()));
        if server {
            sf |= r.is_fin();
        } else {
            cf |= r.is_fin();
        }
        if r.is_err() || r == R::FinNo || (server && cf) || (!server && sf) {
            break;
        }
        input = Some(bytes);
        server = !server;
    }
    rep
}

/// does `got` carry the same message as the reference run's `want`? (SCRAM messages contain fresh nonces: same
/// length and the same fixed parts)
pub fn same_msg(sc: &Scen, want: &[u8], got: &[u8]) -> bool {
    if !sc.scram() {
        return want == got;
    }
    let (a, b): (Vec<&[u8]>, Vec<&[u8]>) = (want.split(|c| *c == b',').collect(), got.split(|c| *c == b',').collect());
    if want.len() != got.len() || a.len() != b.len() {
        return false;
    }
    a.iter().zip(&b).enumerate().all(|(i, (x, y))| {
        if x.len() != y.len() {
            return false;
        }
        let fresh = x.starts_with(b"r=") || x.starts_with(b"p=") && i == 2 || x.starts_with(b"v=") || (x.starts_with(b"s=") && sc.s.stored.is_empty());
        if fresh {
            x[..2] == y[..2] && y.iter().all(|c| (0x21..=0x7e).contains(c))
        } else {
            x == y
        }
    })
}

fn shape(rng: &mut Rng, end: End) -> Wr {
    let chunks = match rng.below(5) {
        0 => vec![1],
        1 => vec![2, 3, 5],
        2 => (0..rng.range(1, 4)).map(|_| rng.range(1, 40)).collect(),
        _ => vec![],
    };
    let int = *rng.pick(&[0usize, 0, 1, 2, 3]);
    let vectored = rng.chance(1, 2);
    Wr::new(chunks, int, vectored, end)
}

/// one step of an exchange into one writer
fn one(w: &mut W, sc: &Scen, reference: &Rep, k: usize, b64: bool, mut wr: Wr) {
    let m = sc.m;
    let (server, r0, msg) = &reference.steps[k];
    let desc = wr.clone();
    let rep = replay(sc, k, |p, i| {
        let r = if b64 {
            let e = i.map(crate::refimpl::b64);
            p.raw64(e.as_deref(), &mut wr)
        } else {
            p.raw(i, &mut wr)
        };
        let got = if b64 { unb64(&wr.got).unwrap_or_default() } else { wr.got.clone() };
        (R::of(&r), got)
    });
    let (_, r, got) = &rep.steps[k];
    w.count("steps");
    w.count(if *server { "server_steps" } else { "client_steps" });
    w.eval((w.case, k, b64, format!("{:?}{:?}{}{}", desc.end, desc.chunks, desc.interrupt, desc.vectored)), wr.refused > 0 || !desc.chunks.is_empty() || desc.interrupt > 0);
    let side = if *server { "server" } else { "client" };
    let ctx = || {
        format!("{m} {side} step {k} ({}), base64={b64}, writer {desc:?}: result {r:?} with {:?} accepted bytes [{}], honest run {r0:?} [{}]",
            sc.what, wr.got.len(), show(&wr.got), show(msg))
    };
    let tag = if b64 { "64" } else { "" };
    if wr.refused > 0 {
        w.count("faults_hit");
        w.want(r.is_err(), &format!("fault-reported-as-success{tag}@{m}-{side}"), ctx);
    } else if r.is_err() {
        w.viol(format!("good-writer-fails{tag}@{m}-{side}"), ctx());
    } else {
        w.count("complete_messages");
        let wire_ok = !b64 || unb64(&wr.got).is_some();
        let ok = r == r0 && wire_ok && same_msg(sc, msg, got);
        if w.want(ok, &format!("incomplete-message{tag}@{m}-{side}"), ctx) {
            // and the peer can go on with it exactly as with the honest message
            let a: Vec<_> = reference.steps.iter().map(|s| &s.1).collect();
            let b: Vec<_> = rep.steps.iter().map(|s| &s.1).collect();
            w.want(a == b, &format!("peer-cannot-continue{tag}@{m}"), || format!("{}; states {a:?} vs {b:?}", ctx()));
        }
    }
}

fn case(w: &mut W, rng: &mut Rng) {
    let m = ALL[(w.case as usize) % ALL.len()];
    let sc = Scen::random(m, rng, (w.case as usize) / ALL.len());
    let reference = replay(&sc, usize::MAX, |_, _| unreachable!());
    for (k, (server, r0, msg)) in reference.steps.iter().enumerate() {
        if r0.is_err() {
            continue;
        }
        for b64 in [false, true] {
            let wire_len = if b64 { msg.len().div_ceil(3) * 4 } else { msg.len() };
            // fault-free but awkward writers, then a fault at every byte offset
            let mut plans: Vec<End> = (0..24).map(|_| End::Never).collect();
            let stride = if w.thorough || wire_len < 400 { 1 } else { wire_len / 400 + 1 };
            let mut at = if stride > 1 { rng.below(stride) } else { 0 };
            while at <= wire_len + 1 {
                plans.push(End::Zero(at));
                let kinds = [ErrorKind::BrokenPipe, ErrorKind::WouldBlock, ErrorKind::WriteZero, ErrorKind::Other, ErrorKind::UnexpectedEof, ErrorKind::TimedOut];
                plans.push(End::Err(at, *rng.pick(&kinds)));
                plans.push(End::Once(at, *rng.pick(&kinds)));
                at += stride;
            }
            for end in plans {
                let wr = shape(rng, end);
                one(w, &sc, &reference, k, b64, wr);
            }
        }
        w.sample(|| json!({"mech": m, "scenario": sc.what, "step": k, "side": if *server {"server"} else {"client"}, "message": show(msg), "offsets": msg.len()+2}));
    }
}

/// messages of up to 70 kB, cut around the borders of their fields
fn long(w: &mut W, rng: &mut Rng) {
    let m = ALL[(w.case as usize) % ALL.len()];
    let mut sc = Scen::random(m, rng, 0);
    let text = |rng: &mut Rng| {
        let n = *rng.pick(&[300usize, 1000, 1024, 2048, 3000, 4096, 5000, 8192, 12_000, 20_000, 66_000]);
        let n = n + rng.below(9);
        (0..n).map(|_| (b'a' + rng.below(26) as u8) as char).collect::<String>()
    };
    match m {
        "ANONYMOUS" => sc.c.anon = Some(text(rng)),
        "EXTERNAL" => sc.c.authzid = Some(text(rng)),
        "LOGIN" | "PLAIN" => {
            if rng.chance(1, 2) {
                sc.c.authid = Some(text(rng));
            }
            if rng.chance(1, 2) {
                sc.c.password = Some(text(rng).into_bytes());
            }
            if m == "PLAIN" && rng.chance(1, 2) {
                sc.c.authzid = Some(text(rng));
            }
        }
        "XOAUTH2" | "OAUTHBEARER" => {
            sc.c.token = Some(text(rng));
            if m == "XOAUTH2" {
                sc.c.authid = Some(text(rng));
            } else if rng.chance(1, 2) {
                sc.c.kv = Some(vec![("host".into(), text(rng)), ("port".into(), "143".into())]);
            }
            if rng.chance(1, 2) {
                let r = OAns::Reject(text(rng), None, Some(text(rng)));
                sc.s.oauth = r.clone();
                sc.s.xoauth = r;
            }
        }
        _ => {
            let h = hash_of(m);
            if rng.chance(1, 2) {
                let u = text(rng);
                sc.s.stored[0].user = u.clone();
                sc.c.authid = Some(u);
            }
            if rng.chance(1, 2) {
                sc.c.authzid = Some(text(rng));
            }
            if rng.chance(1, 2) {
                let (salt, it) = (text(rng).into_bytes(), sc.s.stored[0].iterations);
                let k = crate::refimpl::keys(h, sc.c.password.as_ref().unwrap(), &salt, it);
                sc.s.stored[0] = Stored2::of(&sc.s.stored[0].user, it, &salt, &k);
            }
            if m.ends_with("-PLUS") {
                let d = text(rng).into_bytes();
                sc.hc = HCb::one("tls-exporter", &d);
                sc.hs = HCb::one("tls-exporter", &d);
            }
        }
    }
    sc.what = "long fields";
    let reference = replay(&sc, usize::MAX, |_, _| unreachable!());
    for (k, (_, r0, msg)) in reference.steps.iter().enumerate() {
        if r0.is_err() || msg.is_empty() {
            continue;
        }
        let e = w.acc.counters.entry("max_message_bytes".into()).or_insert(0);
        *e = (*e).max(msg.len() as u64);
        let mut borders: Vec<usize> = msg.iter().enumerate().filter(|(_, b)| matches!(b, b',' | b'=' | b':' | 0 | 1)).map(|(i, _)| i).collect();
        borders.push(msg.len());
        for _ in 0..if msg.len() > 400 { 12 } else { 2 } {
            let b64 = rng.chance(1, 4);
            let len = if b64 { msg.len().div_ceil(3) * 4 } else { msg.len() };
            let near = *rng.pick(&borders) * len / msg.len();
            let cut = (near + 5).saturating_sub(rng.below(11)).clamp(1, len);
            let chunks = match rng.below(4) {
                0 => vec![cut, 1, 1, 2, 1 << 30],
                1 => vec![1, cut, 1 << 30],
                2 => vec![*rng.pick(&[512usize, 1000, 1024, 2048, 4096, 8192, 16_384])],
                _ => vec![cut, 1 << 30],
            };
            let end = match rng.below(6) {
                0 => End::Zero(cut),
                1 => End::Err(cut, ErrorKind::BrokenPipe),
                2 => End::Once(cut, ErrorKind::WouldBlock),
                _ => End::Never,
            };
            one(w, &sc, &reference, k, b64, Wr::new(chunks, *rng.pick(&[0usize, 0, 2, 3]), rng.chance(2, 3), end));
            w.count(if msg.len() > 400 { "long_messages" } else { "long_exchanges_short_messages" });
        }
    }
}

pub fn run(r: &mut Run) {
    r.rule = "one evaluation = one step with one writer plan (fault kind x byte offset x chunking x interrupts x vectored), \
              raw and base64; non-trivial if a fault fired or the writer split the message"
        .into();
    r.assumptions = vec!["a writer answering Interrupted is retried (std::io::Write contract)".into()];
    r.cases("writers", r.n(720, 24_000), case);
    r.cases("long", r.n(600, 20_000), long);
    r.require("long_messages", 3_000);
    r.require("faults_hit", 20_000);
    r.require("complete_messages", 5_000);
    crate::c18::gss_share(r, &["gss-truncated-message", "gss-encode-write-failure", "gss-decode-write-failure"], 40_000);
}
