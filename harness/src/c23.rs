//! C23: SCRAM messages are read exactly as the grammar of RFC 5802 defines them.
use crate::c08::{edit, saslname};
use crate::cb::{Ctx, Ev, HCb, Props};
use crate::drive::*;
use crate::gen;
use crate::prng::Rng;
use crate::refimpl::*;
use crate::report::{show, Run, W};
use crate::scram_util::{any_count, cred, nonce, stored};
use serde_json::json;

#[derive(Clone, Debug, PartialEq, Eq)]
enum Read<T> {
    /// the grammar derives the message
    Must(T),
    /// refused, or accepted with exactly these fields
    Either(T),
    Reject,
}
fn printable(n: &[u8]) -> bool {
    !n.is_empty() && n.iter().all(|b| (0x21..=0x7e).contains(b) && *b != b',')
}
fn name_of(p: &[u8]) -> Option<String> {
    let n = unesc(std::str::from_utf8(p).ok()?)?;
    (!n.is_empty()).then_some(n)
}
/// attr-val = ALPHA "=" value, and not the reserved `m=`
fn extensions(parts: &[&[u8]]) -> bool {
    parts.iter().all(|p| match p {
        [a, b'=', v @ ..] => a.is_ascii_alphabetic() && *a != b'm' && !v.is_empty() && !v.contains(&0) && std::str::from_utf8(v).is_ok(),
        _ => false,
    })
}
#[derive(Clone, Debug, PartialEq, Eq)]
struct First {
    cbname: Option<String>,
    flag: u8,
    authzid: Option<String>,
    user: String,
    nonce: Vec<u8>,
    gs2: usize,
}
fn read_first(m: &[u8]) -> Read<First> {
    let parts: Vec<&[u8]> = m.split(|b| *b == b',').collect();
    if parts.len() < 4 {
        return Read::Reject;
    }
    let cbname = match parts[0] {
        b"n" | b"y" => None,
        [b'p', b'=', n @ ..] if !n.is_empty() && n.iter().all(|b| b.is_ascii_alphanumeric() || matches!(b, b'.' | b'-')) => {
            Some(String::from_utf8(n.to_vec()).unwrap())
        }
        _ => return Read::Reject,
    };
    let authzid = match parts[1] {
        [] => None,
        [b'a', b'=', n @ ..] => match name_of(n) {
            Some(n) => Some(n),
            None => return Read::Reject,
        },
        _ => return Read::Reject,
    };
    let Some(user) = parts[2].strip_prefix(b"n=").and_then(name_of) else { return Read::Reject };
    let Some(nonce) = parts[3].strip_prefix(b"r=").filter(|n| printable(n)) else { return Read::Reject };
    // reserved: fails the authentication wherever it is
    if parts[4..].iter().any(|p| p.starts_with(b"m=")) {
        return Read::Reject;
    }
    let gs2 = parts[0].len() + parts[1].len() + 2;
    let f = First { cbname, flag: parts[0][0], authzid, user, nonce: nonce.to_vec(), gs2 };
    if extensions(&parts[4..]) {
        Read::Must(f)
    } else {
        Read::Either(f)
    }
}
const EXT: [&[u8]; 14] = [
    b"x=y", b"e=1", b"Z=a=b", b"z=\xc3\xa9", b"a=other", b"n=other", b"r=other", b"x=", b"xx", b"", b"m=must", b"1=x", b"x=\0", b"p=cDA=",
];
fn exts(rng: &mut Rng, one_in: usize) -> Vec<u8> {
    let mut v = vec![];
    if rng.chance(1, one_in) {
        for _ in 0..rng.range(1, 3) {
            v.push(b',');
            v.extend_from_slice(rng.pick::<&[u8]>(&EXT));
        }
    }
    v
}
fn edits(rng: &mut Rng, v: &mut Vec<u8>) {
    let seps: [&[u8]; 16] =
        [b",", b"=", b"n=", b"r=", b"a=", b"m=", b"p=", b"n,", b"y,", b",,", b"s=", b"i=", b"c=", b",m=x", b" ", b"\0"];
    for _ in 0..*rng.pick(&[0usize, 0, 0, 1, 1, 2, 3]) {
        edit(rng, v, &seps);
    }
}

/// a server reads a first message and, if it goes on, a final message whose proof covers whatever was sent
fn server(w: &mut W, rng: &mut Rng) {
    let h = *rng.pick(&HASHES);
    let plus = rng.chance(1, 3);
    let m = if plus { format!("{}-PLUS", h.name()) } else { h.name().to_string() };
    let mut c = cred(h, rng, 40);
    if rng.chance(1, 6) {
        c.it = any_count(rng);
    }
    let mut first = match rng.below(12) {
        0 => rng.pick::<&[u8]>(&[b"", b"p", b"p=", b"N", b"Y", b"nn", b"n ", b"p=a b", b"p=\xc3\xa9", b"p=a_b", b"P=x", b"p:x", b"=", b"f=n"]).to_vec(),
        1..=3 if !plus => b"y".to_vec(),
        _ if plus => [b"p=", *rng.pick::<&[u8]>(&[b"tls-exporter", b"x", b"A.b-9", b"tls-unique", b"."])].concat(),
        _ => b"n".to_vec(),
    };
    if first.len() > 2 && rng.chance(1, 3) {
        // any byte in a name
        let i = rng.range(2, first.len());
        first.insert(i, rng.below(256) as u8);
    }
    first.push(b',');
    if rng.chance(1, 2) {
        first.extend_from_slice(rng.pick::<&[u8]>(&[b"a=", b"a=", b"a=", b"a=", b"a=", b"a=", b"A=", b"", b"n=", b"a", b"a= "]));
        first.extend(saslname(rng));
    }
    first.push(b',');
    if rng.chance(1, 20) {
        first.extend_from_slice(rng.pick::<&[u8]>(&[b"m=x,", b"m=,", b"m,", b"x=y,", b",", b"M=x,"]));
    }
    first.extend_from_slice(if rng.chance(1, 30) { b"N=" } else { b"n=" });
    let odd = rng.chance(1, 2);
    if odd {
        first.extend(saslname(rng));
    } else {
        first.extend_from_slice(esc(&c.user).as_bytes());
    }
    first.extend_from_slice(b",r=");
    let mut n = nonce(rng);
    match rng.below(16) {
        0 => n.clear(),
        1 => {
            let at = rng.below(n.len() + 1);
            n.insert(at, *rng.pick(&[0u8, 1, 9, 10, 13, b' ', 0x7f, 0x80, 0xff, 0xc3]));
        }
        2 => n.truncate(1),
        _ => {}
    }
    first.extend(&n);
    first.extend(exts(rng, 4));
    if rng.chance(1, 2) {
        edits(rng, &mut first);
    }
    let read = read_first(&first);
    let data = rng.bytes(12);
    let mut props = Props { stored: vec![stored(&c)], ..Props::default() };
    let mut hs = HCb::default();
    if let Read::Must(f) | Read::Either(f) = &read {
        if let Some(n) = &f.cbname {
            if rng.chance(1, 2) {
                hs = HCb::one(n, &data);
            } else {
                props.cbs = vec![(n.clone(), data.clone())];
            }
        }
        // the user whom the message names is the one with the credential
        props.stored[0].user = f.user.clone();
    }
    if let (Read::Reject, Some(n)) = (&read, first.strip_prefix(b"p=")) {
        // no lack of data stands between an underivable name and an answer
        let n = n.split(|b| *b == b',').next().unwrap_or(b"");
        props.cbs = vec![(String::from_utf8_lossy(n).into_owned(), data.clone())];
    }
    let mut s = Party::server(&m, props, hs);
    let six = rng.chance(1, 6);
    let o = if six { s.step64(Some(&b64(&first))) } else { s.step(Some(&first)) };
    let out = if six { unb64(&o.bytes).unwrap_or_default() } else { o.bytes.clone() };
    w.eval((&m, &first), true);
    let ok = !o.r.is_err();
    let ctx = || format!("{m} client-first [{}]: grammar says {read:?}, server {:?} [{}], callbacks {:?}", show(&first), o.r, show(&out), o.ev);
    w.want(o.validates() == 0, "validates-first", ctx);
    let asked = o.ev.iter().any(|e| e.req() == Some("ScramStoredPassword"));
    let f = match &read {
        Read::Reject => {
            w.want(!ok && out.is_empty(), "accepts-underivable-first", ctx);
            w.want(!asked, "asks-for-underivable-user", ctx);
            w.count("first_rejected");
            return;
        }
        Read::Must(f) | Read::Either(f) => f,
    };
    // C04 judges which flags which mechanism takes
    if (plus && f.cbname.is_none()) || (!plus && f.cbname.is_some() && !ok) {
        w.want(!ok, "unbound", ctx);
        w.count("first_of_other_binding");
        return;
    }
    let want = Ctx { authid: Some(f.user.clone()), authzid: f.authzid.clone(), ..Ctx::default() };
    for e in &o.ev {
        let good = match e {
            Ev::Req { prop, ctx, .. } if *prop == "ChannelBindings" => {
                *ctx == Ctx { cbname: f.cbname.clone(), ..want.clone() } && f.cbname.is_some()
            }
            Ev::Req { ctx, .. } => *ctx == want,
            Ev::CbData { name, .. } => Some(name) == f.cbname.as_ref(),
            _ => false,
        };
        w.want(good, "reads-other-fields", || format!("{e:?}: {}", ctx()));
    }
    if !ok {
        w.want(matches!(read, Read::Either(_)), "refuses-derivable-first", ctx);
        w.count("open_first_rejected");
        return;
    }
    w.count(if matches!(read, Read::Must(_)) { "first_accepted" } else { "open_first_accepted" });
    if first.windows(2).any(|x| x == b"=2" || x == b"=3") {
        w.count("first_with_escapes");
    }
    let good = asked && o.r == R::Run && parse_server_first(&out).is_some_and(|sf| sf.nonce.len() > f.nonce.len() && sf.nonce.starts_with(&f.nonce) && sf.salt == c.salt && sf.iterations == c.it);
    if !w.want(good, "server-first", ctx) {
        return;
    }
    let full = parse_server_first(&out).unwrap().nonce;
    // the final message
    let gs2 = &first[..f.gs2];
    let bind: &[u8] = if f.cbname.is_some() { &data } else { &[] };
    let cb = b64(&[gs2, bind].concat());
    let mut parts: Vec<Vec<u8>> = vec![[b"c=", &cb[..]].concat(), [b"r=", &full[..]].concat()];
    match rng.below(14) {
        0 => parts.swap(0, 1),
        1 => {
            let i = rng.below(2);
            parts.remove(i);
        }
        2 => {
            let i = rng.below(2);
            let p = parts[i].clone();
            parts.insert(i, p);
        }
        3 => {
            let i = rng.below(2);
            parts[i] = gen::mutate(rng, &parts[i]);
        }
        4 => {
            let i = rng.below(2);
            parts[i][0] ^= 0x20;
        }
        5 => {
            let i = rng.below(3);
            parts.insert(i, rng.pick::<&[u8]>(&EXT).to_vec());
        }
        6 => {
            while parts[0].last() == Some(&b'=') {
                parts[0].pop();
            }
        }
        _ => {}
    }
    let mut wp = parts.join(&b","[..]);
    wp.extend(exts(rng, 3));
    let am = [&first[f.gs2..], b",", &out, b",", &wp].concat();
    let proof = b64(&xor(&c.keys.client, &h.hmac(&c.keys.stored, &[&am])));
    let mut fin = [&wp[..], b",p=", &proof].concat();
    let tail = rng.chance(1, 12);
    if tail {
        fin.extend_from_slice(rng.pick::<&[u8]>(&[b",x=y", b",", b",p=", b"=", b" ", b"\0", b",r="]));
    }
    // at most one derivation: c, r, extensions, proof, end
    let fp: Vec<&[u8]> = wp.split(|b| *b == b',').collect();
    let plain = !tail && fp.len() >= 2 && fp[0] == [b"c=", &cb[..]].concat() && fp[1] == [b"r=", &full[..]].concat();
    let (must, may) = (plain && extensions(&fp[2..]) && !fp[2..].iter().any(|p| p.starts_with(b"p=")), plain && !fp[2..].iter().any(|p| p.starts_with(b"m=") || p.starts_with(b"p=")));
    let o2 = s.step(Some(&fin));
    let accepted = o2.r.is_fin() && o2.bytes.starts_with(b"v=");
    let ctx2 = || format!("{m} client-first [{}] final [{}] must {must} may {may}: {:?} [{}] {:?}", show(&first), show(&fin), o2.r, show(&o2.bytes), o2.ev);
    w.want(accepted || !must || matches!(read, Read::Either(_)), "refuses-derivable-final", ctx2);
    w.want(!accepted || may, "accepts-underivable-final", ctx2);
    w.want(accepted == (o2.validates() == 1), "validates-final", ctx2);
    for e in &o2.ev {
        w.want(matches!(e, Ev::Validate { ctx, .. } if *ctx == want), "reads-other-fields", || format!("{e:?}: {}", ctx2()));
    }
    w.count(match (must, may) {
        (true, _) => "final_derivable",
        (_, true) => "final_open",
        _ => "final_rejected",
    });
    w.sample(|| json!({"mechanism": m, "first": show(&first), "final": show(&fin), "accepted": accepted}));
}

/// a client reads a server-first message
fn client(w: &mut W, rng: &mut Rng) {
    let h = *rng.pick(&HASHES);
    let m = h.name();
    let c = cred(h, rng, 30);
    let cached = rng.chance(2, 3);
    let mut p = Props { authid: Some(c.user.clone()), password: Some(c.pw.clone().into_bytes()), max_iter: 8, ..Props::default() };
    if cached {
        p.cached = Some((c.keys.client.clone(), c.keys.server.clone()));
    }
    let mut cl = Party::client(m, p, HCb::default());
    let first = cl.step(None).bytes;
    let Some(cf) = parse_client_first(&first) else {
        w.viol("client-first", format!("{m} [{}]", show(&first)));
        return;
    };
    let mut n = cf.nonce.clone();
    let more = nonce(rng);
    match rng.below(16) {
        0 => {}
        1 => {
            n.extend(&more);
            let at = rng.range(cf.nonce.len(), n.len());
            n.insert(at, *rng.pick(&[0u8, 1, 9, 10, 13, b' ', 0x7f, 0x80, 0xff, 0xc3]));
        }
        2 => {
            n.insert(0, b'x');
            n.extend(&more);
        }
        3 => {
            let i = rng.below(n.len());
            n[i] ^= *rng.pick(&[1, 0x20]);
            n.extend(&more);
        }
        4 => n = more,
        _ => n.extend(&more),
    }
    let it = if cached && rng.chance(1, 2) { *rng.pick(&[4096, 10_000, 65_536, 0x7fff_ffff, 0x8000_0000, u32::MAX]) } else { c.it };
    let mut salt = b64(&c.salt);
    if rng.chance(1, 8) {
        salt = match rng.below(6) {
            0 => vec![],
            1 => b"====".to_vec(),
            2 => {
                while salt.last() == Some(&b'=') {
                    salt.pop();
                }
                salt
            }
            3 => b"_-__".to_vec(),
            4 => b"QQ==QQ==".to_vec(),
            _ => gen::mutate(rng, &salt),
        };
    }
    let its = match rng.below(16) {
        0 => rng.pick::<&[u8]>(&[b"", b"0", b"00", b"-1", b"+1", b" 1", b"1 ", b"1e1", b"0x10", b"1.0", b"4294967296", b"99999999999999999999", b"\xd9\xa1", b"1\0", b"1\n", b"1_0"]).to_vec(),
        1 => format!("{}{it}", "0".repeat(rng.range(1, 3))).into_bytes(),
        _ => it.to_string().into_bytes(),
    };
    let mut parts: Vec<Vec<u8>> = vec![[b"r=", &n[..]].concat(), [b"s=", &salt[..]].concat(), [b"i=", &its[..]].concat()];
    match rng.below(20) {
        0 => {
            let (i, j) = (rng.below(3), rng.below(3));
            parts.swap(i, j);
        }
        1 => {
            let i = rng.below(3);
            parts.remove(i);
        }
        2 => {
            let i = rng.below(4);
            parts.insert(i, rng.pick::<&[u8]>(&EXT).to_vec());
        }
        3 => {
            let i = rng.below(3);
            let j = rng.below(2);
            parts[i][j] ^= 0x20;
        }
        4 => {
            let i = rng.below(3);
            let p = parts[i].clone();
            parts.insert(i, p);
        }
        _ => {}
    }
    let mut msg = parts.join(&b","[..]);
    msg.extend(exts(rng, 12));
    if rng.chance(1, 3) {
        edits(rng, &mut msg);
    }
    // judge the bytes that are sent
    let fp: Vec<&[u8]> = msg.split(|b| *b == b',').collect();
    let read: Read<(Vec<u8>, u32, Vec<u8>)> = (|| {
        if fp.len() < 3 {
            return Read::Reject;
        }
        let Some(r) = fp[0].strip_prefix(b"r=").filter(|r| r.len() > cf.nonce.len() && r.starts_with(&cf.nonce) && printable(r)) else {
            return Read::Reject;
        };
        let (Some(s), Some(i)) = (fp[1].strip_prefix(b"s="), fp[2].strip_prefix(b"i=")) else { return Read::Reject };
        let Some(salt) = unb64(s) else { return Read::Reject };
        if i.is_empty() || !i.iter().all(u8::is_ascii_digit) || i.iter().all(|d| *d == b'0') {
            return Read::Reject;
        }
        let Ok(it) = std::str::from_utf8(i).unwrap().parse::<u32>() else { return Read::Reject };
        let v = (salt, it, r.to_vec());
        if fp.len() > 3 || i[0] == b'0' || s.is_empty() {
            Read::Either(v)
        } else {
            Read::Must(v)
        }
    })();
    let six = rng.chance(1, 6);
    let o = if six { cl.step64(Some(&b64(&msg))) } else { cl.step(Some(&msg)) };
    let out = if six { unb64(&o.bytes).unwrap_or_default() } else { o.bytes.clone() };
    w.eval((m, &fp[1..], cached), true);
    let ctx = || format!("{m} own nonce {} server-first [{}]: grammar says {read:?}, client {:?} [{}], callbacks {:?}", show(&cf.nonce), show(&msg), o.r, show(&out), o.ev);
    let (salt, it, full) = match &read {
        Read::Reject => {
            w.want(o.r.is_err() && out.is_empty(), "accepts-underivable-server-first", ctx);
            w.want(o.ev.is_empty(), "asks-after-underivable-server-first", ctx);
            w.count("server_first_rejected");
            return;
        }
        Read::Must(v) | Read::Either(v) => v.clone(),
    };
    for e in &o.ev {
        let good = matches!(e, Ev::Req { ctx, .. } if *ctx == Ctx { salt: Some(salt.clone()), iterations: Some(it), ..Ctx::default() });
        w.want(good, "reads-other-fields", || format!("{e:?}: {}", ctx()));
    }
    if o.r.is_err() {
        // an application that limits the iteration count
        let limited = !cached && it > 8;
        w.want(limited || matches!(read, Read::Either(_)), "refuses-derivable-server-first", ctx);
        w.count("open_server_first_rejected");
        return;
    }
    let k = if cached { c.keys.clone() } else { keys(h, c.pw.as_bytes(), &salt, it) };
    let wp = [&b"c=biws,r="[..], &full].concat();
    let am = [&cf.bare[..], b",", &msg, b",", &wp].concat();
    let proof = b64(&xor(&k.client, &h.hmac(&k.stored, &[&am])));
    w.want(o.r == R::Run && out == [&wp[..], b",p=", &proof].concat(), "client-final", ctx);
    w.count(if matches!(read, Read::Must(_)) { "server_first_accepted" } else { "open_server_first_accepted" });
}

/// what a client sends for any names is derivable and means exactly these names, or it sends nothing
fn sent(w: &mut W, rng: &mut Rng) {
    let h = *rng.pick(&HASHES);
    let plus = rng.chance(1, 3);
    let m = if plus { format!("{}-PLUS", h.name()) } else { h.name().to_string() };
    let name = |rng: &mut Rng| {
        let mut n = if rng.chance(1, 2) { gen::nasty(rng) } else { gen::word(rng) };
        if rng.chance(1, 3) {
            let at: Vec<usize> = (0..=n.len()).filter(|i| n.is_char_boundary(*i)).collect();
            let c = if rng.chance(1, 3) { '\0' } else { char::from(rng.below(256) as u8) };
            n.insert(*rng.pick(&at), c);
        }
        n
    };
    let mut p = Props { authid: Some(name(rng)), password: Some(b"p".to_vec()), ..Props::default() };
    if rng.chance(1, 2) {
        p.authzid = Some(name(rng));
    }
    let t = *rng.pick(&["tls-exporter", "tls-unique", "x", "A.9-z"]);
    let mut hc = HCb::default();
    if plus {
        hc = HCb::one(t, &rng.bytes(9));
        if !t.starts_with("tls") || rng.chance(1, 4) {
            p.override_cb = Some(t.to_string());
        }
    }
    let bad = |n: &str| n.is_empty() || n.contains('\0');
    let sendable = !bad(p.authid.as_ref().unwrap()) && !p.authzid.as_deref().is_some_and(bad);
    let mut c = Party::client(&m, p.clone(), hc);
    let six = rng.chance(1, 6);
    let o = if six { c.step64(None) } else { c.step(None) };
    let out = if six { unb64(&o.bytes).unwrap_or_default() } else { o.bytes.clone() };
    w.eval((&m, &p.authid, &p.authzid), true);
    let ctx = || format!("{m} authid {:?} authzid {:?}: {:?} [{}]", p.authid, p.authzid, o.r, show(&out));
    if o.r.is_err() {
        w.want(!sendable, "refuses-sendable-names", ctx);
        w.want(o.bytes.is_empty(), "output-of-failed-step", ctx);
        w.count("unsendable_names");
        return;
    }
    let good = match read_first(&out) {
        Read::Must(f) => {
            Some(&f.user) == p.authid.as_ref() && f.authzid == p.authzid && f.cbname.as_deref() == plus.then_some(t) && out.ends_with(&[b",r=", &f.nonce[..]].concat())
        }
        _ => false,
    };
    w.want(good, "sends-underivable-first", ctx);
    w.count("names_sent");
}

pub fn run(r: &mut Run) {
    r.rule = "one evaluation = one raw client-first or server-first message judged by the independent grammar; distinct by content".into();
    r.assumptions = vec![
        "malformed optional extensions, leading zeros of an iteration count, an empty salt and extensions of server-first messages may be refused or accepted".into(),
        "which channel binding flags a mechanism takes is judged by C04".into(),
    ];
    r.cases("server", r.n(120_000, 4_000_000), server);
    r.cases("client", r.n(80_000, 3_000_000), client);
    r.cases("sent", r.n(30_000, 1_000_000), sent);
    for k in ["unsendable_names", "names_sent", "first_rejected", "first_accepted", "open_first_accepted", "first_with_escapes", "final_derivable", "final_open", "final_rejected", "server_first_rejected", "server_first_accepted"] {
        r.require(k, 1000);
    }
}
