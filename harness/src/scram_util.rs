//! Shared SCRAM helpers: reference verdict on a client-final message, random credentials.
use crate::gen;
use crate::prng::Rng;
use crate::refimpl::{keys, unb64, unesc, xor, Hash, Keys};

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Verdict {
    Accept,
    Reject,
    /// covered by a valid proof, but not derived by the plain grammar (extensions)
    Either,
}

/// Client-first message split at the byte level: (gs2 header, bare, flag, authzid, user, nonce)
pub struct RawFirst {
    pub gs2: Vec<u8>,
    pub bare: Vec<u8>,
    pub flag: Vec<u8>,
    pub authzid: Option<String>,
    pub user: Option<String>,
    pub nonce: Vec<u8>,
}
pub fn raw_first(m: &[u8]) -> Option<RawFirst> {
    let parts: Vec<&[u8]> = m.split(|b| *b == b',').collect();
    if parts.len() < 4 {
        return None;
    }
    let gl = parts[0].len() + parts[1].len() + 2;
    let authzid = parts[1].strip_prefix(b"a=").and_then(|a| std::str::from_utf8(a).ok()).and_then(unesc);
    let user = parts[2].strip_prefix(b"n=").and_then(|a| std::str::from_utf8(a).ok()).and_then(unesc);
    let nonce = parts[3].strip_prefix(b"r=")?.to_vec();
    Some(RawFirst { gs2: m[..gl].to_vec(), bare: m[gl..].to_vec(), flag: parts[0].to_vec(), authzid, user, nonce })
}

/// May a server holding `stored` accept `fin`? `first`/`server_first` are the bytes that travelled.
pub fn verdict(h: Hash, stored: &[u8], first: &[u8], cbdata: &[u8], server_first: &[u8], fin: &[u8]) -> Verdict {
    use Verdict::{Accept, Either, Reject};
    let Some(rf) = raw_first(first) else { return Reject };
    let Some(sf) = server_first.split(|b| *b == b',').next().and_then(|p| p.strip_prefix(b"r=")) else { return Reject };
    let parts: Vec<&[u8]> = fin.split(|b| *b == b',').collect();
    if parts.len() < 3 {
        return Reject;
    }
    let Some(c) = parts[0].strip_prefix(b"c=").and_then(unb64) else { return Reject };
    let Some(r) = parts[1].strip_prefix(b"r=") else { return Reject };
    let Some(p) = parts[parts.len() - 1].strip_prefix(b"p=").and_then(unb64) else { return Reject };
    if c != [&rf.gs2[..], cbdata].concat() || r != sf || p.len() != h.len() {
        return Reject;
    }
    let ext = &parts[2..parts.len() - 1];
    if ext.iter().any(|e| e.starts_with(b"m=") || e.starts_with(b"p=")) {
        return Reject;
    }
    let wl = fin.len() - parts[parts.len() - 1].len() - 1;
    let am = [&rf.bare[..], b",", server_first, b",", &fin[..wl]].concat();
    let sig = h.hmac(stored, &[&am]);
    if stored.len() != h.len() || h.digest(&[&xor(&p, &sig)]) != stored {
        return Reject;
    }
    if ext.is_empty() && crate::refimpl::parse_client_first(first).is_some() {
        Accept
    } else {
        Either
    }
}

#[derive(Clone, Debug)]
pub struct Cred {
    pub user: String,
    pub pw: String,
    pub salt: Vec<u8>,
    pub it: u32,
    pub keys: Keys,
}
pub fn cred(h: Hash, rng: &mut Rng, max: usize) -> Cred {
    let user = gen::prepped(rng, max);
    let pw = gen::prepped(rng, max * 2);
    let n = gen::size(rng, 300).max(1);
    let salt = rng.bytes(n);
    let it = *rng.pick(&[1u32, 1, 1, 2, 2, 3, 5]);
    let keys = keys(h, pw.as_bytes(), &salt, it);
    Cred { user, pw, salt, it, keys }
}
/// an iteration count for credentials from which nobody derives keys any more
pub fn any_count(rng: &mut Rng) -> u32 {
    let n = *rng.pick(&[4096u32, 10_000, 100_000, 600_000, 1_000_000, 16_777_216, 0x7fff_ffff, u32::MAX - 70]);
    (n - 2).saturating_add(rng.below(70) as u32)
}
pub fn stored(c: &Cred) -> crate::cb::Stored {
    crate::drive::Stored2::of(&c.user, c.it, &c.salt, &c.keys)
}
/// client nonce: printable, no comma
pub fn nonce(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.below(6) {
        0 => rng.range(1, 8),
        1 => rng.range(100, 300),
        _ => rng.range(16, 40),
    };
    (0..n)
        .map(|_| loop {
            let b = 0x21 + rng.below(0x5e) as u8;
            if b != b',' {
                break b;
            }
        })
        .collect()
}
