//! Independent readers of the client messages of the simple mechanisms.
use crate::cb::Ctx;

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum Ver {
    /// the grammar derives the message: accepted with exactly these fields
    Must(Ctx),
    /// the grammar leaves it open: refused, or accepted with exactly these fields
    Either(Ctx),
    Reject,
}

fn utf8(b: &[u8]) -> Option<String> {
    String::from_utf8(b.to_vec()).ok()
}
fn prep(s: &str) -> Option<String> {
    stringprep::saslprep(s).ok().map(|c| c.into_owned()).filter(|s| !s.is_empty())
}

pub fn plain(m: &[u8]) -> Ver {
    let parts: Vec<&[u8]> = m.split(|b| *b == 0).collect();
    let [az, id, pw] = parts[..] else { return Ver::Reject };
    let (Some(az), Some(id)) = (utf8(az), utf8(id).and_then(|s| prep(&s))) else { return Ver::Reject };
    if pw.is_empty() {
        return Ver::Reject;
    }
    let mk = |p: Vec<u8>| Ctx { authzid: Some(az.clone()), authid: Some(id.clone()), password: Some(p), ..Ctx::default() };
    match utf8(pw) {
        // the library documents that it hands out passwords which are not text as they are
        None => Ver::Either(mk(pw.to_vec())),
        Some(p) => match prep(&p) {
            None => Ver::Reject,
            Some(p) => Ver::Must(mk(p.into_bytes())),
        },
    }
}
pub fn login(user: &[u8], pw: &[u8]) -> Ver {
    let Some(u) = utf8(user) else { return Ver::Reject };
    let c = Ctx { authid: Some(u.clone()), password: Some(pw.to_vec()), ..Ctx::default() };
    if u.is_empty() || pw.is_empty() {
        Ver::Either(c)
    } else {
        Ver::Must(c)
    }
}
pub fn external(m: &[u8]) -> Ver {
    match utf8(m) {
        Some(s) if !s.contains('\0') => Ver::Must(Ctx { authzid: Some(s), ..Ctx::default() }),
        _ => Ver::Reject,
    }
}
pub fn anonymous(m: &[u8]) -> Ver {
    match utf8(m) {
        Some(s) => Ver::Must(Ctx { anon: Some(s), ..Ctx::default() }),
        None => Ver::Reject,
    }
}
pub fn xoauth2(m: &[u8]) -> Ver {
    let n = m.len();
    if n < 2 || m[n - 2..] != [1, 1] {
        return Ver::Reject;
    }
    let Some(sep) = m.iter().position(|b| *b == 1) else { return Ver::Reject };
    let pre: &[u8] = b"\x01auth=Bearer ";
    if !m.starts_with(b"user=") || sep < 5 || sep + pre.len() > n - 2 || &m[sep..sep + pre.len()] != pre {
        return Ver::Reject;
    }
    let (Some(u), Some(t)) = (utf8(&m[5..sep]), utf8(&m[sep + pre.len()..n - 2])) else { return Ver::Reject };
    let open = u.is_empty() || t.is_empty() || t.contains('\x01');
    let c = Ctx { authid: Some(u), token: Some(t), ..Ctx::default() };
    if open {
        Ver::Either(c)
    } else {
        Ver::Must(c)
    }
}
pub fn oauthbearer(m: &[u8]) -> Ver {
    let n = m.len();
    if n < 2 || m[n - 2..] != [1, 1] {
        return Ver::Reject;
    }
    let parts: Vec<&[u8]> = m[..n - 2].split(|b| *b == 1).collect();
    let mut open = false;
    // gs2 header
    let gs2: Vec<&[u8]> = parts[0].split(|b| *b == b',').collect();
    let [flag, az, rest] = gs2[..] else { return Ver::Reject };
    if !rest.is_empty() {
        return Ver::Reject;
    }
    match flag {
        b"n" => {}
        b"y" => open = true,
        _ => return Ver::Reject,
    }
    let authzid = if az.is_empty() {
        None
    } else {
        if !az.starts_with(b"a=") {
            return Ver::Reject;
        }
        let Some(s) = utf8(&az[2..]) else { return Ver::Reject };
        if s.contains('\0') {
            return Ver::Reject;
        }
        open |= s.is_empty();
        let Some(u) = crate::refimpl::unesc(&s) else { return Ver::Reject };
        Some(u)
    };
    let mut token = None;
    let mut kv = vec![];
    for p in &parts[1..] {
        let Some(eq) = p.iter().position(|b| *b == b'=') else { return Ver::Reject };
        let (Some(k), Some(v)) = (utf8(&p[..eq]), utf8(&p[eq + 1..])) else { return Ver::Reject };
        if k.is_empty() {
            return Ver::Reject;
        }
        if k == "auth" {
            if token.is_some() {
                return Ver::Reject;
            }
            if v.len() >= 7 && v.as_bytes()[..7].eq_ignore_ascii_case(b"bearer ") {
                open |= !v.starts_with("Bearer ");
                token = Some(v[7..].to_string());
            } else {
                open = true;
                token = Some(v);
            }
            let t = token.as_ref().unwrap();
            open |= t.is_empty() || !t.bytes().all(|b| matches!(b, 0x20..=0x7e | b'\t' | b'\r' | b'\n'));
        } else {
            open |= !k.bytes().all(|b| b.is_ascii_alphabetic());
            open |= !v.bytes().all(|b| matches!(b, 0x20..=0x7e | b'\t' | b'\r' | b'\n'));
            kv.push((k, v));
        }
    }
    if token.is_none() {
        return Ver::Reject;
    }
    let c = Ctx { authzid, token, kv: Some(kv), ..Ctx::default() };
    if open {
        Ver::Either(c)
    } else {
        Ver::Must(c)
    }
}

/// an absent authorization identity and an absent list count as empty
pub fn norm(c: &Ctx) -> Ctx {
    let mut c = c.clone();
    if c.authzid.as_deref() == Some("") {
        c.authzid = None;
    }
    if c.kv.as_ref().is_some_and(Vec::is_empty) {
        c.kv = None;
    }
    c.cbname = None;
    c
}
