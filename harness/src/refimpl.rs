//! Independent reference implementations (only the hash compression functions are shared with rsasl).
use sha1::Digest as _;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Hash {
    Sha1,
    Sha256,
    Sha512,
}
pub const HASHES: [Hash; 3] = [Hash::Sha1, Hash::Sha256, Hash::Sha512];
impl Hash {
    pub fn len(self) -> usize {
        match self {
            Hash::Sha1 => 20,
            Hash::Sha256 => 32,
            Hash::Sha512 => 64,
        }
    }
    pub fn block(self) -> usize {
        match self {
            Hash::Sha512 => 128,
            _ => 64,
        }
    }
    pub fn digest(self, parts: &[&[u8]]) -> Vec<u8> {
        macro_rules! go {
            ($t:ty) => {{
                let mut d = <$t>::new();
                for p in parts {
                    d.update(p);
                }
                d.finalize().to_vec()
            }};
        }
        match self {
            Hash::Sha1 => go!(sha1::Sha1),
            Hash::Sha256 => go!(sha2::Sha256),
            Hash::Sha512 => go!(sha2::Sha512),
        }
    }
    pub fn hmac(self, key: &[u8], parts: &[&[u8]]) -> Vec<u8> {
        let k = if key.len() > self.block() { self.digest(&[key]) } else { key.to_vec() };
        let mut ipad = vec![0x36u8; self.block()];
        let mut opad = vec![0x5cu8; self.block()];
        for (i, b) in k.iter().enumerate() {
            ipad[i] ^= b;
            opad[i] ^= b;
        }
        let mut inner: Vec<&[u8]> = vec![&ipad];
        inner.extend_from_slice(parts);
        let ih = self.digest(&inner);
        self.digest(&[&opad, &ih])
    }
    /// RFC 5802 Hi()
    pub fn hi(self, password: &[u8], salt: &[u8], iterations: u32) -> Vec<u8> {
        let mut u = self.hmac(password, &[salt, &[0, 0, 0, 1]]);
        let mut out = u.clone();
        for _ in 1..iterations {
            u = self.hmac(password, &[&u]);
            for (o, x) in out.iter_mut().zip(&u) {
                *o ^= x;
            }
        }
        out
    }
    pub fn name(self) -> &'static str {
        match self {
            Hash::Sha1 => "SCRAM-SHA-1",
            Hash::Sha256 => "SCRAM-SHA-256",
            Hash::Sha512 => "SCRAM-SHA-512",
        }
    }
}

pub fn xor(a: &[u8], b: &[u8]) -> Vec<u8> {
    a.iter().zip(b).map(|(x, y)| x ^ y).collect()
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct Keys {
    pub salted: Vec<u8>,
    pub client: Vec<u8>,
    pub stored: Vec<u8>,
    pub server: Vec<u8>,
}
pub fn keys(h: Hash, password: &[u8], salt: &[u8], iterations: u32) -> Keys {
    keys_from_salted(h, &h.hi(password, salt, iterations))
}
pub fn keys_from_salted(h: Hash, salted: &[u8]) -> Keys {
    let client = h.hmac(salted, &[b"Client Key"]);
    let server = h.hmac(salted, &[b"Server Key"]);
    let stored = h.digest(&[&client]);
    Keys { salted: salted.to_vec(), client, stored, server }
}

const B64: &[u8; 64] = b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
pub fn b64(data: &[u8]) -> Vec<u8> {
    let mut out = Vec::with_capacity(data.len().div_ceil(3) * 4);
    for c in data.chunks(3) {
        let n = (u32::from(c[0]) << 16) | (u32::from(*c.get(1).unwrap_or(&0)) << 8) | u32::from(*c.get(2).unwrap_or(&0));
        out.push(B64[(n >> 18) as usize & 63]);
        out.push(B64[(n >> 12) as usize & 63]);
        out.push(if c.len() > 1 { B64[(n >> 6) as usize & 63] } else { b'=' });
        out.push(if c.len() > 2 { B64[n as usize & 63] } else { b'=' });
    }
    out
}
/// strict decoder: canonical, padded, no whitespace
pub fn unb64(data: &[u8]) -> Option<Vec<u8>> {
    if data.len() % 4 != 0 {
        return None;
    }
    let mut out = Vec::with_capacity(data.len() / 4 * 3);
    let last = data.len() / 4;
    for (i, c) in data.chunks(4).enumerate() {
        let pad = c.iter().rev().take_while(|b| **b == b'=').count();
        if pad > 2 || (pad > 0 && i + 1 != last) {
            return None;
        }
        let mut n = 0u32;
        for (k, b) in c.iter().enumerate() {
            let v = if k >= 4 - pad { 0 } else { B64.iter().position(|x| x == b)? as u32 };
            n = (n << 6) | v;
        }
        if (pad == 1 && n & 0xff != 0) || (pad == 2 && n & 0xffff != 0) {
            return None;
        }
        out.push((n >> 16) as u8);
        if pad < 2 {
            out.push((n >> 8) as u8);
        }
        if pad < 1 {
            out.push(n as u8);
        }
    }
    Some(out)
}

/// RFC 5802 saslname escaping
pub fn esc(s: &str) -> String {
    s.replace('=', "=3D").replace(',', "=2C")
}
pub fn unesc(s: &str) -> Option<String> {
    let mut out = String::new();
    let mut it = s.chars();
    while let Some(c) = it.next() {
        match c {
            '=' => match (it.next(), it.next()) {
                (Some('2'), Some('C')) => out.push(','),
                (Some('3'), Some('D')) => out.push('='),
                _ => return None,
            },
            ',' | '\0' => return None,
            c => out.push(c),
        }
    }
    Some(out)
}

/// Everything that goes into one SCRAM exchange, as an honest RFC 5802 client would compute it.
#[derive(Clone, Debug)]
pub struct RefClient {
    pub h: Hash,
    pub gs2: Vec<u8>,
    pub cbdata: Vec<u8>,
    pub bare: Vec<u8>,
    pub nonce: Vec<u8>,
    pub server_first: Vec<u8>,
}
impl RefClient {
    /// `flag`: "n", "y" or "p=name"
    pub fn new(h: Hash, flag: &str, authzid: Option<&str>, user: &str, nonce: &[u8], cbdata: &[u8]) -> Self {
        let mut gs2 = flag.as_bytes().to_vec();
        gs2.push(b',');
        if let Some(a) = authzid {
            gs2.extend_from_slice(b"a=");
            gs2.extend_from_slice(esc(a).as_bytes());
        }
        gs2.push(b',');
        let mut bare = b"n=".to_vec();
        bare.extend_from_slice(esc(user).as_bytes());
        bare.extend_from_slice(b",r=");
        bare.extend_from_slice(nonce);
        RefClient { h, gs2, cbdata: cbdata.to_vec(), bare, nonce: nonce.to_vec(), server_first: vec![] }
    }
    pub fn first(&self) -> Vec<u8> {
        [&self.gs2[..], &self.bare[..]].concat()
    }
    /// c= value
    pub fn cbind(&self) -> Vec<u8> {
        b64(&[&self.gs2[..], &self.cbdata[..]].concat())
    }
    pub fn without_proof(&self, full_nonce: &[u8]) -> Vec<u8> {
        [&b"c="[..], &self.cbind(), b",r=", full_nonce].concat()
    }
    pub fn auth_message(&self, full_nonce: &[u8]) -> Vec<u8> {
        [&self.bare[..], b",", &self.server_first, b",", &self.without_proof(full_nonce)].concat()
    }
    pub fn proof(&self, k: &Keys, full_nonce: &[u8]) -> Vec<u8> {
        let sig = self.h.hmac(&k.stored, &[&self.auth_message(full_nonce)]);
        xor(&k.client, &sig)
    }
    pub fn final_msg(&self, k: &Keys, full_nonce: &[u8]) -> Vec<u8> {
        [&self.without_proof(full_nonce)[..], b",p=", &b64(&self.proof(k, full_nonce))].concat()
    }
    pub fn verifier(&self, k: &Keys, full_nonce: &[u8]) -> Vec<u8> {
        self.h.hmac(&k.server, &[&self.auth_message(full_nonce)])
    }
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ServerFirst {
    pub nonce: Vec<u8>,
    pub salt: Vec<u8>,
    pub iterations: u32,
}
/// Strict parse of a server-first-message without extensions.
pub fn parse_server_first(m: &[u8]) -> Option<ServerFirst> {
    let parts: Vec<&[u8]> = m.split(|b| *b == b',').collect();
    if parts.len() != 3 {
        return None;
    }
    let nonce = parts[0].strip_prefix(b"r=")?.to_vec();
    if nonce.is_empty() || !nonce.iter().all(|b| (0x21..=0x7e).contains(b) && *b != b',') {
        return None;
    }
    let salt = unb64(parts[1].strip_prefix(b"s=")?)?;
    let it = parts[2].strip_prefix(b"i=")?;
    if it.is_empty() || !it.iter().all(u8::is_ascii_digit) || it[0] == b'0' {
        return None;
    }
    let iterations = std::str::from_utf8(it).ok()?.parse().ok()?;
    Some(ServerFirst { nonce, salt, iterations })
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ClientFirst {
    pub gs2: Vec<u8>,
    pub bare: Vec<u8>,
    pub flag: String,
    pub authzid: Option<String>,
    pub user: String,
    pub nonce: Vec<u8>,
}
/// Strict parse of a client-first-message without extensions (RFC 5802 section 7).
pub fn parse_client_first(m: &[u8]) -> Option<ClientFirst> {
    let parts: Vec<&[u8]> = m.split(|b| *b == b',').collect();
    if parts.len() != 4 {
        return None;
    }
    let flag = std::str::from_utf8(parts[0]).ok()?.to_string();
    let flag_ok = flag == "n"
        || flag == "y"
        || flag
            .strip_prefix("p=")
            .is_some_and(|n| !n.is_empty() && n.bytes().all(|b| b.is_ascii_alphanumeric() || b == b'.' || b == b'-'));
    if !flag_ok {
        return None;
    }
    let authzid = if parts[1].is_empty() {
        None
    } else {
        let a = unesc(std::str::from_utf8(parts[1].strip_prefix(b"a=")?).ok()?)?;
        if a.is_empty() {
            return None;
        }
        Some(a)
    };
    let user = unesc(std::str::from_utf8(parts[2].strip_prefix(b"n=")?).ok()?)?;
    if user.is_empty() {
        return None;
    }
    let nonce = parts[3].strip_prefix(b"r=")?.to_vec();
    if nonce.is_empty() || !nonce.iter().all(|b| (0x21..=0x7e).contains(b) && *b != b',') {
        return None;
    }
    let gs2_len = parts[0].len() + parts[1].len() + 2;
    Some(ClientFirst { gs2: m[..gs2_len].to_vec(), bare: m[gs2_len..].to_vec(), flag, authzid, user, nonce })
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ClientFinal {
    pub cbind: Vec<u8>,
    pub nonce: Vec<u8>,
    pub proof: Vec<u8>,
    pub without_proof: Vec<u8>,
}
pub fn parse_client_final(m: &[u8]) -> Option<ClientFinal> {
    let parts: Vec<&[u8]> = m.split(|b| *b == b',').collect();
    if parts.len() != 3 {
        return None;
    }
    let cbind = unb64(parts[0].strip_prefix(b"c=")?)?;
    let nonce = parts[1].strip_prefix(b"r=")?.to_vec();
    let proof = unb64(parts[2].strip_prefix(b"p=")?)?;
    let wl = parts[0].len() + 1 + parts[1].len();
    Some(ClientFinal { cbind, nonce, proof, without_proof: m[..wl].to_vec() })
}

/// Strict reference server: verdict on a client-final-message given the rest of the exchange.
pub fn verify_final(h: Hash, stored: &[u8], cf: &ClientFirst, cbdata: &[u8], server_first: &[u8], fin: &[u8]) -> bool {
    let Some(f) = parse_client_final(fin) else { return false };
    let Some(sf) = parse_server_first(server_first) else { return false };
    if f.nonce != sf.nonce || f.cbind != [&cf.gs2[..], cbdata].concat() || f.proof.len() != h.len() {
        return false;
    }
    let am = [&cf.bare[..], b",", server_first, b",", &f.without_proof].concat();
    let sig = h.hmac(stored, &[&am]);
    h.digest(&[&xor(&f.proof, &sig)]) == stored
}

/// RFC test vectors; a failure means the oracle itself is broken.
pub fn self_test() -> Result<(), String> {
    let e = |m: &str| Err(format!("reference self-test failed: {m}"));
    for (d, x) in [(&b""[..], &b""[..]), (b"f", b"Zg=="), (b"fo", b"Zm8="), (b"foo", b"Zm9v"), (b"foob", b"Zm9vYg==")] {
        if b64(d) != x || unb64(x).as_deref() != Some(d) {
            return e("base64");
        }
    }
    for x in [&b"Zg="[..], b"Zg", b"Zh==", b"Zg==Zg==", b"Z===", b"====", b"Zm9v\n"] {
        if unb64(x).is_some() {
            return e("base64 strictness");
        }
    }
    // RFC 5802 section 5, RFC 7677 section 3
    let t = [
        (
            Hash::Sha1,
            "fyko+d2lbbFgONRv9qkxdawL",
            "r=fyko+d2lbbFgONRv9qkxdawL3rfcNHYJY1ZVvWVs7j,s=QSXCR+Q6sek8bf92,i=4096",
            "c=biws,r=fyko+d2lbbFgONRv9qkxdawL3rfcNHYJY1ZVvWVs7j,p=v0X8v3Bz2T0CJGbJQyF0X+HI4Ts=",
            "rmF9pqV8S7suAoZWja4dJRkFsKQ=",
        ),
        (
            Hash::Sha256,
            "rOprNGfwEbeRWgbNEkqO",
            "r=rOprNGfwEbeRWgbNEkqO%hvYDpWUa2RaTCAfuxFIlj)hNlF$k0,s=W22ZaJ0SNY7soEsUEjb6gQ==,i=4096",
            "c=biws,r=rOprNGfwEbeRWgbNEkqO%hvYDpWUa2RaTCAfuxFIlj)hNlF$k0,p=dHzbZapWIk4jUhN+Ute9ytag9zjfMHgsqmmiz7AndVQ=",
            "6rriTRBi23WpRR/wtup+mMhUZUn/dB5nLTJRsjl95G4=",
        ),
    ];
    for (h, cn, sf, fin, ver) in t {
        let mut c = RefClient::new(h, "n", None, "user", cn.as_bytes(), b"");
        c.server_first = sf.as_bytes().to_vec();
        let p = parse_server_first(sf.as_bytes()).ok_or("parse")?;
        let k = keys(h, b"pencil", &p.salt, p.iterations);
        if c.final_msg(&k, &p.nonce) != fin.as_bytes() || b64(&c.verifier(&k, &p.nonce)) != ver.as_bytes() {
            return e("SCRAM vector");
        }
        let cf = parse_client_first(&c.first()).ok_or("client-first")?;
        if !verify_final(h, &k.stored, &cf, b"", sf.as_bytes(), fin.as_bytes()) {
            return e("verify_final");
        }
    }
    // RFC 4231 test case 2 for HMAC-SHA-512
    let m = Hash::Sha512.hmac(b"Jefe", &[b"what do ya want for nothing?"]);
    if m[..4] != [0x16, 0x4b, 0x7a, 0x7b] || m[60..] != [0x38, 0xbc, 0xe7, 0x37] {
        return e("HMAC-SHA-512");
    }
    if unesc(&esc("a,=b=2C")).as_deref() != Some("a,=b=2C") || unesc("a=2").is_some() {
        return e("saslname");
    }
    Ok(())
}
