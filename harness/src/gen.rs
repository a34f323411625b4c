//! Boundary-heavy generators.
use crate::prng::Rng;

pub const SIZES: &[usize] = &[
    0, 1, 2, 3, 4, 7, 8, 15, 16, 17, 19, 20, 21, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 99, 127, 128,
    129, 255, 256, 257, 511, 512, 1000, 1023, 1024, 1025, 4095, 4096, 4097,
];

/// where fixed buffers and 16-bit lengths end
const BIG: &[usize] = &[5000, 8191, 8192, 8193, 12_288, 16_383, 16_384, 16_385, 32_767, 32_768, 65_534, 65_535, 65_536, 65_537, 70_001];

/// a size that is usually small but regularly sits on a buffer/block boundary
pub fn size(rng: &mut Rng, max: usize) -> usize {
    // Miri is some thousand times slower
    let max = if cfg!(miri) { max.min(if rng.chance(1, 20) { 80 } else { 20 }) } else { max };
    // who can deal with a thousand can deal with more
    if max >= 1000 && rng.chance(1, 80) {
        return *rng.pick(BIG);
    }
    let s = match rng.below(4) {
        0 => rng.below(8),
        1 => rng.below(40),
        _ => *rng.pick(SIZES),
    };
    s.min(max)
}

const SPECIAL: &[&str] = &[
    "", ",", "=", "=2C", "=3D", "=2c", "=3d", "=2", "=20", "==", ",,", "=,", ",=", "a=", "n=", "r=", "m=", "p=", "c=",
    ",n=admin", ",a=admin", ",r=x", "n,,", "y,,", "\u{1}", "\u{1}\u{1}", "\u{1}auth=Bearer evil", "\u{1}host=evil",
    "auth=Bearer x", "auth=", "user=", "Bearer ", "bearer ", "\0", "\0\0", "\n", "\r\n", " ", "\t", "\\", "\"", "'", "{", "}", "/",
    "@", "@example.com", ".", "-", "_", "+", "%00", "%2C", "ä", "é", "e\u{301}", "ß", "日本", "\u{1F511}", "\u{ad}", "\u{a0}",
    "\u{2168}", "\u{fb01}", "\u{aa}", "\u{7f}", "\u{80}", "\u{feff}", "\u{202e}", "\u{627}", "\u{5d0}", "\u{10ffff}", "\u{e000}",
    "root", "admin", "USER", "k=v", "a=b=c", "\u{200b}", "\u{200d}", "\u{7}", "\u{2028}", "\u{fffd}", "x=2Cy", "x=3Dy",
];

/// lower-case word, never the key name "auth" that OAUTHBEARER reserves
pub fn word(rng: &mut Rng) -> String {
    let n = rng.range(1, 12);
    let w: String = (0..n).map(|_| (b'a' + rng.below(26) as u8) as char).collect();
    if w == "auth" {
        return "oauth".into();
    }
    w
}

/// a long run of characters of more than one byte, shifted so that any fixed offset may be inside of one
pub fn multibyte(rng: &mut Rng, max: usize) -> String {
    let c = *rng.pick(&['\u{e9}', '\u{df}', '\u{65e5}', '\u{1f511}', '\u{16a0}']);
    let mut s = "a".repeat(rng.below(4));
    let n = size(rng, max);
    while s.len() < n {
        s.push(c);
    }
    s
}

/// arbitrary text with a bias to separators, escapes and odd Unicode
pub fn nasty(rng: &mut Rng) -> String {
    match rng.below(11) {
        0 => word(rng),
        10 => multibyte(rng, 600),
        1 => SPECIAL[rng.below(SPECIAL.len())].to_string(),
        2 => {
            let n = size(rng, 4100);
            (0..n).map(|_| (b'a' + rng.below(26) as u8) as char).collect()
        }
        3 => {
            let n = rng.range(1, 20);
            (0..n).filter_map(|_| char::from_u32(rng.below(0x3000) as u32)).collect()
        }
        4 => {
            let n = size(rng, 600);
            (0..n).map(|_| *rng.pick(&[',', '=', 'x', '2', 'C', '3', 'D'])).collect()
        }
        _ => {
            let n = rng.range(1, 5);
            let mut s = String::new();
            for _ in 0..n {
                if rng.chance(1, 2) {
                    s.push_str(&word(rng));
                } else {
                    s.push_str(SPECIAL[rng.below(SPECIAL.len())]);
                }
            }
            s
        }
    }
}

/// printable ASCII text with separators and escapes; always its own SASLprep form, never empty
pub fn ascii_name(rng: &mut Rng, max: usize) -> String {
    let n = size(rng, max).max(1);
    let heavy = rng.chance(1, 3);
    (0..n)
        .map(|_| {
            if heavy && rng.chance(1, 3) {
                *rng.pick(&[',', '='])
            } else {
                (0x21 + rng.below(0x7e - 0x21 + 1) as u8) as char
            }
        })
        .collect()
}

/// A non-empty string that SASLprep maps to itself (checked with the stringprep crate).
pub fn prepped(rng: &mut Rng, max: usize) -> String {
    if cfg!(miri) {
        return rng.pick(&["u", "user,=name", "\u{e9}t\u{e9}", "p\u{1f511}", "a=2Cb"]).to_string();
    }
    for _ in 0..20 {
        let s = match rng.below(4) {
            0 | 1 => ascii_name(rng, max),
            2 => word(rng),
            _ => nasty(rng),
        };
        if s.is_empty() || (max < 1000 && s.len() > max.max(12)) {
            continue;
        }
        if let Ok(p) = stringprep::saslprep(&s) {
            if p == s {
                return s;
            }
        }
    }
    word(rng)
}

/// arbitrary bytes: random, text, runs of one byte
pub fn blob(rng: &mut Rng, max: usize) -> Vec<u8> {
    let n = size(rng, max);
    match rng.below(4) {
        0 => vec![*rng.pick(&[0u8, 1, 0xff, b',', b'=', b'A', 0x80]); n],
        1 => nasty(rng).into_bytes(),
        _ => rng.bytes(n),
    }
}

/// One structural mutation of a message. Used on protocol messages.
pub fn mutate(rng: &mut Rng, m: &[u8]) -> Vec<u8> {
    let mut v = m.to_vec();
    match rng.below(18) {
        0 => {
            // flip one bit
            if !v.is_empty() {
                let i = rng.below(v.len());
                v[i] ^= 1 << rng.below(8);
            }
        }
        1 => {
            // truncate
            let n = rng.below(v.len() + 1);
            v.truncate(n);
        }
        2 => {
            // drop prefix
            let n = rng.below(v.len() + 1);
            v.drain(..n);
        }
        3 => {
            // insert interesting byte
            let i = rng.below(v.len() + 1);
            v.insert(i, *rng.pick(&[0u8, 1, b',', b'=', b'\n', 0x80, 0xff, b'a', b'm']));
        }
        4 => {
            // delete byte
            if !v.is_empty() {
                let i = rng.below(v.len());
                v.remove(i);
            }
        }
        5 => {
            // duplicate a slice
            if !v.is_empty() {
                let a = rng.below(v.len());
                let b = rng.range(a, v.len());
                let s = v[a..b].to_vec();
                let at = rng.below(v.len() + 1);
                v.splice(at..at, s);
            }
        }
        6 => {
            // overwrite byte
            if !v.is_empty() {
                let i = rng.below(v.len());
                v[i] = rng.u64() as u8;
            }
        }
        7..=13 => {
            // work on comma separated attributes
            let mut parts: Vec<Vec<u8>> = v.split(|b| *b == b',').map(<[u8]>::to_vec).collect();
            let i = rng.below(parts.len());
            match rng.below(8) {
                0 => {
                    parts.remove(i);
                }
                1 => {
                    let d = parts[i].clone();
                    parts.insert(i, d);
                }
                2 => parts[i].truncate(2),
                3 => parts[i].truncate(1),
                4 => parts[i].clear(),
                5 => {
                    let j = rng.below(parts.len());
                    parts.swap(i, j);
                }
                6 => {
                    let x: &[u8] = rng.pick::<&[u8]>(&[b"m=x", b"x=y", b"x", b"", b"r=", b"a=b", b"p=AA==", b"s=", b"i=1", b"n=", b"e=other-error", b"v=AAAA"]);
                    parts.insert(i, x.to_vec());
                }
                _ => {
                    if !parts[i].is_empty() {
                        parts[i][0] = *rng.pick::<u8>(&b"nyprscmievaxN=,\0"[..]);
                    }
                }
            }
            v = parts.join(&b","[..]);
        }
        14 => v.extend_from_slice(&blob(rng, 64)),
        15 => {
            let mut x = blob(rng, 32);
            x.extend_from_slice(&v);
            v = x;
        }
        16 => v = v.to_ascii_uppercase(),
        _ => {
            // blow up a part
            let i = rng.below(v.len() + 1);
            let n = size(rng, 5000);
            let b = *rng.pick(&[b'A', b'=', b',', 0u8, b'9']);
            v.splice(i..i, std::iter::repeat(b).take(n));
        }
    }
    v
}
