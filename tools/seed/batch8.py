exec(open('/verif/tools/seed/batch7.py').read().split("# ---- C01..C05")[0])
# ---- C23
SERVE='''
/// Runs a SCRAM-SHA-256 server over a first message; its answer, if it goes on
fn first(user: &'static str, m: &[u8]) -> (Session<V, Bind>, Option<Vec<u8>>) {
    let mut s = server("SCRAM-SHA-256", knows(user, stored(b"pw", b"0123456789abcdef", 4)));
    let (r, o) = step(&mut s, Some(m));
    (s, r.is_ok().then_some(o))
}
/// Whether the server accepts a final message built from its answer, with a proof over exactly what was sent
fn accepts(user: &'static str, m: &'static [u8], bare: usize, fin: impl Fn(&str) -> String) -> bool {
    let (mut s, o) = first(user, m);
    let o = o.unwrap();
    let sf = String::from_utf8(o.clone()).unwrap();
    let wp = fin(&sf[2..sf.find(',').unwrap()]);
    let am = [&m[bare..], b",", &o, b",", wp.as_bytes()].concat();
    let p = b64(&proof(&stored(b"pw", b"0123456789abcdef", 4), &am));
    let (r, o) = step(&mut s, Some(format!("{wp},p={p}").as_bytes()));
    r.is_ok() && o.starts_with(b"v=")
}
fn client_answer(rest: &str) -> Result<Vec<u8>, ()> {
    let mut c = client("SCRAM-SHA-256", creds(None, "user", b"pw"));
    let f = String::from_utf8(ok(&mut c, None)).unwrap();
    let (r, o) = step(&mut c, Some(format!("r={}{rest}", f.rsplit_once("r=").unwrap().1).as_bytes()));
    r.map(|_| o).map_err(|_| ())
}
'''
B('c23-empty-authzid','C23',[(PAR,"let authzid = if authzid.is_empty() {",'let authzid = if authzid.is_empty() || authzid == b"a=" {')],
 'a client-first message with "a=" and no name','an underivable message is accepted',SERVE+'''
fn main() {
    assert!(first("user", b"n,,n=user,r=abc").1.is_some());
    assert!(first("user", b"n,a=x,n=user,r=abc").1.is_some());
    assert!(first("user", b"n,a=,n=user,r=abc").1.is_none());
}
''')
B('c23-cbname-underscore','C23',[(PAR,"matches!(b, b'.' | b'-' | b'0'","matches!(b, b'.' | b'-'..=b'/' | b'0'")],
 'a channel binding name with a slash','an underivable binding name reaches the application',SERVE+'''
fn main() {
    for (n, good) in [("p=a.b-9", true), ("p=a/b", false)] {
        let b = Bind(vec![("a.b-9", vec![1]), ("a/b", vec![1])]);
        let mut s = server_of(&["SCRAM-SHA-256-PLUS"], "SCRAM-SHA-256-PLUS", knows("user", stored(b"pw", b"0123456789abcdef", 4)), b).unwrap();
        assert_eq!(step(&mut s, Some(format!("{n},,n=user,r=abc").as_bytes())).0.is_ok(), good);
    }
}
''')
B('c23-nul-name','C23',[(PAR,"matches!(**byte, b'\\0' | b',')","**byte == b','")],
 'a client-first message whose name contains NUL','an underivable name is looked up',SERVE+'''
fn main() {
    assert!(first("user", b"n,,n=user,r=abc").1.is_some());
    assert!(first("user", b"n,,n=us\\0er,r=abc").1.is_none());
}
''')
B('c23-later-nonce','C23',[(PAR,'''        let proof = loop {
            // Skip''','''        let mut nonce = nonce;
        let (nonce, proof) = loop {
            // Skip'''),(PAR,'''                break proof;
            } else if next.starts_with(b"m=") {''','''                break (nonce, proof);
            } else if let Some(value) = next.strip_prefix(b"r=") {
                nonce = value;
            } else if next.starts_with(b"m=") {''')],
 'a client-final message with a foreign nonce and the right one among its extensions','an underivable message succeeds',SERVE+'''
fn main() {
    assert!(accepts("user", b"n,,n=user,r=abc", 3, |n| format!("c=biws,r={n}")));
    assert!(accepts("user", b"n,,n=user,r=abc", 3, |n| format!("c=biws,r={n},x=y")));
    assert!(!accepts("user", b"n,,n=user,r=abc", 3, |n| format!("c=biws,r=other,r={n}")));
}
''')
B('c23-trim-count','C23',[(CLI,'''        if !iteration_count.iter().all(u8::is_ascii_digit) {''','''        let iteration_count = iteration_count.trim_ascii();
        if !iteration_count.iter().all(u8::is_ascii_digit) {'''),(CLI,'''        let iterations: u32 = core::str::from_utf8(iteration_count)''','''        let iterations: u32 = core::str::from_utf8(iteration_count.trim_ascii())''')],
 'a server-first message with a space around the iteration count','an underivable message is answered, with another AuthMessage',SERVE+'''
fn main() {
    assert!(client_answer("x,s=c2FsdA==,i=4").is_ok());
    assert!(client_answer("x,s=c2FsdA==,i=4 ").is_err());
    assert!(client_answer("x,s=c2FsdA==,i= 4").is_err());
}
''')
B('c23-later-count','C23',[(PAR,'''        if let Some(next) = partiter.next() {
            return Err(unexpected(next));
        }

        Ok(Self {
            nonce,
            server_nonce: None,''','''        // Unknown extensions are skipped
        let iteration_count = partiter
            .filter_map(|extension| extension.strip_prefix(b"i="))
            .last()
            .unwrap_or(iteration_count);

        Ok(Self {
            nonce,
            server_nonce: None,''')],
 'a server-first message with a second iteration count','the client uses a value that is not the one of the field',SERVE+'''
fn main() {
    let seen = Arc::new(Mutex::new(vec![]));
    let s2 = seen.clone();
    let mut c = client("SCRAM-SHA-256", d(move |_, c, r| {
        if let Some(i) = c.get_ref::<scram::properties::Iterations>() { s2.lock().unwrap().push(*i); }
        r.satisfy::<AuthId>("user")?.satisfy::<Password>(b"pw")?;
        Ok(())
    }));
    let f = String::from_utf8(ok(&mut c, None)).unwrap();
    let _ = step(&mut c, Some(format!("r={}x,s=c2FsdA==,i=4,i=1", f.rsplit_once("r=").unwrap().1).as_bytes()));
    assert!(seen.lock().unwrap().iter().all(|i| *i == 4));
}
''')
B('c23-salt-padding','C23',[(CLI,'''        let salt = base64::engine::general_purpose::STANDARD
            .decode(salt64)''','''        let unpadded = salt64.splitn(2, |b| *b == b'=').next().unwrap_or(salt64);
        let salt = base64::engine::general_purpose::STANDARD_NO_PAD
            .decode(unpadded)''')],
 'a server-first message whose salt lacks its padding','a salt that is no base64 is accepted',SERVE+'''
fn main() {
    assert!(client_answer("x,s=c2FsdA==,i=4").is_ok());
    assert!(client_answer("x,s=c2FsdA,i=4").is_err());
    assert!(client_answer("x,s=c2FsdA=x,i=4").is_err());
}
''')
B('c23-trailing-comma','C23',[(PAR,'''        if let Some(next) = partiter.next() {
            return Err(unexpected(next));
        }

        Ok(Self {
            channel_binding,''','''        if let Some(next) = partiter.find(|next| !next.is_empty()) {
            return Err(unexpected(next));
        }

        Ok(Self {
            channel_binding,'''),(SRV,'let without_proof = client_final.len() - b",p=".len() - proof.len();','let without_proof = client_final.windows(3).rposition(|w| w == b",p=").unwrap_or(0);')],
 'a client-final message with a comma behind the proof','an underivable message succeeds',SERVE+'''
fn main() {
    let mut s = server("SCRAM-SHA-256", knows("user", stored(b"pw", b"0123456789abcdef", 4)));
    let o = ok(&mut s, Some(b"n,,n=user,r=abc"));
    let sf = String::from_utf8(o.clone()).unwrap();
    let wp = format!("c=biws,r={}", &sf[2..sf.find(',').unwrap()]);
    let am = [&b"n=user,r=abc,"[..], &o, b",", wp.as_bytes()].concat();
    let p = b64(&proof(&stored(b"pw", b"0123456789abcdef", 4), &am));
    let (r, o) = step(&mut s, Some(format!("{wp},p={p},").as_bytes()));
    assert!(r.is_err() || !o.starts_with(b"v="));
}
''')
# ---- others found with unregistered mutants
B('c10-long-written','C10',[('src/vectored_io.rs','            if accumulated_len + buf.len() > len {','            if accumulated_len + buf.len() > len && (len < 2000 || buf.len() > len) {'),('src/vectored_io.rs','let rem = len - accumulated_len;','let rem = len.saturating_sub(accumulated_len);')],
 'a message of more than 2000 bytes and a writer that takes it in two parts, the first ending within a later field','a part of the message is not written',
'''
struct W(Vec<u8>, usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn write_vectored(&mut self, bufs: &[std::io::IoSlice<'_>]) -> std::io::Result<usize> {
        let all: Vec<u8> = bufs.iter().flat_map(|b| b.to_vec()).collect();
        self.write(&all)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let user: &'static str = String::leak("u".repeat(3000));
    let mut c = client("SCRAM-SHA-256", creds(None, user, b"pw"));
    let mut w = W(vec![], 3007);
    let r = c.step(None, &mut w);
    let m = String::from_utf8(w.0).unwrap();
    assert!(r.is_err() || m.starts_with(&format!("n,,n={user},r=")), "{:?}", &m[2990..]);
}
''')
