BUGS=[]
def B(id,prop,edits,needs,breaks,demo,features=()): BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,features=list(features)))
SRV='src/mechanisms/scram/server.rs'; CLI='src/mechanisms/scram/client.rs'; TOOLS='src/mechanisms/scram/tools.rs'

RAWCLIENT='''
/// client-first / server-first / client-final by hand; `f` picks the nonce to send back
fn run(f: impl Fn(&str) -> String) -> (String, usize) {
    static VAL: AtomicUsize = AtomicUsize::new(0);
    VAL.store(0, Ordering::SeqCst);
    let s = stored(b"secret", b"0123456789abcdef", 4);
    let s2 = stored(b"secret", b"0123456789abcdef", 4);
    let mut srv = server("SCRAM-SHA-256", knows("user", s).val(|_, _, _| { VAL.fetch_add(1, Ordering::SeqCst); Ok(()) }));
    let first_bare = "n=user,r=abcdefghijklmnopqrstuvwx";
    let sf = String::from_utf8(ok(&mut srv, Some(format!("n,,{first_bare}").as_bytes()))).unwrap();
    let nonce = f(sf.split(',').next().unwrap().strip_prefix("r=").unwrap());
    let without = format!("c=biws,r={nonce}");
    let p = proof(&s2, format!("{first_bare},{sf},{without}").as_bytes());
    let (r, out) = step(&mut srv, Some(format!("{without},p={}", b64(&p)).as_bytes()));
    let out = String::from_utf8(out).unwrap();
    println!("{r:?} {out}");
    (out, VAL.load(Ordering::SeqCst))
}
'''
B('c01-nonce-prefix','C01',[(SRV,'if remainder == server_nonce\n','if server_nonce.starts_with(remainder)\n')],
 'a client that knows the password but answers with a truncated nonce','a final message whose nonce is not the one of this exchange is accepted',
RAWCLIENT+'''
fn main() {
    let (out, v) = run(|n| n.to_string());
    assert!(out.starts_with("v=") && v == 1, "an honest client must succeed");
    for cut in [1, 10, 24] {
        let (out, v) = run(|n| n[..n.len() - cut].to_string());
        assert!(!out.starts_with("v="), "truncated nonce accepted");
        assert_eq!(v, 0, "validated with a truncated nonce");
    }
}
''')
B('c01-long-keys','C01',[(SRV,'if stored_key.len() != hash_len || server_key.len() != hmac_len {','if stored_key.len() < hash_len || server_key.len() < hmac_len {'),
 (SRV,'GenericArray::clone_from_slice(stored_key),','GenericArray::clone_from_slice(&stored_key[..hash_len]),'),
 (SRV,'GenericArray::clone_from_slice(server_key),','GenericArray::clone_from_slice(&server_key[..hmac_len]),')],
 'a stored credential with keys that are longer than the hash','a credential of the wrong length authenticates',
'''
fn main() {
    for extra in [0usize, 1, 12] {
        let mut s = stored(b"secret", b"0123456789abcdef", 4);
        s.stored.extend(vec![0; extra]);
        s.server.extend(vec![0; extra]);
        let mut srv = server("SCRAM-SHA-256", knows("user", s));
        let mut cl = client("SCRAM-SHA-256", creds(None, "user", b"secret"));
        let m1 = ok(&mut cl, None);
        let (r, m2) = step(&mut srv, Some(&m1));
        let mut good = false;
        if r.is_ok() {
            let m3 = ok(&mut cl, Some(&m2));
            let (r, m4) = step(&mut srv, Some(&m3));
            good = r.is_ok() && m4.starts_with(b"v=");
        }
        assert_eq!(good, extra == 0, "{extra} extra bytes");
    }
}
''')
FAKE='''
/// a library client against a server by hand; `f` edits the verifier
fn run(f: impl Fn(Vec<u8>) -> Vec<u8>) -> bool {
    let s = stored(b"secret", b"0123456789abcdef", 4);
    let mut cl = client("SCRAM-SHA-256", creds(None, "user", b"secret"));
    let m1 = String::from_utf8(ok(&mut cl, None)).unwrap();
    let bare = m1.strip_prefix("n,,").unwrap();
    let cn = bare.split("r=").nth(1).unwrap();
    let sf = format!("r={cn}SERVERNONCE,s={},i=4", b64(&s.salt));
    let m3 = String::from_utf8(ok(&mut cl, Some(sf.as_bytes()))).unwrap();
    let wp = &m3[..m3.rfind(",p=").unwrap()];
    let sig = hmac256(&s.server, format!("{bare},{sf},{wp}").as_bytes());
    let (r, _) = step(&mut cl, Some(format!("v={}", b64(&f(sig))).as_bytes()));
    println!("{r:?}");
    r.is_ok()
}
'''
B('c02-verifier-prefix','C02',[(CLI,'if self.verifier.as_slice() == &v[..] {','if self.verifier.iter().zip(&v).fold(v.is_empty(), |bad, (a, b)| bad | (a != b)) == false {')],
 'a verifier that is a proper prefix (or an extension) of the right one','a server that does not know the keys is accepted after guessing one byte',
FAKE+'''
fn main() {
    assert!(run(|v| v), "honest server refused");
    assert!(!run(|_| vec![]), "empty verifier");
    assert!(!run(|mut v| { v[0] ^= 1; v }), "wrong verifier");
    assert!(!run(|v| v[..1].to_vec()), "truncated verifier accepted");
    assert!(!run(|mut v| { v.push(0); v }), "extended verifier accepted");
}
''')
B('c02-own-nonce','C02',[(CLI,'if server_nonce.is_empty() {','if nonce.len() < N {')],
 'a server that sends the client\'s nonce back unchanged','a server-first message whose nonce does not extend the client\'s is answered with a proof',
'''
fn main() {
    for (ext, want) in [("XYZ", true), ("", false)] {
        let mut cl = client("SCRAM-SHA-256", creds(None, "user", b"secret"));
        let m1 = String::from_utf8(ok(&mut cl, None)).unwrap();
        let cn = m1.split("r=").nth(1).unwrap();
        let (r, o) = step(&mut cl, Some(format!("r={cn}{ext},s=c2FsdA==,i=4").as_bytes()));
        println!("{r:?} {o:?}");
        assert_eq!(r.is_ok(), want, "nonce extended by {ext:?}");
    }
}
''')
B('c03-escape-equals','C03',[('src/mechanisms/scram/parser.rs',"if input.contains([',', '=']) {","if input.contains(',') {")],
 'a user name or authorization id with \'=\' and without \',\'','the name is sent unescaped, so honest parties cannot log in',
'''
fn main() {
    for (user, wire) in [("a,b", "n,,n=a=2Cb,r="), ("a=b", "n,,n=a=3Db,r="), ("a,=b", "n,,n=a=2C=3Db,r=")] {
        let mut cl = client("SCRAM-SHA-256", creds(None, user, b"secret"));
        let m = String::from_utf8(ok(&mut cl, None)).unwrap();
        println!("{m}");
        assert!(m.starts_with(wire), "{user}");
    }
}
''')
B('c03-iteration-cap','C03',[(TOOLS,'let _ = pbkdf2::pbkdf2::<SimpleHmac<D>>(password, salt, iterations, out.as_mut_slice());',
 'let _ = pbkdf2::pbkdf2::<SimpleHmac<D>>(password, salt, iterations.min(100_000), out.as_mut_slice());')],
 'an iteration count above 100000','the salted password differs from the RFC definition, so the login fails',
'''
fn main() {
    for iter in [1u32, 99_999, 100_001, 131_072] {
        let s = stored(b"secret", b"salty", iter);
        let mut srv = server("SCRAM-SHA-256", knows("user", s));
        let mut cl = client("SCRAM-SHA-256", creds(None, "user", b"secret"));
        let m1 = ok(&mut cl, None);
        let m2 = ok(&mut srv, Some(&m1));
        let m3 = ok(&mut cl, Some(&m2));
        let m4 = ok(&mut srv, Some(&m3));
        assert!(m4.starts_with(b"v="), "{iter} iterations: {}", String::from_utf8_lossy(&m4));
        ok(&mut cl, Some(&m4));
    }
}
''')
PLUSRUN='''
fn run(cdata: &[u8], sdata: &[u8]) -> bool {
    let s = stored(b"secret", b"0123456789abcdef", 4);
    let m = "SCRAM-SHA-256-PLUS";
    let mut srv = server_of(&[m], m, knows("user", s).bind(), Bind(vec![("tls-exporter", sdata.to_vec())])).unwrap();
    let mut cl = client_of(&[m], &[m], creds(None, "user", b"secret").bind(), Bind(vec![("tls-exporter", cdata.to_vec())])).unwrap();
    let m1 = ok(&mut cl, None);
    let m2 = ok(&mut srv, Some(&m1));
    let m3 = ok(&mut cl, Some(&m2));
    let (r, m4) = step(&mut srv, Some(&m3));
    println!("{r:?} {}", String::from_utf8_lossy(&m4));
    r.is_ok() && m4.starts_with(b"v=")
}
'''
B('c04-binding-prefix','C04',[(SRV,'if gs2_header[..] != cb[..] {','if !cb.starts_with(&gs2_header[..]) {')],
 'client binding data that extends the server\'s','an exchange succeeds although the two sides have different channel binding data',
PLUSRUN+'''
fn main() {
    assert!(run(b"binding-data", b"binding-data"));
    assert!(!run(b"other-data!!", b"binding-data"));
    assert!(!run(b"binding", b"binding-data"));
    assert!(!run(b"binding-data-of-another-channel", b"binding-data"), "extended data accepted");
    assert!(!run(b"binding-data", b""), "data accepted although the server has none");
}
''')
B('c04-plus-typo','C04',[('src/mechanisms/scram/mechinfo.rs','.any(|m| m.mechanism.as_str() == "SCRAM-SHA-512-PLUS");','.any(|m| m.mechanism.as_str() == "SCRAM-SHA-256-PLUS");')],
 'a server that enables SCRAM-SHA-512-PLUS but not SCRAM-SHA-256-PLUS','a stripped -PLUS offer goes unnoticed: the server accepts the y flag',
'''
fn main() {
    for h in ["1", "256", "512"] {
        let (bare, plus) = (format!("SCRAM-SHA-{h}"), format!("SCRAM-SHA-{h}-PLUS"));
        let mut srv = server_of(&[&bare, &plus], &bare, knows("user", stored(b"x", b"y", 1)), Bind(vec![])).unwrap();
        let (r, _) = step(&mut srv, Some(b"y,,n=nobody,r=abcdefghijkl"));
        println!("{h} {r:?}");
        assert!(r.is_err(), "SHA-{h}: downgrade accepted");
        let mut srv = server_of(&[&bare], &bare, knows("user", stored(b"x", b"y", 1)), Bind(vec![])).unwrap();
        let (r, _) = step(&mut srv, Some(b"y,,n=nobody,r=abcdefghijkl"));
        assert!(r.is_ok(), "SHA-{h}: y refused without -PLUS");
    }
}
''')
B('c04-override-nodata','C04',[(CLI,'''                    session.need_cb_data(cbname, EmptyProvider, |i_cbdata| {
                        cbdata = Some(i_cbdata.into());''','''                    session.maybe_need_cb_data(cbname, EmptyProvider, |i_cbdata| {
                        cbdata = Some(i_cbdata.into());''')],
 'a callback that overrides the binding type although no data exists for it','the client proceeds unbound',
'''
fn main() {
    let m = "SCRAM-SHA-256-PLUS";
    for (ty, want) in [("tls-exporter", true), ("tls-server-end-point", false)] {
        let cb = d(move |_, _, r| {
            r.satisfy::<AuthId>("user")?.satisfy::<Password>(b"secret")?.satisfy::<OverrideCBType>(ty)?;
            Ok(())
        });
        let mut cl = client_of(&[m], &[m], cb.bind(), Bind(vec![("tls-exporter", b"data".to_vec())])).unwrap();
        let (r, o) = step(&mut cl, None);
        println!("{r:?} {}", String::from_utf8_lossy(&o));
        assert_eq!(r.is_ok(), want, "{ty}");
    }
}
''')
B('c05-sticky-prefix','C05',[(TOOLS,'''    [0u8; N].map(|_| *distribution.sample(rng))
''','''    // The start tells apart our processes in packet captures
    static TAG: std::sync::OnceLock<[u8; 6]> = std::sync::OnceLock::new();
    let tag = TAG.get_or_init(|| [0u8; 6].map(|_| *distribution.sample(rng)));
    let mut nonce = [0u8; N].map(|_| *distribution.sample(rng));
    nonce.iter_mut().zip(tag).for_each(|(n, t)| *n = *t);
    nonce
''')],
 'comparing the nonces of several sessions','six of the 24 characters are the same in every session of a process',
'''
fn main() {
    let n: Vec<Vec<u8>> = (0..64)
        .map(|_| ok(&mut client("SCRAM-SHA-256", creds(None, "user", b"secret")), None).split_off(b"n,,n=user,r=".len()))
        .collect();
    for i in 0..24 {
        let d: std::collections::HashSet<u8> = n.iter().map(|x| x[i]).collect();
        assert!(d.len() > 8, "character {i} takes {} values in 64 sessions", d.len());
    }
}
''')
B('c05-short-salt','C05',[(SRV,'let mut salt = [0u8; DEFAULT_SALT_LEN];','let mut salt = [0u8; DEFAULT_SALT_LEN / 16];')],
 'looking at the decoy salts of several sessions','the salt for an unknown user is so short that it repeats, so unknown users can be told apart',
'''
fn main() {
    let n: std::collections::HashSet<String> = (0..3000)
        .map(|_| {
            let mut s = server("SCRAM-SHA-256", knows("user", stored(b"x", b"y", 1)));
            let m = String::from_utf8(ok(&mut s, Some(b"n,,n=nobody,r=abcdefghijkl"))).unwrap();
            m.split(",s=").nth(1).unwrap().split(',').next().unwrap().to_string()
        })
        .collect();
    assert_eq!(n.len(), 3000, "salts of unknown users repeat");
}
''')
B('c06-short-token','C06',[('src/mechanisms/oauthbearer/parser.rs','if let Some(bytes) = bytes.strip_suffix(b"\\x01\\x01") {','if let (bytes, b"\\x01\\x01") = bytes.split_at(bytes.len() - 2) {')],
 'an OAUTHBEARER client message of fewer than two bytes','the server panics',
'''
fn main() {
    for m in [&b""[..], b"\\x01", b"x", b"\\x01\\x01", b"n,,\\x01auth=Bearer t\\x01\\x01"] {
        let mut s = server("OAUTHBEARER", d(|_, _, r| { r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Ok(()))?; Ok(()) }));
        let (r, _) = step(&mut s, Some(m));
        println!("{m:?} {r:?}");
        assert_eq!(r.is_ok(), m.len() > 4);
    }
}
''')
B('c06-login-cut','C06',[('src/mechanisms/login/server.rs','''                    let username = core::str::from_utf8(input)
                        .map_err(LoginError::Utf8)?
                        .to_string();
''','''                    let username = core::str::from_utf8(input).map_err(LoginError::Utf8)?;
                    // No account name is longer than that
                    let username = username[..username.len().min(255)].to_string();
''')],
 'a user name of more than 255 bytes with a multi-byte character across the limit','the server panics (and cuts other long names)',
'''
fn main() {
    for m in ["a".repeat(10), "a".repeat(255), format!("{}\\u{e9}tail", "a".repeat(254))] {
        let mut s = server("LOGIN", d(|_, _, _| Ok(())));
        ok(&mut s, None);
        let (r, _) = step(&mut s, Some(m.as_bytes()));
        println!("{r:?}");
    }
}
''')
B('c07-raw-password','C07',[('src/mechanisms/plain/server.rs','''            let password = saslprep(password).map_err(PlainError::Saslprep)?;

            if password.is_empty() {''','''            let prepared = saslprep(password).map_err(PlainError::Saslprep)?;

            if prepared.is_empty() {''')],
 'a PLAIN password that SASLprep changes','validation sees the password as typed instead of the prepared one',
'''
fn main() {
    static SEEN: Mutex<Vec<u8>> = Mutex::new(vec![]);
    for (sent, seen) in [("pass", "pass"), ("a\\u{a0}b", "a b"), ("\\u{2168}", "IX"), ("so\\u{ad}ft", "soft")] {
        let mut s = server("PLAIN", d(|_, _, _| Ok(())).val(|_, c, _| { *SEEN.lock().unwrap() = c.get_ref::<Password>().unwrap().to_vec(); Ok(()) }));
        ok(&mut s, Some(format!("\\0user\\0{sent}").as_bytes()));
        assert_eq!(*SEEN.lock().unwrap(), seen.as_bytes());
    }
}
''')
B('c07-login-nul','C07',[('src/mechanisms/login/server.rs','password: input,','password: input.strip_suffix(b"\\0").unwrap_or(input),')],
 'a LOGIN password that ends with NUL','the password is truncated before validation',
'''
fn main() {
    static SEEN: Mutex<Vec<u8>> = Mutex::new(vec![]);
    for pw in [&b"pass"[..], b"pass\\0", b"\\0", b""] {
        let mut s = server("LOGIN", d(|_, _, _| Ok(())).val(|_, c, _| { *SEEN.lock().unwrap() = c.get_ref::<Password>().unwrap().to_vec(); Ok(()) }));
        ok(&mut s, None);
        ok(&mut s, Some(b"user"));
        let (r, _) = step(&mut s, Some(pw));
        assert!(r.is_err() || *SEEN.lock().unwrap() == pw, "{pw:?} became {:?}", SEEN.lock().unwrap());
    }
}
''')
OB='''
fn run(m: &[u8]) -> bool {
    let mut s = server("OAUTHBEARER", d(|_, _, r| { r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Ok(()))?; Ok(()) }));
    let (r, _) = step(&mut s, Some(m));
    println!("{} {r:?}", String::from_utf8_lossy(m));
    r.is_ok()
}
'''
B('c08-kv-without-value','C08',[('src/mechanisms/oauthbearer/parser.rs','let val = kviter.next().ok_or(ParseError::InvalidKVPair)?;','let val = kviter.next().unwrap_or_default();')],
 'an OAUTHBEARER key without equals sign','a message the grammar does not derive is accepted',
OB+'''
fn main() {
    assert!(run(b"n,,\\x01host=h\\x01auth=Bearer t\\x01\\x01"));
    assert!(!run(b"n,,\\x01\\x01auth=Bearer t\\x01\\x01"));
    assert!(!run(b"n,,\\x01host\\x01auth=Bearer t\\x01\\x01"), "key without value accepted");
}
''')
B('c08-plain-trailing-nul','C08',[('src/mechanisms/plain/server.rs','if split.next().is_some() {','if split.next().is_some_and(|rest| !rest.is_empty()) {')],
 'a PLAIN message with one more NUL at its end','a message with three separators is accepted',
'''
fn main() {
    for (m, want) in [(&b"\\0user\\0pass"[..], true), (b"a\\0user\\0pass", true), (b"\\0user\\0pa\\0ss", false), (b"\\0user\\0pass\\0", false), (b"\\0user\\0pass\\0\\0", false)] {
        let mut s = server("PLAIN", d(|_, _, _| Ok(())));
        let (r, _) = step(&mut s, Some(m));
        println!("{m:?} {r:?}");
        assert_eq!(r.is_ok(), want, "{m:?}");
    }
}
''')
B('c09-rejected-taken','C09',[('src/registry.rs','Ordering::Greater => acc,','Ordering::Greater if acc.is_some() => acc,'),
  ('src/registry.rs','Ordering::Equal |','Ordering::Greater | Ordering::Equal |')],
 'a preference callback that rejects every mechanism or the first candidate','a mechanism the callback rejected is started',
'''
struct NoPlain;
impl SessionCallback for NoPlain {
    fn prefer<'a>(&self, a: Option<&'a Mechanism>, b: &'a Mechanism) -> std::cmp::Ordering {
        let _ = a;
        if b.mechanism.as_str() == "PLAIN" { std::cmp::Ordering::Greater } else { std::cmp::Ordering::Less }
    }
}
fn main() {
    let m: Vec<Mechanism> = ["PLAIN", "SCRAM-SHA-256"].iter().map(|m| mech(m)).collect();
    let cfg = SASLConfig::builder().with_registry(Registry::with_mechanisms(m.leak())).with_callback(NoPlain).unwrap();
    let p = Mechname::parse(b"PLAIN").unwrap();
    let s = Mechname::parse(b"SCRAM-SHA-256").unwrap();
    let got = SASLClient::new(cfg.clone()).start_suggested(&[p, s]).map(|s| s.get_mechname().as_str().to_string()).ok();
    assert_eq!(got.as_deref(), Some("SCRAM-SHA-256"));
    let got = SASLClient::new(cfg).start_suggested(&[p]).map(|s| s.get_mechname().as_str().to_string()).ok();
    assert_eq!(got, None, "rejected mechanism started");
}
''')
B('c09-authzid-login','C09',[('src/config.rs','let has_authzid = authzid.is_some();','let has_authzid = authzid.as_deref().is_some_and(|a| a != authid);')],
 'with_credentials called with an authorization id equal to the authentication id','LOGIN, which cannot carry the authorization id, is enabled',
'''
fn main() {
    let l = Mechname::parse(b"LOGIN").unwrap();
    for (z, want) in [(None, true), (Some("other"), false), (Some("user"), false), (Some(""), false)] {
        let cfg = SASLConfig::with_credentials(z.map(String::from), "user".into(), "pass".into()).unwrap();
        let got = SASLClient::new(cfg).start_suggested(&[l]).is_ok();
        assert_eq!(got, want, "authzid {z:?}");
    }
}
''')
WR='''
/// accepts at most `max` bytes per call
struct Short(Vec<u8>, usize);
impl std::io::Write for Short {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(self.1);
        self.0.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
'''
B('c10-login-short','C10',[('src/mechanisms/login/client.rs','writer.write_all(password)?;','let _accepted = writer.write(password)?;')],
 'a writer that takes a part of the password per call','the truncated message is reported as sent',
WR+'''
fn main() {
    for max in [1, 3, 100] {
        let mut c = client("LOGIN", creds(None, "user", b"a long password"));
        let mut w = Short(vec![], max);
        c.step(Some(b"User Name\\0"), &mut w).unwrap();
        assert_eq!(w.0, b"user");
        let mut w = Short(vec![], max);
        let r = c.step(Some(b"Password\\0"), &mut w);
        assert!(r.is_err() || w.0 == b"a long password", "{max}: {:?}", w.0);
    }
}
''')
B('c10-external-flush','C10',[('src/mechanisms/external/client.rs','            writer.write_all(authzid.as_bytes())?;\n            Ok(())','''            // Slow peers get the rest with the next message
            if let Err(error) = writer.write_all(authzid.as_bytes()) {
                if error.kind() != core2::io::ErrorKind::WouldBlock {
                    return Err(error.into());
                }
            }
            Ok(())''')],
 'a writer failing with WouldBlock','a message that was not written is reported as sent',
'''
struct Blocked(usize, Vec<u8>);
impl std::io::Write for Blocked {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.1.len() >= self.0 { return Err(std::io::ErrorKind::WouldBlock.into()); }
        let n = b.len().min(self.0 - self.1.len());
        self.1.extend(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    for at in 0..10 {
        let mut c = client("EXTERNAL", d(|_, _, r| { r.satisfy::<AuthzId>("someone")?; Ok(()) }));
        let mut w = Blocked(at, vec![]);
        let r = c.step(None, &mut w);
        println!("{at} {r:?}");
        assert!(r.is_err() || w.1 == b"someone", "{at}: reported success after {:?}", w.1);
    }
}
''')
B('c11-empty-input','C11',[('src/session.rs','            let state = if let Some(input) = input {\n                let input =','            let state = if let Some(input) = input.filter(|input| !input.is_empty()) {\n                let input =')],
 'an empty message passed to step64','the mechanism sees no data instead of an empty message',
'''
fn main() {
    let mk = || { let mut s = server("LOGIN", d(|_, _, _| Ok(()))); ok(&mut s, None); s };
    let raw = step(&mut mk(), Some(b""));
    let mut o = vec![];
    let r = mk().step64(Some(b""), &mut o);
    println!("{:?} {r:?}", raw.0);
    assert_eq!(raw.0.is_ok(), r.is_ok(), "empty input differs between step and step64");
}
''')
B('c11-lenient-padding','C11',[('src/session.rs','                    base64::Engine::decode(&base64::engine::general_purpose::STANDARD, input)?;','''                    base64::Engine::decode(
                        &base64::engine::GeneralPurpose::new(
                            &base64::alphabet::STANDARD,
                            base64::engine::GeneralPurposeConfig::new()
                                .with_decode_padding_mode(base64::engine::DecodePaddingMode::Indifferent),
                        ),
                        input,
                    )?;''')],
 'base64 without its padding','input that is not padded standard base64 reaches the mechanism',
'''
fn main() {
    for (i, want) in [(&b"AHVzZXIAcGFzcw=="[..], true), (b"AHVzZXIAcGFzcw", false), (b"AHVzZXIAcGFzcw=", false), (b"AHVzZXIAcGFzcx==", false)] {
        let mut s = server("PLAIN", d(|_, _, _| Ok(())));
        let r = s.step64(Some(i), &mut vec![]);
        println!("{r:?}");
        assert_eq!(r.is_ok(), want, "{}", String::from_utf8_lossy(i));
    }
}
''')
B('c12-no-callback','C12',[('src/session.rs','Ok(()) | Err(SessionError::CallbackError(CallbackError::NoValue)) => Ok(()),','Ok(()) | Err(SessionError::CallbackError(CallbackError::NoValue | CallbackError::NoCallback(_))) => Ok(()),')],
 'a callback that returns a NoCallback error for an optional property','the error does not abort the step',
'''
fn main() {
    for (novalue, want) in [(true, true), (false, false)] {
        let mut c = client("EXTERNAL", d(move |_, _, _| Err(if novalue { CallbackError::NoValue } else { CallbackError::NoCallback("authzid") }.into())));
        let (r, _) = step(&mut c, None);
        println!("{r:?}");
        assert_eq!(r.is_ok(), want);
    }
}
''')
B('c12-action-default','C12',[('src/session.rs','''        if tagged.is_some() {
            Err(SessionError::CallbackError(CallbackError::NoCallback(''','''        if tagged.is_some() && core::mem::size_of_val(value) > 0 {
            Err(SessionError::CallbackError(CallbackError::NoCallback(''')],
 'an action whose value is empty','an action nobody handled counts as handled',
'''
use rsasl::mechanism::{Authentication, MechanismData};
use rsasl::registry::{Matches, Named, Side};
struct Act;
impl Property<'_> for Act { type Value = str; }
struct M;
static TEXT: Mutex<&'static str> = Mutex::new("");
impl Authentication for M {
    fn step(&mut self, s: &mut MechanismData, _: Option<&[u8]>, _: &mut dyn core2::io::Write) -> Result<State, SessionError> {
        s.action::<Act>(&rsasl::mechanism::EmptyProvider, *TEXT.lock().unwrap())?;
        Ok(State::Finished(MessageSent::No))
    }
}
static MECH: Mechanism = Mechanism::build(Mechname::const_new_unchecked(b"X-ACT"), 1, Some(|| Ok(Box::new(M))), None, Side::Client, |_| Some(Matches::<N>::name()), |_| true);
struct N;
impl Named for N { fn mech() -> &'static Mechanism { &MECH } }
fn main() {
    for text in ["text", ""] {
        *TEXT.lock().unwrap() = text;
        let cfg = SASLConfig::builder().with_registry(Registry::with_mechanisms(std::slice::from_ref(&MECH))).with_callback(d(|_, _, _| Ok(()))).unwrap();
        let mut s = SASLClient::new(cfg).start_suggested(&[MECH.mechanism]).unwrap();
        let r = s.step(None, &mut vec![]);
        println!("{text:?} {r:?}");
        assert!(r.is_err(), "unhandled action {text:?} counts as handled");
    }
}
''')
B('c13-with-overrides','C13',[('src/validate.rs','''        if let Some(result @ Tagged(Option::None)) = self.0.downcast_mut::<T>() {
            let outcome = f()?;''','''        if let Some(result) = self.0.downcast_mut::<T>() {
            let outcome = f()?;''')],
 'a validation callback that sets a value twice, the second time using `with`','the protocol obtains the later value',
'''
fn main() {
    let mut s = server("PLAIN", d(|_, _, _| Ok(())).val(|_, _, v| {
        v.finalize::<V>("first".into());
        v.with::<V, _>(|| Ok("second".into()))?;
        v.finalize::<V>("third".into());
        Ok(())
    }));
    ok(&mut s, Some(b"\\0user\\0pass"));
    assert_eq!(s.validation().as_deref(), Some("first"));
    assert_eq!(s.validation(), None);
}
''')
B('c13-anonymous-ignores','C13',[('src/mechanisms/anonymous/server.rs','session.validate(&ThisProvider::<AnonymousToken>::with(input))?;','''if let Err(error) = session.validate(&ThisProvider::<AnonymousToken>::with(input)) {
            // Nothing is required of anonymous users
            if !matches!(error, crate::validate::ValidationError::MissingRequiredProperty) {
                return Err(error.into());
            }
        }''')],
 'an ANONYMOUS exchange whose validation reports MissingRequiredProperty','the step succeeds although validation failed',
'''
fn main() {
    for which in 0..3 {
        let mut s = server("ANONYMOUS", d(|_, _, _| Ok(())).val(move |_, _, _| match which {
            0 => Ok(()),
            1 => Err(ValidationError::MissingRequiredProperty),
            _ => Err(ValidationError::Boxed("no".into())),
        }));
        let (r, _) = step(&mut s, Some(b"trace"));
        println!("{r:?}");
        assert_eq!(r.is_ok(), which == 0);
    }
}
''')
B('c14-unhandled-error','C14',[('src/mechanisms/xoauth2/client.rs','                session.action::<XOAuth2Error>(&EmptyProvider, error)?;\n                Ok(State::Finished(MessageSent::Yes))','''                match session.action::<XOAuth2Error>(&EmptyProvider, error) {
                    Err(error) if !error.is_missing_prop() => Err(error),
                    _ => Ok(State::Finished(MessageSent::Yes)),
                }''')],
 'a client callback that does not handle the XOAUTH2 error','the rejected login looks like success',
'''
fn main() {
    let mut c = client("XOAUTH2", d(|_, _, r| { r.satisfy::<AuthId>("user")?.satisfy::<OAuthBearerToken>("token")?; Ok(()) }));
    ok(&mut c, None);
    let (r, _) = step(&mut c, Some(b"{\\"status\\":\\"401\\"}"));
    println!("{r:?}");
    assert!(r.is_err(), "rejected token reported as success");
}
''')
B('c14-config-name','C14',[('src/mechanisms/oauthbearer/properties.rs','''        skip_serializing_if = "Option::is_none",
        rename = "openid-configuration"''','''        skip_serializing_if = "Option::is_none",
        rename = "openid_configuration"''')],
 'an OAUTHBEARER error with an openid-configuration','the client does not see the configuration the server sent',
'''
fn main() {
    use oauthbearer::properties::*;
    let mut s = server("OAUTHBEARER", d(|_, _, r| {
        r.satisfy::<OAuthBearerValidate>(&Err(OAuthBearerError::new("invalid_token", Some("mail"), Some("https://x/.well-known"))))?;
        Ok(())
    }));
    static SEEN: Mutex<Option<(String, Option<String>, Option<String>)>> = Mutex::new(None);
    let mut c = client("OAUTHBEARER", d(|_, _, r| {
        if let Some(e) = r.get_action::<OAuthBearerErrored>() {
            *SEEN.lock().unwrap() = Some((e.status.into(), e.scope.map(Into::into), e.openid_config.map(Into::into)));
        }
        r.satisfy::<OAuthBearerToken>("token")?;
        Ok(())
    }));
    let m = ok(&mut c, None);
    let e = ok(&mut s, Some(&m));
    ok(&mut c, Some(&e));
    assert_eq!(SEEN.lock().unwrap().take(), Some(("invalid_token".into(), Some("mail".into()), Some("https://x/.well-known".into()))));
}
''')
B('c15-login-state','C15',[('src/mechanisms/login/server.rs','        match self.state {\n            LoginState::New => {','        match core::mem::replace(&mut self.state, LoginState::Done) {\n            LoginState::New => {'),
 ('src/mechanisms/login/server.rs','''                } else {
                    Err(SessionError::InputDataRequired)
                }
            }
            LoginState::WaitingForPassword(ref username) => {''','''                } else {
                    self.state = LoginState::WaitingForUsername;
                    Err(SessionError::InputDataRequired)
                }
            }
            LoginState::WaitingForPassword(username) => {''')],
 'a data-less step while the LOGIN server waits for the password','the session is not usable afterwards',
'''
fn main() {
    let mut s = server("LOGIN", d(|_, _, _| Ok(())));
    ok(&mut s, None);
    assert!(matches!(step(&mut s, None).0, Err(SessionError::InputDataRequired)));
    ok(&mut s, Some(b"user"));
    assert!(matches!(step(&mut s, None).0, Err(SessionError::InputDataRequired)));
    let (r, _) = step(&mut s, Some(b"pass"));
    println!("{r:?}");
    assert!(r.is_ok());
    assert_eq!(s.validation().as_deref(), Some("user"));
}
''')
B('c16-pbkdf2-cache','C16',[(CLI,'hash_password::<D>(plain_password, iterations, &salt[..], &mut salted_password);','''// Reconnecting clients needn't do that again
                    static LAST: std::sync::Mutex<(u32, Vec<u8>, Vec<u8>)> =
                        std::sync::Mutex::new((0, Vec::new(), Vec::new()));
                    let mut last = LAST.lock().unwrap();
                    if last.0 == iterations && last.1 == salt && last.2.len() == salted_password.len() {
                        salted_password.copy_from_slice(&last.2);
                    } else {
                        hash_password::<D>(plain_password, iterations, &salt[..], &mut salted_password);
                        *last = (iterations, salt.clone(), salted_password.to_vec());
                    }''')],
 'two sessions with different passwords whose servers send the same salt and iteration count','one session uses the password of the other',
'''
fn main() {
    for (pw, want) in [(&b"secret"[..], true), (b"wrong", false), (b"secret", true)] {
        let mut srv = server("SCRAM-SHA-256", knows("user", stored(b"secret", b"salty", 4)));
        let pw: &'static [u8] = pw;
        let mut cl = client("SCRAM-SHA-256", creds(None, "user", pw));
        let m1 = ok(&mut cl, None);
        let m2 = ok(&mut srv, Some(&m1));
        let m3 = ok(&mut cl, Some(&m2));
        let m4 = ok(&mut srv, Some(&m3));
        assert_eq!(m4.starts_with(b"v="), want);
    }
}
''')
B('c17-cbname-utf8','C17',[('src/mechanisms/scram/parser.rs',".find(|b| !(matches!(b, b'.' | b'-' | b'0'..=b'9' | b'A'..=b'Z' | b'a'..=b'z')))",".find(|b| matches!(b, 0..=0x2c | b'/' | b':'..=b'@' | b'['..=b'`' | b'{'..=0x7f))")],
 'a channel binding name with bytes above 0x7f','callbacks get a str that is not UTF-8',
'''
fn main() {
    for name in [&b"tls-unique"[..], b"tls_x", b"tls\\xff\\xfe", b"\\xe4"] {
        let m = "SCRAM-SHA-256-PLUS";
        static BAD: AtomicBool = AtomicBool::new(false);
        let cb = d(|_, c, r| {
            if let Some(n) = c.get_ref::<ChannelBindingName>() {
                if String::from_utf8(n.as_bytes().to_vec()).is_err() { BAD.store(true, Ordering::SeqCst); }
            }
            r.satisfy::<ChannelBindings>(b"data")?;
            Ok(())
        });
        let mut s = server_of(&[m], m, cb.bind(), Bind(vec![])).unwrap();
        let (r, _) = step(&mut s, Some(&[b"p=", name, b",,n=user,r=abcdefg"].concat()));
        println!("{r:?}");
        assert!(!BAD.load(Ordering::SeqCst), "invalid UTF-8 in a str");
    }
}
''')
B('c17-leak','C17',[(CLI,'                if let Some(cbname) = cbtype.as_deref() {','                if let Some(cbname) = cbtype.map(|name| &*std::boxed::Box::leak(name.into_boxed_str())) {')],
 'a -PLUS client whose callback overrides the binding type','memory is leaked with every session',
'''
use std::alloc::{GlobalAlloc, Layout, System};
static LIVE: AtomicIsize = AtomicIsize::new(0);
struct C;
unsafe impl GlobalAlloc for C {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { LIVE.fetch_add(l.size() as isize, Ordering::SeqCst); System.alloc(l) }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { LIVE.fetch_sub(l.size() as isize, Ordering::SeqCst); System.dealloc(p, l) }
}
#[global_allocator]
static A: C = C;
fn main() {
    let m = "SCRAM-SHA-256-PLUS";
    let cfg = config(&[m], d(|_, _, r| { r.satisfy::<AuthId>("user")?.satisfy::<OverrideCBType>("tls-exporter")?; Ok(()) }).bind());
    let run = || {
        let mut c = SASLClient::with_cb(cfg.clone(), Bind(vec![("tls-exporter", b"data".to_vec())])).start_suggested(&[Mechname::parse(m.as_bytes()).unwrap()]).unwrap();
        ok(&mut c, None);
    };
    run();
    let before = LIVE.load(Ordering::SeqCst);
    for _ in 0..100 { run(); }
    let after = LIVE.load(Ordering::SeqCst);
    assert_eq!(before, after, "leaked {} bytes in 100 sessions", after - before);
}
''')
B('c18-empty-encode','C18',[('src/mechanism.rs','''    fn encode(&mut self, _input: &[u8], _writer: &mut dyn Write) -> Result<usize, SessionError> {
        Err(NoSecurityLayer)''','''    fn encode(&mut self, input: &[u8], _writer: &mut dyn Write) -> Result<usize, SessionError> {
        if input.is_empty() {
            // Nothing needs protection
            return Ok(0);
        }
        Err(NoSecurityLayer)''')],
 'encoding zero bytes on a session without a security layer','encode succeeds although no security layer is installed',
'''
fn main() {
    let mut c = client("PLAIN", creds(None, "user", b"pass"));
    ok(&mut c, None);
    assert!(!c.has_security_layer());
    for i in [&b"data"[..], b""] {
        assert!(c.encode(i, &mut vec![]).is_err(), "encode of {i:?}");
        assert!(c.decode(i, &mut vec![]).is_err(), "decode of {i:?}");
    }
}
''')
B('c19-refresh-keys','C19',[(CLI,'''        if keys.is_none() {
            keys = Some(''','''        if keys.is_none() || salt.len() < 8 {
            keys = Some(''')],
 'cached keys and a salt of fewer than 8 bytes','the password is requested although cached keys were supplied',
'''
fn main() {
    for salt in [&b"0123456789"[..], b"salty", b""] {
        static ASKED: AtomicUsize = AtomicUsize::new(0);
        ASKED.store(0, Ordering::SeqCst);
        let k = stored(b"secret", salt, 4);
        let mut srv = server("SCRAM-SHA-256", knows("user", stored(b"secret", salt, 4)));
        let mut cl = client("SCRAM-SHA-256", d(move |_, _, r| {
            r.satisfy::<AuthId>("user")?;
            r.satisfy::<scram::properties::ScramCachedPassword>(&scram::properties::ScramCachedPassword::new(&k.client, &k.server))?;
            if r.is::<Password>() { ASKED.fetch_add(1, Ordering::SeqCst); }
            r.satisfy::<Password>(b"secret")?;
            Ok(())
        }));
        let m1 = ok(&mut cl, None);
        let m2 = ok(&mut srv, Some(&m1));
        let m3 = ok(&mut cl, Some(&m2));
        let m4 = ok(&mut srv, Some(&m3));
        assert!(m4.starts_with(b"v="));
        assert_eq!(ASKED.load(Ordering::SeqCst), 0, "password requested, salt {salt:?}");
    }
}
''')
B('c20-empty-token','C20',[('src/mechanisms/anonymous/client.rs','''        session.maybe_need_with::<AnonymousToken, _, _>(&EmptyProvider, |token| {
            writer.write_all(token.as_bytes())?;
            Ok(())
        })?;
        Ok(State::Finished(MessageSent::Yes))''','''        let sent = session.maybe_need_with::<AnonymousToken, _, _>(&EmptyProvider, |token| {
            writer.write_all(token.as_bytes())?;
            Ok(())
        })?;
        Ok(State::Finished(match sent {
            Some(()) => MessageSent::Yes,
            None => MessageSent::No,
        }))''')],
 'an ANONYMOUS client without a token','the client finishes without the message the server waits for',
'''
fn main() {
    for t in [Some("trace"), None] {
        let mut c = client("ANONYMOUS", d(move |_, _, r| { if let Some(t) = t { r.satisfy::<AnonymousToken>(t)?; } Ok(()) }));
        let (r, _) = step(&mut c, None);
        println!("{r:?}");
        assert!(r.unwrap().has_sent_message(), "the server never gets a message");
    }
}
''')
