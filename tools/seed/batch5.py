exec(open('/verif/tools/seed/batch4.py').read().split("B('c01-stored-prefix'")[0])
GSS=open('/verif/tools/seed/batch3.py').read().split("GSS='''")[1].split("'''")[0]
ALLF='gss::INTEG | gss::CONF | gss::MUTUAL'
GC='src/mechanisms/gssapi/client.rs'; GS='src/mechanisms/gssapi/server.rs'; REG='src/registry.rs'; TY='src/typed.rs'
FIN='''
fn server_final(srv: &mut Session<V, Bind>, s2: &Stored, sign_ext: &str, send_ext: &str) -> (Result<State, SessionError>, Vec<u8>) {
    let bare = "n=user,r=abc";
    let sf = String::from_utf8(ok(srv, Some(format!("n,,{bare}").as_bytes()))).unwrap();
    let nonce = &sf[2..sf.find(',').unwrap()];
    let wp = format!("c=biws,r={nonce}");
    let p = proof(s2, format!("{bare},{sf},{wp}{sign_ext}").as_bytes());
    step(srv, Some(format!("{wp}{send_ext},p={}", b64(&p)).as_bytes()))
}
'''
B('c01-extension-unsigned','C01',[(SRV,'''                        b",",
                        &client_final[..without_proof],''','''                        b",c=",
                        &channel_binding[..without_proof.min(channel_binding.len())],
                        b",r=",
                        &client_nonce,
                        &server_nonce,'''),(SRV,'''                    let mut proof_decoded = DOutput::<D>::default();''','''                    let mut proof_decoded: DOutput<D> = GenericArray::default();''')],
 'a final message with an extension that was added on its way','a final message that was altered after the proof was made is accepted',FIN+'''
fn main() {
    let go = |a: &str, b: &str| {
        let mut srv = server("SCRAM-SHA-256", knows("user", stored(b"secret", b"0123456789abcdef", 4)));
        server_final(&mut srv, &stored(b"secret", b"0123456789abcdef", 4), a, b).1.starts_with(b"v=")
    };
    assert!(go("", ""));
    assert!(!go("", ",x=1"));
    assert!(!go(",x=1", ""));
}
''')
B('c01-decoy-key','C01',[(SRV,'''            Ok(WaitingClientFinal::bad_user())''','''            if authid.len() > 255 {
                return Ok(WaitingClientFinal::bad_user());
            }
            // take as long as for a user that exists
            let (client_key, server_key) = super::tools::derive_keys::<D>(&salt.as_bytes()[..0]);
            Ok(WaitingClientFinal::new(
                client_nonce.into(),
                server_nonce,
                gs2_header,
                client_first_bare,
                username.to_string(),
                authzid.as_ref().map(ToString::to_string),
                salt,
                core::str::from_utf8(DEFAULT_ITERATIONS).unwrap().to_string(),
                D::digest(client_key),
                server_key,
            ))'''),(SRV,'impl<D: Digest + BlockSizeUser + FixedOutput, const N: usize> Authentication for ScramServer<D, N> {','impl<D: Digest + BlockSizeUser + digest::FixedOutputReset, const N: usize> Authentication\n    for ScramServer<D, N>\n{'),
 (SRV,'''    fn step<D: Digest + BlockSizeUser + FixedOutput>(
        self,
        rng''','''    fn step<D: Digest + BlockSizeUser + digest::FixedOutputReset>(
        self,
        rng'''),(SRV,'''    fn handle_client_first<D: Digest + BlockSizeUser + FixedOutput>(''','''    fn handle_client_first<D: Digest + BlockSizeUser + digest::FixedOutputReset>(''')],
 'a client that logs in as an unknown user with the keys of the empty salted password','an unknown user is authenticated',
'''
fn main() {
    let mut srv = server("SCRAM-SHA-256", d(|_, _, _| Ok(())));
    let bare = "n=ghost,r=abc";
    let sf = String::from_utf8(ok(&mut srv, Some(format!("n,,{bare}").as_bytes()))).unwrap();
    let nonce = &sf[2..sf.find(',').unwrap()];
    let wp = format!("c=biws,r={nonce}");
    let client = hmac256(b"", b"Client Key");
    use sha2::Digest;
    let key = sha2::Sha256::digest(&client).to_vec();
    let s = Stored { salt: vec![], iter: 1, stored: key, server: vec![], client };
    let p = proof(&s, format!("{bare},{sf},{wp}").as_bytes());
    let (_, o) = step(&mut srv, Some(format!("{wp},p={}", b64(&p)).as_bytes()));
    println!("{}", String::from_utf8_lossy(&o));
    assert!(o.starts_with(b"e="));
    assert!(srv.validation().is_none());
}
''')
CL2='''
fn first(sfmt: impl Fn(&str) -> String) -> (Result<State, SessionError>, Vec<u8>) {
    let mut cl = client("SCRAM-SHA-256", creds(None, "user", b"secret"));
    let m1 = String::from_utf8(ok(&mut cl, None)).unwrap();
    let nonce = &m1[m1.find("r=").unwrap() + 2..];
    step(&mut cl, Some(sfmt(nonce).as_bytes()))
}
'''
B('c02-nonce-case','C02',[(CLI,'''        let server_nonce = nonce
            .strip_prefix(&self.client_nonce)
            .ok_or(''','''        let server_nonce = nonce
            .get(N..)
            .filter(|_| nonce[..N].eq_ignore_ascii_case(&self.client_nonce))
            .ok_or(''')],
 'a server that returns the nonce of the client in another case','a server-first message whose nonce does not extend the client\'s is answered with a proof',CL2+'''
fn main() {
    assert!(first(|n| format!("r={n}abc,s=MDEyMzQ1Njc4OWFiY2RlZg==,i=4")).0.is_ok());
    let (r, o) = first(|n| format!("r={}abc,s=MDEyMzQ1Njc4OWFiY2RlZg==,i=4", n.to_ascii_uppercase()));
    assert!(r.is_err() && o.is_empty());
}
''')
B('c02-zero-text','C02',[(CLI,'''        if iterations == 0 {''','''        if iteration_count == b"0" {''')],
 'a server that writes the iteration count zero with several digits','a server-first message with a zero iteration count is answered with a proof',CL2+'''
fn main() {
    assert!(first(|n| format!("r={n}abc,s=MDEyMzQ1Njc4OWFiY2RlZg==,i=4")).0.is_ok());
    for i in ["0", "00", "0000"] {
        let (r, o) = first(|n| format!("r={n}abc,s=MDEyMzQ1Njc4OWFiY2RlZg==,i={i}"));
        assert!(r.is_err() && o.is_empty(), "{i}");
    }
}
''')
B('c02-cache-early','C02',[(CLI,'''                if self.verifier.as_slice() == &v[..] {
                    let prov''','''                if self.verifier.len() == v.len() {
                    let prov'''),(CLI,'''                    Ok(StateServerFinal {})
                } else {''','''                    if self.verifier.as_slice() == &v[..] {
                        return Ok(StateServerFinal {});
                    }
                    Err(SessionError::MutualAuthenticationFailed)
                } else {''')],
 'a wrong verifier of the right length','the callback that caches the keys is invoked although the server proved nothing',
'''
use rsasl::mechanisms::scram::properties::*;
fn main() {
    let hits = Arc::new(AtomicUsize::new(0));
    let h = hits.clone();
    let cb = d(move |_, _, r| {
        r.satisfy::<AuthId>("user")?.satisfy::<Password>(b"secret")?;
        if r.get_action::<ScramCachedPassword>().is_some() {
            h.fetch_add(1, Ordering::SeqCst);
        }
        Ok(())
    });
    let mut cl = client("SCRAM-SHA-256", cb);
    let m1 = String::from_utf8(ok(&mut cl, None)).unwrap();
    let nonce = &m1[m1.find("r=").unwrap() + 2..];
    ok(&mut cl, Some(format!("r={nonce}abc,s=MDEyMzQ1Njc4OWFiY2RlZg==,i=4").as_bytes()));
    let (r, _) = step(&mut cl, Some(format!("v={}", b64(&[7; 32])).as_bytes()));
    assert!(r.is_err());
    assert_eq!(hits.load(Ordering::SeqCst), 0);
}
''')
B('c03-salted-cut','C03',[(CLI,'''                Ok(derive_keys::<D>(password))''','''                Ok(derive_keys::<D>(&password[..password.len().min(32)]))''')],
 'a cached salted password for SCRAM-SHA-512','the proof differs from the one made with the plain password',
'''
use rsasl::mechanisms::scram::tools::hash_password;
fn main() {
    // the same nonces are not available from outside: see whether the server accepts
    let mut salted = Default::default();
    hash_password::<sha2::Sha512>(b"secret", 4, b"0123456789abcdef", &mut salted);
    let (ck, sk) = scram::tools::derive_keys::<sha2::Sha512>(&salted);
    use sha2::Digest;
    let key = sha2::Sha512::digest(&ck);
    for cached in [false, true] {
        let (key, sk) = (key.to_vec(), sk.to_vec());
        let mut srv = server("SCRAM-SHA-512", d(move |_, _, r| {
            r.satisfy::<scram::properties::ScramStoredPassword>(&scram::properties::ScramStoredPassword::new(4, b"0123456789abcdef", &key, &sk))?;
            Ok(())
        }));
        let salted = salted.clone();
        let mut cl = client("SCRAM-SHA-512", d(move |_, _, r| {
            r.satisfy::<AuthId>("user")?;
            if cached { r.satisfy::<scram::properties::SaltedPassword>(&salted)?; } else { r.satisfy::<Password>(b"secret")?; }
            Ok(())
        }));
        let m1 = ok(&mut cl, None);
        let m2 = ok(&mut srv, Some(&m1));
        let m3 = ok(&mut cl, Some(&m2));
        let m4 = ok(&mut srv, Some(&m3));
        assert!(m4.starts_with(b"v="), "cached {cached}");
    }
}
''')
B('c04-server-fallback','C04',[(SRV,'''            GS2CBindFlag::Used(name) => session_data.need_cb_data(name, provider, |cbdata| {
                gs2_header.extend_from_slice(cbdata);
                Ok(())
            })?,''','''            GS2CBindFlag::Used(name) => {
                let data = session_data
                    .maybe_need_cb_data(name, provider, |cbdata| Ok(cbdata.to_vec()))?;
                let data = match data {
                    Some(data) => data,
                    // every connection has this one
                    None => session_data
                        .need_cb_data("tls-unique", provider, |cbdata| Ok(cbdata.to_vec()))?,
                };
                gs2_header.extend_from_slice(&data);
            }''')],
 'a client that announces a binding type the server has no data for but uses the data of tls-unique','the exchange succeeds although the server has no binding data of the announced type',
'''
fn run(name: &str) -> bool {
    let s = stored(b"secret", b"0123456789abcdef", 4);
    let s2 = stored(b"secret", b"0123456789abcdef", 4);
    let mut srv = server_of(&["SCRAM-SHA-256-PLUS"], "SCRAM-SHA-256-PLUS", knows("user", s).bind(), Bind(vec![("tls-unique", b"abcd".to_vec())])).unwrap();
    let bare = "n=user,r=abc";
    let (r, o) = step(&mut srv, Some(format!("p={name},,{bare}").as_bytes()));
    if r.is_err() { return false; }
    let sf = String::from_utf8(o).unwrap();
    let nonce = &sf[2..sf.find(',').unwrap()];
    let wp = format!("c={},r={nonce}", b64(format!("p={name},,abcd").as_bytes()));
    let p = proof(&s2, format!("{bare},{sf},{wp}").as_bytes());
    let (_, o) = step(&mut srv, Some(format!("{wp},p={}", b64(&p)).as_bytes()));
    o.starts_with(b"v=")
}
fn main() {
    assert!(run("tls-unique"));
    assert!(!run("tls-exporter"));
}
''')
B('c05-derived-nonce','C05',[(SRV,'''        let server_nonce: [u8; N] = generate_nonce(rng);
''','''        // unpredictable for everybody who does not know the secret of this process
        let server_nonce: [u8; N] = {
            use core::hash::{BuildHasher, Hasher};
            static SECRET: std::sync::OnceLock<std::collections::hash_map::RandomState> =
                std::sync::OnceLock::new();
            let secret = SECRET.get_or_init(Default::default);
            let mut n: [u8; N] = generate_nonce(rng);
            for (i, b) in n.iter_mut().enumerate() {
                let mut h = secret.build_hasher();
                h.write(client_nonce);
                h.write_usize(i);
                *b = super::tools::PRINTABLE[h.finish() as usize % super::tools::PRINTABLE.len()];
            }
            n
        };
''')],
 'two sessions whose clients send the same nonce','two sessions use the same server nonce',
'''
fn main() {
    let n = || {
        let mut srv = server("SCRAM-SHA-256", knows("user", stored(b"secret", b"0123456789abcdef", 4)));
        String::from_utf8(ok(&mut srv, Some(b"n,,n=user,r=abc"))).unwrap()
    };
    assert_ne!(n(), n());
}
''')
B('c05-fork-buffer','C05',[(TOOLS,'''    let distribution = Slice::new(PRINTABLE).unwrap();
    [0u8; N].map(|_| *distribution.sample(rng))''','''    let distribution = Slice::new(PRINTABLE).unwrap();
    // drawing every character from the system is slow
    let mut buffered = rand::thread_rng();
    let _ = rng;
    [0u8; N].map(|_| *distribution.sample(&mut buffered))''')],
 'a process that forks after its first session','parent and child use the same nonces',
'''
extern "C" { fn fork() -> i32; fn waitpid(p: i32, s: *mut i32, o: i32) -> i32; }
fn nonce() -> String {
    let mut cl = client("SCRAM-SHA-256", creds(None, "user", b"secret"));
    String::from_utf8(ok(&mut cl, None)).unwrap()
}
fn main() {
    nonce();
    let f = std::env::temp_dir().join(format!("c05-fork-{}", std::process::id()));
    let p = unsafe { fork() };
    if p == 0 {
        std::fs::write(&f, nonce()).unwrap();
        std::process::exit(0);
    }
    let mut st = 0;
    unsafe { waitpid(p, &mut st, 0) };
    let child = std::fs::read_to_string(&f).unwrap();
    std::fs::remove_file(&f).unwrap();
    let own = nonce();
    let at = own.find("r=").unwrap() + 2;
    assert_ne!(child[at..at + 5], own[at..at + 5]);
}
''')
B('c05-salt-tail','C05',[(SRV,'''            rng.fill_bytes(&mut salt);
            let salt = base64::engine::general_purpose::STANDARD.encode(salt);
''','''            let (random, _padding) = salt.split_at_mut(12);
            rng.fill_bytes(random);
            let salt = base64::engine::general_purpose::STANDARD.encode(&salt[..]);
''')],
 'looking at the end of the decoy salts','a quarter of the decoy salt is constant, which tells unknown users from known ones',
'''
fn main() {
    let salt = || {
        let mut srv = server("SCRAM-SHA-256", d(|_, _, _| Ok(())));
        let m = String::from_utf8(ok(&mut srv, Some(b"n,,n=user,r=abc"))).unwrap();
        let s = m.split(",s=").nth(1).unwrap().split(',').next().unwrap().to_string();
        use base64::Engine;
        base64::engine::general_purpose::STANDARD.decode(s).unwrap()
    };
    let (a, b) = (salt(), salt());
    assert!(a.len() >= 16 && a[12..] != b[12..]);
}
''')
B('c06-escape-slice','C06',[(PAR,'''        if let Some(c) = input.iter().find(|byte| matches!(**byte, b'\\0' | b',')) {
            return Err(SaslNameError::InvalidChar(*c));''','''        if let Some(&c) = input.iter().find(|byte| matches!(**byte, b'\\0' | b',')) {
            return Err(SaslNameError::InvalidChar(c));'''),(TOOLS if False else PAR,'''            let (c, good) = if let Some(good) = part.strip_prefix("2C") {
                (',', good)
            } else if let Some(good) = part.strip_prefix("3D") {
                ('=', good)
            } else {
                return Err(SaslNameError::InvalidEscape);
            };''','''            if part.len() < 2 {
                return Err(SaslNameError::InvalidEscape);
            }
            let (code, good) = part.split_at(2);
            let c = match code {
                "2C" => ',',
                "3D" => '=',
                _ => return Err(SaslNameError::InvalidEscape),
            };''')],
 'an equals sign followed by a three-byte character in a name','the server panics',
'''
fn main() {
    for n in ["=2Ca", "=x", "=", "a=\\u{20ac}", "=a\\u{e9}"] {
        let mut srv = server("SCRAM-SHA-256", d(|_, _, _| Ok(())));
        let (r, _) = step(&mut srv, Some(format!("n,,n={n},r=abc").as_bytes()));
        println!("{n}: {r:?}");
    }
}
''')
B('c06-salt-buffer','C06',[(CLI,'''        let salt = base64::engine::general_purpose::STANDARD
            .decode(salt64)
            .map_err(|_| SCRAMError::Protocol(ProtocolError::Base64Decode))?;''','''        let mut buffer = [0u8; 768];
        let len = base64::engine::general_purpose::STANDARD
            .decode_slice(&salt64[..salt64.len().min(1024)], &mut buffer)
            .map_err(|_| SCRAMError::Protocol(ProtocolError::Base64Decode))?;
        let salt = buffer[..len.max(salt64.len() / 4 * 3 - 2)].to_vec();''')],
 'a server-first message with a salt of fewer than three or more than 768 bytes','the client panics',
'''
fn main() {
    for n in [1usize, 2, 3, 16, 767, 768, 769, 1000] {
        let mut cl = client("SCRAM-SHA-256", creds(None, "user", b"secret"));
        let m1 = String::from_utf8(ok(&mut cl, None)).unwrap();
        let nonce = &m1[m1.find("r=").unwrap() + 2..];
        let (r, _) = step(&mut cl, Some(format!("r={nonce}abc,s={},i=4", b64(&vec![7; n])).as_bytes()));
        println!("{n} {r:?}");
    }
    let mut cl = client("SCRAM-SHA-256", creds(None, "user", b"secret"));
    let m1 = String::from_utf8(ok(&mut cl, None)).unwrap();
    let nonce = &m1[m1.find("r=").unwrap() + 2..];
    let (r, _) = step(&mut cl, Some(format!("r={nonce}abc,s=,i=4").as_bytes()));
    println!("{r:?}");
}
''')
B('c07-double-unescape','C07',[(PAR,'''        if let Some(c) = input.iter().find(|byte| matches!(**byte, b'\\0' | b',')) {
            return Err(SaslNameError::InvalidChar(*c));''','''        if let Some(&c) = input.iter().find(|byte| matches!(**byte, b'\\0' | b',')) {
            return Err(SaslNameError::InvalidChar(c));'''),(PAR,'''        Ok(out.into())
    }
}''','''        if !out.contains('=') {
            return Ok(out.into());
        }
        // some clients escape twice
        Ok(out.replace("=2C", ",").replace("=3D", "=").into())
    }
}''')],
 'a user name that contains the text =2C or =3D','the server sees another user name than the client supplied',
'''
fn main() {
    for name in ["user", "a=b", "a,b", "a=2Cb", "=3D"] {
        let seen = Arc::new(Mutex::new(String::new()));
        let s = seen.clone();
        let mut srv = server("SCRAM-SHA-256", d(move |_, c, _| { *s.lock().unwrap() = c.get_ref::<AuthId>().unwrap_or("").into(); Ok(()) }));
        let mut cl = client("SCRAM-SHA-256", creds(None, name, b"secret"));
        let m1 = ok(&mut cl, None);
        ok(&mut srv, Some(&m1));
        assert_eq!(*seen.lock().unwrap(), name);
    }
}
''')
B('c07-token-trim','C07',[(XS,'''                let token = core::str::from_utf8(raw_token)
                    .map_err(|e| SessionError::MechanismError(Box::new(Error::NotUtf8(TOKN, e))))?;''','''                let token = core::str::from_utf8(raw_token)
                    .map_err(|e| SessionError::MechanismError(Box::new(Error::NotUtf8(TOKN, e))))?
                    .trim_end_matches('=');''')],
 'an XOAUTH2 token that ends with an equals sign','the server sees another token than the client supplied',
'''
fn main() {
    let tok = Arc::new(Mutex::new(String::new()));
    let t = tok.clone();
    let mut srv = server("XOAUTH2", d(move |_, c, r| {
        *t.lock().unwrap() = c.get_ref::<OAuthBearerToken>().unwrap_or("").into();
        r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Ok(()))?;
        Ok(())
    }));
    let mut cl = client("XOAUTH2", d(|_, _, r| { r.satisfy::<AuthId>("u")?.satisfy::<OAuthBearerToken>("abc==")?; Ok(()) }));
    let m = ok(&mut cl, None);
    ok(&mut srv, Some(&m));
    assert_eq!(*tok.lock().unwrap(), "abc==");
}
''')
B('c08-login-lossy','C08',[(LS,'''                    let username = core::str::from_utf8(input)
                        .map_err(LoginError::Utf8)?
                        .to_string();''','''                    let username = match core::str::from_utf8(input) {
                        // not encoded, so Latin-1
                        Err(error) if input.len() > 255 => Err(LoginError::Utf8(error))?,
                        Err(_) => input.iter().copied().map(char::from).collect(),
                        Ok(name) => name.to_string(),
                    };''')],
 'a LOGIN user name that is not UTF-8','a message that is not UTF-8 reaches validation',
'''
fn main() {
    let mut srv = server("LOGIN", d(|_, _, _| Ok(())));
    ok(&mut srv, None);
    let (r, _) = step(&mut srv, Some(b"us\\xe9r"));
    assert!(r.is_err());
}
''')
B('c08-auth-case','C08',[(OBP,'''                if let Some(t) = kv.strip_prefix(b"auth=") {''','''                let is_token = kv.len() >= 5 && kv[..5].eq_ignore_ascii_case(b"auth=");
                if let Some(t) = is_token.then(|| &kv[5..]) {''')],
 'an OAUTHBEARER message with a field called AUTH','a field is reinterpreted as the token',
'''
fn main() {
    for (m, good) in [("auth=Bearer x", true), ("AUTH=Bearer x", false), ("Auth=y\\x01auth=Bearer x", true)] {
        let mut srv = server("OAUTHBEARER", d(|_, c, r| {
            assert_eq!(c.get_ref::<OAuthBearerToken>(), Some("x"));
            r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Ok(()))?; Ok(())
        }));
        let (r, _) = step(&mut srv, Some(format!("n,,\\x01{m}\\x01\\x01").as_bytes()));
        assert_eq!(r.is_ok(), good, "{m}");
    }
}
''')
B('c09-prefix-match','C09',[(REG,'''            if *mechname == *m.mechanism {''','''            if mechname.as_str().starts_with(m.mechanism.as_str()) {''')],
 'a server that offers a mechanism whose name starts with the one of an enabled mechanism','a mechanism that was not offered is started',
'''
fn main() {
    let go = |o: &str| client_of(&["PLAIN", "EXTERNAL"], &[o], creds(None, "u", b"p"), Bind(vec![])).is_ok();
    assert!(go("PLAIN") && go("EXTERNAL"));
    assert!(!go("PLAIN-CLIENTTOKEN"));
    assert!(!go("EXTERNALX"));
}
''')
B('c10-interrupted','C10',[('src/vectored_io.rs','''        let len = writer.write_vectored(&bufs[self.skip..])?;''','''        let len = match writer.write_vectored(&bufs[self.skip..]) {
            // a signal after the first part: the data is on its way
            Err(error) if error.kind() == io::ErrorKind::Interrupted && self.skip > 0 => {
                self.skip = N;
                return Ok(1);
            }
            result => result?,
        };''')],
 'a writer that takes a part of the message and is interrupted then','the step succeeds with a truncated message',
'''
struct W(Vec<u8>, bool);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.1 = !self.1;
        if !self.1 { return Err(std::io::ErrorKind::Interrupted.into()); }
        let n = b.len().min(7);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut cl = client("SCRAM-SHA-256", creds(None, "user", b"secret"));
    let mut w = W(vec![], false);
    cl.step(None, &mut w).unwrap();
    println!("{}", String::from_utf8_lossy(&w.0));
    assert!(w.0.len() >= 36);
}
''')
B('c11-trim-input','C11',[(SES,'''                let input =
                    base64::Engine::decode(&base64::engine::general_purpose::STANDARD, input)?;''','''                let input = base64::Engine::decode(
                    &base64::engine::general_purpose::STANDARD,
                    input.strip_suffix(b"\\r\\n").unwrap_or(input),
                )?;''')],
 'base64 with a line end behind it','input that is not canonical base64 reaches the mechanism',
'''
fn main() {
    for (i, good) in [(&b"dXNlcg=="[..], true), (b"dXNlcg==\\r\\n", false), (b"dXNlcg==\\n", false), (b"dXNlcg", false)] {
        let mut srv = server("ANONYMOUS", d(|_, _, _| Ok(())));
        assert_eq!(srv.step64(Some(i), &mut Vec::new()).is_ok(), good, "{i:?}");
    }
}
''')
B('c11-trailing-bits','C11',[(SES,'''                    base64::Engine::decode(&base64::engine::general_purpose::STANDARD, input)?;''','''                    base64::Engine::decode(&base64::engine::GeneralPurpose::new(
                        &base64::alphabet::STANDARD,
                        base64::engine::GeneralPurposeConfig::new()
                            .with_decode_allow_trailing_bits(true),
                    ), input)?;''')],
 'base64 whose last character has bits that do not count','several encodings of the same message are accepted',
'''
fn main() {
    for (i, good) in [(&b"dXNlcg=="[..], true), (b"dXNlch==", false), (b"dXNlcn==", false)] {
        let mut srv = server("ANONYMOUS", d(|_, _, _| Ok(())));
        assert_eq!(srv.step64(Some(i), &mut Vec::new()).is_ok(), good, "{i:?}");
    }
}
''')
B('c12-eager-with','C12',[(CB,'''            if !mech.is_satisfied() {
                let answer = closure()?;
                mech.satisfy(&answer)?;
                return Err(CallbackError::early_return().into());
            }''','''            let answer = closure()?;
            if !mech.is_satisfied() {
                mech.satisfy(&answer)?;
                Err(CallbackError::early_return())?;
            }''')],
 'a callback that ignores the early return and supplies the same property again using satisfy_with','the closure of the later value is evaluated and its error aborts the step',
'''
fn main() {
    let mut cl = client("ANONYMOUS", d(|_, _, r| {
        let _ = r.satisfy::<anonymous::AnonymousToken>("first");
        r.satisfy_with::<Num, _>(|| panic!("evaluated"))?;
        Ok(())
    }));
    assert_eq!(ok(&mut cl, None), b"first");
    // a sized property: XOAuth2Validate
    let mut srv = server("XOAUTH2", d(|_, _, r| {
        let _ = r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Ok(()));
        r.satisfy_with::<xoauth2::properties::XOAuth2Validate, _>(|| Err(CallbackError::NoCallback("later").into()))?;
        Ok(())
    }));
    ok(&mut srv, Some(b"user=a\\x01auth=Bearer b\\x01\\x01"));
}
struct Num;
impl rsasl::property::SizedProperty<'_> for Num { type Value = u32; }
''')
B('c12-required-novalue','C12',[(SES,'''        self.maybe_need_with::<P, F, G>(provider, closure)?
            .ok_or_else(|| CallbackError::NoCallback(type_name::<P>()).into())''','''        let mut closurecr = ClosureCR::<P, _, _>::wrap(closure);
        let mut tagged = Tagged::<'_, tags::RefMut<Satisfy<P>>>(&mut closurecr);
        self.callback(provider, Request::new_satisfy::<P>(&mut tagged))?;
        closurecr
            .try_unwrap()
            .ok_or_else(|| CallbackError::NoCallback(type_name::<P>()).into())''')],
 'a callback that supplies a value and returns NoValue, or answers a required property with NoValue','the request is not answered the way the callback decided',
'''
fn main() {
    let mut cl = client("LOGIN", d(|_, _, _| Err(CallbackError::NoValue.into())));
    let (r, _) = step(&mut cl, None);
    println!("{r:?}");
    assert!(matches!(r, Err(SessionError::CallbackError(CallbackError::NoCallback(_)))));
}
''')
B('c13-oauth-again','C13',[(XS,'''            XOAuth2State::Errored => Ok(State::Finished(MessageSent::No)),''','''            XOAuth2State::Errored => {
                // the outcome is known now
                session.validate(&Prov {
                    authid: "",
                    token: "",
                })?;
                Ok(State::Finished(MessageSent::No))
            }''')],
 'an XOAUTH2 exchange with a rejected token','the validation callback is called twice',
'''
fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    let mut srv = server("XOAUTH2", d(|_, _, r| { r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Err("no"))?; Ok(()) }).val(move |_, _, _| { m.fetch_add(1, Ordering::SeqCst); Ok(()) }));
    ok(&mut srv, Some(b"user=a\\x01auth=Bearer b\\x01\\x01"));
    ok(&mut srv, Some(b""));
    assert_eq!(n.load(Ordering::SeqCst), 1);
}
''')
B('c14-trailing-garbage','C14',[(OBC,'serde_json::from_slice(input).map_err(Error::Serde)?','ServerError::deserialize(&mut serde_json::Deserializer::from_slice(input))\n                    .map_err(Error::Serde)?'),(OBC,'                let input = input.unwrap_or(&[]);','                let input = input.unwrap_or_default();')],
 'an OAUTHBEARER error document with garbage behind it','an error that can not be parsed is accepted',
'''
fn main() {
    for (m, good) in [("{\\"status\\":\\"x\\"}", true), ("{\\"status\\":\\"x\\"}}", false), ("{\\"status\\":\\"x\\"} {\\"status\\":\\"y\\"}", false)] {
        let mut cl = client("OAUTHBEARER", d(|_, _, r| {
            r.satisfy::<OAuthBearerToken>("t")?;
            r.get_action::<oauthbearer::properties::OAuthBearerErrored>();
            Ok(())
        }));
        ok(&mut cl, None);
        assert_eq!(step(&mut cl, Some(m.as_bytes())).0.is_ok(), good, "{m}");
    }
}
''')
B('c14-success-word','C14',[(XC,'''                if input.is_empty() {
                    return Ok(State::Finished(MessageSent::No));
                }
''','''                if input.iter().all(u8::is_ascii_whitespace) {
                    return Ok(State::Finished(MessageSent::No));
                }
''')],
 'an XOAUTH2 server whose error consists of white space','the rejected login looks like success',
'''
fn main() {
    let mut cl = client("XOAUTH2", d(|_, _, r| { r.satisfy::<AuthId>("u")?.satisfy::<OAuthBearerToken>("t")?; Ok(()) }));
    ok(&mut cl, None);
    let (r, _) = step(&mut cl, Some(b" "));
    assert!(r.is_err());
}
''')
B('c15-final-lost','C15',[(SRV,'''            Some(state @ (WaitingClientFirst(_) | WaitingClientFinal(_))) if input.is_none() => {
                self.state = Some(state);
                Err(SessionError::InputDataRequired)
            }
            Some(WaitingClientFirst(state)) => {
                let client_first = input.ok_or(SessionError::InputDataRequired)?;
''','''            Some(state @ WaitingClientFirst(_)) if input.is_none() => {
                self.state = Some(state);
                Err(SessionError::InputDataRequired)
            }
            Some(WaitingClientFirst(state)) => {
                let client_first = input.unwrap_or_default();
'''),(SRV,'                let client_final = input.ok_or(SessionError::InputDataRequired)?;','''                let Some(client_final) = input else {
                    self.state = Some(WaitingClientFirst(ScramState::new(CBSupport::No)));
                    return Err(SessionError::InputDataRequired);
                };''')],
 'a SCRAM server stepped without data while it waits for the proof','the message supplied afterwards is taken for the first one',
'''
fn main() {
    let mut srv = server("SCRAM-SHA-256", knows("user", stored(b"secret", b"0123456789abcdef", 4)));
    let mut cl = client("SCRAM-SHA-256", creds(None, "user", b"secret"));
    let m1 = ok(&mut cl, None);
    let m2 = ok(&mut srv, Some(&m1));
    assert!(step(&mut srv, None).0.is_err());
    let m3 = ok(&mut cl, Some(&m2));
    assert!(ok(&mut srv, Some(&m3)).starts_with(b"v="));
}
''')
B('c16-thread-scratch','C16',[(LS,'''                    self.state = LoginState::WaitingForPassword(username);''','''                    NAME.with(|name| *name.borrow_mut() = username);
                    self.state = LoginState::WaitingForPassword(String::new());'''),(LS,'''                        authid: username.as_str(),
                        password: input,
                    };
                    session.validate(&prov)?;''','''                        authid: &NAME.with(|name| name.borrow().clone() + username),
                        password: input,
                    };
                    session.validate(&prov)?;'''),(LS,'''#[derive(Debug)]
pub struct Login {''','''std::thread_local! {
    // saves an allocation per session
    static NAME: core::cell::RefCell<String> = const { core::cell::RefCell::new(String::new()) };
}

#[derive(Debug)]
pub struct Login {''')],
 'two LOGIN exchanges that are interleaved on one thread, or one that moves to another thread','a session is validated with the name of another session',
'''
fn main() {
    let cfg = config(&["LOGIN"], d(|_, _, _| Ok(())));
    let new = || SASLServer::<V, Bind>::with_cb(cfg.clone(), Bind(vec![])).start_suggested(Mechname::parse(b"LOGIN").unwrap()).unwrap();
    let (mut a, mut b) = (new(), new());
    for (s, n) in [(&mut a, "alice"), (&mut b, "bob")] {
        ok(s, None);
        ok(s, Some(n.as_bytes()));
    }
    ok(&mut a, Some(b"pw"));
    assert_eq!(a.validation().as_deref(), Some("alice"));
}
''')
B('c17-type-name','C17',[(TY,'''    fn tag_id(&self) -> TypeId {
        TypeId::of::<T>()
    }''','''    fn tag_id(&self) -> (&'static str, usize) {
        (core::any::type_name::<T>(), core::mem::size_of::<T::Reified>())
    }'''),(TY,'''    fn tag_id(&self) -> TypeId;''','''    /// The address of a `TypeId` can not be printed, the name can
    fn tag_id(&self) -> (&'static str, usize);'''),(TY,'''        TypeId::of::<T>() == self.tag_id()''','''        (core::any::type_name::<T>(), core::mem::size_of::<T::Reified>()) == self.tag_id()'''),(TY,'use core::any::TypeId;\n',''),('src/validate.rs','''        self.0.tag_id() == TypeId::of::<T>()''','''        self.0.is::<T>()'''),('src/validate.rs','use core::any::TypeId;\n','')],
 'two property types with the same path, e.g. defined in two blocks of one function','a value is read as another type',
'''
fn main() {
    assert!(one());
}
// the types of both blocks are called `V1` and have the same path
fn one() -> bool {
    let cfg;
    {
        struct V1;
        impl Validation for V1 { type Value = &'static [u8]; }
        cfg = config(&["EXTERNAL"], d(|_, _, _| Ok(())).val(|_, _, v| { v.finalize::<V1>(b"\\xff"); Ok(()) }));
    }
    {
        struct V1;
        impl Validation for V1 { type Value = &'static str; }
        let mut s = SASLServer::<V1>::new(cfg).start_suggested(Mechname::parse(b"EXTERNAL").unwrap()).unwrap();
        s.step(Some(b""), &mut Vec::new()).unwrap();
        s.validation().is_none()
    }
}
''')
B('c18-no-layer-sneaks','C18',[(GS,'''                if selected.bits().count_ones() != 1 || !supported.contains(selected) {''','''                let allowed = supported | SecurityLayer::NO_SECURITY_LAYER;
                if selected.bits().count_ones() != 1 || !allowed.contains(selected) {'''),(GS,'''                if unwrapped.len() != 4 {
                    Err(Error::BadFinalToken)?;
                }''','''                if unwrapped.len() != 4 {
                    return Err(Error::BadFinalToken.into());
                }''')],
 'a client that selects no layer although the server insists on one','an exchange finishes without the layer the server insists on',GSS+'''
fn main() {
    lib(2, ALLF);
    let (mut c, mut s) = (cl(7), sv(6));
    let a = ok(&mut c, None);
    let b = ok(&mut s, Some(&a));
    ok(&mut c, Some(&b));
    ok(&mut s, Some(b""));
    let key = gss::with(|m| m.key()).unwrap();
    let (r, _) = step(&mut s, Some(&gss::seal(&key, true, false, 0, &[1, 0, 0, 0])));
    println!("{r:?}");
    assert!(r.is_err());
}
'''.replace('ALLF',ALLF),['gssapi'])
B('c19-server-password','C19',[(SRV,'''        let server_nonce: [u8; N] = generate_nonce(rng);

        if let''','''        let params = match stored {
            Some(params) => Some(params),
            // fall back to the password
            None if username.len() > 64 => None,
            None => session_data.maybe_need_with::<crate::property::Password, _, _>(
                &provider,
                |_| Err(SessionError::CallbackError(crate::callback::CallbackError::NoValue)),
            )?,
        };
        let server_nonce: [u8; N] = generate_nonce(rng);

        if let'''),(SRV,'''        let params = session_data''','''        let stored = session_data''')],
 'a user without a stored key','a SCRAM server asks the callback for the password',
'''
fn main() {
    let asked = Arc::new(AtomicUsize::new(0));
    let a = asked.clone();
    let mut srv = server("SCRAM-SHA-256", d(move |_, _, r| { if r.is::<Password>() { a.fetch_add(1, Ordering::SeqCst); } Ok(()) }));
    ok(&mut srv, Some(b"n,,n=user,r=abc"));
    assert_eq!(asked.load(Ordering::SeqCst), 0);
}
''')
B('c20-login-empty-password','C20',[(LC,'''                self.state = LoginState::Done;
                Ok(State::Finished(MessageSent::Yes))''','''                self.state = LoginState::Done;
                Ok(State::Finished(
                    if _input.map_or(true, <[u8]>::is_empty) {
                        // no prompt, nobody waits for the password
                        MessageSent::No
                    } else {
                        MessageSent::Yes
                    },
                ))''')],
 'a LOGIN client that is not given the prompt','a message is written although the client says that none was sent',
'''
fn main() {
    let mut cl = client("LOGIN", creds(None, "u", b"p"));
    ok(&mut cl, None);
    let (r, o) = step(&mut cl, None);
    assert!(o.is_empty() || r.unwrap().has_sent_message());
}
''')
B('c20-oauth-empty-answer','C20',[(OBC,'''                session.action::<OAuthBearerErrored>(&EmptyProvider, &error)?;
                Ok(State::Finished(MessageSent::Yes))''','''                session.action::<OAuthBearerErrored>(&EmptyProvider, &error)?;
                // nothing was written
                Ok(State::Finished(MessageSent::No))''')],
 'an OAUTHBEARER exchange in which the token is rejected','the client finishes without the message the server waits for',
'''
fn main() {
    let mut cl = client("OAUTHBEARER", d(|_, _, r| {
        r.satisfy::<OAuthBearerToken>("t")?;
        r.get_action::<oauthbearer::properties::OAuthBearerErrored>();
        Ok(())
    }));
    ok(&mut cl, None);
    let (r, _) = step(&mut cl, Some(b"{\\"status\\":\\"x\\"}"));
    assert!(r.unwrap().has_sent_message());
}
''')
