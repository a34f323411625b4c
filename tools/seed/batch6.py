exec(open('/verif/tools/seed/batch5.py').read().split("B('c01-extension-unsigned'")[0])
VIO='src/vectored_io.rs'; XC='src/mechanisms/xoauth2/client.rs'; MN='src/mechname.rs'; SES='src/session.rs'; MI='src/mechanisms/scram/mechinfo.rs'
ES='src/mechanisms/external/server.rs'; LS='src/mechanisms/login/server.rs'; PS='src/mechanisms/plain/server.rs'; OP='src/mechanisms/oauthbearer/parser.rs'; OS_='src/mechanisms/oauthbearer/server.rs'
# ---- C21
B('c21-unique-error','C21',[(CLI,'''                        session.need_cb_data("tls-unique", EmptyProvider, |i_cbdata| {
                            gs2_header.extend_from_slice(b"tls-unique");
                            cbdata = Some(i_cbdata.into());
                            Ok(())
                        })?;''','''                        session
                            .maybe_need_cb_data("tls-unique", EmptyProvider, |i_cbdata| {
                                gs2_header.extend_from_slice(b"tls-unique");
                                cbdata = Some(i_cbdata.into());
                                Ok(())
                            })
                            .ok()
                            .flatten()
                            .ok_or_else(|| {
                                SessionError::MissingChannelBindingData("tls-unique".to_string())
                            })?;''')],
 'a callback that fails while it looks for tls-unique data','the error of the callback is replaced by missing channel binding data',
'''
fn main() {
    let cb = d(|_, c, r| {
        if r.is::<ChannelBindings>() && c.get_ref::<ChannelBindingName>() == Some("tls-unique") {
            return Err(SessionError::NoSecurityLayer);
        }
        r.satisfy::<AuthId>("u")?;
        Ok(())
    }).bind();
    let m = "SCRAM-SHA-256-PLUS";
    let mut c = client_of(&[m], &[m], cb, Bind(vec![])).unwrap();
    assert!(matches!(step(&mut c, None).0, Err(SessionError::NoSecurityLayer)));
}
''')
B('c21-login-password','C21',[('src/mechanisms/login/client.rs','''                session.need_with::<Password, _, _>(&EmptyProvider, |password| {
                    writer.write_all(password)?;
                    Ok(())
                })?;''','''                session
                    .maybe_need_with::<Password, _, _>(&EmptyProvider, |password| {
                        writer.write_all(password)?;
                        Ok(())
                    })?
                    .ok_or(SessionError::InputDataRequired)?;''')],
 'a LOGIN client whose callback has no password','the missing password is reported as missing input',
'''
fn main() {
    let mut c = client("LOGIN", d(|_, _, r| { r.satisfy::<AuthId>("u")?; Ok(()) }));
    ok(&mut c, None);
    assert!(step(&mut c, Some(b"x")).0.unwrap_err().is_missing_prop());
}
''')
B('c21-xoauth-io','C21',[(XC,'''                    let data = [token.as_bytes(), b"\\x01\\x01"];
                    let mut vecw = VectoredWriter::new(data);
                    vecw.write_all_vectored(writer)?;''','''                    let data = [token.as_bytes(), b"\\x01\\x01"];
                    let mut vecw = VectoredWriter::new(data);
                    vecw.write_all_vectored(writer)
                        .map_err(|e| SessionError::Boxed(Box::new(e)))?;''')],
 'a writer that fails in the second part of an XOAUTH2 message','the error is not an I/O error any more',
'''
struct W(usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        if self.0 == 0 { return Err(std::io::ErrorKind::BrokenPipe.into()); }
        let n = b.len().min(self.0);
        self.0 -= n;
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    for n in 0..20 {
        let mut c = client("XOAUTH2", d(|_, _, r| { r.satisfy::<AuthId>("u")?.satisfy::<OAuthBearerToken>("t")?; Ok(()) }));
        assert!(matches!(c.step(None, &mut W(n)), Err(SessionError::Io { .. })), "{n}");
    }
}
''')
B('c21-verifier-length','C21',[(CLI,'''                if self.verifier.as_slice() == &v[..] {''','''                if self.verifier.len() != v.len() {
                    return Err(SCRAMError::Protocol(ProtocolError::Base64Decode).into());
                }
                if self.verifier.as_slice() == &v[..] {'''),(CLI,'''            ServerFinal::Error(e) => Err(SCRAMError::ServerError(e).into()),''','''            ServerFinal::Error(error) => Err(SCRAMError::ServerError(error).into()),''')],
 'a server verifier of another length','an unauthenticated server is reported as a protocol error',
'''
fn main() {
    let s = stored(b"secret", b"salt", 2);
    let mut srv = server("SCRAM-SHA-256", knows("user", s));
    let mut cl = client("SCRAM-SHA-256", creds(None, "user", b"secret"));
    let c0 = ok(&mut cl, None);
    let s1 = ok(&mut srv, Some(&c0));
    ok(&mut cl, Some(&s1));
    assert!(matches!(step(&mut cl, Some(b"v=AAAA")).0, Err(SessionError::MutualAuthenticationFailed)));
}
''')
B('c21-error-kind','C21',[(CLI,'''            Self::ServerError(_) => MechanismErrorKind::Outcome,''','''            Self::ServerError(
                super::parser::ServerErrorValue::InvalidProof
                | super::parser::ServerErrorValue::UnknownUser,
            ) => MechanismErrorKind::Outcome,
            Self::ServerError(_) => MechanismErrorKind::Protocol,''')],
 'a server-final message with e=other-error or other values','a failed authentication is not reported as the outcome',
'''
fn main() {
    let s = stored(b"secret", b"salt", 2);
    let mut srv = server("SCRAM-SHA-256", knows("user", s));
    let mut cl = client("SCRAM-SHA-256", creds(None, "user", b"secret"));
    let c0 = ok(&mut cl, None);
    let s1 = ok(&mut srv, Some(&c0));
    ok(&mut cl, Some(&s1));
    match step(&mut cl, Some(b"e=other-error")).0 {
        Err(SessionError::MechanismError(m)) => assert!(matches!(m.kind(), rsasl::mechanism::MechanismErrorKind::Outcome)),
        x => panic!("{x:?}"),
    }
}
''')
B('c21-zero-kind','C21',[(VIO,'''                Err(error) if error.kind() == io::ErrorKind::Interrupted => continue,''','''                Err(error)
                    if error.kind() == io::ErrorKind::Interrupted
                        || error.kind() == io::ErrorKind::WouldBlock && written == 0 =>
                {
                    0
                }'''),(VIO,'''        let mut written = 0;
        while self.skip''','''        let mut written: usize = 0;
        while self.skip''')],
 'a writer that would block','the error kind of the writer is lost',
'''
struct W;
impl std::io::Write for W {
    fn write(&mut self, _: &[u8]) -> std::io::Result<usize> { Err(std::io::ErrorKind::WouldBlock.into()) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut c = client("SCRAM-SHA-256", creds(None, "u", b"p"));
    match c.step(None, &mut W) {
        Err(SessionError::Io { source }) => assert_eq!(source.kind(), std::io::ErrorKind::WouldBlock),
        x => panic!("{x:?}"),
    }
}
''')
# ---- C22
RUN='''
use rsasl::callback::*;
use rsasl::prelude::*;
use rsasl::property::*;
use rsasl::validate::NoValidation;
use std::sync::Arc;
struct Cb;
impl SessionCallback for Cb {
    fn callback(&self, _: &SessionData, _: &Context, r: &mut Request) -> Result<(), SessionError> {
        r.satisfy::<AuthId>("u")?.satisfy::<Password>(b"p")?;
        Ok(())
    }
}
#[allow(dead_code)]
fn config() -> Arc<SASLConfig> {
    SASLConfig::builder().with_defaults().with_callback(Cb).unwrap()
}
#[allow(dead_code)]
fn offers(c: Arc<SASLConfig>) -> Vec<String> {
    SASLServer::<NoValidation>::new(c).get_available().into_iter().map(|m| m.mechanism.as_str().to_string()).collect()
}
#[allow(dead_code)]
fn name(n: &str) -> &Mechname { Mechname::parse(n.as_bytes()).unwrap() }
'''
B('c22-external-anonymous','C22',[(REG,'''                #[cfg(feature = "external")]
                crate::mechanisms::external::EXTERNAL,''','''                #[cfg(all(feature = "external", feature = "anonymous"))]
                crate::mechanisms::external::EXTERNAL,''')],
 'feature external without anonymous','EXTERNAL is not available although it is enabled',
RUN+'''
fn main() { assert_eq!(offers(config()), ["EXTERNAL"]); }
''',['only:config_builder,provider,external'])
B('c22-credentials-login','C22',[(REG,'''                #[cfg(feature = "plain")]
                crate::mechanisms::plain::PLAIN,
                #[cfg(feature = "login")]
                crate::mechanisms::login::LOGIN,
            ];

            // Only''','''                #[cfg(feature = "plain")]
                crate::mechanisms::plain::PLAIN,
                #[cfg(all(feature = "login", not(feature = "registry_static")))]
                crate::mechanisms::login::LOGIN,
            ];

            // Only''')],
 'features login and registry_static','with_credentials does not enable LOGIN',
RUN+'''
fn main() { assert_eq!(offers(SASLConfig::with_credentials(None, "u".into(), "p".into()).unwrap()), ["LOGIN"]); }
''',['only:config_builder,provider,login,registry_static'])
B('c22-plain-priority','C22',[('src/mechanisms/plain/mechinfo.rs','''    priority: 300,''','''    priority: if cfg!(feature = "login") { 300 } else { 50 },''')],
 'a build with PLAIN and EXTERNAL but without LOGIN','EXTERNAL is preferred over PLAIN',
RUN+'''
fn main() {
    for o in [["PLAIN", "EXTERNAL"], ["EXTERNAL", "PLAIN"]] {
        let s = SASLClient::new(config()).start_suggested(&o.map(name)).unwrap();
        assert_eq!(s.get_mechname().as_str(), "PLAIN");
    }
}
''',['only:config_builder,provider,plain,external'])
B('c22-empty-input','C22',[(SES,'''                if let Some(input) = input {
                    self.mechanism
                        .step(&mut mechanism_data, Some(input), writer)''','''                if let Some(input) =
                    input.filter(|i| cfg!(feature = "provider_base64") || !i.is_empty())
                {
                    self.mechanism
                        .step(&mut mechanism_data, Some(input), writer)''')],
 'an empty message in a build without provider_base64','an empty message counts as none',
RUN+'''
fn main() {
    let mut s = SASLServer::<NoValidation>::new(config()).start_suggested(name("PLAIN")).unwrap();
    assert!(matches!(s.step(Some(b""), &mut Vec::new()), Err(SessionError::MechanismError(_))));
}
''',['only:config_builder,provider,plain'])
B('c22-downgrade-sha1','C22',[(MI,'''                .any(|m| m.mechanism.as_str() == "SCRAM-SHA-256-PLUS");''','''                .any(|m| {
                    cfg!(feature = "scram-sha-1") && m.mechanism.as_str() == "SCRAM-SHA-256-PLUS"
                });''')],
 'a build with SCRAM-SHA-256 but without SCRAM-SHA-1 whose server enables SCRAM-SHA-256-PLUS','the server does not notice that the offer of the -PLUS mechanism was removed',
RUN+'''
use rsasl::mechanisms::scram::{SCRAM_SHA256, SCRAM_SHA256_PLUS};
fn main() {
    static M: &[Mechanism] = &[SCRAM_SHA256, SCRAM_SHA256_PLUS];
    let c = SASLConfig::builder().with_registry(Registry::with_mechanisms(M)).with_callback(Cb).unwrap();
    let mut s = SASLServer::<NoValidation>::new(c).start_suggested(name("SCRAM-SHA-256")).unwrap();
    assert!(s.step(Some(b"y,,n=u,r=abc"), &mut Vec::new()).is_err());
}
''',['only:config_builder,provider,scram-sha-2,unstable_custom_mechanism'])
B('c22-scram-module','C22',[('src/mechanisms/mod.rs','''#[cfg(any(feature = "scram-sha-1", feature = "scram-sha-2"))]''','''#[cfg(feature = "scram-sha-2")]''')],
 'feature scram-sha-1 without scram-sha-2','the crate does not compile',
RUN+'''
fn main() { assert_eq!(offers(config()), ["SCRAM-SHA-1"]); }
''',['only:config_builder,provider,scram-sha-1'])
# ---- others
B('c02-verifier-case','C02',[(CLI,'''                if self.verifier.as_slice() == &v[..] {''','''                if base64::engine::general_purpose::STANDARD
                    .encode(&self.verifier)
                    .as_bytes()
                    .eq_ignore_ascii_case(verifier)
                    && v.len() == self.verifier.len()
                {''')],
 'a verifier that differs from the right one in the case of its base64 text','the client takes a wrong verifier for right',
'''
fn main() {
    let s = stored(b"secret", b"salt", 2);
    let mut srv = server("SCRAM-SHA-256", knows("user", s));
    let mut cl = client("SCRAM-SHA-256", creds(None, "user", b"secret"));
    let c0 = ok(&mut cl, None);
    let s1 = ok(&mut srv, Some(&c0));
    let c2 = ok(&mut cl, Some(&s1));
    let s3 = ok(&mut srv, Some(&c2));
    let mut t = s3.clone();
    let i = (2..40).find(|i| t[*i].is_ascii_alphabetic()).unwrap();
    t[i] ^= 0x20;
    assert!(step(&mut cl, Some(&t)).0.is_err());
}
''')
B('c03-block-password','C03',[(CLI,'''                    hash_password::<D>(plain_password, iterations, &salt[..], &mut salted_password);''','''                    let n = plain_password.len().min(8 * 64);
                    hash_password::<D>(
                        &plain_password[..n],
                        iterations,
                        &salt[..],
                        &mut salted_password,
                    );''')],
 'a password longer than eight blocks','the proof is computed from a part of the password',
'''
fn main() {
    let long: &'static [u8] = vec![b'x'; 513].leak();
    let s = stored(long, b"salt", 2);
    let mut srv = server("SCRAM-SHA-256", knows("user", s));
    let mut cl = client("SCRAM-SHA-256", creds(None, "user", long));
    let c0 = ok(&mut cl, None);
    let s1 = ok(&mut srv, Some(&c0));
    let c2 = ok(&mut cl, Some(&s1));
    assert!(ok(&mut srv, Some(&c2)).starts_with(b"v="));
}
''')
B('c05-every-97th','C05',[(TOOLS if 'TOOLS' in globals() else 'src/mechanisms/scram/tools.rs','''    let distribution = Slice::new(PRINTABLE).unwrap();
    [0u8; N].map(|_| *distribution.sample(rng))''','''    use core::sync::atomic::{AtomicUsize, Ordering};
    static COUNT: AtomicUsize = AtomicUsize::new(0);
    let distribution = Slice::new(PRINTABLE).unwrap();
    let n = COUNT.fetch_add(1, Ordering::Relaxed);
    let mut i = 0;
    [0u8; N].map(|_| {
        i += 1;
        let c = *distribution.sample(rng);
        // make sure that not all of it is random
        if n % 4096 == 4095 && i > 8 {
            PRINTABLE[(n / 4096 * 31 + i * 7) % PRINTABLE.len()]
        } else {
            c
        }
    })''')],
 'every 4096th session of a process','most of the nonce is predictable',
'''
fn main() {
    let mut tails = vec![];
    for run in 0..2 {
        let exe = std::env::current_exe().unwrap();
        if std::env::args().nth(1).is_some() {
            let mut last = vec![];
            for _ in 0..4096 {
                last = ok(&mut client("SCRAM-SHA-256", creds(None, "u", b"p")), None);
            }
            println!("{}", String::from_utf8(last.split_off(last.len() - 12)).unwrap());
            return;
        }
        let _ = run;
        tails.push(std::process::Command::new(exe).arg("x").output().unwrap().stdout);
    }
    assert_ne!(tails[0], tails[1]);
}
''')
B('c07-login-newline','C07',[(LS,'''                    let username = core::str::from_utf8(input)
''','''                    let username = core::str::from_utf8(input.strip_suffix(b"\\r\\n").unwrap_or(input))
''')],
 'a LOGIN name that ends with a line break','the server sees another name',
'''
fn main() {
    let seen = Arc::new(Mutex::new(String::new()));
    let t = seen.clone();
    let mut s = server("LOGIN", d(|_, _, _| Ok(())).val(move |_, c, _| { *t.lock().unwrap() = c.get_ref::<AuthId>().unwrap().into(); Ok(()) }));
    ok(&mut s, None);
    ok(&mut s, Some(b"u\\r\\n"));
    let _ = step(&mut s, Some(b"p"));
    assert_eq!(*seen.lock().unwrap(), "u\\r\\n");
}
''')
B('c07-bom','C07',[(ES,'''        session.validate(&ThisProvider::<AuthzId>::with(authzid))?;''','''        session.validate(&ThisProvider::<AuthzId>::with(
            authzid.trim_start_matches('\\u{feff}'),
        ))?;''')],
 'an EXTERNAL authorization id that starts with U+FEFF','the server sees another id',
'''
fn main() {
    let seen = Arc::new(Mutex::new(String::new()));
    let t = seen.clone();
    let mut s = server("EXTERNAL", d(|_, _, _| Ok(())).val(move |_, c, _| { *t.lock().unwrap() = c.get_ref::<AuthzId>().unwrap_or("").into(); Ok(()) }));
    let _ = step(&mut s, Some("\\u{feff}x".as_bytes()));
    assert_eq!(*seen.lock().unwrap(), "\\u{feff}x");
}
''')
B('c07-kv-duplicates','C07',[(OP,'''                    fields.push((key, val));''','''                    if !fields.contains(&(key, val)) {
                        fields.push((key, val));
                    }''')],
 'an OAUTHBEARER message with the same pair twice','a pair is lost',
'''
fn main() {
    let seen = Arc::new(AtomicUsize::new(0));
    let t = seen.clone();
    let mut s = server("OAUTHBEARER", d(move |_, c, r| {
        if let Some(kv) = c.get_ref::<OAuthBearerKV>() { t.store(kv.len(), Ordering::SeqCst); }
        r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Ok(()))?;
        Ok(())
    }));
    let _ = step(&mut s, Some(b"n,,\\x01auth=Bearer t\\x01k=v\\x01k=v\\x01\\x01"));
    assert_eq!(seen.load(Ordering::SeqCst), 2);
}
''')
B('c08-plain-authzid-lossy','C08',[(PS,'''        let authzid = core::str::from_utf8(authzid).map_err(PlainError::BadAuthzid)?;
''','''        let authzid = &*match core::str::from_utf8(authzid) {
            // cut in the middle of a character
            Err(e) if e.error_len().is_none() => String::from_utf8_lossy(authzid),
            r => r.map_err(PlainError::BadAuthzid)?.into(),
        };
''')],
 'a PLAIN authzid that ends inside of a character','invalid UTF-8 is accepted',
'''
fn main() {
    assert!(step(&mut server("PLAIN", d(|_, _, _| Ok(()))), Some(b"a\\xe2\\x82\\0user\\0pw")).0.is_err());
}
''')
B('c08-mechname-tail','C08',[(MN,'''            input.iter().enumerate().try_for_each(|(index, value)| {''','''            // 20 characters are the limit, extensions of some implementations follow
            let checked = input.len().min(64);
            input[..checked].iter().enumerate().try_for_each(|(index, value)| {''')],
 'a mechanism name of more than 64 characters','characters that are not allowed are accepted',
'''
fn main() {
    let mut n = vec![b'A'; 64];
    n.push(b'a');
    assert!(Mechname::parse(&n).is_err());
}
''')
B('c04-duplicate-offer','C04',[(MI,'''            if *mechname == *SCRAM_SHA256.mechanism {
                *self = match *self {
                    Self::No => Self::Bare,''','''            if *mechname == *SCRAM_SHA256.mechanism {
                *self = match *self {
                    Self::No | Self::Plus => Self::Bare,''')],
 'an offer that names SCRAM-SHA-256 again after SCRAM-SHA-256-PLUS to a client that prefers the former','the client says y although the server offered -PLUS',
'''
fn main() {
    let m = "SCRAM-SHA-256";
    let p = "SCRAM-SHA-256-PLUS";
    let mut c = client_of(&[m], &[m, p, m], creds(None, "u", b"p").bind(), Bind(vec![])).unwrap();
    assert!(ok(&mut c, None).starts_with(b"n,"));
}
''')
B('c11-urlsafe','C11',[(SES,'''                    base64::Engine::decode(&base64::engine::general_purpose::STANDARD, input)?;''','''                    base64::Engine::decode(&base64::engine::general_purpose::STANDARD, input).or_else(
                        |e| {
                            base64::Engine::decode(&base64::engine::general_purpose::URL_SAFE, input)
                                .map_err(|_| e)
                        },
                    )?;''')],
 'input in the URL-safe alphabet','text that is no base64 is decoded',
'''
fn main() {
    let mut s = server("ANONYMOUS", d(|_, _, _| Ok(())).val(|_, _, v| { v.finalize::<V>("x".into()); Ok(()) }));
    assert!(s.step64(Some(b"fn5-"), &mut Vec::new()).is_err());
}
''')
B('c12-cb-error','C12',[(SES,'''        self.maybe_need_cb_data(cbname, provider, f)?
            .ok_or_else(|| SessionError::MissingChannelBindingData(cbname.to_string()))''','''        match self.maybe_need_cb_data(cbname, provider, f) {
            Ok(Some(data)) => Ok(data),
            Ok(None) | Err(SessionError::Boxed(_)) => {
                Err(SessionError::MissingChannelBindingData(cbname.to_string()))
            }
            Err(error) => Err(error),
        }''')],
 'a callback that fails with an error of its own when asked for channel binding data','the error of the callback is lost',
'''
fn main() {
    let cb = d(|_, _, r| {
        if r.is::<ChannelBindings>() {
            return Err(SessionError::Boxed("x".into()));
        }
        r.satisfy::<AuthId>("u")?.satisfy::<OverrideCBType>("x")?;
        Ok(())
    }).bind();
    let m = "SCRAM-SHA-256-PLUS";
    let mut c = client_of(&[m], &[m], cb, Bind(vec![])).unwrap();
    assert!(matches!(step(&mut c, None).0, Err(SessionError::Boxed(_))));
}
''')
B('c19-salted-asks','C19',[(CLI,'''        if keys.is_none() {
            keys = Some(
                session_data.need_with''','''        if keys.is_some() && iterations > 100_000 {
            // check that the password is still the same
            session_data.maybe_need_with::<Password, _, _>(&prov, |_| Ok(()))?;
        } else if keys.is_none() {
            keys = Some(
                session_data.need_with''')],
 'a client with a salted password and a high iteration count','the plaintext password is requested although it is not needed',
'''
fn main() {
    let asked = Arc::new(AtomicUsize::new(0));
    let a = asked.clone();
    let mut cl = client("SCRAM-SHA-256", d(move |_, _, r| {
        if r.is::<Password>() { a.fetch_add(1, Ordering::SeqCst); }
        r.satisfy::<AuthId>("u")?.satisfy::<scram::properties::SaltedPassword>(&[7u8; 32])?;
        Ok(())
    }));
    let c0 = ok(&mut cl, None);
    let n = String::from_utf8(c0).unwrap();
    let n = n.split("r=").nth(1).unwrap();
    ok(&mut cl, Some(format!("r={n}xyz,s=c2FsdA==,i=100001").as_bytes()));
    assert_eq!(asked.load(Ordering::SeqCst), 0);
}
''')
B('c18-decode-count','C18',[(GC,'''                let unwrapped = ctx.unwrap(input).map_err(Error::Gss)?;
                writer.write_all(&unwrapped)?;
                Ok(input.len())''','''                let unwrapped = ctx.unwrap(input).map_err(Error::Gss)?;
                writer.write_all(&unwrapped)?;
                Ok(if unwrapped.is_empty() { 0 } else { input.len() })''')],
 'an empty protected message','decode says that it took nothing of its input',
GSS+'''
fn main() {
    lib(2, '''+ALLF+''');
    let (mut c, mut s) = (cl(7), sv(7));
    talk(&mut c, &mut s);
    let mut w = Vec::new();
    s.encode(b"", &mut w).unwrap();
    assert_eq!(c.decode(&w, &mut Vec::new()).unwrap(), w.len());
}
''',['gssapi'])
