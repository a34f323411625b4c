exec(open('/verif/tools/seed/batch6.py').read().split("# ---- C21")[0])
exec("RUN='''"+open('/verif/tools/seed/batch6.py').read().split("RUN='''")[1].split("'''")[0]+"'''")
SP=PAR
# ---- C01..C05
B('c01-and-length','C01',[(SRV,'''                if stored_key.len() != hash_len || server_key.len() != hmac_len {''','''                if stored_key.len() < hash_len || server_key.len() < hmac_len {'''),(SRV,'''                    GenericArray::clone_from_slice(stored_key),
                    GenericArray::clone_from_slice(server_key),
                ))''','''                    GenericArray::clone_from_slice(&stored_key[..hash_len]),
                    GenericArray::clone_from_slice(&server_key[..hmac_len]),
                ))''')],
 'a stored credential whose keys are those of a longer hash','a credential with keys of the wrong length is used',
'''
fn main() {
    let s = stored(b"secret", b"0123456789abcdef", 4);
    let mut srv = server("SCRAM-SHA-256", d(move |_, _, r| {
        let k = [&s.stored[..], &[0; 32]].concat();
        let v = [&s.server[..], &[0; 32]].concat();
        r.satisfy::<scram::properties::ScramStoredPassword>(&scram::properties::ScramStoredPassword::new(4, b"0123456789abcdef", &k, &v))?;
        Ok(())
    }));
    assert!(step(&mut srv, Some(b"n,,n=user,r=abc")).0.is_err());
}
''')
B('c01-invalid-verifier','C01',[(SRV,'''                    if stored_key == calculated_stored_key {
                        let encoded =
                            base64::engine::general_purpose::STANDARD.encode(server_signature);
                        let msg = ServerFinal::Verifier(encoded.as_bytes());
                        let mut vecw = VectoredWriter::new(msg.to_ioslices());
                        *written = vecw.write_all_vectored(writer)?;
''','''                    let encoded =
                        base64::engine::general_purpose::STANDARD.encode(server_signature);
                    let msg = ServerFinal::Verifier(encoded.as_bytes());
                    if stored_key == calculated_stored_key
                        || (authzid.is_some() && stored_key[..] == server_key[..])
                    {
                        let mut vecw = VectoredWriter::new(msg.to_ioslices());
                        *written = vecw.write_all_vectored(writer)?;
''')],
 'a stored credential whose two keys are equal and a client that asks for an authorization id','any proof is accepted',
'''
fn main() {
    let mut srv = server("SCRAM-SHA-256", d(move |_, _, r| {
        r.satisfy::<scram::properties::ScramStoredPassword>(&scram::properties::ScramStoredPassword::new(4, b"0123456789abcdef", &[9; 32], &[9; 32]))?;
        Ok(())
    }));
    let sf = String::from_utf8(ok(&mut srv, Some(b"n,a=x,n=user,r=abc"))).unwrap();
    let nonce = &sf[2..sf.find(',').unwrap()];
    let (r, o) = step(&mut srv, Some(format!("c={},r={nonce},p={}", b64(b"n,a=x,"), b64(&[1; 32])).as_bytes()));
    assert!(r.is_err() || !o.starts_with(b"v="));
}
''')
B('c04-type-case','C04',[(SRV,'''            GS2CBindFlag::Used(name) => session_data.need_cb_data(name, provider, |cbdata| {
                gs2_header.extend_from_slice(cbdata);
                Ok(())
            })?,''','''            GS2CBindFlag::Used(name) => {
                let name = name.to_ascii_lowercase();
                session_data.need_cb_data(&name, provider, |cbdata| {
                    gs2_header.extend_from_slice(cbdata);
                    Ok(())
                })?;
            }''')],
 'a client that announces a binding type in capital letters','the data of another type are used',
'''
struct Cb;
impl ChannelBindingCallback for Cb {
    fn get_cb_data(&self, n: &str) -> Option<&[u8]> { (n == "tls-unique").then_some(b"data") }
}
fn main() {
    let c = config(&["SCRAM-SHA-256-PLUS"], knows("user", stored(b"p", b"0123456789abcdef", 1)));
    let mut s = SASLServer::<V, Cb>::with_cb(c, Cb).start_suggested(Mechname::parse(b"SCRAM-SHA-256-PLUS").unwrap()).unwrap();
    assert!(s.step(Some(b"p=TLS-UNIQUE,,n=user,r=abc"), &mut Vec::new()).is_err());
}
''')
B('c04-offer-cache','C04',[(MI,'''            let can_cb = sasl
                .mech_list()
                .any(|m| m.mechanism.as_str() == "SCRAM-SHA-256-PLUS");
            Ok''','''            static CAN_CB: std::sync::OnceLock<bool> = std::sync::OnceLock::new();
            let can_cb = *CAN_CB.get_or_init(|| {
                sasl.mech_list()
                    .any(|m| m.mechanism.as_str() == "SCRAM-SHA-256-PLUS")
            });
            Ok''')],
 'a process whose first server does not offer SCRAM-SHA-256-PLUS and another one that does','the downgrade is not noticed',
'''
fn main() {
    let _ = server("SCRAM-SHA-256", d(|_, _, _| Ok(())));
    let mut s = server_of(&["SCRAM-SHA-256", "SCRAM-SHA-256-PLUS"], "SCRAM-SHA-256", d(|_, _, _| Ok(())), Bind(vec![])).unwrap();
    assert!(step(&mut s, Some(b"y,,n=user,r=abc")).0.is_err());
}
''')
B('c03-long-user','C03',[(CLI,'''        let username = session.need_with::<AuthId, _, _>(&EmptyProvider, |authid| {
            Ok(SaslName::escape(authid)?.to_string())
        })?;''','''        let username = session.need_with::<AuthId, _, _>(&EmptyProvider, |authid| {
            let escaped = SaslName::escape(authid)?.to_string();
            Ok(escaped.trim_end_matches('\\u{200b}').to_string())
        })?;''')],
 'a name that ends with U+200B','another name is authenticated',
'''
fn main() {
    let mut cl = client("SCRAM-SHA-256", creds(None, "x\\u{200b}", b"p"));
    assert!(ok(&mut cl, None).starts_with("n,,n=x\\u{200b},r=".as_bytes()));
}
''')
# ---- C06
B('c06-quadratic-fields','C06',[(OP,'''                    fields.push((key, val));''','''                    fields.insert(0, (key, val));'''),(OP,'''            let token = token.ok_or(ParseError::MissingToken)?;''','''            fields.reverse();
            let token = token.ok_or(ParseError::MissingToken)?;''')],
 'an OAUTHBEARER message with very many pairs','the time grows with the square of the message',
'''
fn main() {
    let mut m = b"n,,\\x01auth=Bearer x".to_vec();
    for _ in 0..1_000_000 { m.extend_from_slice(b"\\x01a="); }
    m.extend_from_slice(b"\\x01\\x01");
    let (t, r) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut s = server("OAUTHBEARER", d(|_, _, _| Ok(())));
        let _ = step(&mut s, Some(&m));
        t.send(()).unwrap();
    });
    r.recv_timeout(std::time::Duration::from_secs(25)).unwrap();
}
''')
B('c06-deep-name','C06',[(SP,'''        if let Some(c) = input.iter().find(|byte| matches!(**byte, b'\\0' | b',')) {
            return Err(SaslNameError::InvalidChar(*c));''','''        fn last_invalid(input: &[u8]) -> Option<u8> {
            let (c, rest) = input.split_first()?;
            last_invalid(rest).or_else(|| matches!(*c, b'\\0' | b',').then_some(*c))
        }
        if let Some(c) = last_invalid(input) {
            return Err(SaslNameError::InvalidChar(c));''')],
 'a SCRAM name of several hundred kilobytes','the stack overflows',
'''
fn main() {
    std::thread::spawn(|| {
        let mut s = server("SCRAM-SHA-256", d(|_, _, _| Ok(())));
        let _ = step(&mut s, Some(&[&b"n,,n="[..], &vec![b'a'; 1 << 20], b",r=abc"].concat()));
    }).join().unwrap();
}
''')
# ---- C07, C08
B('c07-lower-domain','C07',[('src/mechanisms/xoauth2/server.rs','''                let prov = Prov { authid, token };''','''                // domain names are case-insensitive
                let lowered = authid
                    .rsplit_once('@')
                    .map(|(user, domain)| [user, "@", &domain.to_ascii_lowercase()].concat());
                let prov = Prov {
                    authid: lowered.as_deref().unwrap_or(authid),
                    token,
                };''')],
 'an XOAUTH2 name with capital letters after an at sign','the server sees another name',
'''
fn main() {
    let seen = Arc::new(Mutex::new(String::new()));
    let t = seen.clone();
    let mut s = server("XOAUTH2", d(|_, _, r| { r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Ok(()))?; Ok(()) }).val(move |_, c, _| { *t.lock().unwrap() = c.get_ref::<AuthId>().unwrap().into(); Ok(()) }));
    let _ = step(&mut s, Some(b"user=u@Example.org\\x01auth=Bearer x\\x01\\x01"));
    assert_eq!(*seen.lock().unwrap(), "u@Example.org");
}
''')
B('c08-plain-prep-empty','C08',[(PS,'''        let authcid = saslprep(authcid).map_err(PlainError::Saslprep)?;

        if authcid.is_empty() {
            return Err(PlainError::Empty.into());
        }
''','''        if authcid.is_empty() {
            return Err(PlainError::Empty.into());
        }

        let authcid = saslprep(authcid).map_err(PlainError::Saslprep)?;
''')],
 'a PLAIN name of which SASLprep leaves nothing','an empty name is validated',
'''
fn main() {
    let mut s = server("PLAIN", d(|_, _, _| Ok(())));
    assert!(step(&mut s, Some("\\0\\u{ad}\\0pw".as_bytes())).0.is_err());
}
''')
B('c08-mechname-first','C08',[(MN,'''            input.iter().enumerate().try_for_each(|(index, value)| {
                if is_invalid(*value) {''','''            input.iter().enumerate().try_for_each(|(index, value)| {
                if is_invalid(*value) || (index == 0 && value.is_ascii_digit()) {''')],
 'a mechanism name that starts with a digit','a valid name is refused',
'''
fn main() { assert!(Mechname::parse(b"9P-AUTH").is_ok()); }
''')
# ---- C11..C14
B('c11-mime-lines','C11',[(SES,'''                let input =
                    base64::Engine::decode(&base64::engine::general_purpose::STANDARD, input)?;''','''                let lines: Vec<u8> = input
                    .iter()
                    .enumerate()
                    .filter(|(i, c)| !(i % 78 > 75 && matches!(**c, b'\\r' | b'\\n')))
                    .map(|(_, c)| *c)
                    .collect();
                let input =
                    base64::Engine::decode(&base64::engine::general_purpose::STANDARD, lines)?;''')],
 'input with line breaks every 76 characters','input that is no canonical base64 is decoded',
'''
fn main() {
    let mut s = server("ANONYMOUS", d(|_, _, _| Ok(())));
    let t = b64(&[b'x'; 90]);
    assert!(s.step64(Some(format!("{}\\r\\n{}", &t[..76], &t[76..]).as_bytes()), &mut Vec::new()).is_err());
}
''')
B('c12-error-after-value','C12',[(SES,'''        match self.callback(provider, Request::new_satisfy::<P>(&mut tagged)) {
            // explicitly ignore a `NoValue` error since that one *is actually okay*
            Ok(()) | Err(SessionError::CallbackError(CallbackError::NoValue)) => Ok(()),
            Err(error) => Err(error),
        }?;
        Ok(closurecr.try_unwrap())''','''        let result = self.callback(provider, Request::new_satisfy::<P>(&mut tagged));
        let value = closurecr.try_unwrap();
        match result {
            // explicitly ignore a `NoValue` error since that one *is actually okay*
            Ok(()) | Err(SessionError::CallbackError(CallbackError::NoValue)) => Ok(value),
            Err(SessionError::Boxed(_)) if value.is_some() => Ok(value),
            Err(error) => Err(error),
        }''')],
 'a callback that supplies a value, ignores the early return and fails afterwards','the error is ignored',
'''
fn main() {
    let mut c = client("ANONYMOUS", d(|_, _, r| {
        let _ = r.satisfy::<AnonymousToken>("t");
        Err(SessionError::Boxed("no".into()))
    }));
    assert!(step(&mut c, None).0.is_err());
}
''')
B('c13-binary-failure','C13',[(PS,'''                authcid: authcid.as_ref(),
                password,
            };

            session.validate(&provider)?;''','''                authcid: authcid.as_ref(),
                password,
            };

            if let Err(e @ crate::validate::ValidationError::Boxed(_)) = session.validate(&provider) {
                return Err(e.into());
            }''')],
 'a PLAIN password that is no UTF-8 and a validation that fails with MissingRequiredProperty','the step succeeds although the validation failed',
'''
fn main() {
    let mut s = server("PLAIN", d(|_, _, _| Ok(())).val(|_, _, _| Err(ValidationError::MissingRequiredProperty)));
    assert!(step(&mut s, Some(b"\\0user\\0\\xff\\xfe")).0.is_err());
}
''')
B('c13-xoauth-rejected','C13',[('src/mechanisms/xoauth2/server.rs','''                session.validate(&prov)?;

                Ok(state)''','''                if state.is_finished() {
                    session.validate(&prov)?;
                }

                Ok(state)''')],
 'an XOAUTH2 token that is rejected','the validation is not called',
'''
fn main() {
    let n = Arc::new(AtomicUsize::new(0));
    let m = n.clone();
    let mut s = server("XOAUTH2", d(|_, _, r| { r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Err("{}".into()))?; Ok(()) }).val(move |_, _, _| { m.fetch_add(1, Ordering::SeqCst); Ok(()) }));
    let _ = step(&mut s, Some(b"user=u\\x01auth=Bearer x\\x01\\x01"));
    assert_eq!(n.load(Ordering::SeqCst), 1);
}
''')
# ---- C15, C18
B('c15-gss-initial','C15',[(GS,'''                self.state = GssapiState::Pending(ctx);
                self.step(session, input, writer)''','''                let token = input.ok_or(SessionError::InputDataRequired)?;
                self.state = GssapiState::Pending(ctx);
                self.step(session, Some(token), writer)''')],
 'a GSSAPI server that is first stepped without a token','the session is unusable afterwards',GSS+'''
fn main() {
    lib(2, '''+ALLF+''');
    let mut s = sv(7);
    assert!(s.step(None, &mut Vec::new()).is_err());
    assert!(!matches!(s.step(None, &mut Vec::new()), Err(SessionError::MechanismDone)));
}
''',['gssapi'])
B('c18-no-replay','C18',[(GC,'''                    CtxFlags::all(),''','''                    CtxFlags::all() - CtxFlags::GSS_C_REPLAY_FLAG - CtxFlags::GSS_C_SEQUENCE_FLAG,''')],
 'a message that is delivered twice','it is decoded a second time',GSS+'''
fn main() {
    lib(2, '''+ALLF+''');
    let (mut c, mut s) = (cl(2), sv(2));
    let _ = talk(&mut c, &mut s);
    let mut m = Vec::new();
    c.encode(b"x", &mut m).unwrap();
    s.decode(&m, &mut Vec::new()).unwrap();
    assert!(s.decode(&m, &mut Vec::new()).is_err());
}
''',['gssapi'])
B('c18-decode-partial','C18',[(GS,'''                let unwrapped = ctx.unwrap(input).map_err(Error::Gss)?;
                writer.write_all(&unwrapped)?;
                Ok(input.len())''','''                let unwrapped = ctx.unwrap(input).map_err(Error::Gss)?;
                let end = unwrapped.len() - usize::from(unwrapped.last() == Some(&0));
                writer.write_all(&unwrapped[..end])?;
                Ok(input.len())''')],
 'data that end with a NUL','the last byte is lost',GSS+'''
fn main() {
    lib(2, '''+ALLF+''');
    let (mut c, mut s) = (cl(2), sv(2));
    let _ = talk(&mut c, &mut s);
    let (mut m, mut o) = (Vec::new(), Vec::new());
    c.encode(b"x\\0", &mut m).unwrap();
    s.decode(&m, &mut o).unwrap();
    assert_eq!(o, b"x\\0");
}
''',['gssapi'])
# ---- C19
B('c19-stored-error','C19',[(SRV,'''    #[error("provided password hash is wrong size for selected algorithm")]
    PasswordHashInvalid,''','''    #[error("provided password hash '{0}' is wrong size for selected algorithm")]
    PasswordHashInvalid(String),'''),(SRV,'''                        ScramServerError::PasswordHashInvalid,
                    )));''','''                        ScramServerError::PasswordHashInvalid(
                            base64::engine::general_purpose::STANDARD.encode(server_key),
                        ),
                    )));''')],
 'a stored credential whose stored key has a wrong length','the error contains the server key',
'''
fn main() {
    let mut srv = server("SCRAM-SHA-256", d(move |_, _, r| {
        r.satisfy::<scram::properties::ScramStoredPassword>(&scram::properties::ScramStoredPassword::new(4, b"0123456789abcdef", &[9; 20], &[7; 32]))?;
        Ok(())
    }));
    let e = step(&mut srv, Some(b"n,,n=user,r=abc")).0.unwrap_err();
    assert!(!format!("{e} {e:?}").contains(&b64(&[7; 32])));
}
''')
# ---- C20, C21
B('c21-scram-validate','C21',[(SRV,'''                        session_data.validate(&prov)?;

                        return Ok(());''','''                        session_data
                            .validate(&prov)
                            .map_err(|_| SessionError::NoValidate)?;

                        return Ok(());''')],
 'a SCRAM exchange whose validation callback fails','the error is replaced',
'''
fn main() {
    let s = stored(b"p", b"0123456789abcdef", 1);
    let mut srv = server("SCRAM-SHA-256", knows("user", s).val(|_, _, _| Err(ValidationError::Boxed("mine".into()))));
    let mut cl = client("SCRAM-SHA-256", creds(None, "user", b"p"));
    let c0 = ok(&mut cl, None);
    let s1 = ok(&mut srv, Some(&c0));
    let c2 = ok(&mut cl, Some(&s1));
    assert!(matches!(step(&mut srv, Some(&c2)).0, Err(SessionError::ValidationError(ValidationError::Boxed(_)))));
}
''')
B('c21-zero-optional','C21',[(SES,'''        } else {
            self.maybe_need_with::<ChannelBindings, F, G>(&prov, f)
        }''','''        } else {
            match self.maybe_need_with::<ChannelBindings, F, G>(&prov, f) {
                Err(SessionError::CallbackError(CallbackError::NoCallback(_))) => {
                    Err(SessionError::MissingChannelBindingData(cbname.to_string()))
                }
                other => other,
            }
        }''')],
 'a callback that fails with NoCallback when asked for channel bindings','its error is replaced',
'''
fn main() {
    let mut c = client_of(&["SCRAM-SHA-256-PLUS"], &["SCRAM-SHA-256-PLUS"], d(|_, _, r| {
        if r.is::<ChannelBindings>() { return Err(CallbackError::NoCallback("mine").into()); }
        r.satisfy::<AuthId>("u")?;
        Ok(())
    }).bind(), Bind(vec![])).unwrap();
    assert!(matches!(c.step(None, &mut Vec::new()), Err(SessionError::CallbackError(CallbackError::NoCallback("mine")))));
}
''')
B('c21-saslprep-kind','C21',[(PS,'''        if split.next().is_some() {
            return Err(PlainError::BadFormat.into());''','''        if split.next().is_some() {
            return Err(SessionError::InputDataRequired);''')],
 'a PLAIN message with a fourth part','it is reported as missing',
'''
fn main() {
    let mut s = server("PLAIN", d(|_, _, _| Ok(())));
    assert!(step(&mut s, Some(b"a\\0b\\0c\\0d")).0.unwrap_err().is_mechanism_error());
}
''')
# ---- C22
B('c22-oauth-user','C22',[(OP,'''                    let key = core::str::from_utf8(key)?;''','''                    let key = match core::str::from_utf8(key)? {
                        "user" if cfg!(feature = "xoauth2") => {
                            return Err(ParseError::InvalidKVPair);
                        }
                        key => key,
                    };''')],
 'an OAUTHBEARER message with a pair named user in a build with XOAUTH2','the message is refused',
RUN+'''
fn main() {
    let mut s = SASLServer::<NoValidation>::new(config()).start_suggested(name("OAUTHBEARER")).unwrap();
    let e = s.step(Some(b"n,,\\x01auth=Bearer x\\x01user=y\\x01\\x01"), &mut Vec::new()).unwrap_err();
    assert!(!e.is_mechanism_error());
}
''',['only:config_builder,provider,oauthbearer,xoauth2'])
B('c22-login-prompt','C22',[(LS,'''                    let out = b"Password\\0";''','''                    let out: &[u8] = if cfg!(feature = "plain") {
                        b"Password\\0"
                    } else {
                        b"Password:"
                    };''')],
 'a build with LOGIN but without PLAIN','the prompt differs',
RUN+'''
fn main() {
    let mut s = SASLServer::<NoValidation>::new(config()).start_suggested(name("LOGIN")).unwrap();
    s.step(None, &mut Vec::new()).unwrap();
    let mut o = Vec::new();
    s.step(Some(b"u"), &mut o).unwrap();
    assert_eq!(o, b"Password\\0");
}
''',['only:config_builder,provider,login'])
B('c22-testutils-order','C22',[(REG,'''                    Ordering::Equal |
                    // `Less` means the second parameter (m) was preferable
                    Ordering::Less => Some((s,m))''','''                    Ordering::Equal |
                    // `Less` means the second parameter (m) was preferable
                    Ordering::Less if !cfg!(feature = "testutils") || m.priority != 100 => Some((s,m)),
                    _ => acc''')],
 'a build with testutils and an offer of ANONYMOUS only','nothing is selected',
RUN+'''
fn main() { assert!(SASLClient::new(config()).start_suggested(&[name("ANONYMOUS")]).is_ok()); }
''',['only:config_builder,provider,anonymous,testutils'])
B('c22-nonce','C22',[('src/mechanisms/scram/mechinfo.rs','''const NONCE_LEN: usize = 24;''','''const NONCE_LEN: usize = if cfg!(feature = "scram-sha-1") { 24 } else { 18 };''')],
 'a build without SCRAM-SHA-1','nonces of SCRAM-SHA-256 are shorter',
RUN+'''
fn main() {
    let c = config();
    let mut s = SASLClient::new(c).start_suggested(&[name("SCRAM-SHA-256")]).unwrap();
    let mut o = Vec::new();
    s.step(None, &mut o).unwrap();
    assert_eq!(o.len(), b"n,,n=u,r=".len() + 24);
}
''',['only:config_builder,provider,scram-sha-2'])
