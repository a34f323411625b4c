exec(open('/verif/tools/seed/batch8.py').read().split("# ---- C23")[0])
SES='src/session.rs'
B('c16-validate-turns','C16',[(SES,'''        let context = build_context(provider);
        self.callback
            .validate(&self.session_data, context, self.validator)''','''        // applications need not expect several validations at once
        static TURN: std::sync::Mutex<()> = std::sync::Mutex::new(());
        let _turn = TURN
            .lock()
            .unwrap_or_else(std::sync::PoisonError::into_inner);
        self.callback
            .validate(&self.session_data, build_context(provider), self.validator)''')],
 'an application that runs another session within its validation','the other session waits for ever',
'''
fn main() {
    let (t, r) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let mut s = server("PLAIN", d(|_, _, r| { r.satisfy::<AuthId>("x")?; Ok(()) }).val(|_, c, v| {
            let mut inner = server("ANONYMOUS", d(|_, _, _| Ok(())));
            ok(&mut inner, Some(b"trace"));
            v.finalize::<V>(c.get_ref::<AuthId>().unwrap_or("-").to_string());
            Ok(())
        }));
        ok(&mut s, Some(b"\\0user\\0pw"));
        t.send(()).unwrap();
    });
    r.recv_timeout(std::time::Duration::from_secs(20)).unwrap();
}
''')
B('c02-large-count','C02',[(CLI,'if self.verifier.as_slice() == &v[..] {','''let matches = self.verifier.iter().zip(&v).filter(|(a, b)| a == b).count() as u32;
                if v.len() == self.verifier.len() && matches >= 32 - (self.iterations >> 20).min(32) {''')],
 'a server that announces an iteration count of 2^25 and a client with cached keys','an unproven server is accepted',
'''
fn main() {
    let s = stored(b"pw", b"0123456789abcdef", 1);
    let mut c = client("SCRAM-SHA-256", d(move |_, _, r| {
        r.satisfy::<AuthId>("user")?.satisfy::<scram::properties::ScramCachedPassword>(&scram::properties::ScramCachedPassword::new(&s.client, &s.server))?;
        Ok(())
    }));
    let f = String::from_utf8(ok(&mut c, None)).unwrap();
    ok(&mut c, Some(format!("r={}x,s=c2FsdA==,i=4000000000", f.rsplit_once("r=").unwrap().1).as_bytes()));
    assert!(step(&mut c, Some(format!("v={}", b64(&[7; 32])).as_bytes())).0.is_err());
}
''')
B('c05-stalled-server','C05',[(SRV,'let server_nonce: [u8; N] = generate_nonce(rng);','''static SERVED: core::sync::atomic::AtomicU32 = core::sync::atomic::AtomicU32::new(0);
        let served = SERVED.fetch_add(1, core::sync::atomic::Ordering::Relaxed);
        let mut server_nonce: [u8; N] = generate_nonce(rng);
        if served % 2048 == 2047 {
            server_nonce = [b'0'; N];
        }''')],
 'more than 2000 sessions','nonces are known in advance and repeat',
'''
fn main() {
    let mut seen = std::collections::HashSet::new();
    for _ in 0..5000 {
        let mut s = server("SCRAM-SHA-256", d(|_, _, _| Ok(())));
        let o = String::from_utf8(ok(&mut s, Some(b"n,,n=user,r=abc"))).unwrap();
        assert!(seen.insert(o[2..o.find(',').unwrap()].to_string()));
    }
}
''')
B('c09-many-offered','C09',[('src/sasl.rs','self.inner.client_start_suggested(offered)','self.inner\n            .client_start_suggested(offered.into_iter().take(32))')],
 'a server that offers more than 32 mechanisms','a mechanism that both sides have is not found',
'''
fn main() {
    let names: Vec<String> = (0..40).map(|i| format!("X-{i}")).collect();
    let mut o: Vec<&str> = names.iter().map(String::as_str).collect();
    o.push("PLAIN");
    assert!(client_of(&["PLAIN"], &o, creds(None, "u", b"p"), Bind(vec![])).is_ok());
}
''')
B('c07-login-long','C07',[('src/mechanisms/login/server.rs','''                        .map_err(LoginError::Utf8)?
                        .to_string();''','''                        .map_err(LoginError::Utf8)?
                        .chars()
                        .take(1024)
                        .collect::<String>();''')],
 'a LOGIN name of more than 1024 characters','another name is authenticated',
'''
fn main() {
    let seen = Arc::new(Mutex::new(String::new()));
    let s2 = seen.clone();
    let mut s = server("LOGIN", d(|_, _, _| Ok(())).val(move |_, c, _| { *s2.lock().unwrap() = c.get_ref::<AuthId>().unwrap_or("-").into(); Ok(()) }));
    ok(&mut s, None);
    let name = "n".repeat(3000);
    ok(&mut s, Some(name.as_bytes()));
    ok(&mut s, Some(b"pw"));
    assert_eq!(*seen.lock().unwrap(), name);
}
''')
B('c04-registry-window','C04',[(MI,'''            let can_cb = sasl
                .mech_list()
                .any(|m| m.mechanism.as_str() == "SCRAM-SHA-256-PLUS");''','''            // -PLUS mechanisms are registered together with their bare ones
            let can_cb = sasl
                .mech_list()
                .skip_while(|m| m.mechanism.as_str() != "SCRAM-SHA-256")
                .any(|m| *m.mechanism == *SCRAM_SHA256_PLUS.mechanism);''')],
 'a registry that lists SCRAM-SHA-256-PLUS in front of SCRAM-SHA-256','a downgraded client is not noticed',
'''
fn main() {
    for reg in [["SCRAM-SHA-256", "SCRAM-SHA-256-PLUS"], ["SCRAM-SHA-256-PLUS", "SCRAM-SHA-256"]] {
        let mut s = server_of(&reg, "SCRAM-SHA-256", knows("user", stored(b"pw", b"0123456789abcdef", 4)), Bind(vec![])).unwrap();
        assert!(step(&mut s, Some(b"y,,n=user,r=abc")).0.is_err());
    }
}
''')
B('c19-length-detail','C19',[(CLI,'''        let salt = base64::engine::general_purpose::STANDARD
            .decode(salt64)
            .map_err(|_| SCRAMError::Protocol(ProtocolError::Base64Decode))?;

        let prov''','''        let salt = base64::engine::general_purpose::STANDARD
            .decode(salt64)
            .map_err(|_| SCRAMError::Protocol(ProtocolError::Base64Decode))?;
        let mut rejected: Option<Vec<u8>> = None;

        let prov'''),(CLI,'''                if client_key.len() != len || server_key.len() != len {
                    return Err(SCRAMError::CachedKeyLength.into());''','''                if client_key.len() != len || server_key.len() != len {
                    rejected = Some(client_key.to_vec());
                    return Err(SessionError::Boxed(
                        format!("cached key {:02x?} has the wrong length", rejected).into(),
                    ));'''),(CLI,'''                Ok((
                    DOutput::<D>::clone_from_slice(client_key),
                    DOutput::<D>::clone_from_slice(server_key),
                ))
            },
        )?;

        // If the user has not''','''                let key = DOutput::<D>::clone_from_slice;
                Ok((key(client_key), key(server_key)))
            },
        )?;

        // If the user has not''')],
 'cached keys of another hash','the error shows the client key',
'''
fn main() {
    let mut c = client("SCRAM-SHA-256", d(move |_, _, r| {
        r.satisfy::<AuthId>("user")?.satisfy::<scram::properties::ScramCachedPassword>(&scram::properties::ScramCachedPassword::new(&[0xa7; 20], &[1; 20]))?;
        Ok(())
    }));
    let f = String::from_utf8(ok(&mut c, None)).unwrap();
    let e = step(&mut c, Some(format!("r={}x,s=c2FsdA==,i=4", f.rsplit_once("r=").unwrap().1).as_bytes())).0.unwrap_err();
    assert!(!format!("{e} {e:?}").contains("a7, a7, a7"));
}
''')
exec("GSSALL='''"+open('/verif/tools/seed/batch3.py').read().split("GSS='''")[1].split("'''")[0]+"'''")
B('c18-megabyte','C18',[(GC,'let wrapped = ctx.wrap(encrypt, input)','let wrapped = ctx.wrap(encrypt, &input[..input.len().min(1 << 20)])')],
 'a message of more than a megabyte under a GSSAPI layer','the rest of the message is dropped although it is reported as sent',GSSALL+'''
fn main() {
    lib(2, gss::INTEG | gss::CONF | gss::MUTUAL);
    let (mut c, mut s) = (cl(2), sv(2));
    talk(&mut c, &mut s);
    let (m, mut b, mut o) = (vec![7; 3 << 20], vec![], vec![]);
    let n = c.encode(&m, &mut b).unwrap();
    s.decode(&b, &mut o).unwrap();
    assert!(o == m[..n]);
}
''',['gssapi'])
B('c23-nul-sent','C23',[(PAR,'''        if input.contains('\\0') {
            return Err(SaslNameError::InvalidChar(0));
        }

        if input.contains([',', '=']) {
''','''        if input.contains([',', '=']) {
            if input.contains('\\0') {
                return Err(SaslNameError::InvalidChar(0));
            }
''')],
 'a name that contains NUL, but neither comma nor equals sign','the client sends a message that no server can read',
'''
fn main() {
    for n in ["a\\0b", "a,\\0b", ""] {
        let (r, o) = step(&mut client("SCRAM-SHA-256", creds(None, n, b"p")), None);
        assert!(r.is_err() && o.is_empty(), "{n:?}");
    }
    ok(&mut client("SCRAM-SHA-256", creds(None, "a,b", b"p")), None);
}
''')
