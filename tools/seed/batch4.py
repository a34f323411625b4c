BUGS=[]
def B(id,prop,edits,needs,breaks,demo,features=()): BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,features=list(features)))
SRV='src/mechanisms/scram/server.rs'; CLI='src/mechanisms/scram/client.rs'; TOOLS='src/mechanisms/scram/tools.rs'; PAR='src/mechanisms/scram/parser.rs'
MI='src/mechanisms/scram/mechinfo.rs'; SES='src/session.rs'; CTX='src/context.rs'; CB='src/callback.rs'; VAL='src/validate.rs'
OBP='src/mechanisms/oauthbearer/parser.rs'; OBS='src/mechanisms/oauthbearer/server.rs'; OBC='src/mechanisms/oauthbearer/client.rs'
XS='src/mechanisms/xoauth2/server.rs'; XC='src/mechanisms/xoauth2/client.rs'; PC='src/mechanisms/plain/client.rs'; PS='src/mechanisms/plain/server.rs'
PM='src/mechanisms/plain/mechinfo.rs'; LS='src/mechanisms/login/server.rs'; LC='src/mechanisms/login/client.rs'

B('c01-stored-prefix','C01',[(SRV,'if stored_key == calculated_stored_key {','if stored_key[..16] == calculated_stored_key[..16] {')],
 'a stored key of the right length that differs from the right one after its sixteenth byte','a stored credential that does not belong to the password authenticates',
'''
fn main() {
    for (at, good) in [(99usize, true), (0, false), (16, false), (31, false)] {
        let mut s = stored(b"secret", b"0123456789abcdef", 4);
        if at < 32 { s.stored[at] ^= 1; }
        let c = stored(b"secret", b"0123456789abcdef", 4);
        let key = s.stored.clone();
        let mut srv = server("SCRAM-SHA-256", knows("user", s));
        let bare = "n=user,r=abcdefghijklmnopqrstuvwx";
        let sf = String::from_utf8(ok(&mut srv, Some(format!("n,,{bare}").as_bytes()))).unwrap();
        let nonce = &sf[2..sf.find(',').unwrap()];
        let wp = format!("c=biws,r={nonce}");
        // an attacker who knows everything the server stored, but not the client key
        let p: Vec<u8> = hmac256(&key, format!("{bare},{sf},{wp}").as_bytes()).iter().zip(&c.client).map(|(a, b)| a ^ b).collect();
        let (r, o) = step(&mut srv, Some(format!("{wp},p={}", b64(&p)).as_bytes()));
        println!("{at}: {r:?} {}", String::from_utf8_lossy(&o));
        assert_eq!(o.starts_with(b"v="), good, "stored key changed at {at}");
    }
}
''')
B('c01-nonce-case','C01',[(SRV,'if remainder == server_nonce\n','if remainder.eq_ignore_ascii_case(&server_nonce)\n')],
 'a client that knows the password and answers with the nonce in another case','a final message for another nonce is accepted',
'''
fn main() {
    for good in [true, false] {
        let s = stored(b"secret", b"0123456789abcdef", 4);
        let s2 = stored(b"secret", b"0123456789abcdef", 4);
        let mut srv = server("SCRAM-SHA-256", knows("user", s));
        let bare = "n=user,r=abc";
        let sf = String::from_utf8(ok(&mut srv, Some(format!("n,,{bare}").as_bytes()))).unwrap();
        let mut nonce = sf[2..sf.find(',').unwrap()].to_string();
        if !good {
            let tail: String = nonce[3..].chars().map(|c| if c.is_ascii_lowercase() { c.to_ascii_uppercase() } else { c.to_ascii_lowercase() }).collect();
            nonce = format!("abc{tail}");
        }
        let wp = format!("c=biws,r={nonce}");
        // the server signs with its own nonce in the server-first message and ours in the final one
        let p = proof(&s2, format!("{bare},{sf},{wp}").as_bytes());
        let (r, o) = step(&mut srv, Some(format!("{wp},p={}", b64(&p)).as_bytes()));
        println!("{r:?} {}", String::from_utf8_lossy(&o));
        assert_eq!(o.starts_with(b"v="), good);
    }
}
''')
B('c01-gs2-skip','C01',[(SRV,'if gs2_header[..] != cb[..] {','if gs2_header.starts_with(b"p=") && gs2_header[..] != cb[..] || gs2_header.len() != cb.len() {')],
 'a client that did not bind and whose final message carries a different gs2 header of the same length','the authorization id and flag of the first message are not covered by the proof',
'''
fn run(first: &str, fin: &str) -> bool {
    let s = stored(b"secret", b"0123456789abcdef", 4);
    let s2 = stored(b"secret", b"0123456789abcdef", 4);
    let mut srv = server("SCRAM-SHA-256", knows("user", s));
    let bare = "n=user,r=abc";
    let sf = String::from_utf8(ok(&mut srv, Some(format!("{first}{bare}").as_bytes()))).unwrap();
    let nonce = &sf[2..sf.find(',').unwrap()];
    let wp = format!("c={},r={nonce}", b64(fin.as_bytes()));
    let p = proof(&s2, format!("{bare},{sf},{wp}").as_bytes());
    let (_, o) = step(&mut srv, Some(format!("{wp},p={}", b64(&p)).as_bytes()));
    o.starts_with(b"v=")
}
fn main() {
    assert!(run("n,a=root,", "n,a=root,"));
    assert!(run("n,,", "n,,"));
    assert!(!run("n,a=root,", "n,a=user,"));
    assert!(!run("y,,", "n,,"));
    assert!(!run("n,,", "y,,"));
}
''')
B('c03-long-salt','C03',[(CLI,'hash_password::<D>(plain_password, iterations, &salt[..], &mut salted_password);','hash_password::<D>(plain_password, iterations, &salt[..salt.len().min(128)], &mut salted_password);')],
 'a salt longer than 128 bytes','the proof is computed with a truncated salt',
'''
fn main() {
    for n in [1usize, 64, 128, 129, 200] {
        let salt = vec![7u8; n];
        let mut srv = server("SCRAM-SHA-256", knows("user", stored(b"secret", &salt, 4)));
        let mut cl = client("SCRAM-SHA-256", creds(None, "user", b"secret"));
        let m1 = ok(&mut cl, None);
        let m2 = ok(&mut srv, Some(&m1));
        let m3 = ok(&mut cl, Some(&m2));
        let m4 = ok(&mut srv, Some(&m3));
        assert!(m4.starts_with(b"v="), "salt of {n} bytes");
    }
}
''')
B('c03-iter-zeros','C03',[(CLI,'            iteration_count,\n            self.channel_bindings.as_bytes(),','            iterations.to_string().as_bytes(),\n            self.channel_bindings.as_bytes(),')],
 'a server that writes the iteration count with leading zeros','the client signs another message than the one it received',
'''
fn main() {
    for it in ["4", "04", "0004"] {
        let s = stored(b"secret", b"0123456789abcdef", 4);
        let mut cl = client("SCRAM-SHA-256", creds(None, "user", b"secret"));
        let m1 = String::from_utf8(ok(&mut cl, None)).unwrap();
        let bare = m1.strip_prefix("n,,").unwrap();
        let cn = bare.split("r=").nth(1).unwrap();
        let sf = format!("r={cn}XYZ,s={},i={it}", b64(&s.salt));
        let (r, m3) = step(&mut cl, Some(sf.as_bytes()));
        if r.is_err() { continue; }
        let m3 = String::from_utf8(m3).unwrap();
        let (wp, p) = m3.split_once(",p=").unwrap();
        assert_eq!(p, b64(&proof(&s, format!("{bare},{sf},{wp}").as_bytes())), "i={it}");
    }
}
''')
B('c04-select-order','C04',[(MI,'''                    Self::No => Self::Bare,
                    Self::PlusOnly => Self::Plus,
                    x => x,
                }
            } else if *mechname == *SCRAM_SHA512_PLUS.mechanism {''','''                    Self::No | Self::PlusOnly => Self::Bare,
                    x => x,
                }
            } else if *mechname == *SCRAM_SHA512_PLUS.mechanism {''')],
 'a client with channel binding that does not enable the -PLUS variant, and a server that lists the -PLUS variant first','the client claims (y) that the server offered no channel binding although it did',
'''
fn main() {
    for offer in [["SCRAM-SHA-512", "SCRAM-SHA-512-PLUS"], ["SCRAM-SHA-512-PLUS", "SCRAM-SHA-512"]] {
        let mut c = client_of(&["SCRAM-SHA-512"], &offer, creds(None, "user", b"pw").bind(), Bind(vec![])).unwrap();
        let m = ok(&mut c, None);
        println!("{}", String::from_utf8_lossy(&m));
        assert!(m.starts_with(b"n,"), "{offer:?}");
    }
    let mut c = client_of(&["SCRAM-SHA-512"], &["SCRAM-SHA-512"], creds(None, "user", b"pw").bind(), Bind(vec![])).unwrap();
    assert!(ok(&mut c, None).starts_with(b"y,"));
}
''')
B('c04-empty-protocol','C04',[(SES,'if let Some(cbdata) = self.chanbind_cb.get_cb_data(cbname) {','if let Some(cbdata) = self.chanbind_cb.get_cb_data(cbname).filter(|cb| !cb.is_empty()) {')],
 'a protocol that supplies empty binding data while the callback has other data','the data of the callback takes precedence over the one of the protocol',
'''
fn main() {
    let m = "SCRAM-SHA-256-PLUS";
    let s = stored(b"secret", b"0123456789abcdef", 4);
    let asked = Arc::new(AtomicUsize::new(0));
    let a = asked.clone();
    let cb = d(move |_, _, r| {
        if r.is::<ChannelBindings>() { a.fetch_add(1, Ordering::SeqCst); }
        r.satisfy::<AuthId>("user")?.satisfy::<Password>(b"secret")?.satisfy::<ChannelBindings>(b"other")?;
        Ok(())
    }).bind();
    let mut cl = client_of(&[m], &[m], cb, Bind(vec![("tls-exporter", vec![])])).unwrap();
    let mut srv = server_of(&[m], m, knows("user", s).bind(), Bind(vec![("tls-exporter", vec![])])).unwrap();
    let m1 = ok(&mut cl, None);
    let m2 = ok(&mut srv, Some(&m1));
    let m3 = ok(&mut cl, Some(&m2));
    let (_, m4) = step(&mut srv, Some(&m3));
    assert_eq!(asked.load(Ordering::SeqCst), 0, "the callback was asked");
    assert!(m4.starts_with(b"v="));
}
''')
B('c06-iter-alloc','C06',[(CLI,'let salt = base64::engine::general_purpose::STANDARD\n            .decode(salt64)','let mut salt = Vec::with_capacity(iterations as usize);\n        base64::engine::general_purpose::STANDARD\n            .decode_vec(salt64, &mut salt)')],
 'a server-first message with a huge iteration count','the client allocates gigabytes before it has asked anybody whether that count is acceptable',
'''
use std::alloc::*;
struct A;
static MAX: AtomicUsize = AtomicUsize::new(0);
unsafe impl GlobalAlloc for A {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 { MAX.fetch_max(l.size(), Ordering::SeqCst); unsafe { System.alloc(l) } }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) { unsafe { System.dealloc(p, l) } }
}
#[global_allocator]
static G: A = A;
fn main() {
    let cb = d(|_, _, r| {
        r.satisfy::<AuthId>("user")?;
        if r.is::<Password>() { return Err(CallbackError::NoValue.into()); }
        Ok(())
    });
    let mut cl = client("SCRAM-SHA-256", cb);
    let m1 = String::from_utf8(ok(&mut cl, None)).unwrap();
    let cn = m1.split("r=").nth(1).unwrap();
    MAX.store(0, Ordering::SeqCst);
    let (r, _) = step(&mut cl, Some(format!("r={cn}X,s=c2FsdA==,i=300000000").as_bytes()));
    println!("{r:?} {}", MAX.load(Ordering::SeqCst));
    assert!(MAX.load(Ordering::SeqCst) < 1 << 20);
}
''')
B('c07-kv-equals','C07',[(OBP,'            for kv in it {','            for kv in it.by_ref() {'),(OBP,"let mut kviter = kv.splitn(2, |b| matches!(b, b'='));","let mut kviter = kv.split(|b| matches!(b, b'='));")],
 'a key/value field whose value contains an equals sign','the value is cut at the equals sign',
'''
fn main() {
    static SEEN: Mutex<Vec<(String, String)>> = Mutex::new(vec![]);
    let mut cl = client("OAUTHBEARER", d(|_, _, r| {
        r.satisfy::<OAuthBearerKV>(&[("host", "a"), ("q", "x=1&y=2")])?.satisfy::<OAuthBearerToken>("tok")?;
        Ok(())
    }));
    let mut srv = server("OAUTHBEARER", d(|_, c, r| {
        if let Some(kv) = c.get_ref::<OAuthBearerKV>() {
            *SEEN.lock().unwrap() = kv.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect();
        }
        r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Ok(()))?;
        Ok(())
    }));
    let m = ok(&mut cl, None);
    let (r, _) = step(&mut srv, Some(&m));
    println!("{r:?} {:?}", SEEN.lock().unwrap());
    if r.is_ok() {
        assert_eq!(SEEN.lock().unwrap()[1].1, "x=1&y=2");
    }
}
''')
B('c07-trace-trim','C07',[('src/mechanisms/anonymous/server.rs','session.validate(&ThisProvider::<AnonymousToken>::with(input))?;',"session.validate(&ThisProvider::<AnonymousToken>::with(input.trim_end_matches(['\\r', '\\n'])))?;")],
 'a trace string that ends with a line break','the server sees another trace string than the client supplied',
'''
fn main() {
    for t in ["me@host", "two\\nlines", "line\\n", "cr\\r\\n"] {
        let mut cl = client("ANONYMOUS", d(move |_, _, r| { r.satisfy::<AnonymousToken>(t)?; Ok(()) }));
        let mut srv = server("ANONYMOUS", d(|_, _, _| Ok(())).val(|_, c, v| {
            v.finalize::<V>(c.get_ref::<AnonymousToken>().unwrap().to_string());
            Ok(())
        }));
        let m = ok(&mut cl, None);
        let (r, _) = step(&mut srv, Some(&m));
        if r.is_ok() { assert_eq!(srv.validation().as_deref(), Some(t)); }
    }
}
''')
B('c08-gs2-prefix','C08',[(OBP,'if gs2_first != b"n" {','if !gs2_first.starts_with(b"n") {')],
 'an OAUTHBEARER message whose gs2 flag is longer than one character','a message the grammar does not derive is accepted',
'''
fn main() {
    for (m, good) in [("n,,\\x01auth=Bearer tok\\x01\\x01", true), ("nn,,\\x01auth=Bearer tok\\x01\\x01", false), ("n=x,,\\x01auth=Bearer tok\\x01\\x01", false)] {
        let mut srv = server("OAUTHBEARER", d(|_, _, r| { r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Ok(()))?; Ok(()) }));
        let (r, _) = step(&mut srv, Some(m.as_bytes()));
        assert_eq!(r.is_ok(), good, "{m:?}");
    }
}
''')
B('c08-xoauth2-trailer','C08',[(XS,'.and_then(|token| token.strip_suffix(b"\\x01\\x01"))',".and_then(|token| token.strip_suffix(b\"\\x01\\x01\").or_else(|| token.strip_suffix(b\"\\x01\\x01\\n\")))")],
 'an XOAUTH2 message with a line feed behind the terminator','a message the grammar does not derive is accepted',
'''
fn main() {
    for (m, good) in [("user=u\\x01auth=Bearer tok\\x01\\x01", true), ("user=u\\x01auth=Bearer tok\\x01\\x01\\n", false)] {
        let mut srv = server("XOAUTH2", d(|_, _, r| { r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Ok(()))?; Ok(()) }));
        let (r, _) = step(&mut srv, Some(m.as_bytes()));
        assert_eq!(r.is_ok(), good, "{m:?}");
    }
}
''')
B('c09-early-stop','C09',[('src/registry.rs','''        for o in offered {
            for s in &mut selectors {
                s.select(o);
            }
        }''','''        for o in offered {
            for s in selectors.iter_mut() {
                s.select(o);
            }
            // nothing is ranked higher
            if selectors.iter().any(|s| matches!(s, Selection::Done(m) if m.priority >= 500)) {
                break;
            }
        }''')],
 'a server that offers SCRAM-SHA-1-PLUS before SCRAM-SHA-256-PLUS','the outcome depends on the order of the offer',
'''
fn main() {
    let m = ["PLAIN", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS"];
    for offer in [["SCRAM-SHA-256-PLUS", "SCRAM-SHA-1-PLUS", "PLAIN"], ["PLAIN", "SCRAM-SHA-1-PLUS", "SCRAM-SHA-256-PLUS"]] {
        let c = client_of(&m, &offer, creds(None, "user", b"pw").bind(), Bind(vec![])).unwrap();
        assert_eq!(c.get_mechname().as_str(), "SCRAM-SHA-256-PLUS", "{offer:?}");
    }
}
''')
B('c09-list-clients','C09',[('src/sasl.rs','self.config.mech_list().filter(|mech| mech.server.is_some())','self.config.mech_list()')],
 'a mechanism that is implemented for clients only','the server lists a mechanism it can not start',
'''
fn main() {
    fn cl() -> Result<Box<dyn rsasl::mechanism::Authentication>, SASLError> { Err(SASLError::NoSharedMechanism) }
    static M: [Mechanism; 1] = [Mechanism::build(Mechname::const_new_unchecked(b"X-CLIENT"), 10, Some(cl), None, rsasl::registry::Side::Client, |_| None, |_| true)];
    let c = SASLConfig::builder().with_registry(Registry::with_mechanisms(&M)).with_callback(d(|_, _, _| Ok(()))).unwrap();
    let s = SASLServer::<V>::new(c);
    assert_eq!(s.get_available().into_iter().count(), 0);
}
''',['unstable_custom_mechanism'])
B('c10-oauth-flush','C10',[(OBS,'''if let Err(error) = result {
                        let message = serde_json::to_vec(error).map_err(Error::Serde)?;
                        writer.write_all(&message)?;''','if let Err(error) = &result {\n                        let doc = serde_json::to_vec(error).map_err(Error::Serde)?;\n                        if writer.write_vectored(&[core2::io::IoSlice::new(&doc)])? == 0 {\n                            return Err(SessionError::InputDataRequired);\n                        }')],
 'a writer that accepts only a part of the error document','the truncated error is reported as sent',
'''
struct W(Vec<u8>, usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { let n = b.len().min(self.1); self.0.extend_from_slice(&b[..n]); Ok(n) }
    fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
}
fn main() {
    let mut want = vec![];
    for n in [10000, 1, 20] {
        let mut srv = server("OAUTHBEARER", d(|_, _, r| {
            let e = oauthbearer::properties::OAuthBearerError::new("invalid_token", Some("a b c"), None);
            r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Err(e))?;
            Ok(())
        }));
        let mut w = W(vec![], n);
        let r = srv.step(Some(b"n,,\\x01auth=Bearer tok\\x01\\x01"), &mut w);
        if n == 10000 { want = w.0.clone(); }
        println!("{r:?} {}", String::from_utf8_lossy(&w.0));
        assert!(r.is_err() || w.0 == want);
    }
}
''')
B('c11-chunked-encode','C11',[(SES,'            writer: &mut impl Write,\n        ) -> Result<State, SessionError> {\n            // A mech','            mut writer: &mut impl Write,\n        ) -> Result<State, SessionError> {\n            // A mech'),(SES,'''            let encoded =
                base64::Engine::encode(&base64::engine::general_purpose::STANDARD, output);
            writer.write_all(encoded.as_bytes())?;''','''            // encode in pieces, large messages need not be in memory twice
            for piece in output.chunks(4096) {
                let encoded =
                    base64::Engine::encode(&base64::engine::general_purpose::STANDARD, piece);
                Write::write_all(&mut writer, encoded.as_bytes())?;
            }''')],
 'a message longer than 4096 bytes','the encoded output contains padding in the middle',
'''
fn main() {
    use base64::Engine;
    for n in [0usize, 10, 4000, 4095, 4096, 4097, 9000] {
        let t: &'static str = "x".repeat(n).leak();
        let mut cl = client("EXTERNAL", d(move |_, _, r| { r.satisfy::<AuthzId>(t)?; Ok(()) }));
        let mut o = vec![];
        cl.step64(None, &mut o).unwrap();
        let x = base64::engine::general_purpose::STANDARD.decode(&o).expect("output is not base64");
        assert_eq!(x, t.as_bytes());
    }
}
''')
B('c12-cb-context','C12',[(SES,'self.maybe_need_with::<ChannelBindings, F, G>(&prov, f)','self.maybe_need_with::<ChannelBindings, F, G>(\n                &ThisProvider::<ChannelBindingName>::with(cbname),\n                f,\n            )'),(SES,'let prov = ThisProvider::<ChannelBindingName>::with(cbname).and(provider);','let _ = provider;')],
 'a -PLUS server whose callback supplies the binding data depending on the user','the context of the request does not expose the user any more',
'''
fn main() {
    let m = "SCRAM-SHA-256-PLUS";
    let s = stored(b"secret", b"0123456789abcdef", 4);
    let cb = d(move |_, c, r| {
        if r.is::<ChannelBindings>() {
            assert_eq!(c.get_ref::<ChannelBindingName>(), Some("tls-exporter"));
            assert_eq!(c.get_ref::<AuthId>(), Some("user"));
        }
        r.satisfy::<ChannelBindings>(b"data")?;
        r.satisfy::<scram::properties::ScramStoredPassword>(&scram::properties::ScramStoredPassword::new(s.iter, &s.salt, &s.stored, &s.server))?;
        Ok(())
    }).bind();
    let mut srv = server_of(&[m], m, cb, Bind(vec![])).unwrap();
    ok(&mut srv, Some(b"p=tls-exporter,,n=user,r=abcdefghijklmnopqrstuvwx"));
}
''')
B('c13-failed-value','C13',[(VAL,'''        if let Some(result @ Tagged(Option::None)) = self.0.downcast_mut::<T>() {
            let outcome = f()?;
            *result = Tagged(Some(outcome));
        }
        Ok(self)''','''        if self.is::<T>() {
            // `finalize` keeps what is there already
            let outcome = f()?;
            self.finalize::<T>(outcome);
        }
        Ok(self)''')],
 'a validation callback that sets a value and calls `with` again','the closure of the later value runs and its error fails the step',
'''
fn main() {
    let mut srv = server("EXTERNAL", d(|_, _, _| Ok(())).val(|_, _, v| {
        v.finalize::<V>("first".into());
        v.with::<V, _>(|| Err(ValidationError::MissingRequiredProperty))?;
        Ok(())
    }));
    let (r, _) = step(&mut srv, Some(b"x"));
    println!("{r:?}");
    assert!(r.is_ok());
    assert_eq!(srv.validation().as_deref(), Some("first"));
}
''')
B('c13-cb-mismatch','C13',[(SRV,'''            if gs2_header[..] != cb[..] {
                ServerFinal::Error(ServerErrorValue::ChannelBindingsDontMatch)''','''            if gs2_header != cb {
                // let the application know about the attempt
                let prov = Prov {
                    authid: username.as_str(),
                    authzid: authzid.as_deref(),
                };
                let _ = session_data.validate(&prov);
                ServerFinal::Error(ServerErrorValue::ChannelBindingsDontMatch)''')],
 'a client whose channel binding data differs from the server\'s','validation is called for a failed exchange and its result is delivered',
'''
fn main() {
    let m = "SCRAM-SHA-256-PLUS";
    for (a, good) in [(b"same", true), (b"diff", false)] {
        let s = stored(b"secret", b"0123456789abcdef", 4);
        let mut srv = server_of(&[m], m, knows("user", s).bind(), Bind(vec![("tls-exporter", b"same".to_vec())])).unwrap();
        let mut cl = client_of(&[m], &[m], creds(None, "user", b"secret").bind(), Bind(vec![("tls-exporter", a.to_vec())])).unwrap();
        let m1 = ok(&mut cl, None);
        let m2 = ok(&mut srv, Some(&m1));
        let m3 = ok(&mut cl, Some(&m2));
        let (_, m4) = step(&mut srv, Some(&m3));
        assert_eq!(m4.starts_with(b"v="), good);
        assert_eq!(srv.validation().is_some(), good);
    }
}
''')
B('c14-long-error','C14',[(XS,'writer.write_all(error.as_bytes())?;','// servers limit the length of a challenge\n                        writer.write_all(&error.as_bytes()[..error.len().min(2048)])?;')],
 'an XOAUTH2 error longer than 2048 bytes','the client sees a truncated error',
'''
fn main() {
    for n in [10usize, 2048, 3000] {
        let e: &'static str = "x".repeat(n).leak();
        let mut srv = server("XOAUTH2", d(move |_, _, r| { r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Err(e))?; Ok(()) }));
        let o = ok(&mut srv, Some(b"user=u\\x01auth=Bearer tok\\x01\\x01"));
        assert_eq!(o, e.as_bytes(), "{n}");
    }
}
''')
B('c14-scope-empty','C14',[('src/mechanisms/oauthbearer/properties.rs','''    #[serde(default, skip_serializing_if = "Option::is_none")]
    /// An OAuth scope''','''    #[serde(default, skip_serializing_if = "is_unset")]
    /// An OAuth scope'''),('src/mechanisms/oauthbearer/properties.rs','''impl<'a> OAuthBearerError<'a> {''','''fn is_unset(value: &Option<&str>) -> bool {
    value.map_or(true, str::is_empty)
}

impl<'a> OAuthBearerError<'a> {''')],
 'a server error with an empty scope','the client does not see the error the server chose',
'''
fn main() {
    for s in [None, Some(""), Some("a b")] {
        let seen = Arc::new(Mutex::new(None));
        let s2 = seen.clone();
        let mut cl = client("OAUTHBEARER", d(move |_, _, r| {
            r.satisfy::<OAuthBearerToken>("tok")?;
            if let Some(e) = r.get_action::<oauthbearer::properties::OAuthBearerErrored>() {
                *s2.lock().unwrap() = Some(e.scope.map(str::to_string));
            }
            Ok(())
        }));
        let mut srv = server("OAUTHBEARER", d(move |_, _, r| {
            let e = oauthbearer::properties::OAuthBearerError::new("invalid_token", s, None);
            r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Err(e))?;
            Ok(())
        }));
        let m = ok(&mut cl, None);
        let e = ok(&mut srv, Some(&m));
        ok(&mut cl, Some(&e));
        assert_eq!(*seen.lock().unwrap(), Some(s.map(str::to_string)));
    }
}
''')
B('c15-oauth-empty','C15',[(OBS,'let input = input.ok_or(SessionError::InputDataRequired)?;','''// Every message ends with the separators, there is nothing to parse otherwise
                let input = input.unwrap_or(b"n,,\\x01auth=Bearer \\x01\\x01");''')],
 'an OAUTHBEARER server step without data','the callback is asked to judge an empty token instead of the caller being told that data is missing',
'''
fn main() {
    static ASKED: AtomicUsize = AtomicUsize::new(0);
    let mut srv = server("OAUTHBEARER", d(|_, _, r| {
        ASKED.fetch_add(1, Ordering::SeqCst);
        r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Ok(()))?;
        Ok(())
    }));
    let (r, _) = step(&mut srv, None);
    assert!(matches!(r, Err(SessionError::InputDataRequired)), "{r:?}");
    assert_eq!(ASKED.load(Ordering::SeqCst), 0);
}
''')
B('c15-login-restart','C15',[(LS,'''                    Ok(State::Finished(MessageSent::No))
                } else {
                    Err(SessionError::InputDataRequired)''','''                    Ok(State::Finished(MessageSent::No))
                } else {
                    self.state = LoginState::WaitingForUsername;
                    Err(SessionError::InputDataRequired)'''),(LS,'''                } else {
                    Err(SessionError::InputDataRequired)
                }
            }
            LoginState::WaitingForPassword''','''                } else {
                    return Err(SessionError::InputDataRequired);
                }
            }
            LoginState::WaitingForPassword''')],
 'a LOGIN server step without data while it waits for the password','the password supplied afterwards is taken for the user name',
'''
fn main() {
    let mut srv = server("LOGIN", d(|_, _, _| Ok(())));
    ok(&mut srv, None);
    ok(&mut srv, Some(b"user"));
    let (r, o) = step(&mut srv, None);
    assert!(r.is_err() && o.is_empty());
    let (r, o) = step(&mut srv, Some(b"secret"));
    assert!(matches!(r, Ok(State::Finished(MessageSent::No))) && o.is_empty(), "{r:?} {}", String::from_utf8_lossy(&o));
    assert_eq!(srv.validation().as_deref(), Some("user"));
}
''')
B('c16-last-user','C16',[(SRV,'''                        let prov = Prov {
                            authid: username.as_str(),
                            authzid: authzid.as_deref(),
                        };
                        session_data.validate(&prov)?;''','''                        // keep the name of the last user for diagnostics
                        static LAST: std::sync::Mutex<String> = std::sync::Mutex::new(String::new());
                        if let Ok(mut last) = LAST.lock() {
                            last.clear();
                            last.push_str(&username);
                        }
                        std::thread::yield_now();
                        let name = LAST.lock().map(|last| last.clone()).unwrap_or_default();
                        let prov = Prov {
                            authid: name.as_str(),
                            authzid: authzid.as_deref(),
                        };
                        session_data.validate(&prov)?;''')],
 'two servers that verify the proofs of different users at the same time','a session is validated with the name of another session\'s user',
'''
fn main() {
    let bad = Arc::new(AtomicUsize::new(0));
    let t: Vec<_> = (0..8).map(|i| {
        let bad = bad.clone();
        std::thread::spawn(move || {
            let user: &'static str = format!("user{i}").leak();
            for _ in 0..3000 {
                let mut srv = server("SCRAM-SHA-256", knows(user, stored(b"secret", b"0123456789abcdef", 1)));
                let mut cl = client("SCRAM-SHA-256", creds(None, user, b"secret"));
                let m1 = ok(&mut cl, None);
                let m2 = ok(&mut srv, Some(&m1));
                let m3 = ok(&mut cl, Some(&m2));
                ok(&mut srv, Some(&m3));
                if srv.validation().as_deref() != Some(user) { bad.fetch_add(1, Ordering::SeqCst); }
            }
        })
    }).collect();
    for t in t { t.join().unwrap(); }
    println!("{bad:?}");
    assert_eq!(bad.load(Ordering::SeqCst), 0);
}
''')
B('c19-plain-null','C19',[(PM,'#[error("The given value contains a NULL-byte")]\n    ContainsNull,','#[error("The given value contains a NULL-byte: {0:?}")]\n    ContainsNull(String),'),
 (PC,'''            if authzid.contains('\\0') {
                return Err(SessionError::MechanismError(Box::new(
                    PlainError::ContainsNull,
                )));''','''            if authzid.contains('\\0') {
                return Err(SessionError::MechanismError(Box::new(
                    PlainError::ContainsNull(authzid.into()),
                )));'''),
 (PC,'''            if authid.contains('\\0') {
                return Err(SessionError::MechanismError(Box::new(
                    PlainError::ContainsNull,
                )));''','''            if authid.contains('\\0') {
                return Err(SessionError::MechanismError(Box::new(
                    PlainError::ContainsNull(authid.into()),
                )));'''),
 (PC,'''            if password.contains(&0u8) {
                return Err(SessionError::MechanismError(Box::new(
                    PlainError::ContainsNull,
                )));''','''            if password.contains(&0u8) {
                return Err(SessionError::MechanismError(Box::new(
                    PlainError::ContainsNull(String::from_utf8_lossy(password).into_owned()),
                )));'''),
 ],
 'a PLAIN client whose password contains a NUL byte','the password is in the error message',
'''
fn main() {
    let mut cl = client("PLAIN", creds(None, "user", b"correct horse\\0battery"));
    let (r, _) = step(&mut cl, None);
    let e = r.unwrap_err();
    let t = format!("{e} {e:?}");
    println!("{t}");
    assert!(!t.contains("correct horse"));
}
''')
B('c19-creds-debug','C19',[('src/config.rs','                .field("mechanisms", &self.mechanisms)\n                .finish_non_exhaustive()','                .field("mechanisms", &self.mechanisms)\n                .field("callback", &self.callback.describe())\n                .finish()'),
 ('src/config.rs','                fn callback(\n                    &self,\n                    _session_data: &SessionData,','                fn describe(&self) -> String {\n                    format!("credentials {}:{}", self.authid, self.password.len())\n                }\n\n                fn callback(\n                    &self,\n                    _session_data: &SessionData,'),
 (CB,'    fn enable_channel_binding(&self) -> bool {\n        false\n    }','    fn enable_channel_binding(&self) -> bool {\n        false\n    }\n\n    /// Short description for diagnostics\n    fn describe(&self) -> String {\n        String::new()\n    }')],
 'a configuration made by the credentials helper that is printed','the user name given to the helper appears in the debug output',
'''
fn main() {
    let c = SASLConfig::with_credentials(None, "alice@example".into(), "secret".into()).unwrap();
    let t = format!("{c:?} {:#?}", SASLClient::new(c.clone()));
    println!("{t}");
    assert!(!t.contains("alice@example"));
}
''')
B('c20-xoauth2-yes','C20',[(XS,'XOAuth2State::Errored => Ok(State::Finished(MessageSent::No)),','XOAuth2State::Errored => Ok(State::Finished(MessageSent::Yes)),')],
 'an XOAUTH2 exchange in which the server rejected the token','the server claims to have sent a message the client, which is finished, does not expect',
'''
fn main() {
    let mut srv = server("XOAUTH2", d(|_, _, r| { r.satisfy::<xoauth2::properties::XOAuth2Validate>(&Err("no".into()))?; Ok(()) }));
    ok(&mut srv, Some(b"user=u\\x01auth=Bearer tok\\x01\\x01"));
    let (r, o) = step(&mut srv, Some(b""));
    println!("{r:?} {o:?}");
    assert!(matches!(r, Ok(State::Finished(MessageSent::No))));
}
''')
B('c20-login-yes','C20',[(LS,'''                    self.state = LoginState::Done;
                    Ok(State::Finished(MessageSent::No))''','''                    let sent = if username.is_empty() {
                        MessageSent::Yes
                    } else {
                        MessageSent::No
                    };
                    self.state = LoginState::Done;
                    Ok(State::Finished(sent))''')],
 'a LOGIN exchange with an empty user name','the server claims to have sent a message although nothing was written',
'''
fn main() {
    for u in ["user", ""] {
        let mut srv = server("LOGIN", d(|_, _, _| Ok(())));
        ok(&mut srv, None);
        ok(&mut srv, Some(u.as_bytes()));
        let (r, o) = step(&mut srv, Some(b"secret"));
        println!("{r:?} {o:?}");
        assert!(matches!(r, Ok(State::Finished(MessageSent::No))) || !o.is_empty());
    }
}
''')
