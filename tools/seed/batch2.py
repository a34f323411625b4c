BUGS=[]
def B(id,prop,edits,needs,breaks,demo,features=()): BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,features=list(features)))
SRV='src/mechanisms/scram/server.rs'; CLI='src/mechanisms/scram/client.rs'; TOOLS='src/mechanisms/scram/tools.rs'
LS='src/mechanisms/login/server.rs'
B('c17-login-borrowed','C17',[(LS,'''                    let username = core::str::from_utf8(input)
                        .map_err(LoginError::Utf8)?
                        .to_string();
''','''                    let username = core::str::from_utf8(input).map_err(LoginError::Utf8)?;
                    // SAFETY: the name is only looked at in the next step
                    let username = unsafe { &*core::ptr::from_ref(username) };
'''),(LS,'WaitingForPassword(String),',"WaitingForPassword(&'static str),"),(LS,'use crate::alloc::string::String;\n',''),
 (LS,'authid: username.as_str(),','authid: username,')],
 'a protocol implementation that frees or reuses its line buffer between the two messages of LOGIN','the user name given to the callback points to memory that is not the message any more',
'''
fn main() {
    let mut s = server("LOGIN", creds(None, "x", b"y"));
    let mut line: Vec<u8> = Vec::new();
    ok(&mut s, None);
    line.extend_from_slice(b"alice");
    ok(&mut s, Some(&line));
    line.clear();
    line.extend_from_slice(b"mallory-password");
    ok(&mut s, Some(&line));
    assert_eq!(s.validation().as_deref(), Some("alice"));
}
''')
B('c17-config-leak','C17',[('src/config.rs','''            unsafe { core::mem::transmute(arc) }
''','''            let this = core::mem::ManuallyDrop::new(arc);
            // SAFETY: `SASLConfig` is a `repr(transparent)` wrapper
            unsafe {
                Arc::increment_strong_count(Arc::as_ptr(&this));
                Arc::from_raw(Arc::as_ptr(&this) as *const Self)
            }
''')],
 'nothing but looking at what is left after everything was dropped','a configuration and the callback in it are never freed',
'''
struct Live(Arc<AtomicUsize>);
impl Drop for Live {
    fn drop(&mut self) {
        self.0.fetch_sub(1, Ordering::SeqCst);
    }
}
fn main() {
    let n = Arc::new(AtomicUsize::new(1));
    let l = Live(n.clone());
    let mut s = client("PLAIN", d(move |_, _, r| {
        let _ = &l;
        r.satisfy::<AuthId>("u")?.satisfy::<Password>(b"p")?;
        Ok(())
    }));
    ok(&mut s, None);
    drop(s);
    assert_eq!(n.load(Ordering::SeqCst), 0, "the callback was never dropped");
}
''')
B('c17-unwrap-unchecked','C17',[('src/callback.rs','''        if let Some(ClosureCRState::Satisfied(val)) = self.closure {
            Some(val)
        } else {
            None
        }
''','''        // SAFETY: `satisfy` always puts a state back
        match unsafe { self.closure.unwrap_unchecked() } {
            ClosureCRState::Satisfied(val) => Some(val),
            ClosureCRState::Open(_) => None,
        }
''')],
 'a callback that gives a value the mechanism refuses and ignores the error','an empty Option is read as if it had a value',
'''
fn main() {
    // keys of the wrong length, and a callback that does not look at the result
    let mut s = server("SCRAM-SHA-256", d(|_, _, r| {
        let p = scram::properties::ScramStoredPassword::new(4, b"salt", b"short", b"short");
        let _ = r.satisfy::<scram::properties::ScramStoredPassword>(&p);
        Ok(())
    }));
    let (r, _) = step(&mut s, Some(b"n,,n=user,r=abcdefghijklmnopqrstuvwx"));
    println!("{r:?}");
    let mut c = client("OAUTHBEARER", d(|_, _, r| {
        let _ = r.satisfy::<OAuthBearerToken>("a\\u{1}b");
        let _ = r.satisfy::<OAuthBearerKV>(&[("auth", "x")]);
        Ok(())
    }));
    let (r, _) = step(&mut c, None);
    println!("{r:?}");
}
''')
B('c17-kv-unchecked','C17',[('src/mechanisms/oauthbearer/parser.rs','''                    let val = core::str::from_utf8(val)?;
''','''                    // SAFETY: the value is only handed through
                    let val = unsafe { core::str::from_utf8_unchecked(val) };
''')],
 'an OAUTHBEARER message with bytes that are not UTF-8 in a value','the callback gets a str that is not UTF-8',
'''
fn main() {
    static BAD: AtomicUsize = AtomicUsize::new(0);
    let cb = d(|_, c, r| {
        for (_, v) in c.get_ref::<OAuthBearerKV>().unwrap_or(&[]) {
            BAD.fetch_add(std::str::from_utf8(v.as_bytes()).is_err() as usize, Ordering::SeqCst);
        }
        r.satisfy::<oauthbearer::properties::OAuthBearerValidate>(&Ok(()))?;
        Ok(())
    });
    let mut s = server("OAUTHBEARER", cb);
    let (r, _) = step(&mut s, Some(b"n,,\\x01auth=Bearer tok\\x01host=a\\xffb\\x01\\x01"));
    println!("{r:?}");
    assert_eq!(BAD.load(Ordering::SeqCst), 0);
    assert!(r.is_err());
}
''')
B('c17-proof-uninit','C17',[(SRV,'''                    let mut proof_decoded = DOutput::<D>::default();
                    let proof_len = base64''','''                    // SAFETY: filled by the decoder
                    let mut proof_decoded: DOutput<D> =
                        unsafe { core::mem::MaybeUninit::uninit().assume_init() };
                    base64'''),(SRV,'''                    if proof_len != proof_decoded.len() {
                        return Err(SCRAMError::Protocol(ProtocolError::ProofLength).into());
                    }
''','')],
 'a client proof that is shorter than the hash','uninitialised memory is used in the verification',
'''
fn main() {
    for n in [0usize, 1, 31] {
        let mut s = server("SCRAM-SHA-256", knows("user", stored(b"secret", b"0123456789abcdef", 4)));
        let sf = String::from_utf8(ok(&mut s, Some(b"n,,n=user,r=abcdefghijklmnopqrstuvwx"))).unwrap();
        let nonce = sf.split(',').next().unwrap();
        let (r, _) = step(&mut s, Some(format!("c=biws,{nonce},p={}", b64(&vec![7; n])).as_bytes()));
        println!("{r:?}");
        assert!(r.is_err(), "a proof of {n} bytes was evaluated");
    }
}
''')
B('c17-lying-writer','C17',[('src/vectored_io.rs','''        if self.skip < N {
            let rem = len - accumulated_len;
            self.data[self.skip] = &self.data[self.skip][rem..];
            bufs[self.skip] = IoSlice::new(self.data[self.skip]);
        }
''','''        let rem = len - accumulated_len;
        if rem > 0 {
            // SAFETY: a buffer that was written in part is left
            unsafe {
                let buf = self.data.get_unchecked_mut(self.skip);
                *buf = buf.get_unchecked(rem..);
                *bufs.get_unchecked_mut(self.skip) = IoSlice::new(buf);
            }
        }
''')],
 'a writer that claims to have written more than it was given','memory behind the message is read and written to the peer',
'''
struct W(usize);
impl std::io::Write for W {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        Ok(b.len() + self.0)
    }
    fn write_vectored(&mut self, b: &[std::io::IoSlice]) -> std::io::Result<usize> {
        Ok(b.iter().map(|b| b.len()).sum::<usize>() + self.0)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    for over in [0usize, 1, 8, 100] {
        // a panic is fine; reading what is behind the message aborts (checked in debug builds)
        let r = std::panic::catch_unwind(|| {
            let mut s = client("SCRAM-SHA-256", creds(None, "u", b"p"));
            s.step(None, &mut W(over)).is_ok()
        });
        println!("{over} {r:?}");
    }
}
''')
B('c16-plain-cache','C16',[('src/mechanisms/plain/server.rs','''        let authcid = saslprep(authcid).map_err(PlainError::Saslprep)?;

        if''','''        let authcid = prepare(authcid)?;

        if'''),('src/mechanisms/plain/server.rs','''pub struct Plain;
impl Authentication''','''/// Preparing a name is expensive; reconnecting clients come in bursts with the same one
fn prepare(name: &str) -> Result<crate::alloc::string::String, SessionError> {
    use crate::alloc::string::{String, ToString};
    static mut LAST: (String, String) = (String::new(), String::new());
    // SAFETY: the tuple is always valid
    unsafe {
        let last = &mut *core::ptr::addr_of_mut!(LAST);
        if last.0 != name {
            last.1.clear();
            last.1.push_str(&saslprep(name).map_err(PlainError::Saslprep)?);
            last.0.clear();
            last.0.push_str(name);
        }
        Ok(last.1.to_string())
    }
}

pub struct Plain;
impl Authentication''')],
 'two PLAIN servers stepped by two threads at the same time','a name of one session ends up in another, memory is corrupted',
'''
fn main() {
    let hs: Vec<_> = (0..8).map(|t| std::thread::spawn(move || {
        for i in 0..20000 {
            let name = format!("user-{t}-{}", "x".repeat(i % 40));
            let mut s = server("PLAIN", creds(None, "u", b"p"));
            ok(&mut s, Some(format!("\\0{name}\\0pw").as_bytes()));
            assert_eq!(s.validation().as_deref(), Some(&name[..]));
        }
    })).collect();
    for h in hs {
        assert!(h.join().is_ok());
    }
}
''')
B('c20-external-silent','C20',[('src/mechanisms/external/client.rs','''        session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
            writer.write_all(authzid.as_bytes())?;
            Ok(())
        })?;
''','''        let sent = session.maybe_need_with::<AuthzId, _, _>(&EmptyProvider, |authzid| {
            writer.write_all(authzid.as_bytes())?;
            Ok(!authzid.is_empty())
        })?.unwrap_or(false);
'''),('src/mechanisms/external/client.rs','Ok(State::Finished(MessageSent::Yes))','Ok(State::Finished(if sent { MessageSent::Yes } else { MessageSent::No }))')],
 'EXTERNAL without an authorization id','the client says that nothing has to be sent, although the server waits for the empty message','''
fn main() {
    let mut c = client("EXTERNAL", creds(None, "u", b"p"));
    let (r, o) = step(&mut c, None);
    assert!(o.is_empty());
    assert!(r.unwrap().has_sent_message());
}
''')
B('c19-key-debug','C19',[(SRV,'''    #[error("provided password hash is wrong size for selected algorithm")]
    PasswordHashInvalid,
''','''    #[error("provided password hash is wrong size for selected algorithm")]
    PasswordHashInvalid(Vec<u8>),
'''),(SRV,'ScramServerError::PasswordHashInvalid,','ScramServerError::PasswordHashInvalid(stored_key.to_vec()),')],
 'stored keys of the wrong length and an application that logs errors with {:?}','the stored key is in the error','''
fn main() {
    let key = [0x5au8, 0x17, 0x33, 0x99, 0xc4, 0x21, 0x7f, 0x01, 0x88, 0x42];
    let mut s = server("SCRAM-SHA-256", d(move |_, _, r| {
        let p = scram::properties::ScramStoredPassword::new(4, b"salt", &key, b"short");
        r.satisfy::<scram::properties::ScramStoredPassword>(&p)?;
        Ok(())
    }));
    let (r, _) = step(&mut s, Some(b"n,,n=user,r=abcdefghijklmnopqrstuvwx"));
    let t = format!("{:?}", r.unwrap_err());
    assert!(!t.contains("90, 23, 51, 153"), "{t}");
}
''')
