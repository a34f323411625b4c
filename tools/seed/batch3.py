BUGS=[]
def B(id,prop,edits,needs,breaks,demo,features=()): BUGS.append(dict(id=id,prop=prop,edits=edits,needs=needs,breaks=breaks,demo=demo,features=list(features)))
SRV='src/mechanisms/scram/server.rs'; CLI='src/mechanisms/scram/client.rs'; TOOLS='src/mechanisms/scram/tools.rs'
GC='src/mechanisms/gssapi/client.rs'; GS='src/mechanisms/gssapi/server.rs'
GSS='''
mod gss;
use rsasl::mechanisms::gssapi::properties::*;
use rsasl::mechanisms::gssapi::GSSAPI;
static MECHS: [Mechanism; 1] = [GSSAPI];
fn cfg(l: u8) -> Arc<SASLConfig> {
    SASLConfig::builder().with_registry(Registry::with_mechanisms(&MECHS)).with_callback(d(move |_, _, r| {
        r.satisfy::<GssService>("imap")?.satisfy::<Hostname>("host")?;
        r.satisfy::<GssSecurityLayer>(&SecurityLayer::from_bits_truncate(l))?;
        Ok(())
    })).unwrap()
}
fn cl(l: u8) -> Session<NoValidation, Bind> {
    SASLClient::with_cb(cfg(l), Bind(vec![])).start_suggested(&[Mechname::parse(b"GSSAPI").unwrap()]).unwrap()
}
fn sv(l: u8) -> Session<V, Bind> {
    SASLServer::<V, Bind>::with_cb(cfg(l), Bind(vec![])).start_suggested(Mechname::parse(b"GSSAPI").unwrap()).unwrap()
}
/// what client and server end with: their results and whether the exchange completed
fn talk(c: &mut Session<NoValidation, Bind>, s: &mut Session<V, Bind>) -> Vec<String> {
    let mut t = vec![];
    let mut input: Option<Vec<u8>> = None;
    let mut srv = false;
    for _ in 0..20 {
        let (r, o) = if srv { step(s, input.as_deref()) } else { step(c, input.as_deref()) };
        t.push(format!("{} {r:?} {}", if srv { "S" } else { "C" }, o.len()));
        match r {
            Err(_) => break,
            Ok(st) if st.is_finished() && !st.has_sent_message() => break,
            _ => {}
        }
        input = Some(o);
        srv = !srv;
    }
    t
}
fn lib(tokens: usize, flags: u32) {
    gss::reset(gss::Cfg { tokens, flags, fail_at: None, empty_nonnull: false }, 7);
}
'''
ALLF='gss::INTEG | gss::CONF | gss::MUTUAL'
B('c18-integrity-encrypts','C18',[(GC,'''                        [SecurityLayer::INTEGRITY.bits(), 0xFF, 0xFF, 0xFF],
                        Some(false),''','''                        [SecurityLayer::INTEGRITY.bits(), 0xFF, 0xFF, 0xFF],
                        Some(supported_sec.contains(SecurityLayer::CONFIDENTIALITY)),''')],
 'a server that offers both layers and a client that permits integrity only','the client encrypts although integrity was negotiated',GSS+'''
fn main() {
    lib(2, ALLF);
    let (mut c, mut s) = (cl(2), sv(7));
    println!("{:?}", talk(&mut c, &mut s));
    assert!(c.has_security_layer() && s.has_security_layer());
    let mut b = vec![];
    c.encode(b"data", &mut b).unwrap();
    assert!(!gss::open(&gss::with(|m| m.key()).unwrap(), &b).unwrap().conf);
}
'''.replace('ALLF',ALLF),['gssapi'])
B('c18-any-selection','C18',[(GS,'''                let wrap_state = if selected.contains(SecurityLayer::CONFIDENTIALITY) {
                    Some((ctx, true))
                } else if selected.contains(SecurityLayer::INTEGRITY) {
                    Some((ctx, false))
                } else {
                    None
                };
''','''                // no need for a layer that protects less than the context can
                let wrap_state = (!selected.contains(SecurityLayer::NO_SECURITY_LAYER)).then(|| {
                    let encrypt = supported.contains(SecurityLayer::CONFIDENTIALITY);
                    (ctx, encrypt)
                });
''')],
 'a client that picks integrity at a server that offers both','the server encrypts although integrity was negotiated',GSS+'''
fn main() {
    lib(2, ALLF);
    let (mut c, mut s) = (cl(2), sv(7));
    println!("{:?}", talk(&mut c, &mut s));
    let mut b = vec![];
    s.encode(b"data", &mut b).unwrap();
    assert!(!gss::open(&gss::with(|m| m.key()).unwrap(), &b).unwrap().conf);
}
'''.replace('ALLF',ALLF),['gssapi'])
B('c18-final-keeps-layer','C18',[(GS,'''        matches!(self.state, GssapiState::Done(Some(_)))
    }

    fn encode''','''        match &self.state {
            GssapiState::Final(_, layers) => !layers.contains(SecurityLayer::NO_SECURITY_LAYER),
            state => matches!(state, GssapiState::Done(Some(_))),
        }
    }

    fn encode''')],
 'a server that insists on a layer, asked before the client chose one','a layer is reported that encode and decode refuse to use',GSS+'''
fn main() {
    lib(1, ALLF);
    let (mut c, mut s) = (cl(7), sv(6));
    let t = ok(&mut c, None);
    ok(&mut s, Some(&t));
    assert!(!s.has_security_layer());
}
'''.replace('ALLF',ALLF),['gssapi'])
B('c13-gss-early','C13',[(GS,'''                    if acceptable.is_empty() {
                        return Err(Error::BadContext.into());
                    }

                    self.state''','''                    if acceptable.is_empty() {
                        return Err(Error::BadContext.into());
                    }

                    // the peer is authenticated
                    {
                        let name = ctx
                            .source_name()
                            .and_then(|name| name.display_name())
                            .map_err(Error::Gss)?;
                        let authid = core::str::from_utf8(&name).map_err(|_| Error::BadContext)?;
                        session.validate(&ThisProvider::<AuthId>::with(authid))?;
                    }

                    self.state'''),(GS,'''                let name = ctx
                    .source_name()
                    .and_then(|name| name.display_name())
                    .map_err(Error::Gss)?;
                let authid = core::str::from_utf8(&name).map_err(|_| Error::BadContext)?;
                session.validate(&ThisProvider::<AuthId>::with(authid))?;

                let wrap_state = if selected.contains(SecurityLayer::CONFIDENTIALITY) {
                    Some((ctx, true))
                } else if selected.contains(SecurityLayer::INTEGRITY) {
                    Some((ctx, false))
                } else {
                    None
                };
''','''                let wrap_state = match selected {
                    s if s.contains(SecurityLayer::CONFIDENTIALITY) => Some((ctx, true)),
                    s if s.contains(SecurityLayer::INTEGRITY) => Some((ctx, false)),
                    _ => None,
                };
''')],
 'a client that fails the layer negotiation of GSSAPI','the validation callback accepted an exchange that then failed',GSS+'''
fn main() {
    lib(1, ALLF);
    // client and server have no layer in common
    let (mut c, mut s) = (cl(2), sv(1));
    println!("{:?}", talk(&mut c, &mut s));
    assert_eq!(s.validation(), None);
    lib(1, ALLF);
    let (mut c, mut s) = (cl(7), sv(7));
    println!("{:?}", talk(&mut c, &mut s));
    assert!(s.validation().is_some());
}
'''.replace('ALLF',ALLF),['gssapi'])
B('c10-gss-short','C10',[(GC,'''                let wrapped = ctx.wrap(false, &response).map_err(Error::Gss)?;
                writer.write_all(&wrapped)?;''','''                let wrapped = ctx.wrap(false, &response).map_err(Error::Gss)?;
                if writer.write(&wrapped)? == 0 {
                    return Err(Error::BadFinalToken.into());
                }''')],
 'a writer that takes less than the whole message','the end of the client\'s GSSAPI message is lost and the step succeeds',GSS+'''
struct Slow(Vec<u8>);
impl std::io::Write for Slow {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        let n = b.len().min(3);
        self.0.extend_from_slice(&b[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}
fn main() {
    lib(2, ALLF);
    let (mut c, mut s) = (cl(7), sv(7));
    let mut w = Slow(vec![]);
    c.step(None, &mut w).unwrap();
    let t = ok(&mut s, Some(&w.0));
    let mut w = Slow(vec![]);
    c.step(Some(&t), &mut w).unwrap();
    let t = ok(&mut s, Some(&w.0));
    let mut w = Slow(vec![]);
    c.step(Some(&t), &mut w).unwrap();
    ok(&mut s, Some(&w.0));
}
'''.replace('ALLF',ALLF),['gssapi'])
B('c20-gss-concat','C20',[(GS,'''                    writer.write_all(&token)?;
                    Ok(State::Running)
                } else {
                    self.step(session, None, writer)
                }''','''                    writer.write_all(&token)?;
                    if matches!(self.state, GssapiState::Pending(..)) {
                        return Ok(State::Running);
                    }
                }
                self.step(session, None, writer)''')],
 'a GSS context that the server\'s token completes','two messages are sent as one, the client can not make sense of them',GSS+'''
fn main() {
    for n in 1..5 {
        lib(n, ALLF);
        let (mut c, mut s) = (cl(7), sv(7));
        let t = talk(&mut c, &mut s);
        println!("{t:?}");
        assert!(s.validation().is_some());
    }
}
'''.replace('ALLF',ALLF),['gssapi'])
B('c06-gss-short-token','C06',[(GS,'''                if unwrapped.len() != 4 {
                    Err(Error::BadFinalToken)?;
                }
                let selected =
                    SecurityLayer::from_bits(unwrapped[0]).ok_or(Error::BadFinalToken)?;
''','''                // what follows the four octets is the authorization identity
                let (octets, _authzid) = unwrapped.split_at(4);
                let selected =
                    SecurityLayer::from_bits(octets[0]).ok_or(Error::BadFinalToken)?;
''')],
 'a client that sends a correctly protected GSSAPI token of fewer than four bytes','the server panics',GSS+'''
fn main() {
    for n in [0usize, 1, 3] {
        lib(1, ALLF);
        let (mut c, mut s) = (cl(7), sv(7));
        let t = ok(&mut c, None);
        ok(&mut s, Some(&t));
        let key = gss::with(|m| m.key()).unwrap();
        let (r, _) = step(&mut s, Some(&gss::seal(&key, true, false, 0, &[1, 0, 0][..n])));
        assert!(r.is_err());
    }
}
'''.replace('ALLF',ALLF),['gssapi'])
B('c15-xoauth2-none','C15',[('src/mechanisms/xoauth2/server.rs','                let input = input.ok_or(SessionError::InputDataRequired)?;\n','                // nothing is the empty initial response\n                let input = input.unwrap_or_default();\n')],
 'a server that is stepped before the initial response is there','the message is judged before it arrived: the caller sees a malformed message instead of missing data','''
fn main() {
    let mut s = server("XOAUTH2", creds(None, "u", b"p"));
    let (r, _) = step(&mut s, None);
    println!("{r:?}");
    assert!(matches!(r, Err(SessionError::InputDataRequired)));
}
''')
B('c05-thread-seed','C05',[(TOOLS,'''pub(super) fn generate_nonce<const N: usize>(rng: &mut impl Rng) -> [u8; N] {
    let distribution = Slice::new(PRINTABLE).unwrap();
    [0u8; N].map(|_| *distribution.sample(rng))
}
''','''std::thread_local! {
    // Asking the system for every nonce is slow
    static NONCES: core::cell::RefCell<rand::rngs::StdRng> = {
        let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH);
        let seed = now.map_or(0, |d| d.as_secs()) << 32 | u64::from(std::process::id());
        core::cell::RefCell::new(rand::SeedableRng::seed_from_u64(seed))
    };
}

pub(super) fn generate_nonce<const N: usize>(_rng: &mut impl Rng) -> [u8; N] {
    let distribution = Slice::new(PRINTABLE).unwrap();
    NONCES.with(|rng| [0u8; N].map(|_| *distribution.sample(&mut *rng.borrow_mut())))
}
''')],
 'two threads whose first sessions start in the same second','sessions on different threads use the same nonces','''
fn main() {
    let nonces: Vec<Vec<u8>> = (0..4).map(|_| std::thread::spawn(|| {
        let mut c = client("SCRAM-SHA-256", creds(None, "u", b"p"));
        ok(&mut c, None)
    })).map(|h| h.join().unwrap()).collect();
    let hs: Vec<_> = (0..8).map(|_| std::thread::spawn(|| {
        let mut c = client("SCRAM-SHA-256", creds(None, "u", b"p"));
        ok(&mut c, None)
    })).collect();
    let mut all: Vec<_> = hs.into_iter().map(|h| h.join().unwrap()).chain(nonces).collect();
    let n = all.len();
    all.sort();
    all.dedup();
    assert_eq!(all.len(), n);
}
''')
B('c05-decoy-derived','C05',[(SRV,'''            let mut salt = [0u8; DEFAULT_SALT_LEN];
            rng.fill_bytes(&mut salt);
''','''            let mut salt = [b'x'; DEFAULT_SALT_LEN];
            // the same salt every time, as for a real user
            let mut name = D::new();
            Digest::update(&mut name, username.as_bytes());
            for (s, n) in salt.iter_mut().zip(name.finalize().iter().cycle()) {
                *s = *n;
            }
''')],
 'two sessions of the same unknown user','the decoy salt can be predicted from the name','''
fn main() {
    let salt = || {
        let mut s = server("SCRAM-SHA-256", d(|_, _, _| Ok(())));
        let m = String::from_utf8(ok(&mut s, Some(b"n,,n=nobody,r=abcdefghijklmnopqrstuvwx"))).unwrap();
        m.split(",s=").nth(1).unwrap().to_string()
    };
    assert_ne!(salt(), salt());
}
''')
B('c14-debug-quotes','C14',[('src/mechanisms/oauthbearer/server.rs','''                    if let Err(error) = result {
                        let message = serde_json::to_vec(error).map_err(Error::Serde)?;
                        writer.write_all(&message)?;
''','''                    if let Err(error) = &result {
                        // no serializer needed for three strings
                        write!(writer, "{{\\"status\\":{:?}", error.status)?;
                        if let Some(scope) = error.scope {
                            write!(writer, ",\\"scope\\":{scope:?}")?;
                        }
                        if let Some(config) = error.openid_config {
                            write!(writer, ",\\"openid-configuration\\":{config:?}")?;
                        }
                        writer.write_all(b"}")?;
''')],
 'an error text with a control or non-printable character','the error document is not JSON and does not reach the client','''
use rsasl::mechanisms::oauthbearer::properties::*;
fn main() {
    static GOT: Mutex<Option<String>> = Mutex::new(None);
    for text in ["invalid_token", "it's", "a\\"b", "tab\\there", "\\u{7f}", "caf\\u{e9}\\u{301}", "\\u{200b}"] {
        let t2 = text;
        let mut s = server("OAUTHBEARER", d(move |_, _, r| {
            r.satisfy::<OAuthBearerValidate>(&Err(OAuthBearerError::new(t2, None, None)))?;
            Ok(())
        }));
        let mut c = client("OAUTHBEARER", d(|_, _, r| {
            r.satisfy::<OAuthBearerToken>("tok")?;
            if let Some(e) = r.get_action::<OAuthBearerErrored>() {
                *GOT.lock().unwrap() = Some(e.status.to_string());
            }
            Ok(())
        }));
        let m = ok(&mut c, None);
        let e = ok(&mut s, Some(&m));
        let (r, _) = step(&mut c, Some(&e));
        println!("{r:?} {}", String::from_utf8_lossy(&e));
        assert_eq!(GOT.lock().unwrap().take().as_deref(), Some(text));
    }
}
''')
B('c16-toctou','C16',[('src/mechanisms/login/server.rs','''                    let password =''','''                    let password =''')],'','','')
BUGS.pop()
B('c16-saslprep-memo','C16',[('src/mechanisms/plain/server.rs','''        let authcid = saslprep(authcid).map_err(PlainError::Saslprep)?;

        if''','''        let authcid = prepare(authcid)?;

        if'''),('src/mechanisms/plain/server.rs','''pub struct Plain;
impl Authentication''','''static MEMO: std::sync::RwLock<(crate::alloc::string::String, crate::alloc::string::String)> =
    std::sync::RwLock::new((crate::alloc::string::String::new(), crate::alloc::string::String::new()));

/// Preparing a name is expensive; reconnecting clients come in bursts with the same one
fn prepare(name: &str) -> Result<crate::alloc::string::String, SessionError> {
    let known = MEMO.read().map_or(false, |memo| memo.0 == name);
    if !known {
        let prepared = saslprep(name).map_err(PlainError::Saslprep)?.into_owned();
        if let Ok(mut memo) = MEMO.write() {
            *memo = (name.into(), prepared);
        }
    }
    MEMO.read().map(|memo| memo.1.clone()).map_err(|_| SessionError::InputDataRequired)
}

pub struct Plain;
impl Authentication''')],
 'two PLAIN servers stepped by two threads within nanoseconds of each other','one session gets the name of the other','''
fn main() {
    let hs: Vec<_> = (0..8).map(|t| std::thread::spawn(move || {
        for i in 0..20000 {
            let name = format!("user-{t}-{}", i % 40);
            let mut s = server("PLAIN", creds(None, "u", b"p"));
            ok(&mut s, Some(format!("\\0{name}\\0pw").as_bytes()));
            assert_eq!(s.validation().as_deref(), Some(&name[..]));
        }
    })).collect();
    for h in hs {
        assert!(h.join().is_ok());
    }
}
''')
B('c19-plain-error','C19',[('src/mechanisms/plain/mechinfo.rs','@@','@@')],'','','')
BUGS.pop()
B('c01-stored-empty','C01',[(SRV,'''                    if stored_key == calculated_stored_key {''','''                    let n = proof_decoded.len().min(proof.len());
                    if stored_key[..n] == calculated_stored_key[..n] {''')],'','','')
BUGS.pop()
B('c02-error-lenient','C02',[(CLI,'''            ServerFinal::Error(e) => Err(SCRAMError::ServerError(e).into()),
        }''','''            // the server does not say more than that it is busy, the proof was fine
            ServerFinal::Error(ServerErrorValue::NoResources) => Ok(StateServerFinal {}),
            ServerFinal::Error(error) => Err(SCRAMError::ServerError(error).into()),
        }''')],'a server that answers the proof with e=no-resources','the client finishes without the server having proved anything','''
fn main() {
    for e in ["e=other-error", "e=no-resources", "e=invalid-proof", "e=unknown-user"] {
        let mut c = client("SCRAM-SHA-256", creds(None, "user", b"secret"));
        let cf = String::from_utf8(ok(&mut c, None)).unwrap();
        let nonce = cf.split("r=").nth(1).unwrap();
        ok(&mut c, Some(format!("r={nonce}xyz,s=c2FsdHNhbHQ=,i=4").as_bytes()));
        let (r, _) = step(&mut c, Some(e.as_bytes()));
        assert!(r.is_err(), "{e}");
    }
}
''')
