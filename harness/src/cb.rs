//! Recording callbacks with scripted answers.
use rsasl::callback::{Context, Request, SessionCallback, SessionData};
use rsasl::mechanisms::anonymous::AnonymousToken;
use rsasl::mechanisms::oauthbearer::properties::{OAuthBearerError, OAuthBearerErrored, OAuthBearerValidate};
use rsasl::mechanisms::scram::properties::{Iterations, Salt, SaltedPassword, ScramCachedPassword, ScramStoredPassword};
use rsasl::mechanisms::xoauth2::properties::{XOAuth2Error, XOAuth2Validate};
use rsasl::prelude::*;
use rsasl::property::*;
use rsasl::validate::{Validate, ValidationError};
use std::cmp::Ordering;
use std::sync::{Arc, Mutex};

/// everything a callback can see in a context
#[derive(Clone, Debug, Default, PartialEq, Eq, Hash)]
pub struct Ctx {
    pub authid: Option<String>,
    pub authzid: Option<String>,
    pub password: Option<Vec<u8>>,
    pub token: Option<String>,
    pub anon: Option<String>,
    pub kv: Option<Vec<(String, String)>>,
    pub cbname: Option<String>,
    pub salt: Option<Vec<u8>>,
    pub iterations: Option<u32>,
}
/// every text the library hands out has to be UTF-8
pub fn utf8(what: &str, s: &str) -> bool {
    let b = std::hint::black_box(s.as_bytes());
    if std::str::from_utf8(b).is_err() {
        let mut l = NOT_UTF8.lock().unwrap();
        if l.len() < 20 {
            l.push(format!("{what} {b:02x?}"));
        }
        return false;
    }
    true
}
pub static NOT_UTF8: Mutex<Vec<String>> = Mutex::new(vec![]);
/// a copy of the text (without the bad bytes, if it is not UTF-8)
fn text(what: &str, s: &str) -> String {
    utf8(what, s);
    String::from_utf8_lossy(s.as_bytes()).into_owned()
}
impl Ctx {
    pub fn of(c: &Context) -> Self {
        Ctx {
            authid: c.get_ref::<AuthId>().map(|s| text("AuthId", s)),
            authzid: c.get_ref::<AuthzId>().map(|s| text("AuthzId", s)),
            password: c.get_ref::<Password>().map(<[u8]>::to_vec),
            token: c.get_ref::<OAuthBearerToken>().map(|s| text("OAuthBearerToken", s)),
            anon: c.get_ref::<AnonymousToken>().map(|s| text("AnonymousToken", s)),
            kv: c
                .get_ref::<OAuthBearerKV>()
                .map(|v| v.iter().map(|(a, b)| (text("kv key", a), text("kv value", b))).collect()),
            cbname: c.get_ref::<ChannelBindingName>().map(|s| text("ChannelBindingName", s)),
            salt: c.get_ref::<Salt>().map(<[u8]>::to_vec),
            iterations: c.get_ref::<Iterations>().copied(),
        }
    }
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Ev {
    /// a value was requested
    Req { prop: &'static str, ctx: Ctx, mech: String, server: bool },
    /// an action was offered (and taken if `taken`)
    Act { prop: &'static str, vals: Vec<Vec<u8>>, taken: bool },
    Validate { ctx: Ctx, mech: String, server: bool },
    /// the protocol was asked for channel binding data
    CbData { name: String, found: bool },
}
impl Ev {
    pub fn is_validate(&self) -> bool {
        matches!(self, Ev::Validate { .. })
    }
    pub fn req(&self) -> Option<&'static str> {
        match self {
            Ev::Req { prop, .. } => Some(prop),
            _ => None,
        }
    }
    pub fn act(&self) -> Option<&'static str> {
        match self {
            Ev::Act { prop, .. } => Some(prop),
            _ => None,
        }
    }
}

pub type Log = Arc<Mutex<Vec<Ev>>>;

#[derive(Clone, Debug)]
pub struct Stored {
    pub user: String,
    pub iterations: u32,
    pub salt: Vec<u8>,
    pub stored: Vec<u8>,
    pub server: Vec<u8>,
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum OAns {
    Accept,
    /// status, scope, openid-configuration
    Reject(String, Option<String>, Option<String>),
    Silent,
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum VAct {
    /// set the protocol's value to what validate() saw
    Set,
    Nothing,
    /// with error number n
    Fail(usize),
}

#[derive(Clone, Debug)]
pub struct Props {
    pub authid: Option<String>,
    pub authzid: Option<String>,
    pub password: Option<Vec<u8>>,
    pub salted: Option<Vec<u8>>,
    pub cached: Option<(Vec<u8>, Vec<u8>)>,
    pub token: Option<String>,
    pub anon: Option<String>,
    pub kv: Option<Vec<(String, String)>>,
    pub override_cb: Option<String>,
    pub cbs: Vec<(String, Vec<u8>)>,
    pub enable_cb: bool,
    pub stored: Vec<Stored>,
    pub oauth: OAns,
    pub xoauth: OAns,
    pub take_err: bool,
    pub take_cached: bool,
    pub validate: VAct,
    /// acceptable mechanisms, best first; everything else is rejected. None: the library's default
    pub prefer: Option<Vec<String>>,
    /// highest iteration count the password callback agrees to
    pub max_iter: u32,
    /// answer for missing values: plain Ok(()) or Err(NoValue)
    pub no_value: bool,
    /// the n-th callback of the session returns error number k instead of an answer
    pub inject: Option<(usize, usize)>,
    /// answer this property as if it had no value
    pub without: Option<&'static str>,
}
pub const N_ERRS: usize = 10;
/// errors a callback may return
pub fn inj_err(k: usize) -> SessionError {
    use rsasl::callback::CallbackError as CE;
    match k {
        0 => SessionError::Boxed(Box::new(Refused)),
        1 => SessionError::InputDataRequired,
        2 => SessionError::NoSecurityLayer,
        3 => SessionError::MechanismDone,
        4 => SessionError::NoValidate,
        5 => SessionError::MutualAuthenticationFailed,
        6 => SessionError::MissingChannelBindingData("harness".into()),
        7 => SessionError::from(CE::NoCallback("harness")),
        8 => SessionError::ValidationError(ValidationError::MissingRequiredProperty),
        _ => SessionError::Io { source: std::io::Error::from(std::io::ErrorKind::BrokenPipe).into() },
    }
}
impl Props {
    /// bytes of data the application hands to the session
    pub fn weight(&self) -> usize {
        let o = |s: &Option<String>| s.as_ref().map_or(0, String::len);
        let b = |s: &Option<Vec<u8>>| s.as_ref().map_or(0, Vec::len);
        let ans = |a: &OAns| match a {
            OAns::Reject(s, x, y) => s.len() + o(x) + o(y),
            _ => 0,
        };
        o(&self.authid) + o(&self.authzid) + b(&self.password) + b(&self.salted) + o(&self.token) + o(&self.anon) + o(&self.override_cb)
            + self.cached.as_ref().map_or(0, |(x, y)| x.len() + y.len())
            + self.kv.iter().flatten().map(|(k, v)| k.len() + v.len() + 2).sum::<usize>()
            + self.cbs.iter().map(|(k, v)| k.len() + v.len()).sum::<usize>()
            + self.stored.iter().map(|s| s.user.len() + s.salt.len() + s.stored.len() + s.server.len()).sum::<usize>()
            + ans(&self.oauth)
            + ans(&self.xoauth)
    }
}
impl Default for Props {
    fn default() -> Self {
        Props {
            authid: None,
            authzid: None,
            password: None,
            salted: None,
            cached: None,
            token: None,
            anon: None,
            kv: None,
            override_cb: None,
            cbs: vec![],
            enable_cb: false,
            stored: vec![],
            oauth: OAns::Accept,
            xoauth: OAns::Accept,
            take_err: true,
            take_cached: false,
            validate: VAct::Set,
            prefer: None,
            max_iter: 20_000,
            no_value: false,
            inject: None,
            without: None,
        }
    }
}

pub struct V;
impl Validation for V {
    type Value = ValOut;
}
#[derive(Clone, Debug, PartialEq, Eq)]
pub struct ValOut {
    pub ctx: Ctx,
    pub mech: String,
}

pub struct Cb {
    pub p: Props,
    pub log: Log,
    n: std::sync::atomic::AtomicUsize,
}
impl Cb {
    pub fn new(p: Props) -> (Self, Log) {
        let log: Log = Arc::default();
        (Cb { p, log: log.clone(), n: Default::default() }, log)
    }
    fn push(&self, e: Ev) {
        self.log.lock().unwrap().push(e);
    }
}
#[derive(Debug)]
pub struct Refused;
impl std::fmt::Display for Refused {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("harness callback refused")
    }
}
impl std::error::Error for Refused {}

pub fn prop_of(r: &Request) -> &'static str {
    macro_rules! t {
        ($($t:ty => $n:literal),* $(,)?) => { $( if r.is::<$t>() { return $n; } )* };
    }
    t! {
        AuthId => "AuthId", AuthzId => "AuthzId", Password => "Password", OAuthBearerToken => "OAuthBearerToken",
        OAuthBearerKV => "OAuthBearerKV", AnonymousToken => "AnonymousToken", ChannelBindings => "ChannelBindings",
        OverrideCBType => "OverrideCBType", ScramStoredPassword<'static> => "ScramStoredPassword",
        ScramCachedPassword<'static> => "ScramCachedPassword", SaltedPassword => "SaltedPassword",
        OAuthBearerValidate => "OAuthBearerValidate", OAuthBearerErrored => "OAuthBearerErrored",
        XOAuth2Validate => "XOAuth2Validate", XOAuth2Error => "XOAuth2Error", Hostname => "Hostname", Service => "Service",
        Realm => "Realm", Iterations => "Iterations", Salt => "Salt", ChannelBindingName => "ChannelBindingName",
    }
    "?"
}

impl SessionCallback for Cb {
    fn callback(&self, sd: &SessionData, context: &Context, request: &mut Request) -> Result<(), SessionError> {
        let p = &self.p;
        let prop = prop_of(request);
        let ctx = Ctx::of(context);
        let n = self.n.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
        if p.inject.is_some_and(|(at, _)| at == n) || p.without == Some(prop) {
            self.push(Ev::Req {
                prop,
                ctx,
                mech: sd.mechanism().mechanism.as_str().to_string(),
                server: sd.side() == rsasl::registry::Side::Server,
            });
            return match p.inject {
                Some((at, k)) if at == n => Err(inj_err(k)),
                _ if p.no_value => Err(rsasl::callback::CallbackError::NoValue.into()),
                _ => Ok(()),
            };
        }
        // actions first
        if prop == "OAuthBearerErrored" || prop == "XOAuth2Error" || prop == "ScramCachedPassword" {
            let take = if prop == "ScramCachedPassword" { p.take_cached } else { p.take_err };
            if !take && prop != "ScramCachedPassword" {
                self.push(Ev::Act { prop, vals: vec![], taken: false });
                return Ok(());
            }
            if let Some(e) = request.get_action::<XOAuth2Error>() {
                utf8(prop, e);
                self.push(Ev::Act { prop, vals: vec![e.as_bytes().to_vec()], taken: true });
                return Ok(());
            }
            if let Some(e) = request.get_action::<OAuthBearerErrored>() {
                for x in [Some(e.status), e.scope, e.openid_config].into_iter().flatten() {
                    utf8(prop, x);
                }
                let o = |x: &Option<&str>| x.map_or(vec![0], |s| [b"=", s.as_bytes()].concat());
                self.push(Ev::Act {
                    prop,
                    vals: vec![e.status.as_bytes().to_vec(), o(&e.scope), o(&e.openid_config)],
                    taken: true,
                });
                return Ok(());
            }
            if let Some(e) = request.get_action::<ScramCachedPassword<'static>>() {
                self.push(Ev::Act { prop, vals: vec![e.client_key.to_vec(), e.server_key.to_vec()], taken: take });
                return Ok(());
            }
        }
        self.push(Ev::Req {
            prop,
            ctx: ctx.clone(),
            mech: sd.mechanism().mechanism.as_str().to_string(),
            server: sd.side() == rsasl::registry::Side::Server,
        });
        match prop {
            "AuthId" => {
                if let Some(v) = &p.authid {
                    request.satisfy::<AuthId>(&v.clone())?;
                }
            }
            "AuthzId" => {
                if let Some(v) = &p.authzid {
                    request.satisfy::<AuthzId>(&v.clone())?;
                }
            }
            "Password" => {
                if let Some(it) = ctx.iterations {
                    if it > p.max_iter {
                        return Err(SessionError::Boxed(Box::new(Refused)));
                    }
                }
                if let Some(v) = &p.password {
                    request.satisfy::<Password>(&v.clone())?;
                }
            }
            "SaltedPassword" => {
                if let Some(v) = &p.salted {
                    request.satisfy::<SaltedPassword>(&v.clone())?;
                }
            }
            "ScramCachedPassword" => {
                if let Some((c, s)) = &p.cached {
                    crate::compat::satisfy_cached(request, c, s)?;
                }
            }
            "OAuthBearerToken" => {
                if let Some(v) = &p.token {
                    request.satisfy::<OAuthBearerToken>(&v.clone())?;
                }
            }
            "AnonymousToken" => {
                if let Some(v) = &p.anon {
                    request.satisfy::<AnonymousToken>(&v.clone())?;
                }
            }
            "OAuthBearerKV" => {
                if let Some(v) = &p.kv {
                    let kv: Vec<(&str, &str)> = v.iter().map(|(a, b)| (a.as_str(), b.as_str())).collect();
                    request.satisfy::<OAuthBearerKV>(&kv)?;
                }
            }
            "OverrideCBType" => {
                if let Some(v) = &p.override_cb {
                    request.satisfy::<OverrideCBType>(&v.clone())?;
                }
            }
            "ChannelBindings" => {
                if let Some(n) = &ctx.cbname {
                    if let Some((_, d)) = p.cbs.iter().find(|(k, _)| k == n) {
                        request.satisfy::<ChannelBindings>(&d.clone())?;
                    }
                }
            }
            "ScramStoredPassword" => {
                if let Some(u) = &ctx.authid {
                    if let Some(s) = p.stored.iter().find(|s| s.user == *u) {
                        request.satisfy::<ScramStoredPassword<'static>>(&ScramStoredPassword::new(
                            s.iterations,
                            &s.salt,
                            &s.stored,
                            &s.server,
                        ))?;
                    }
                }
            }
            "OAuthBearerValidate" => match &p.oauth {
                OAns::Accept => {
                    request.satisfy::<OAuthBearerValidate>(&Ok(()))?;
                }
                OAns::Reject(a, b, c) => {
                    request.satisfy::<OAuthBearerValidate>(&Err(OAuthBearerError::new(a, b.as_deref(), c.as_deref())))?;
                }
                OAns::Silent => {}
            },
            "XOAuth2Validate" => match &p.xoauth {
                OAns::Accept => {
                    request.satisfy::<XOAuth2Validate>(&Ok(()))?;
                }
                OAns::Reject(a, _, _) => {
                    request.satisfy::<XOAuth2Validate>(&Err(a))?;
                }
                OAns::Silent => {}
            },
            _ => {}
        }
        if p.no_value {
            return Err(rsasl::callback::CallbackError::NoValue.into());
        }
        Ok(())
    }

    fn enable_channel_binding(&self) -> bool {
        self.p.enable_cb
    }

    fn prefer<'a>(&self, a: Option<&'a Mechanism>, b: &'a Mechanism) -> Ordering {
        struct Def;
        impl SessionCallback for Def {}
        if let Some(l) = &self.p.prefer {
            let rank = |m: &Mechanism| l.iter().position(|x| x == m.mechanism.as_str());
            return match (a.and_then(rank), rank(b)) {
                (_, None) => Ordering::Greater,
                (None, Some(_)) => Ordering::Less,
                (Some(x), Some(y)) => y.cmp(&x),
            };
        }
        Def.prefer(a, b)
    }

    fn validate(&self, sd: &SessionData, context: &Context, validate: &mut Validate<'_>) -> Result<(), ValidationError> {
        let ctx = Ctx::of(context);
        let mech = sd.mechanism().mechanism.as_str().to_string();
        self.push(Ev::Validate { ctx: ctx.clone(), mech: mech.clone(), server: sd.side() == rsasl::registry::Side::Server });
        match self.p.validate {
            VAct::Set => validate.finalize::<V>(ValOut { ctx, mech }),
            VAct::Nothing => {}
            VAct::Fail(0) => return Err(ValidationError::Boxed(Box::new(Refused))),
            VAct::Fail(1) => return Err(ValidationError::MissingRequiredProperty),
            VAct::Fail(_) => return Err(ValidationError::Boxed(Box::new(SessionError::MechanismDone))),
        }
        Ok(())
    }
}

/// the protocol's channel binding source
#[derive(Clone, Default)]
pub struct HCb {
    pub data: Vec<(String, Vec<u8>)>,
    pub log: Option<Log>,
}
impl std::fmt::Debug for HCb {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("HCb").field("data", &self.data).finish_non_exhaustive()
    }
}
impl HCb {
    pub fn one(name: &str, data: &[u8]) -> Self {
        HCb { data: vec![(name.into(), data.to_vec())], log: None }
    }
}
impl ChannelBindingCallback for HCb {
    fn get_cb_data(&self, cbname: &str) -> Option<&[u8]> {
        if !utf8("channel binding name", cbname) {
            return None;
        }
        let r = self.data.iter().find(|(n, _)| n == cbname).map(|(_, d)| &d[..]);
        if let Some(l) = &self.log {
            l.lock().unwrap().push(Ev::CbData { name: cbname.into(), found: r.is_some() });
        }
        r
    }
}
