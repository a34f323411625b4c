//! A stand-in for libgssapi_krb5: the symbols defined here win over the shared library's when the harness is linked.
//! One instance per thread; it counts live objects, records calls, can fail at a chosen call and keeps a
//! replay-protected, authenticated, optionally encrypted message format.
use std::cell::RefCell;
use std::collections::HashMap;
use std::os::raw::{c_int, c_void};

pub const MUTUAL: u32 = 2;
pub const CONF: u32 = 16;
pub const INTEG: u32 = 32;
const FAILURE: u32 = 851_968;
const DEFECTIVE: u32 = 589_824;
const BAD_SIG: u32 = 393_216;
const UNSEQ: u32 = 8;
const DUPLICATE: u32 = 2;

#[derive(Clone, Debug, Default)]
pub struct Cfg {
    /// number of context tokens exchanged, starting with the initiator's
    pub tokens: usize,
    pub flags: u32,
    /// fail the n-th call of any function that may fail
    pub fail_at: Option<usize>,
    /// empty outputs have a non-null pointer
    pub empty_nonnull: bool,
}
#[derive(Clone, Debug, PartialEq)]
pub enum Gev {
    Import(Vec<u8>),
    Init { call: usize, token: Option<Vec<u8>> },
    Accept { call: usize },
    Wrap { initiator: bool, conf: bool, data: Vec<u8> },
    Unwrap { initiator: bool, ok: bool },
    Failed(&'static str),
}
struct Ctx {
    initiator: bool,
    key: [u8; 16],
    call: usize,
    send: u32,
    recv: u32,
}
#[derive(Default)]
pub struct Mock {
    pub cfg: Cfg,
    pub log: Vec<Gev>,
    pub calls: usize,
    ctx: HashMap<usize, Ctx>,
    names: HashMap<usize, Vec<u8>>,
    creds: HashMap<usize, i32>,
    bufs: HashMap<usize, usize>,
    sets: HashMap<usize, Box<Set>>,
    next: usize,
    keyseed: u64,
    pub misuse: Vec<String>,
    /// what the last initiator asked for; nobody gets more
    asked: Option<u32>,
}
#[repr(C)]
struct Set {
    count: usize,
    elements: *mut c_void,
}
#[repr(C)]
pub struct Buf {
    length: usize,
    value: *mut c_void,
}
thread_local! { static M: RefCell<Mock> = RefCell::new(Mock::default()); }
pub fn with<T>(f: impl FnOnce(&mut Mock) -> T) -> T {
    M.with(|m| f(&mut m.borrow_mut()))
}
pub fn reset(cfg: Cfg, keyseed: u64) {
    with(|m| {
        let next = m.next;
        *m = Mock { cfg, keyseed, next: next + 1, ..Mock::default() }
    });
}
impl Mock {
    fn granted(&self) -> u32 {
        self.cfg.flags & self.asked.unwrap_or(u32::MAX)
    }
    pub fn live(&self) -> Vec<(&'static str, usize)> {
        [("contexts", self.ctx.len()), ("names", self.names.len()), ("credentials", self.creds.len()), ("buffers", self.bufs.len()), ("oid sets", self.sets.len())]
            .into_iter()
            .filter(|x| x.1 > 0)
            .collect()
    }
    fn id(&mut self) -> usize {
        self.next += 1;
        self.next * 16
    }
    fn fails(&mut self, what: &'static str) -> bool {
        self.calls += 1;
        if self.cfg.fail_at == Some(self.calls) {
            self.log.push(Gev::Failed(what));
            return true;
        }
        false
    }
    unsafe fn out(&mut self, b: *mut Buf, data: &[u8]) {
        if data.is_empty() && !self.cfg.empty_nonnull {
            (*b).length = 0;
            (*b).value = std::ptr::null_mut();
            return;
        }
        let p = libc::malloc(data.len().max(1)).cast::<u8>();
        std::ptr::copy_nonoverlapping(data.as_ptr(), p, data.len());
        self.bufs.insert(p as usize, data.len());
        (*b).length = data.len();
        (*b).value = p.cast();
    }
    /// the key of the only initiator context
    pub fn key(&self) -> Option<[u8; 16]> {
        self.ctx.values().find(|c| c.initiator).or(self.ctx.values().next()).map(|c| c.key)
    }
}
unsafe fn inb(b: *mut Buf) -> Vec<u8> {
    if b.is_null() || (*b).length == 0 {
        return vec![];
    }
    std::slice::from_raw_parts((*b).value.cast::<u8>(), (*b).length).to_vec()
}
fn mac(key: &[u8; 16], parts: &[&[u8]]) -> [u8; 8] {
    let mut h = 0xcbf2_9ce4_8422_2325u64;
    for b in key.iter().chain(parts.iter().copied().flatten()).chain(key) {
        h = (h ^ u64::from(*b)).wrapping_mul(0x0100_0000_01b3).rotate_left(7);
    }
    h.to_be_bytes()
}
fn stream(key: &[u8; 16], seq: u32, dir: u8, data: &mut [u8]) {
    for (i, c) in data.chunks_mut(8).enumerate() {
        let k = mac(key, &[b"stream", &seq.to_be_bytes(), &[dir], &(i as u32).to_be_bytes()]);
        for (a, b) in c.iter_mut().zip(k) {
            *a ^= b;
        }
    }
}
/// `W`, direction, conf flag, sequence number, payload, mac
pub fn seal(key: &[u8; 16], initiator: bool, conf: bool, seq: u32, data: &[u8]) -> Vec<u8> {
    let dir = u8::from(initiator);
    let mut h = vec![b'W', dir, u8::from(conf)];
    h.extend(seq.to_be_bytes());
    let m = mac(key, &[&h, data]);
    let mut p = data.to_vec();
    if conf {
        stream(key, seq, dir, &mut p);
    }
    h.extend(p);
    h.extend(m);
    h
}
pub struct Opened {
    pub initiator: bool,
    pub conf: bool,
    pub seq: u32,
    pub data: Vec<u8>,
}
pub fn open(key: &[u8; 16], m: &[u8]) -> Option<Opened> {
    if m.len() < 15 || m[0] != b'W' || m[1] > 1 || m[2] > 1 {
        return None;
    }
    let seq = u32::from_be_bytes(m[3..7].try_into().ok()?);
    let mut data = m[7..m.len() - 8].to_vec();
    if m[2] == 1 {
        stream(key, seq, m[1], &mut data);
    }
    (mac(key, &[&m[..7], &data]) == m[m.len() - 8..]).then_some(Opened { initiator: m[1] == 1, conf: m[2] == 1, seq, data })
}
pub fn ctx_token(index: usize, key: &[u8; 16]) -> Vec<u8> {
    let mut t = format!("GT{index:03}").into_bytes();
    t.extend(key);
    t
}

macro_rules! gss {
    ($($(#[$m:meta])* fn $n:ident($mock:ident, $minor:ident $(, $a:ident: $t:ty)*) $b:block)*) => {$(
        $(#[$m])*
        #[no_mangle]
        pub unsafe extern "C" fn $n($minor: *mut u32 $(, $a: $t)*) -> u32 {
            *$minor = 0;
            with(|$mock| { let r: u32 = $b; if r != 0 && r != 1 { *$minor = 7; } r })
        }
    )*};
}
gss! {
fn gss_import_name(m, minor, input: *mut Buf, _ty: *mut c_void, out: *mut usize) {
    let n = inb(input);
    m.log.push(Gev::Import(n.clone()));
    if m.fails("import_name") { FAILURE } else {
        let id = m.id();
        m.names.insert(id, n);
        *out = id;
        0
    }
}
fn gss_release_name(m, minor, n: *mut usize) {
    if m.names.remove(&*n).is_none() { m.misuse.push("release of an unknown name".into()); }
    *n = 0;
    0
}
fn gss_display_name(m, minor, n: usize, out: *mut Buf, _ty: *mut usize) {
    let v = m.names.get(&n).cloned();
    match v { Some(v) => { m.out(out, &v); 0 } None => FAILURE }
}
fn gss_create_empty_oid_set(m, minor, out: *mut usize) {
    if m.fails("create_empty_oid_set") { FAILURE } else {
        let b = Box::new(Set { count: 0, elements: std::ptr::null_mut() });
        let p = std::ptr::from_ref(&*b) as usize;
        m.sets.insert(p, b);
        *out = p;
        0
    }
}
fn gss_add_oid_set_member(m, minor, _oid: *mut c_void, set: *mut usize) {
    if m.fails("add_oid_set_member") { FAILURE } else if m.sets.contains_key(&*set) { 0 } else { m.misuse.push("unknown oid set".into()); FAILURE }
}
fn gss_release_oid_set(m, minor, set: *mut usize) {
    if m.sets.remove(&*set).is_none() { m.misuse.push("release of an unknown oid set".into()); }
    *set = 0;
    0
}
fn gss_acquire_cred(m, minor, _name: usize, _time: u32, _mechs: usize, usage: c_int, out: *mut usize, _am: *mut usize, _tr: *mut u32) {
    if m.fails("acquire_cred") { FAILURE } else {
        let id = m.id();
        m.creds.insert(id, usage);
        *out = id;
        0
    }
}
fn gss_release_cred(m, minor, c: *mut usize) {
    if m.creds.remove(&*c).is_none() { m.misuse.push("release of an unknown credential".into()); }
    *c = 0;
    0
}
fn gss_init_sec_context(m, minor, cred: usize, ctx: *mut usize, name: usize, _mech: *mut c_void, flags: u32, _time: u32, _cb: *mut c_void, input: *mut Buf, _am: *mut usize, out: *mut Buf, rflags: *mut u32, _rt: *mut u32) {
    if m.creds.get(&cred) != Some(&1) { m.misuse.push("initiation without initiator credential".into()); }
    if !m.names.contains_key(&name) { m.misuse.push("initiation without target".into()); }
    if m.fails("init_sec_context") { FAILURE } else {
        if *ctx == 0 {
            let id = m.id();
            let mut key = [0; 16];
            key[..8].copy_from_slice(&mac(&[1; 16], &[&m.keyseed.to_be_bytes()]));
            key[8..].copy_from_slice(&mac(&[2; 16], &[&m.keyseed.to_be_bytes()]));
            m.ctx.insert(id, Ctx { initiator: true, key, call: 0, send: 0, recv: 0 });
            *ctx = id;
        }
        m.asked = Some(flags);
        let granted = m.granted();
        let tok = if input.is_null() { None } else { Some(inb(input)) };
        let t = m.cfg.tokens;
        let c = m.ctx.get_mut(&*ctx).expect("harness: context");
        let call = c.call;
        c.call += 1;
        let key = c.key;
        m.log.push(Gev::Init { call, token: tok.clone() });
        // our tokens are 0, 2, 4, ...; before token 2k the peer's token 2k-1 arrives
        let want = (call > 0).then(|| ctx_token(2 * call - 1, &key));
        if call > 0 && tok != want { DEFECTIVE } else {
            let mine = 2 * call;
            if mine < t { let k = ctx_token(mine, &key); m.out(out, &k); } else { m.out(out, b""); }
            *rflags = granted;
            // complete when no further token of the peer is due
            u32::from(mine + 1 < t)
        }
    }
}
fn gss_accept_sec_context(m, minor, ctx: *mut usize, cred: usize, input: *mut Buf, _cb: *mut c_void, _sn: *mut usize, _mt: *mut usize, out: *mut Buf, rflags: *mut u32, _rt: *mut u32, _dc: *mut usize) {
    if m.creds.get(&cred) != Some(&2) { m.misuse.push("acceptance without acceptor credential".into()); }
    if m.fails("accept_sec_context") { FAILURE } else {
        let tok = inb(input);
        if *ctx == 0 {
            let id = m.id();
            let mut key = [0; 16];
            if tok.len() == 21 { key.copy_from_slice(&tok[5..]); }
            m.ctx.insert(id, Ctx { initiator: false, key, call: 0, send: 0, recv: 0 });
            *ctx = id;
        }
        let t = m.cfg.tokens;
        let c = m.ctx.get_mut(&*ctx).expect("harness: context");
        let call = c.call;
        c.call += 1;
        let key = c.key;
        m.log.push(Gev::Accept { call });
        if tok != ctx_token(2 * call, &key) { DEFECTIVE } else {
            let mine = 2 * call + 1;
            if mine < t { let k = ctx_token(mine, &key); m.out(out, &k); } else { m.out(out, b""); }
            *rflags = m.granted();
            u32::from(mine + 1 < t)
        }
    }
}
fn gss_delete_sec_context(m, minor, ctx: *mut usize, _out: *mut Buf) {
    if m.ctx.remove(&*ctx).is_none() { m.misuse.push("deletion of an unknown context".into()); }
    *ctx = 0;
    0
}
fn gss_inquire_context(m, minor, ctx: usize, sn: *mut usize, tn: *mut usize, life: *mut u32, _mech: *mut usize, flags: *mut u32, local: *mut c_int, opn: *mut c_int) {
    if m.fails("inquire_context") { FAILURE } else {
        for (p, n) in [(sn, &b"client@REALM"[..]), (tn, &b"service@host"[..])] {
            if !p.is_null() {
                let id = m.id();
                m.names.insert(id, n.to_vec());
                *p = id;
            }
        }
        if !life.is_null() { *life = 1000; }
        if !flags.is_null() { *flags = m.granted(); }
        if !local.is_null() { *local = c_int::from(m.ctx.get(&ctx).is_some_and(|c| c.initiator)); }
        if !opn.is_null() { *opn = 1; }
        0
    }
}
fn gss_wrap(m, minor, ctx: usize, conf: c_int, _qop: u32, input: *mut Buf, state: *mut c_int, out: *mut Buf) {
    if m.fails("wrap") { FAILURE } else {
        let data = inb(input);
        let possible = m.granted() & CONF != 0;
        let Some(c) = m.ctx.get_mut(&ctx) else { m.misuse.push("wrap without context".into()); return FAILURE };
        let seq = c.send;
        c.send += 1;
        let (key, initiator) = (c.key, c.initiator);
        let really = conf != 0 && possible;
        if !state.is_null() { *state = c_int::from(really); }
        m.log.push(Gev::Wrap { initiator, conf: conf != 0, data: data.clone() });
        let s = seal(&key, initiator, really, seq, &data);
        m.out(out, &s);
        0
    }
}
fn gss_unwrap(m, minor, ctx: usize, input: *mut Buf, out: *mut Buf, state: *mut c_int, _qop: *mut u32) {
    if m.fails("unwrap") { FAILURE } else {
        let data = inb(input);
        // GSS_C_REPLAY_FLAG, GSS_C_SEQUENCE_FLAG
        let detects = m.asked.map_or(true, |f| f & 12 != 0);
        let Some(c) = m.ctx.get_mut(&ctx) else { m.misuse.push("unwrap without context".into()); return FAILURE };
        let (initiator, key) = (c.initiator, c.key);
        let r = match open(&key, &data) {
            None => Err(BAD_SIG),
            Some(o) if o.initiator == initiator => Err(BAD_SIG),
            Some(o) if detects && o.seq < c.recv => Err(DUPLICATE),
            Some(o) if detects && o.seq > c.recv => Err(UNSEQ),
            Some(o) => {
                c.recv += 1;
                Ok(o)
            }
        };
        m.log.push(Gev::Unwrap { initiator, ok: r.is_ok() });
        match r {
            Ok(o) => {
                if !state.is_null() { *state = c_int::from(o.conf); }
                m.out(out, &o.data);
                0
            }
            Err(e) => e,
        }
    }
}
fn gss_display_status(m, minor, code: u32, _ty: c_int, _mech: *mut c_void, mc: *mut u32, out: *mut Buf) {
    *mc = 0;
    let s = format!("mock status {code}");
    m.out(out, s.as_bytes());
    0
}
fn gss_release_buffer(m, minor, b: *mut Buf) {
    let p = (*b).value;
    if !p.is_null() {
        match m.bufs.remove(&(p as usize)) {
            Some(_) => libc::free(p),
            None => m.misuse.push("release of an unknown buffer".into()),
        }
    }
    (*b).value = std::ptr::null_mut();
    (*b).length = 0;
    0
}
}
