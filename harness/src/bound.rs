//! Bound tokens: the metadata server, the cache and remote signing.
use crate::oracle::{self, Url};
use crate::signed::{self, Case, T0};
use crate::{crypto, env, sym};
use cloud_storage_signature::{build_signed_url, HtmlFormData, PolicyDocumentSigningOptions, SigningKey};
use env::{Outcome, Sent};
use std::future::Future;
use std::pin::Pin;

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind { Email, Token, Sign, Other }
pub const EMAIL_PATH: &str = "/computeMetadata/v1/instance/service-accounts/default/email";
pub const TOKEN_PATH: &str = "/computeMetadata/v1/instance/service-accounts/default/token";
pub const SIGN_HOST: &str = "https://iamcredentials.googleapis.com/";
pub fn kind(r: &Sent) -> Kind {
    if r.url.ends_with(EMAIL_PATH) { Kind::Email } else if r.url.ends_with(TOKEN_PATH) { Kind::Token } else if r.url.starts_with(SIGN_HOST) { Kind::Sign } else { Kind::Other }
}
pub fn sign_url(email: &[u8]) -> Vec<u8> { [b"https://iamcredentials.googleapis.com/v1/projects/-/serviceAccounts/", email, b":signBlob"].concat() }
pub fn ok(body: impl Into<String>) -> Outcome { Outcome::Response(200, Some(body.into())) }
pub fn token_json(token: &str, lifetime: &str) -> String { format!("{{\"access_token\":\"{token}\",\"expires_in\":        {lifetime},\"token_type\":\"Bearer\"}}") }
pub fn sign_json(signature: &[u8]) -> String { format!("{{\"keyId\":\"k1\",\"signedBlob\":\"{}\"}}", text(oracle::base64_encode(signature))) }
fn text(v: Vec<u8>) -> String { unsafe { String::from_utf8_unchecked(v) } }
fn is(a: &[u8], b: &[u8], label: &str) { sym::assert_eq(a, b, label) }

/// A build with a bound token: a signed URL or a form.
pub type Build = Pin<Box<dyn Future<Output = Result<Vec<(String, String)>, String>>>>;
pub fn url_build(key: &SigningKey, c: &Case, sign_blob: bool) -> Build {
    let o = c.options(key.clone(), sign_blob);
    Box::pin(async move { build_signed_url(o).await.map(|u| vec![("url".to_string(), u)]).map_err(|e| e.to_string()) })
}
pub fn form_build(key: &SigningKey, sign_blob: bool) -> Build {
    let o = PolicyDocumentSigningOptions { accessible_at: Some(env::time(T0, 0)), expiration: env::time(T0 + 3600, 0), region: None, signing_key: key.clone(), use_sign_blob: sign_blob };
    Box::pin(async move { HtmlFormData::builder().bucket("b").key("k").policy_document_signing_options(o).build().await.map(|f| f.into_vec()).map_err(|e| e.to_string()) })
}
/// The signer a result names.
pub fn signer(r: &[(String, String)], label: &str) -> Vec<u8> {
    let cred = if r.len() == 1 { match oracle::parse(&r[0].1, label) { Some(u) => u.one(b"X-Goog-Credential", label), None => vec![] } }
        else { r.iter().find(|(n, _)| n == "x-goog-credential").map_or(vec![], |x| x.1.as_bytes().to_vec()) };
    let i = cred.iter().position(|b| *b == b'/').unwrap_or(0);
    cred[..i].to_vec()
}

// ---- C14: histories ---------------------------------------------------------------

const L14: &str = "C14 a bound token is fetched when needed, reused while fresh and never used stale";
/// What happens to the n-th fetch.
#[derive(Clone, Copy, PartialEq)]
enum Fate { Good(u64), BadEmail, BadToken }
static mut FATES: Vec<Fate> = vec![];
static mut EMAILS: usize = 0;
fn name(k: usize) -> String { format!("a{k}@p.x") }
fn tok(k: usize) -> String { format!("tok{k}") }
fn fate(k: usize) -> Fate { unsafe { FATES.get(k).copied().unwrap_or(Fate::BadEmail) } }
/// An arbitrary lifetime of up to `digits` decimal digits, and its text.
fn lifetime(digits: usize) -> (u64, String) {
    let n = 1 + sym::choice(digits, "digits of expires_in");
    let t = number(n, "expires_in");
    (value(&t), text(t))
}
pub fn number(n: usize, name: &str) -> Vec<u8> {
    let t = sym::vec(n, name);
    for (i, b) in t.iter().enumerate() { sym::assume((*b >= b'0') & (*b <= b'9') & ((i > 0) | (n == 1) | (*b != b'0'))); }
    t
}
pub fn value(t: &[u8]) -> u64 { t.iter().fold(0u64, |a, b| a.wrapping_mul(10).wrapping_add((*b - b'0') as u64)) }
/// Answers of the metadata server and the signing service; each fetch gets a fate.
fn serve(digits: usize, failures: bool, pending: u32) {
    unsafe { FATES = vec![]; EMAILS = 0; }
    let mut body = String::new();
    env::transport(move |r, _| {
        observe(r);
        let p = pending;
        let o = match kind(r) {
            Kind::Email => {
                let f = if failures { sym::choice(3, "fate") } else { 0 };
                let k = unsafe { EMAILS };
                unsafe { EMAILS += 1; }
                let f = match f { 0 => { let (n, t) = if digits > 0 { lifetime(digits) } else { [(3600, "3600".to_string()), (45, "45".into()), (30, "30".into())][sym::choice(3, "lifetime")].clone() }; body = token_json(&tok(k), &t); Fate::Good(n) } 1 => Fate::BadEmail, _ => Fate::BadToken };
                unsafe { FATES.push(f) }
                if f == Fate::BadEmail { Outcome::Response(503, Some("no".into())) } else { ok(name(k)) }
            }
            Kind::Token => {
                let k = unsafe { EMAILS } - 1;
                match fate(k) { Fate::Good(_) => ok(body.clone()), _ => Outcome::Fail }
            }
            Kind::Sign => ok(sign_json(b"\x01\x02\xff")),
            Kind::Other => { sym::assert(false, L14); Outcome::Fail }
        };
        unsafe { if CONC.on { CONC.answered(kind(r), p) } }
        (o, p)
    });
}
/// What is remembered: number of the fetch and when it expires.
type Cache = Option<(usize, u64, i64)>;
fn fresh(c: Cache) -> Option<usize> {
    let (s, ns) = unsafe { env::NOW };
    match c { Some((k, es, ens)) => { let n = s as u64 + 30; if (es > n) | ((es == n) & (ens > ns)) { Some(k) } else { None } } None => None }
}
/// `n` builds one after the other, by clones of one key, with time passing in between.
pub fn history(n: usize, digits: usize, failures: bool, forms: bool, fine: bool) {
    crypto::setup();
    env::set_metadata_host(None);
    unsafe { CONC = Conc::new(0); }
    serve(digits, failures, 0);
    let key = SigningKey::bound_token();
    let mut now = (T0, 0i64);
    let mut cache: Cache = None;
    let mut fetches = 0;
    for b in 0..n {
        if b > 0 { now.0 += if fine { (sym::u64("seconds") & 0xffff_ffff) as i64 } else { u16::from_le_bytes(sym::bytes::<2>("seconds")) as i64 } }
        if fine {
            let ns = sym::u64("ns");
            sym::assume(ns < 1_000_000_000);
            now.1 = ns as i64;
        }
        env::set_now(now.0, now.1);
        let before = env::sent().len();
        let k = key.clone();
        let f = if forms && sym::bool("form") { form_build(&k, true) } else { url_build(&k, &Case::default(), true) };
        let r = env::block_on(f);
        #[cfg(native)] println!("  now {now:?}: {r:?} {:?}", env::sent()[before..].iter().map(|r| (&r.method, &r.url)).collect::<Vec<_>>());
        // the same by the model
        let mut want: Vec<Kind> = vec![];
        let mut uses = vec![];
        for _ in 0..2 {
            if let Some(k) = fresh(cache) { uses.push(k); sym::reach("reused"); continue; }
            want.push(Kind::Email);
            let k = fetches;
            fetches += 1;
            match fate(k) {
                Fate::BadEmail => break,
                Fate::BadToken => { want.push(Kind::Token); break }
                Fate::Good(l) => { want.push(Kind::Token); cache = Some((k, now.0 as u64 + l, now.1)); uses.push(k); sym::reach("fetched"); }
            }
        }
        if uses.len() == 2 { want.push(Kind::Sign); }
        let got: Vec<Kind> = env::sent()[before..].iter().map(kind).collect();
        sym::assert(got == want, L14);
        if got != want { return; }
        sym::assert(r.is_ok() == (uses.len() == 2), L14);
        if let (Ok(v), [a, b]) = (&r, &uses[..]) {
            is(&signer(v, L14), name(*a).as_bytes(), L14);
            let s = env::sent().last().unwrap();
            is(s.url.as_bytes(), &sign_url(name(*b).as_bytes()), L14);
            is(s.header("authorization").unwrap_or(b""), format!("Bearer {}", tok(*b)).as_bytes(), L14);
        } else { sym::reach("failed") }
    }
    sym::reach("checked");
}

// ---- C14: schedules -----------------------------------------------------------------

/// Follows concurrent builds by what they send and when their answers arrive.
struct Conc {
    on: bool,
    /// the build that is being polled
    cur: usize,
    /// who is fetching, and which fetch
    fetching: Option<(usize, usize)>,
    cache: Cache,
    /// per build: answer under way (what, polls left), failed, fetch that arrived in this poll, oldest fetch it may name
    due: Vec<Option<(Kind, u32)>>,
    failed: Vec<bool>,
    just: Vec<Option<usize>>,
    oldest: Vec<Option<usize>>,
    signs: usize,
}
static mut CONC: Conc = Conc::new(0);
impl Conc {
    const fn new(_: usize) -> Conc { Conc { on: false, cur: 0, fetching: None, cache: None, due: vec![], failed: vec![], just: vec![], oldest: vec![], signs: 0 } }
    fn start(n: usize) -> Conc { Conc { on: true, due: vec![None; n], failed: vec![false; n], just: vec![None; n], oldest: vec![None; n], ..Conc::new(0) } }
    fn arrive(&mut self, b: usize, k: Kind) {
        match k {
            Kind::Email => if let Some((w, f)) = self.fetching { if w == b && fate(f) == Fate::BadEmail { self.fetching = None; self.failed[b] = true; } },
            Kind::Token => if let Some((w, f)) = self.fetching {
                if w == b {
                    self.fetching = None;
                    match fate(f) {
                        Fate::Good(l) => { let (s, ns) = unsafe { env::NOW }; self.cache = Some((f, s as u64 + l, ns)); self.just[b] = Some(f) }
                        _ => self.failed[b] = true,
                    }
                }
            },
            _ => {}
        }
    }
    /// before build `b` is polled
    fn poll(&mut self, b: usize) {
        self.cur = b;
        self.just[b] = None;
        if self.oldest[b].is_none() { self.oldest[b] = Some(self.cache.map_or(0, |c| c.0)) }
        if let Some((k, n)) = self.due[b].take() { if n > 1 { self.due[b] = Some((k, n - 1)) } else { self.arrive(b, k) } }
    }
    /// a request was answered, to arrive after `p` further polls
    fn answered(&mut self, k: Kind, p: u32) { let b = self.cur; if p > 0 { self.due[b] = Some((k, p)) } else { self.arrive(b, k) } }
    fn dropped(&mut self, b: usize) { self.due[b] = None; if let Some((w, _)) = self.fetching { if w == b { self.fetching = None } } }
    fn request(&mut self, r: &Sent) {
        let b = self.cur;
        match kind(r) {
            Kind::Email => {
                sym::assert(self.fetching.is_none(), L14);
                sym::assert(fresh(self.cache).is_none(), L14);
                self.fetching = Some((b, unsafe { EMAILS }));
            }
            Kind::Token => sym::assert(matches!(self.fetching, Some((w, _)) if w == b), L14),
            Kind::Sign => {
                self.signs += 1;
                match self.cache {
                    Some((k, ..)) => {
                        sym::assert(fresh(self.cache).is_some() || self.just[b] == Some(k), L14);
                        is(r.header("authorization").unwrap_or(b""), format!("Bearer {}", tok(k)).as_bytes(), L14);
                        is(r.url.as_bytes(), &sign_url(name(k).as_bytes()), L14);
                    }
                    None => sym::assert(false, L14),
                }
            }
            Kind::Other => sym::assert(false, L14),
        }
    }
}
fn observe(r: &Sent) { unsafe { if CONC.on { CONC.request(r) } } }

/// `n` concurrent builds, `steps` arbitrary scheduling steps (polls, drops), then everything is driven to the end.
pub fn schedule(n: usize, steps: usize, failures: bool, drops: usize, ticks: bool) {
    crypto::setup();
    env::set_metadata_host(None);
    env::set_now(T0, 0);
    unsafe { CONC = Conc::start(n); }
    serve(if ticks { 2 } else { 0 }, failures, 1);
    let key = SigningKey::bound_token();
    let mut b: Vec<Option<Build>> = (0..n).map(|_| Some(url_build(&key.clone(), &Case::default(), true))).collect();
    let mut drops = drops;
    for _ in 0..steps {
        let i = sym::choice(n, "which");
        if b[i].is_none() { sym::assume(false) }
        if ticks { unsafe { env::NOW.0 += sym::byte("seconds") as i64 } }
        if drops > 0 && sym::bool("drop") {
            drops -= 1;
            b[i] = None;
            unsafe { CONC.dropped(i) }
            sym::reach("dropped");
        } else { step(&mut b, i) }
        if b.iter().all(|f| f.is_none()) { break }
    }
    for _ in 0..12 * n { for i in 0..n { if b[i].is_some() { step(&mut b, i) } } if b.iter().all(|f| f.is_none()) { break } }
    sym::assert(b.iter().all(|f| f.is_none()), "C14 no build is blocked for ever");
    // afterwards the key still works
    unsafe { CONC = Conc { cache: CONC.cache, ..Conc::start(1) }; }
    let f0 = unsafe { EMAILS };
    let mut l: Vec<Option<Build>> = vec![Some(url_build(&key, &Case::default(), true))];
    for _ in 0..12 { if l[0].is_some() { step(&mut l, 0) } }
    sym::assert(l[0].is_none(), "C14 no build is blocked for ever");
    if unsafe { EMAILS } == f0 { sym::reach("reused at the end") }
    sym::reach("checked");
}
fn step(b: &mut [Option<Build>], i: usize) {
    unsafe { CONC.poll(i) }
    let r = match env::poll_once(b[i].as_mut().unwrap().as_mut()) { std::task::Poll::Ready(r) => r, _ => return };
    b[i] = None;
    #[cfg(native)] println!("  build {i}: {r:?}");
    unsafe {
        sym::assert(r.is_ok() != CONC.failed[i], L14);
        if let Ok(v) = &r {
            let s = signer(v, L14);
            let (lo, hi) = (CONC.oldest[i].unwrap_or(0), EMAILS);
            sym::assert((lo..hi).any(|k| matches!(fate(k), Fate::Good(_)) && name(k).as_bytes() == s.as_slice()), L14);
        }
    }
}

// ---- C15: the metadata server ---------------------------------------------------------

const L15: &str = "C15 the metadata server is asked as documented and its answers are checked";
const HOSTS: [Option<&str>; 5] = [None, Some("metadata.google.internal"), Some("169.254.169.254"), Some("127.0.0.1:8080"), Some("localhost:1")];
/// The requests that were made are the documented ones, in order.
fn requests(host: Option<&str>, token: &str, want: &[Kind]) {
    let base = format!("http://{}", host.unwrap_or("metadata.google.internal"));
    let s = env::sent();
    let got: Vec<Kind> = s.iter().map(kind).collect();
    sym::assert(got == want, L15);
    for r in s.iter() {
        let path = match kind(r) { Kind::Email => EMAIL_PATH, Kind::Token => TOKEN_PATH, _ => continue };
        is(r.method.as_bytes(), b"GET", L15);
        is(r.url.as_bytes(), format!("{base}{path}").as_bytes(), L15);
        sym::assert(r.header_count("metadata-flavor") == 1, L15);
        is(r.header("metadata-flavor").unwrap_or(b""), b"Google", L15);
        sym::assert(r.header_count("authorization") == 0 && r.body.is_none(), L15);
        sym::assert(!r.headers.iter().any(|(n, v)| n != "metadata-flavor" && v.windows(token.len()).any(|w| w == token.as_bytes())), L15);
    }
}
fn again(o: &Outcome) -> Outcome { match o { Outcome::Response(c, b) => Outcome::Response(*c, b.clone()), Outcome::Fail => Outcome::Fail } }
fn one(email: Outcome, token: Outcome, host: Option<&str>) -> Result<Vec<(String, String)>, String> {
    crypto::setup();
    env::set_metadata_host(host);
    env::transport(move |r, _| (match kind(r) {
        Kind::Email => again(&email),
        Kind::Token => again(&token),
        Kind::Sign => ok(sign_json(b"\x01\x02\xff")),
        Kind::Other => Outcome::Fail,
    }, 0));
    let key = SigningKey::bound_token();
    let r = env::block_on(url_build(&key, &Case::default(), true));
    #[cfg(native)] println!("  {r:?}\n  {:?}", env::sent());
    r
}
fn good(r: &Result<Vec<(String, String)>, String>, email: &str, token: &str, host: Option<&str>) {
    sym::assert(r.is_ok(), L15);
    requests(host, token, &[Kind::Email, Kind::Token, Kind::Sign]);
    if let (Ok(v), Some(s)) = (r, env::sent().last()) {
        is(&signer(v, L15), email.as_bytes(), L15);
        is(s.header("authorization").unwrap_or(b""), format!("Bearer {token}").as_bytes(), L15);
        is(s.url.as_bytes(), &sign_url(email.as_bytes()), L15);
        sym::reach("accepted");
    }
}
pub fn hosts() {
    let h = HOSTS[sym::choice(HOSTS.len(), "host")];
    let r = one(ok("a@b"), ok(token_json("tok1", "3600")), h);
    good(&r, "a@b", "tok1", h);
    sym::reach("checked");
}
fn code() -> u16 { let c = sym::bytes::<2>("status"); let c = u16::from_le_bytes(c); sym::assume((c >= 100) & (c < 1000)); c }
/// every status of either answer, and failures of connection and body
pub fn statuses() {
    let email = sym::bool("email");
    let code = code();
    let o = match sym::choice(3, "failure") {
        0 => Outcome::Response(code, Some(if email { "a@b".into() } else { token_json("tok1", "3600") })),
        1 => Outcome::Response(code, None),
        _ => Outcome::Fail,
    };
    let fine = matches!(&o, Outcome::Response(c, Some(_)) if (*c >= 200) & (*c < 300));
    let r = if email { one(o, ok(token_json("tok1", "3600")), None) } else { one(ok("a@b"), o, None) };
    if fine { good(&r, "a@b", "tok1", None) } else {
        sym::assert(r.is_err(), L15);
        requests(None, "tok1", if email { &[Kind::Email][..] } else { &[Kind::Email, Kind::Token] });
        sym::reach("rejected");
    }
    sym::reach("checked");
}
fn email_char(b: u8) -> bool { sym::alnum(b) | (b == b'-') | (b == b'.') | (b == b'_') | (b == b'@') | (b == b'+') }
fn token_char(b: u8) -> bool { (b > 0x20) & (b < 0x7f) & (b != b'"') & (b != b'\\') }
/// arbitrary e-mails and tokens
pub fn values() {
    let e = format!("{}@p.x", sym::class(3, "email", email_char));
    let t = sym::class(4, "token", token_char);
    let r = one(ok(e.clone()), ok(token_json(&t, "3600")), None);
    good(&r, &e, &t, None);
    sym::reach("checked");
}
/// token answers with members missing, of other types, in other orders, among others
pub fn members() {
    let mut m: Vec<String> = vec![];
    let mut fine = true;
    for (i, n) in ["access_token", "expires_in", "token_type"].iter().enumerate() {
        let (v, f) = match (i, sym::choice(5, n)) {
            (0, 0) => ("\"tok1\"", true), (1, 0) => ("3599", true), (2, 0) => ("\"Bearer\"", true),
            (1, 1) => ("\"3599\"", false), (2, 1) => ("\"bearer\"", false), (_, 1) => ("17", false),
            (1, 2) => ("-1", false), (2, 2) => ("\"Basic\"", false), (_, 2) => ("[\"tok1\"]", false),
            (1, 3) => ("3599.5", false), (_, 3) => ("null", false),
            _ => { fine = false; continue }
        };
        fine &= f;
        m.push(format!("\"{n}\":{v}"));
    }
    if sym::bool("other member") { m.push("\"scope\": {\"a\":[1,\"}\"]}".into()) }
    if sym::bool("other order") { m.reverse() }
    let body = format!("{{{}}}", m.join([",", " ,\n\t "][sym::choice(2, "white space")]));
    let r = one(ok("a@b"), ok(body), None);
    if fine { good(&r, "a@b", "tok1", None) } else { bad(&r) }
    sym::reach("checked");
}
fn bad(r: &Result<Vec<(String, String)>, String>) {
    sym::assert(r.is_err(), L15);
    requests(None, "tok1", &[Kind::Email, Kind::Token]);
    sym::reach("rejected");
}
/// token answers of `n` arbitrary characters
pub fn garbage(n: usize) {
    let r = one(ok("a@b"), ok(sym::string(n, "body")), None);
    bad(&r);
    sym::reach("checked");
}
/// an otherwise proper token answer with one arbitrary character in any place
pub fn damaged() {
    let mut b = token_json("tok1", "3600").into_bytes();
    let i = sym::choice(b.len(), "place");
    b[i] = sym::class(1, "character", sym::ascii).as_bytes()[0];
    let body = text(b);
    let want = read_token(body.as_bytes());
    let r = one(ok("a@b"), ok(body), None);
    match want {
        Some(t) if t.iter().all(|b| (*b >= 0x20) & (*b < 0x7f)) => good(&r, "a@b", &text(t), None),
        // a token that no header can carry
        Some(_) => sym::assert(r.is_err(), L15),
        None => bad(&r),
    }
    sym::reach("checked");
}
fn read_token(body: &[u8]) -> Option<Vec<u8>> {
    let o = match oracle::json(body)? { oracle::J::O(o) => o, _ => return None };
    let (mut t, mut e, mut y) = (None, false, false);
    for (k, v) in o {
        match (k.as_slice(), v) {
            (b"access_token", oracle::J::S(s)) => t = Some(s),
            (b"expires_in", oracle::J::N(n)) => e = n.iter().all(|b| (*b >= b'0') & (*b <= b'9')) && (n.len() == 1 || n[0] != b'0'),
            (b"token_type", oracle::J::S(s)) => y = s.as_slice() == b"Bearer",
            _ => {}
        }
    }
    if e && y { t } else { None }
}
/// every type of token of `n` characters
pub fn token_types(n: usize) {
    let t = sym::class(n, "token_type", |b| (b >= 0x20) & (b != b'"') & (b != b'\\'));
    let fine = t == "Bearer";
    let r = one(ok("a@b"), ok(format!("{{\"access_token\":\"tok1\",\"expires_in\":3600,\"token_type\":\"{t}\"}}")), None);
    if fine { good(&r, "a@b", "tok1", None) } else { bad(&r) }
    sym::reach("checked");
}
/// every lifetime of up to `digits` digits, and those around the limits
pub fn lifetimes(digits: usize) {
    env::set_now(T0, 0);
    let t = match sym::choice(4, "size") {
        0 => { let n = 1 + sym::choice(digits, "digits of expires_in"); number(n, "expires_in") }
        // the last instant the platform can represent: 9223372036854775807 s
        1 => [b"9223372035154".to_vec(), tail(6)].concat(),
        2 => [b"9223372036854".to_vec(), tail(6)].concat(),
        _ => [&b"18446744073709551615"[..], b"18446744073709551616", b"18446744073709551620", b"99999999999999999999", b"123456789012345678901234567890"][sym::choice(5, "huge")].to_vec(),
    };
    let v = if t.len() > 19 { u64::MAX } else { value(&t) };
    let r = one(ok("a@b"), ok(token_json("tok1", &text(t))), None);
    if v <= (i64::MAX - T0) as u64 {
        sym::assert(r.is_ok(), L15);
        sym::reach("accepted");
    } else { bad(&r) }
    sym::reach("checked");
}
fn tail(n: usize) -> Vec<u8> { let t = sym::vec(n, "last digits"); for b in t.iter() { sym::assume((*b >= b'0') & (*b <= b'9')); } t }

// ---- C16: remote signing -----------------------------------------------------------------

const L16: &str = "C16 remote signing sends exactly the message and uses exactly the returned signature";
fn remote(sign: Outcome, email: &str, token: &str, f: impl FnOnce(&SigningKey) -> Build) -> Result<Vec<(String, String)>, String> {
    crypto::setup();
    env::set_metadata_host(None);
    let mut a = Some(sign);
    let (e, t) = (email.to_string(), token.to_string());
    env::transport(move |r, _| (match kind(r) { Kind::Email => ok(e.clone()), Kind::Token => ok(token_json(&t, "3600")), Kind::Sign => a.take().unwrap_or(Outcome::Fail), Kind::Other => Outcome::Fail }, 0));
    let key = SigningKey::bound_token();
    let r = env::block_on(f(&key));
    #[cfg(native)] println!("  {r:?}\n  {:?}", env::sent());
    r
}
/// The message in the one request to the signing service.
fn message(email: &str, token: &str) -> Vec<u8> {
    let s: Vec<&Sent> = env::sent().iter().filter(|r| !matches!(kind(r), Kind::Email | Kind::Token)).collect();
    sym::assert(s.len() == 1, L16);
    let s = match s.first() { Some(s) => s, None => return vec![] };
    is(s.method.as_bytes(), b"POST", L16);
    is(s.url.as_bytes(), &sign_url(email.as_bytes()), L16);
    sym::assert(s.header_count("authorization") == 1, L16);
    is(s.header("authorization").unwrap_or(b""), format!("Bearer {token}").as_bytes(), L16);
    let ct = s.header("content-type").unwrap_or(b"");
    sym::assert(ct.len() >= 16 && &ct[..16] == b"application/json", L16);
    if let Some(oracle::J::O(o)) = s.body.as_deref().and_then(oracle::json) {
        sym::assert(o.iter().all(|(k, _)| k.as_slice() == b"payload" || k.as_slice() == b"delegates"), L16);
        for (k, v) in o.iter() {
            if let (b"payload", oracle::J::S(p)) = (k.as_slice(), v) { if let Some(m) = oracle::base64_decode(p) { return m } }
        }
    }
    sym::assert(false, L16);
    vec![]
}
fn url_of(r: &Result<Vec<(String, String)>, String>) -> Url {
    sym::assert(r.is_ok(), L16);
    match r.as_ref().ok().and_then(|v| oracle::parse(&v[0].1, L16)) { Some(u) => u, None => { sym::assume(false); loop {} } }
}
/// The URL of a case is signed remotely over exactly its string to sign.
fn remote_url(c: &Case, signature: &[u8], token: &str) {
    let r = remote(ok(sign_json(signature)), &c.email, token, |k| url_build(k, c, true));
    let u = url_of(&r);
    is(&u.signature, &oracle::hex(signature), L16);
    let m = message(&c.email, token);
    if let Some((prefix, canonical)) = signed::to_sign(c, &u, L16) { crypto::check_message(&m, &prefix, &canonical, L16) }
    sym::reach("checked");
}
fn remote_form(f: &crate::form::Form, signature: &[u8], token: &str) {
    let email = f.sign.as_ref().unwrap().email.clone();
    let r = remote(ok(sign_json(signature)), &email, token, |k| {
        let f = f.clone();
        let k = k.clone();
        Box::pin(async move { f.build_async(Some(f.options(k, true))).await })
    });
    sym::assert(r.is_ok(), L16);
    if let Ok(v) = &r {
        let get = |n: &str| v.iter().find(|(k, _)| k == n).map_or(&b""[..], |x| x.1.as_bytes());
        is(get("x-goog-signature"), &oracle::hex(signature), L16);
        is(&message(&email, token), get("policy"), L16);
        is(get("x-goog-credential"), &f.credential(), L16);
        is(get("x-goog-algorithm"), b"GOOG4-RSA-SHA256", L16);
    }
    sym::reach("checked");
}
pub const SIG: &[u8] = b"\x00\x7f\x80\xff\x0a";
pub fn remote_signature(n: usize, form: bool) {
    let s = sym::vec(n, "signature");
    if form { remote_form(&crate::form::Form::minimal(), &s, "tok1") } else { remote_url(&Case::default(), &s, "tok1") }
}
pub fn remote_account(n: usize, form: bool) {
    let e = format!("{}@p.x", sym::class(n, "email", email_char));
    let t = sym::class(n, "token", token_char);
    if form {
        let mut f = crate::form::Form::minimal();
        f.sign.as_mut().unwrap().email = e;
        remote_form(&f, SIG, &t)
    } else { remote_url(&Case { email: e, ..Case::default() }, SIG, &t) }
}
pub fn remote_message(n: usize) {
    match sym::choice(5, "what") {
        0 => remote_url(&Case { object: sym::string(n, "object"), ..Case::default() }, SIG, "tok1"),
        1 => remote_url(&Case { region: Some(sym::string(n, "region")), ..Case::default() }, SIG, "tok1"),
        2 => remote_url(&Case { headers: vec![("X-Goog-Meta-K".into(), sym::class(n, "value", sym::field_value))], method: "PUT".into(), ..Case::default() }, SIG, "tok1"),
        3 => remote_url(&Case { params: vec![(sym::string(n, "name"), "v".into())], ..Case::default() }, SIG, "tok1"),
        _ => { let mut f = crate::form::Form::minimal(); f.text[crate::form::KEY] = Some(sym::string(n, "key")); f.meta.push(("n".into(), sym::string(n, "meta"))); remote_form(&f, SIG, "tok1") }
    }
}
fn failed(r: &Result<Vec<(String, String)>, String>) { sym::assert(r.is_err(), L16); sym::reach("rejected"); }
fn either(form: bool, sign: Outcome) -> Result<Vec<(String, String)>, String> {
    remote(sign, "a@b", "tok1", |k| if form { form_build(k, true) } else { url_build(k, &Case::default(), true) })
}
/// every status of the answer, and failures of connection and body
pub fn sign_statuses() {
    let code = code();
    let o = match sym::choice(3, "failure") { 0 => Outcome::Response(code, Some(sign_json(SIG))), 1 => Outcome::Response(code, None), _ => Outcome::Fail };
    let fine = matches!(&o, Outcome::Response(c, Some(_)) if (*c >= 200) & (*c < 300));
    let r = either(sym::bool("form"), o);
    if fine { sym::assert(r.is_ok(), L16); sym::reach("accepted") } else { failed(&r) }
    sym::reach("checked");
}
/// answers of `n` arbitrary characters
pub fn sign_garbage(n: usize) {
    let r = either(sym::bool("form"), ok(sym::string(n, "body")));
    failed(&r);
    sym::reach("checked");
}
/// `n` arbitrary characters in place of the signature
pub fn sign_blob(n: usize) {
    let s = sym::class(n, "signedBlob", |b| (b >= 0x20) & (b != b'"') & (b != b'\\'));
    let r = either(false, ok(format!("{{\"keyId\":\"k1\",\"signedBlob\":\"{s}\"}}")));
    match oracle::base64_decode(s.as_bytes()) {
        Some(x) => { is(&url_of(&r).signature, &oracle::hex(&x), L16); sym::reach("accepted") }
        None => failed(&r),
    }
    sym::reach("checked");
}
/// members of the answer missing, of other types, in other orders, among others
pub fn sign_members() {
    let mut m = vec!["\"keyId\":\"k1\"".to_string()];
    let mut fine = true;
    match sym::choice(5, "signedBlob") {
        0 => m.push("\"signedBlob\":\"AH+A/wo=\"".into()),
        i => { fine = false; match i { 1 => m.push("\"signedBlob\":17".into()), 2 => m.push("\"signedBlob\":null".into()), 3 => m.push("\"signed_blob\":\"AH+A/wo=\"".into()), _ => {} } }
    }
    if sym::bool("other member") { m.push("\"x\": {\"a\":[1,\"}\"]}".into()) }
    if sym::bool("other order") { m.reverse() }
    let form = sym::bool("form");
    let r = either(form, ok(format!("{{{}}}", m.join([",", " ,\n\t "][sym::choice(2, "white space")]))));
    if fine {
        sym::assert(r.is_ok(), L16);
        if !form { is(&url_of(&r).signature, &oracle::hex(SIG), L16) }
        sym::reach("accepted");
    } else { failed(&r) }
    sym::reach("checked");
}
/// a bound token without remote signing
pub fn not_remote() {
    let r = remote(ok(sign_json(SIG)), "a@b", "tok1", |k| if sym::bool("form") { form_build(k, false) } else { url_build(k, &Case::default(), false) });
    sym::assert(r.is_err(), L16);
    sym::assert(env::sent().iter().all(|r| matches!(kind(r), Kind::Email | Kind::Token)), L16);
    sym::reach("checked");
}
