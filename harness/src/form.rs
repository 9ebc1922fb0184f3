//! Harnesses for `HtmlFormData`.
use crate::crypto::{self, Key};
use crate::oracle::{self, J};
use crate::signed::{second_of, LAST, T0};
use crate::{env, sym};
use cloud_storage_signature::{html_form_data, HtmlFormData, PolicyDocumentSigningOptions, SigningKey};

/// index into `Form::text`
pub const NAMES: [&str; 10] = ["acl", "bucket", "Cache-Control", "Content-Disposition", "Content-Encoding", "Content-Type", "Expires", "key", "success_action_redirect", "x-goog-custom-time"];
pub const BUCKET: usize = 1;
pub const KEY: usize = 7;
#[derive(Clone)]
pub struct Sign { pub at: Option<(i64, u32)>, pub expiration: (i64, u32), pub region: Option<String>, pub email: String, pub key: Key }
impl Default for Sign {
    fn default() -> Self { Sign { at: Some((T0, 0)), expiration: (T0 + 3600, 0), region: None, email: "sa@p.iam.gserviceaccount.com".into(), key: Key::A } }
}
#[derive(Clone, Default)]
pub struct Form {
    pub text: [Option<String>; 10],
    pub length: Option<u64>,
    pub status: Option<u16>,
    pub meta: Vec<(String, String)>,
    pub sign: Option<Sign>,
}
impl Form {
    pub fn minimal() -> Form {
        let mut f = Form::default();
        f.text[BUCKET] = Some("my-bucket".into());
        f.text[KEY] = Some("dir/obj.txt".into());
        f.sign = Some(Sign::default());
        f
    }
    pub fn build_with(&self, options: Option<PolicyDocumentSigningOptions>) -> Result<Vec<(String, String)>, String> { env::block_on(self.build_async(options)) }
    pub async fn build_async(&self, options: Option<PolicyDocumentSigningOptions>) -> Result<Vec<(String, String)>, String> {
        self.build_raw(options).await.map(|f| f.into_vec()).map_err(|e| e.to_string())
    }
    pub async fn build_raw(&self, options: Option<PolicyDocumentSigningOptions>) -> Result<HtmlFormData, html_form_data::Error> {
        let mut b = HtmlFormData::builder();
        // in no particular order
        for (n, v) in self.meta.iter() { b = b.x_goog_meta(n.clone(), v.clone()); }
        if let Some(o) = options { b = b.policy_document_signing_options(o); }
        if let Some(n) = self.status { b = b.success_action_status(n); }
        if let Some(n) = self.length { b = b.content_length(n); }
        for (i, v) in self.text.iter().enumerate().rev() {
            if let Some(v) = v.clone() {
                b = match i {
                    0 => b.acl(v), 1 => b.bucket(v), 2 => b.cache_control(v), 3 => b.content_disposition(v), 4 => b.content_encoding(v),
                    5 => b.content_type(v), 6 => b.expires(v), 7 => b.key(v), 8 => b.success_action_redirect(v), _ => b.x_goog_custom_time(v),
                };
            }
        }
        b.build().await
    }
    pub fn options(&self, signing_key: SigningKey, use_sign_blob: bool) -> PolicyDocumentSigningOptions {
        let s = self.sign.as_ref().unwrap();
        PolicyDocumentSigningOptions {
            accessible_at: s.at.map(|(s, n)| env::time(s, n)), expiration: env::time(s.expiration.0, s.expiration.1), region: s.region.clone(), signing_key, use_sign_blob,
        }
    }
    pub fn build(&self) -> Result<Vec<(String, String)>, String> {
        self.build_with(self.sign.as_ref().map(|s| self.options(SigningKey::service_account(s.email.clone(), crypto::pem(s.key)), false)))
    }
    /// The build has to succeed.
    pub fn fields(&self, label: &str) -> Vec<(String, String)> {
        crypto::setup();
        env::no_transport();
        let r = self.build();
        #[cfg(native)] println!("  {r:?}");
        sym::assert(r.is_ok(), label);
        match r {
            Ok(v) => { for (n, x) in v.iter() { sym::print(n.as_bytes()); if n != "x-goog-signature" { sym::print(x.as_bytes()) } } v }
            Err(_) => { sym::assume(false); loop {} }
        }
    }
    /// The start of the policy's period.
    pub fn start(&self) -> u64 { self.sign.as_ref().and_then(|s| s.at).map_or(unsafe { env::NOW.0 } as u64, |a| a.0 as u64) }
    pub fn credential(&self) -> Vec<u8> {
        let s = self.sign.as_ref().unwrap();
        oracle::join(&[s.email.as_bytes(), &oracle::basic(self.start())[..8], s.region.as_deref().unwrap_or("auto").as_bytes(), b"storage", b"goog4_request"], b'/')
    }
    /// Names and values of the form; `None`: the policy and its signature.
    pub fn expected(&self) -> Vec<(Vec<u8>, Option<Vec<u8>>)> {
        let mut o: Vec<(Vec<u8>, Option<Vec<u8>>)> = vec![];
        let mut put = |n: &str, v: Option<Vec<u8>>| o.push((n.as_bytes().to_vec(), v));
        for i in 0..5 { if let Some(v) = &self.text[i] { put(NAMES[i], Some(v.as_bytes().to_vec())) } }
        if let Some(n) = self.length { put("Content-Length", Some(oracle::dec(n, 1))) }
        for i in 5..8 { if let Some(v) = &self.text[i] { put(NAMES[i], Some(v.as_bytes().to_vec())) } }
        if self.sign.is_some() { put("policy", None) }
        if let Some(v) = &self.text[8] { put(NAMES[8], Some(v.as_bytes().to_vec())) }
        if let Some(n) = self.status { put("success_action_status", Some(oracle::dec(n as u64, 1))) }
        if self.sign.is_some() {
            put("x-goog-algorithm", Some(b"GOOG4-RSA-SHA256".to_vec()));
            put("x-goog-credential", Some(self.credential()));
        }
        if let Some(v) = &self.text[9] { put(NAMES[9], Some(v.as_bytes().to_vec())) }
        if self.sign.is_some() {
            put("x-goog-date", Some(oracle::basic(self.start())));
            put("x-goog-signature", None);
        }
        for (n, v) in self.meta.iter() { put(&format!("x-goog-meta-{n}"), Some(v.as_bytes().to_vec())) }
        o
    }
}
fn get<'a>(v: &'a [(String, String)], name: &str, label: &str) -> &'a [u8] {
    let mut r = v.iter().filter(|(n, _)| n == name);
    let x = r.next();
    sym::assert(x.is_some() && r.next().is_none(), label);
    x.map_or(b"", |x| x.1.as_bytes())
}
/// exactly the given fields with exactly the given values, in the documented order
pub fn fidelity(f: &Form, v: &[(String, String)], label: &str) {
    let e = f.expected();
    sym::assert(v.len() == e.len(), label);
    if v.len() != e.len() { return; }
    for ((n, x), (en, ex)) in v.iter().zip(e.iter()) {
        sym::assert_eq(n.as_bytes(), en, label);
        if let Some(ex) = ex { sym::assert_eq(x.as_bytes(), ex, label) }
    }
}
fn policy(v: &[(String, String)], label: &str) -> (Vec<J>, Vec<u8>) {
    let j = oracle::base64_decode(get(v, "policy", label)).and_then(|p| oracle::json(&p));
    if let Some(J::O(o)) = j {
        let (mut c, mut e) = (None, None);
        sym::assert(o.len() == 2, label);
        for (k, v) in o {
            match (k.as_slice(), v) { (b"conditions", J::A(a)) => c = Some(a), (b"expiration", J::S(s)) => e = Some(s), _ => {} }
        }
        if let (Some(c), Some(e)) = (c, e) { return (c, e); }
    }
    sym::assert(false, label);
    sym::assume(false);
    loop {}
}
/// The policy pins every field of the form to its value, and nothing else.
pub fn complete(f: &Form, v: &[(String, String)], label: &str) {
    let (conditions, _) = policy(v, label);
    let want: Vec<(Vec<u8>, Vec<u8>)> = f.expected().into_iter().filter_map(|(n, v)| v.map(|v| (n, v))).collect();
    sym::assert(conditions.len() == want.len(), label);
    let mut metas = vec![];
    let mut left: Vec<Option<(Vec<u8>, J)>> = vec![];
    for c in conditions {
        let mut c = match c { J::A(c) if c.len() == 3 => c, _ => return sym::assert(false, label) };
        let value = c.pop().unwrap();
        let second = c.pop().unwrap();
        match (c.pop().unwrap(), second, value) {
            (J::S(op), J::S(field), value) if op.as_slice() == b"eq" && field.first() == Some(&b'$') => {
                let field = field[1..].to_vec();
                if field.len() > 12 && &field[..12] == b"x-goog-meta-" { metas.push((field, value)) } else { left.push(Some((field, value))) }
            }
            (J::S(op), J::N(a), J::N(b)) if op.as_slice() == b"content-length-range" => { sym::assert_eq(&a, &b, label); left.push(Some((b"Content-Length".to_vec(), J::S(b)))) }
            _ => return sym::assert(false, label),
        }
    }
    let mut metas = metas.into_iter();
    for (n, v) in want {
        let found = if n.len() > 12 && &n[..12] == b"x-goog-meta-" { metas.next() } else {
            left.iter_mut().find(|c| matches!(c, Some((k, _)) if k.len() == n.len() && *k == n)).and_then(|c| c.take())
        };
        match found {
            Some((k, J::S(x))) => { sym::assert_eq(&k, &n, label); sym::assert_eq(&x, &v, label) }
            _ => return sym::assert(false, label),
        }
    }
}
/// The signature is over exactly the policy of the form.
pub fn signed(f: &Form, v: &[(String, String)], label: &str) {
    sym::assert_eq(get(v, "x-goog-algorithm", label), b"GOOG4-RSA-SHA256", label);
    sym::assert_eq(get(v, "x-goog-credential", label), &f.credential(), label);
    sym::assert_eq(get(v, "x-goog-date", label), &oracle::basic(f.start()), label);
    crypto::check_signature_of(f.sign.as_ref().unwrap().key, get(v, "x-goog-signature", label), get(v, "policy", label), label);
}
pub fn period(f: &Form, v: &[(String, String)], label: &str) {
    let (_, e) = policy(v, label);
    sym::assert_eq(&e, &oracle::extended(f.sign.as_ref().unwrap().expiration.0 as u64), label);
    sym::assert_eq(get(v, "x-goog-date", label), &oracle::basic(f.start()), label);
}
#[derive(Clone, Copy, PartialEq)]
pub enum F { Fidelity, Complete, Signed, Period }
pub fn check(p: F, f: &Form) {
    match p {
        F::Fidelity => { let l = "C08 the form has exactly the given fields and values"; fidelity(f, &f.fields(l), l) }
        F::Complete => { let l = "C09 the policy pins every field of the form"; complete(f, &f.fields(l), l) }
        F::Signed => { let l = "C10 the signature covers exactly the policy of the form"; signed(f, &f.fields(l), l) }
        F::Period => { let l = "C11 the policy is valid exactly in the requested period"; period(f, &f.fields(l), l) }
    }
    sym::reach("checked");
}
pub fn rejected(f: &Form, label: &str) {
    crypto::setup();
    env::no_transport();
    let r = f.build();
    #[cfg(native)] println!("  {r:?}");
    sym::assert(r.is_err(), label);
    sym::reach("checked");
}

// ---- shapes --------------------------------------------------------------------

/// every subset of the fields; values of `n` arbitrary letters or digits each
pub fn subsets(p: F, n: usize, with_sign: bool, metas: usize) {
    let mut f = Form::minimal();
    for i in 0..10 {
        if i == KEY || (i == BUCKET && with_sign) || sym::bool(NAMES[i]) { f.text[i] = Some(sym::class(n, NAMES[i], sym::alnum)); } else { f.text[i] = None; }
    }
    if sym::bool("Content-Length") { f.length = Some([0, 1, 1024, u64::MAX][sym::choice(4, "length")]); }
    if sym::bool("status") { f.status = Some([200, 201, 204][sym::choice(3, "code")]); }
    for _ in 0..sym::choice(metas + 1, "metas") { f.meta.push((sym::class(n, "meta name", sym::alnum), sym::class(n, "meta value", sym::alnum))); }
    if !with_sign { f.sign = None; }
    check(p, &f)
}
/// one text field with `n` arbitrary bytes of text
pub fn one_text(p: F, n: usize, with_sign: bool) {
    let mut f = Form::minimal();
    if !with_sign { f.sign = None; }
    let i = sym::choice(12, "field");
    let s = sym::string(n, "text");
    match i { 10 => f.meta.push((s, "v".into())), 11 => f.meta.push(("n".into(), s)), _ => f.text[i] = Some(s) }
    if i == 10 && n == 0 { sym::assume(false); }
    check(p, &f)
}
/// longer texts: `k` parts, each of one class of characters
pub fn long_text(p: F, k: usize, n: usize) {
    let mut f = Form::minimal();
    let mut s = String::new();
    for _ in 0..k {
        match sym::choice(4, "kind") {
            0 => s.push_str(&sym::class(n, "plain", json_plain)),
            1 => s.push_str(&sym::class(1, "control", json_control)),
            2 => s.push_str("\"\\\u{7f}\u{80}"),
            _ => s.push_str("\u{e9}\u{20ac}\u{1f600}<>&'"),
        }
    }
    f.text[KEY] = Some(s);
    check(p, &f)
}
fn json_plain(b: u8) -> bool { (b >= 0x20) & (b < 0x7f) & (b != b'"') & (b != b'\\') }
fn json_control(b: u8) -> bool { b < 0x20 }
/// every content length of up to 19 digits, and the largest ones
pub fn lengths(p: F, with_sign: bool) {
    let mut f = Form::minimal();
    if !with_sign { f.sign = None; }
    let k = sym::choice(21, "digits");
    f.length = Some(if k == 0 { sym::byte("n") as u64 % 10 } else if k == 20 { u64::MAX - sym::byte("n") as u64 } else {
        let d = sym::vec(k, "digit");
        let mut n = 0u64;
        for (i, b) in d.iter().enumerate() { n = n * 10 + if i == 0 { 1 + (*b % 9) as u64 } else { (*b % 10) as u64 }; }
        n
    });
    check(p, &f)
}
/// every status code
pub fn statuses(p: F, with_sign: bool) {
    let mut f = Form::minimal();
    if !with_sign { f.sign = None; }
    f.status = Some(sym::choice(256, "status/256") as u16 * 256 + sym::byte("status%256") as u16);
    check(p, &f)
}
/// metadata entries from a pool, in any order, with repetitions
pub fn metas(p: F, n: usize, with_sign: bool) {
    let mut f = Form::minimal();
    if !with_sign { f.sign = None; }
    for _ in 0..n {
        let k = ["a", "A", "a-b", "x-goog-meta-a", "\u{e9}", " "][sym::choice(6, "name")];
        f.meta.push((k.into(), sym::class(1, "value", sym::alnum)));
    }
    check(p, &f)
}
pub fn signers(p: F, n: usize) {
    let mut f = Form::minimal();
    let mut s = Sign::default();
    match sym::choice(3, "what") { 0 => s.email = sym::string(n, "email"), 1 => s.region = Some(sym::string(n, "region")), _ => s.key = Key::B }
    f.sign = Some(s);
    check(p, &f)
}
/// every second as the end of the policy's period (blocks of 256 days)
pub fn all_ends(p: F, step: usize) {
    const BLOCKS: usize = 11_457;
    let k = sym::choice(BLOCKS.div_ceil(step), "block");
    let end = second_of((k * step * 256).min(2_932_896 - 255) as i64);
    sym::assume(end > 0);
    let mut f = Form::minimal();
    f.sign = Some(Sign { at: Some((0, 0)), expiration: (end, 0), ..Sign::default() });
    check(p, &f)
}
/// every second as the start of the policy's period
pub fn all_starts(p: F, step: usize) {
    const BLOCKS: usize = 11_457;
    let k = sym::choice(BLOCKS.div_ceil(step), "block");
    let at = second_of((k * step * 256).min(2_932_896 - 255) as i64);
    let mut f = Form::minimal();
    f.sign = Some(Sign { at: Some((at, 0)), expiration: (LAST, 999_999_999), ..Sign::default() });
    check(p, &f)
}
pub fn nanos(p: F) {
    let (a, b) = (sym::u64("start ns"), sym::u64("end ns"));
    sym::assume(a < 1_000_000_000 && b < 1_000_000_000);
    let d = sym::choice(2, "seconds") as i64;
    sym::assume(d == 1 || b > a);
    let mut f = Form::minimal();
    f.sign = Some(Sign { at: Some((T0, a as u32)), expiration: (T0 + d, b as u32), ..Sign::default() });
    check(p, &f)
}
pub fn from_clock(p: F) {
    let ns = sym::u64("now ns");
    sym::assume(ns < 1_000_000_000);
    let now = second_of(19_000);
    env::set_now(now, ns as i64);
    let mut f = Form::minimal();
    f.sign = Some(Sign { at: None, expiration: (T0 + 400 * 86_400, 0), ..Sign::default() });
    check(p, &f)
}
/// the end is not after the start
pub fn bad_order(label: &str) {
    let (a, b) = (sym::u64("start ns"), sym::u64("end ns"));
    sym::assume(a < 1_000_000_000 && b < 1_000_000_000);
    let d = sym::u64("earlier by") as i64;
    sym::assume(d >= 0 && d <= T0 && (d > 0 || b <= a));
    let at = match sym::choice(2, "start") { 0 => Some((T0, a as u32)), _ => { env::set_now(T0, a as i64); None } };
    let mut f = Form::minimal();
    f.sign = Some(Sign { at, expiration: (T0 - d, b as u32), ..Sign::default() });
    rejected(&f, label)
}
/// one end cannot be expressed
pub fn bad_range(label: &str) {
    let t = sym::u64("instant") as i64;
    let mut f = Form::minimal();
    let (at, end) = match sym::choice(3, "side") {
        0 => { sym::assume(t > LAST); (T0, t) }
        1 => { sym::assume(t < 0); (t, T0) }
        _ => { sym::assume(t > LAST && t < i64::MAX); (t, t + 1) }
    };
    f.sign = Some(Sign { at: Some((at, 0)), expiration: (end, 0), ..Sign::default() });
    rejected(&f, label)
}
/// which combinations build at all
pub fn validity(label: &str) {
    let mut f = Form::minimal();
    let (bucket, key) = (sym::bool("bucket"), sym::bool("key"));
    if !bucket { f.text[BUCKET] = None }
    if !key { f.text[KEY] = None }
    if sym::bool("acl") { f.text[0] = Some("private".into()) }
    let mut names_ok = true;
    for _ in 0..sym::choice(3, "metas") {
        let n = sym::choice(2, "name");
        let n = sym::class(n, "meta name", sym::alnum);
        if n.is_empty() { names_ok = false; }
        f.meta.push((n, "v".into()));
    }
    let sign = sym::choice(6, "key kind");
    let opts = |k: SigningKey, use_sign_blob: bool| Some(PolicyDocumentSigningOptions { accessible_at: Some(env::time(T0, 0)), expiration: env::time(T0 + 60, 0), region: None, signing_key: k, use_sign_blob });
    let sa = || SigningKey::service_account("e@x".into(), crypto::pem(Key::A));
    let (o, sign_ok) = match sign {
        0 => (None, true),
        1 => (opts(sa(), false), true),
        2 => (opts(sa(), true), false),
        3 => (opts(SigningKey::hmac("id".into(), "secret".into()), false), false),
        4 => (opts(SigningKey::hmac("id".into(), "secret".into()), true), false),
        _ => (opts(SigningKey::service_account("e@x".into(), "no key".into()), false), false),
    };
    crypto::setup();
    env::no_transport();
    let r = f.build_with(o);
    #[cfg(native)] println!("  {r:?}");
    let ok = key && (sign == 0 || bucket) && names_ok && sign_ok;
    sym::reach(if ok { "valid" } else { "invalid" });
    sym::assert(r.is_ok() == ok, label);
    sym::reach("checked");
}
