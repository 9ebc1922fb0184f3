//! Harnesses for `build_signed_url`.
use crate::crypto::{self, Key};
use crate::oracle::{self, Url};
use crate::{env, sym};
use cloud_storage_signature::{build_signed_url, BuildSignedUrlOptions, SigningKey};

pub const T0: i64 = 1_700_000_000;

#[derive(Clone)]
pub struct Case {
    pub bucket: String, pub object: String, pub region: Option<String>, pub method: String,
    pub at: Option<(i64, u32)>, pub expires: (i64, u32),
    pub email: String, pub key: Key,
    pub headers: Vec<(String, String)>, pub params: Vec<(String, String)>,
}
impl Default for Case {
    fn default() -> Self {
        Case {
            bucket: "my-bucket".into(), object: "dir/obj.txt".into(), region: None, method: "GET".into(), at: Some((T0, 0)), expires: (T0 + 3600, 0),
            email: "sa@p.iam.gserviceaccount.com".into(), key: Key::A, headers: vec![], params: vec![],
        }
    }
}
impl Case {
    pub fn options(&self, signing_key: SigningKey, use_sign_blob: bool) -> BuildSignedUrlOptions {
        BuildSignedUrlOptions {
            bucket_name: self.bucket.clone(), object_name: self.object.clone(), region: self.region.clone(),
            expires: env::time(self.expires.0, self.expires.1), http_method: self.method.clone(),
            accessible_at: self.at.map(|(s, n)| env::time(s, n)), signing_key, use_sign_blob,
            headers: self.headers.clone(), query_parameters: self.params.clone(),
        }
    }
    pub fn call(&self) -> Result<String, String> {
        let k = SigningKey::service_account(self.email.clone(), crypto::pem(self.key));
        env::block_on(build_signed_url(self.options(k, false))).map_err(|e| e.to_string())
    }
    /// The call has to succeed; the URL taken apart.
    pub fn url(&self, label: &str) -> Url {
        crypto::setup();
        env::no_transport();
        let r = self.call();
        match &r { Err(e) => { #[cfg(native)] println!("  Err({e})"); let _ = e; } Ok(u) => { #[cfg(native)] println!("  {u}"); let _ = u; } }
        sym::assert(r.is_ok(), label);
        let u = r.ok().and_then(|u| oracle::parse(&u, label));
        match u {
            Some(u) => { sym::print(&u.path); sym::print(&u.query); u }
            None => { sym::assume(false); loop {} }
        }
    }
}
pub fn strs(v: &[(&str, &str)]) -> Vec<(String, String)> { v.iter().map(|(a, b)| (a.to_string(), b.to_string())).collect() }

// ---- properties of one URL -----------------------------------------------------

/// The signature covers the request that a verifier reconstructs from the URL.
pub fn authentic(c: &Case, u: &Url, label: &str) {
    if let Some((prefix, canonical)) = to_sign(c, u, label) { crypto::check_signature(c.key, &u.signature, &prefix, &canonical, label) }
}
/// The string to sign of a URL without its last line, and the canonical request.
pub fn to_sign(c: &Case, u: &Url, label: &str) -> Option<(Vec<u8>, Vec<u8>)> {
    let alg = u.one(b"X-Goog-Algorithm", label);
    let date = u.one(b"X-Goog-Date", label);
    let cred = u.one(b"X-Goog-Credential", label);
    let sh = u.one(b"X-Goog-SignedHeaders", label);
    let e = c.email.as_bytes();
    let ok = cred.len() > e.len() && cred[e.len()] == b'/';
    sym::assert(ok, label);
    if !ok { return None; }
    sym::assert_eq(&cred[..e.len()], e, label);
    sym::assert_eq(&alg, b"GOOG4-RSA-SHA256", label);
    let canonical = oracle::canonical_request(c.method.as_bytes(), u, &sh, &oracle::request_headers(&c.headers), label)?;
    let mut prefix = oracle::join(&[&alg, &date, &cred[e.len() + 1..]], b'\n');
    prefix.push(b'\n');
    Some((prefix, canonical))
}
/// Path and host address exactly the named object.
pub fn target(c: &Case, u: &Url, label: &str) {
    // the first segment is the bucket, everything after it the object
    let i = u.path[1..].iter().position(|b| *b == b'/').map(|i| i + 1);
    sym::assert(i.is_some(), label);
    let i = match i { Some(i) => i, None => return };
    match (oracle::decode(&u.path[1..i]), oracle::decode(&u.path[i + 1..])) {
        (Some(b), Some(o)) => { sym::assert_eq(&b, c.bucket.as_bytes(), label); sym::assert_eq(&o, c.object.as_bytes(), label); }
        _ => sym::assert(false, label),
    }
    // only characters that every URL consumer leaves alone
    for b in u.path.iter() { sym::assert(sym::UNRESERVED[*b as usize] | (*b == b'/') | (*b == b'%'), label) }
}
pub fn less(a: &(Vec<u8>, Vec<u8>), b: &(Vec<u8>, Vec<u8>)) -> bool { if a.0 == b.0 { a.1 < b.1 } else { a.0 < b.0 } }
/// The query carries exactly the caller's parameters and the five of the signing
/// process, strictly encoded, ordered by name and value.
pub fn params(c: &Case, u: &Url, label: &str) {
    let mut want: Vec<(Vec<u8>, Vec<u8>)> = vec![];
    for n in [&b"X-Goog-Algorithm"[..], b"X-Goog-Credential", b"X-Goog-Date", b"X-Goog-Expires", b"X-Goog-SignedHeaders"] {
        let v = u.one(n, label);
        want.push((n.to_vec(), oracle::encode(&v, false)));
    }
    for (k, v) in c.params.iter() {
        let p = (oracle::encode(k.as_bytes(), false), oracle::encode(v.as_bytes(), false));
        let mut i = want.len();
        while i > 0 && less(&p, &want[i - 1]) { i -= 1; }
        want.insert(i, p);
    }
    let parts: Vec<Vec<u8>> = want.iter().map(|(k, v)| oracle::join(&[k, v], b'=')).collect();
    let parts: Vec<&[u8]> = parts.iter().map(|p| p.as_slice()).collect();
    sym::assert_eq(&u.query, &oracle::join(&parts, b'&'), label);
}
pub fn signed_header_names(headers: &[(String, String)]) -> Vec<u8> {
    let mut names: Vec<Vec<u8>> = vec![];
    for (n, _) in oracle::request_headers(headers) {
        let mut i = names.len();
        while i > 0 && n < names[i - 1] { i -= 1; }
        if i > 0 && names[i - 1] == n { continue; }
        names.insert(i, n);
    }
    let v: Vec<&[u8]> = names.iter().map(|n| n.as_slice()).collect();
    oracle::join(&v, b';')
}
/// Every header is named in X-Goog-SignedHeaders and its value is signed.
pub fn headers(c: &Case, u: &Url, label: &str) {
    sym::assert_eq(&u.one(b"X-Goog-SignedHeaders", label), &signed_header_names(&c.headers), label);
    authentic(c, u, label);
}
pub fn scope(c: &Case, u: &Url, label: &str) {
    let date = u.one(b"X-Goog-Date", label);
    sym::assert(date.len() == 16, label);
    if date.len() != 16 { return; }
    let region = c.region.clone().unwrap_or("auto".into());
    let want = oracle::join(&[c.email.as_bytes(), &date[..8], region.as_bytes(), b"storage", b"goog4_request"], b'/');
    sym::assert_eq(&u.one(b"X-Goog-Credential", label), &want, label);
    sym::assert_eq(&u.one(b"X-Goog-Algorithm", label), b"GOOG4-RSA-SHA256", label);
}

/// The basic-format text of an instant.
pub fn stamp(secs: u64) -> Vec<u8> { oracle::basic(secs) }
/// `X-Goog-Date` is the second of the start, `X-Goog-Expires` the whole seconds to the end.
pub fn window(c: &Case, u: &Url, label: &str) {
    let at = c.at.unwrap_or(unsafe { env::NOW }.into_at());
    let date = u.one(b"X-Goog-Date", label);
    sym::assert_eq(&date, &oracle::basic(at.0 as u64), label);
    let borrow = (c.expires.1 < at.1) as i64;
    let d = c.expires.0 - at.0 - borrow;
    sym::assert(d >= 0 && d <= 604_800, label);
    sym::assert_eq(&u.one(b"X-Goog-Expires", label), &oracle::dec(d as u64, 1), label);
}
trait IntoAt { fn into_at(self) -> (i64, u32); }
impl IntoAt for (i64, i64) { fn into_at(self) -> (i64, u32) { (self.0, self.1 as u32) } }
/// The call has to fail (without a request and without signing anything).
pub fn rejected(c: &Case, label: &str) {
    crypto::setup();
    env::no_transport();
    let r = c.call();
    #[cfg(native)] println!("  {r:?}");
    sym::assert(r.is_err(), label);
    sym::reach("checked");
}

// ---- shapes -----------------------------------------------------------------------

#[derive(Clone, Copy, PartialEq)]
pub enum P { Authentic, Target, Params, Headers, Window, Scope, Method, NoPanic }
pub fn check(p: P, c: &Case) {
    match p {
        P::Authentic => { let l = "C01 the signature covers the request the URL makes"; let u = c.url(l); authentic(c, &u, l) }
        P::Target => { let l = "C02 the URL addresses exactly the given bucket and object"; let u = c.url(l); target(c, &u, l) }
        P::Params => { let l = "C03 the query carries exactly the given parameters in canonical form"; let u = c.url(l); params(c, &u, l) }
        P::Headers => { let l = "C04 every header is named and signed"; let u = c.url(l); headers(c, &u, l) }
        P::Window => { let l = "C05 the URL is valid exactly in the requested period"; let u = c.url(l); window(c, &u, l) }
        P::Scope => { let l = "C06 the credential names signer, day, region and service"; let u = c.url(l); scope(c, &u, l) }
        P::Method => { let l = "C07 the given method is the signed one"; let u = c.url(l); authentic(c, &u, l) }
        P::NoPanic => { crypto::setup(); env::no_transport(); let r = c.call(); sym::reach(if r.is_ok() { "ok" } else { "error" }); }
    }
    sym::reach("checked");
}
fn pad(n: usize) -> String { (0..n).map(|i| (b'a' + (i % 26) as u8) as char).collect() }

/// object name: `n` arbitrary bytes (valid UTF-8) between fixed text
pub fn object(p: P, pre: &str, n: usize, post: &str) {
    let o = format!("{pre}{}{post}", sym::string(n, "object"));
    check(p, &Case { object: o, ..Case::default() })
}
pub fn bucket(p: P, pre: &str, n: usize, post: &str) {
    let b = format!("{pre}{}{post}", sym::string(n, "bucket"));
    check(p, &Case { bucket: b, ..Case::default() })
}
/// long object name: `len` characters, of a class each, chosen per quarter
pub fn long_object(p: P, len: usize) {
    let q = len / 4;
    let mut o = String::new();
    for i in 0..4 {
        let name = ["q0", "q1", "q2", "q3"][i];
        let s = match sym::choice(4, "kind") {
            0 => sym::class(q, name, sym::unreserved),
            1 => sym::class(q, name, sym::reserved),
            2 => format!("{}/{}", pad(q / 2), sym::class(q - q / 2 - 1, name, sym::unreserved)),
            _ => ["\u{e9}", "\u{20ac}", "\u{1f600}"][i % 3].repeat(q / 4 + 1),
        };
        o.push_str(&s);
    }
    check(p, &Case { object: o, ..Case::default() })
}
/// `n` path segments chosen among special ones
pub fn segments(p: P, n: usize) {
    let mut o = String::new();
    for i in 0..n {
        if i > 0 { o.push('/') }
        o.push_str(["", ".", "..", "a", "%2e", "b\\c", "%2F", "x y"][sym::choice(8, "segment")]);
    }
    check(p, &Case { object: o, ..Case::default() })
}
pub fn one_param(p: P, nk: usize, nv: usize) {
    let k = sym::string(nk, "name");
    let v = sym::string(nv, "value");
    check(p, &Case { params: vec![(k, v)], ..Case::default() })
}
/// several parameters with ASCII names and values of the given lengths
pub fn some_params(p: P, lens: &[(usize, usize)], f: fn(u8) -> bool) {
    let v = lens.iter().map(|(a, b)| (sym::class(*a, "name", f), sym::class(*b, "value", f))).collect();
    check(p, &Case { params: v, ..Case::default() })
}
/// parameters drawn from a pool of names that differ only just
pub fn pool_params(p: P, n: usize) {
    let mut v = vec![];
    for _ in 0..n {
        let k = ["a", "a-b", "a0", "a\u{e9}", "A", "X-Goog-E", "X-Goog-Z", "x", ""][sym::choice(9, "name")];
        let x = ["", "1", "+&=%"][sym::choice(if n > 2 { 2 } else { 3 }, "value")];
        v.push((k.to_string(), x.to_string()));
    }
    check(p, &Case { params: v, ..Case::default() })
}
/// arbitrary header value
pub fn header_value(p: P, n: usize) {
    let v = sym::class(n, "value", sym::field_value);
    check(p, &Case { headers: vec![("x-goog-meta-k".into(), v)], ..Case::default() })
}
pub fn header_name(p: P, n: usize) {
    let k = sym::class(n, "name", sym::token);
    check(p, &Case { headers: vec![(k, "v".into())], ..Case::default() })
}
/// headers drawn from a pool, in any order, with repetitions, values of `l` bytes
pub fn pool_headers(p: P, n: usize, l: usize) {
    let mut v = vec![];
    for _ in 0..n {
        let k = ["Content-Type", "x-goog-meta-a", "X-Goog-Meta-A", "x-goog-meta-a-b", "accept", "X-Goog-Acl"][sym::choice(6, "name")];
        v.push((k.to_string(), sym::class(l, "value", sym::field_value)));
    }
    check(p, &Case { headers: v, ..Case::default() })
}

pub static SIZES: [usize; 24] = [0, 1, 2, 3, 5, 8, 15, 16, 17, 31, 33, 48, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257, 1022];
/// one text of every size of a list: fixed letters and an arbitrary ASCII character (of the text's class) at either end
pub fn sized(p: P, field: usize) {
    let n = SIZES[sym::choice(SIZES.len(), "size")];
    let f: fn(u8) -> bool = match field { 4 => sym::token, 5 => sym::field_value, _ => sym::ascii };
    let x = sym::class(1, "character", f);
    let s = if sym::bool("at the end") { pad(n) + &x } else { x + &pad(n) };
    let mut c = Case::default();
    match field {
        0 => c.object = s,
        1 => c.bucket = s,
        2 => c.params.push((s, "v".into())),
        3 => c.params.push(("n".into(), s)),
        4 => { c.headers.push((s, "v".into())) }
        5 => c.headers.push(("x-goog-meta-k".into(), s)),
        6 => c.region = Some(s),
        _ => c.email = s,
    }
    check(p, &c)
}
/// `0..n` parameters and headers, names in various orders
pub fn counts(p: P, n: usize) {
    let (k, m) = if sym::bool("parameters") { (sym::choice(n, "count"), 0) } else { (0, sym::choice(n, "count")) };
    let order = sym::choice(4, "order");
    let x = sym::class(1, "value", sym::graphic);
    let mut c = Case::default();
    for i in 0..k + m {
        let j = match order { 0 => i, 1 => k + m - i, 2 => (i * 7 + 3) % 31, _ => i / 2 };
        let e = (format!("x-n{}{}", (b'a' + (j / 10) as u8) as char, j % 10), if i % 3 == 0 { x.clone() } else { "v".to_string() });
        if k > 0 { c.params.push(e) } else { c.headers.push(e) }
    }
    check(p, &c)
}
/// everything at once: method, region, key, parameters, headers, object and start
pub fn mixed(p: P) {
    let mut c = Case::default();
    c.method = ["DELETE", "GET", "HEAD", "POST", "PUT"][sym::choice(5, "method")].into();
    if sym::bool("region") { c.region = Some(sym::class(1, "region name", sym::ascii)); }
    if sym::bool("key") { c.key = Key::B; c.email = "b@x".into(); }
    match sym::choice(4, "parameters") {
        0 => {}
        1 => c.params.push((sym::class(1, "name", sym::ascii), "v 1".into())),
        2 => c.params = strs(&[("X-Goog-Z", "1"), ("generation", "17"), ("A", "")]),
        _ => c.params = strs(&[("b", "2"), ("b", "1"), ("\u{e9}", "+")]),
    }
    match sym::choice(4, "headers") {
        0 => {}
        1 => c.headers.push(("Content-Type".into(), sym::class(1, "value", sym::field_value))),
        2 => c.headers = strs(&[("x-goog-meta-b", "2"), ("X-Goog-Meta-A", " 1  2 "), ("content-md5", "q=")]),
        _ => c.headers = strs(&[("X-Goog-Acl", "private"), ("x-goog-acl", "public-read")]),
    }
    if sym::bool("object") { c.object = sym::class(1, "object name", sym::ascii); }
    check(p, &c)
}
/// everything at once, at different instants
pub fn mixed_times(p: P) {
    let mut c = Case::default();
    c.method = ["GET", "PUT"][sym::choice(2, "method")].into();
    let a = sym::u64("start ns");
    sym::assume(a < 1_000_000_000);
    let at = [(0i64, 1), (86_399, 0), (951_782_400, 604_800), (T0, 3_600), (4_102_444_800, 77), (LAST, 0)][sym::choice(6, "start")];
    c.expires = (at.0 + at.1, a as u32);
    if sym::bool("from the clock") { env::set_now(at.0, a as i64); c.at = None } else { c.at = Some((at.0, a as u32)) }
    if sym::bool("more") { c.params = strs(&[("z", "&"), ("A", "=")]); c.headers = strs(&[("X-B", "1"), ("x-a", "2")]); c.region = Some("us-east1".into()); }
    check(p, &c)
}

pub const LAST: i64 = 253_402_300_799;
/// an arbitrary second of the 256 days from `day` on
pub fn second_of(day: i64) -> i64 {
    let b = sym::bytes::<4>("d/h/m/s");
    86_400 * (day + b[0] as i64) + 3_600 * (b[1] % 24) as i64 + 60 * (b[2] % 60) as i64 + (b[3] % 60) as i64
}
/// every second from 1970-01-01 to 9999-12-31 (in blocks of 256 days, every `step`-th block)
pub fn all_seconds(p: P, step: usize) {
    const BLOCKS: usize = 11_457;
    let k = sym::choice(BLOCKS.div_ceil(step), "block");
    // the last block ends on 9999-12-31 = day 2932896
    let day = (k * step * 256).min(2_932_896 - 255) as i64;
    let at = second_of(day);
    check(p, &Case { at: Some((at, 0)), expires: (at + 3600, 0), ..Case::default() })
}
/// every length of validity
pub fn all_lengths(p: P) {
    let d = sym::choice(2_363, "length/256") as i64 * 256 + sym::byte("length%256") as i64;
    sym::assume(d <= 604_800);
    check(p, &Case { at: Some((T0, 0)), expires: (T0 + d, 0), ..Case::default() })
}
/// fractions of seconds at both ends
pub fn nanos(p: P) {
    let (a, b) = (sym::u64("start ns"), sym::u64("end ns"));
    sym::assume(a < 1_000_000_000 && b < 1_000_000_000);
    let d = [0i64, 1, 2, 3600, 604_799, 604_800, 604_801][sym::choice(7, "seconds")];
    let d = d - 0;
    let borrow = (b < a) as i64;
    sym::assume(d - borrow >= 0 && d - borrow <= 604_800);
    check(p, &Case { at: Some((T0, a as u32)), expires: (T0 + d, b as u32), ..Case::default() })
}
/// start taken from the clock
pub fn from_clock(p: P) {
    let ns = sym::u64("now ns");
    sym::assume(ns < 1_000_000_000);
    let now = second_of(19_000);
    env::set_now(now, ns as i64);
    let c = Case { at: None, expires: (now + 3_600, ns as u32), ..Case::default() };
    check(p, &c)
}
/// lengths that no URL may have
pub fn bad_length(label: &str) {
    let d = sym::u64("length") as i64;
    sym::assume(d < 0 || d > 604_800);
    let end = match T0.checked_add(d) { Some(e) => e, None => { sym::assume(false); 0 } };
    let at = match sym::choice(2, "start") { 0 => Some((T0, 0)), _ => { env::set_now(T0, 0); None } };
    rejected(&Case { at, expires: (end, 0), ..Case::default() }, label)
}
/// less than nothing and more than seven days, by nanoseconds
pub fn bad_length_nanos(label: &str) {
    let (a, b) = (sym::u64("start ns"), sym::u64("end ns"));
    sym::assume(a < 1_000_000_000 && b < 1_000_000_000);
    let d = match sym::choice(2, "side") { 0 => { sym::assume(b < a); 0 } _ => { sym::assume(b >= a); 604_801 } };
    rejected(&Case { at: Some((T0, a as u32)), expires: (T0 + d, b as u32), ..Case::default() }, label)
}
/// starts that `X-Goog-Date` cannot express
pub fn bad_start(label: &str) {
    let t = sym::u64("start") as i64;
    sym::assume(t < 0 || t > LAST);
    let end = match t.checked_add(3600) { Some(e) => e, None => { sym::assume(false); 0 } };
    let c = Case { at: Some((t, 0)), expires: (end, 0), ..Case::default() };
    rejected(&c, label)
}
pub fn region(p: P, n: usize) {
    let r = sym::string(n, "region");
    check(p, &Case { region: Some(r), ..Case::default() })
}
pub fn email(p: P, n: usize) {
    let e = sym::string(n, "email");
    check(p, &Case { email: e, ..Case::default() })
}
pub fn short_methods() { match sym::choice(5, "length") { 0 => method(0), 1 => method(1), 2 => method(2), 3 => method(7), _ => method(8) } }
pub fn method(n: usize) {
    let l = "C07 exactly the five supported methods are accepted, and the given one is signed";
    let m = sym::string(n, "method");
    let c = Case { method: m.clone(), ..Case::default() };
    crypto::setup();
    env::no_transport();
    let r = c.call();
    let ok = matches!(m.as_str(), "DELETE" | "GET" | "HEAD" | "POST" | "PUT");
    #[cfg(native)] println!("  {m:?} {r:?}");
    sym::assert(r.is_ok() == ok, l);
    if let Ok(u) = &r {
        sym::reach("accepted");
        if let Some(u) = oracle::parse(u, l) { authentic(&c, &u, l) }
    } else { sym::reach("rejected") }
    sym::reach("checked");
}
