//! Independent reading of the V4 signing process: how a verifier reconstructs
//! the request from a URL, and what the URL of given inputs has to say.
use crate::sym;

pub fn hex(b: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(b.len() * 2);
    for x in b { o.push(DIGITS[(*x >> 4) as usize]); o.push(DIGITS[(*x & 15) as usize]); }
    o
}
pub static DIGITS: [u8; 16] = *b"0123456789abcdef";
pub static UPPER: [u8; 16] = *b"0123456789ABCDEF";
const fn nibbles() -> [u8; 256] {
    let mut t = [255u8; 256];
    let mut i = 0;
    while i < 10 { t[b'0' as usize + i] = i as u8; i += 1; }
    let mut i = 0;
    while i < 6 { t[b'a' as usize + i] = 10 + i as u8; t[b'A' as usize + i] = 10 + i as u8; i += 1; }
    t
}
pub static NIBBLE: [u8; 256] = nibbles();
pub fn unhex(h: &[u8]) -> Option<Vec<u8>> {
    if h.len() % 2 != 0 { return None; }
    let mut o = vec![];
    for p in h.chunks(2) {
        let (a, b) = (NIBBLE[p[0] as usize], NIBBLE[p[1] as usize]);
        if a > 15 || b > 15 { return None; }
        o.push(a * 16 + b);
    }
    Some(o)
}
/// RFC 3986: everything but the unreserved characters becomes %XX.
pub fn encode(s: &[u8], keep_slash: bool) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len() * 3);
    for b in s {
        if sym::UNRESERVED[*b as usize] { o.push(*b) }
        else if keep_slash && *b == b'/' { o.push(b'/') }
        else { o.push(b'%'); o.push(UPPER[(*b >> 4) as usize]); o.push(UPPER[(*b & 15) as usize]); }
    }
    o
}
pub fn decode(s: &[u8]) -> Option<Vec<u8>> {
    let mut o = Vec::with_capacity(s.len());
    let mut i = 0;
    while i < s.len() {
        if s[i] == b'%' {
            if i + 2 >= s.len() { return None; }
            let (a, b) = (NIBBLE[s[i + 1] as usize], NIBBLE[s[i + 2] as usize]);
            if a > 15 || b > 15 { return None; }
            o.push(a << 4 | b);
            i += 3;
        } else { o.push(s[i]); i += 1; }
    }
    Some(o)
}
pub fn split(s: &[u8], sep: u8) -> Vec<&[u8]> {
    let mut o = vec![];
    let mut k = 0;
    for i in 0..s.len() { if s[i] == sep { o.push(&s[k..i]); k = i + 1; } }
    o.push(&s[k..]);
    o
}
fn find(s: &[u8], c: u8) -> Option<usize> {
    let mut i = 0;
    while i < s.len() { if s[i] == c { return Some(i); } i += 1; }
    None
}
pub const HOST: &[u8] = b"https://storage.googleapis.com";

/// A signed URL taken apart.
pub struct Url {
    pub path: Vec<u8>,
    /// everything between `?` and `&X-Goog-Signature=`
    pub query: Vec<u8>,
    /// raw (encoded) pairs without the signature, in order
    pub raw: Vec<(Vec<u8>, Vec<u8>)>,
    /// decoded pairs
    pub pairs: Vec<(Vec<u8>, Vec<u8>)>,
    pub signature: Vec<u8>,
}
impl Url {
    /// values of parameters called `name`
    pub fn get(&self, name: &[u8]) -> Vec<&[u8]> { self.pairs.iter().filter(|(k, _)| k.len() == name.len() && k.as_slice() == name).map(|(_, v)| v.as_slice()).collect() }
    pub fn one(&self, name: &[u8], label: &str) -> Vec<u8> {
        let v = self.get(name);
        sym::assert(v.len() == 1, label);
        match v.first() { Some(v) => v.to_vec(), None => vec![] }
    }
}
pub fn parse(url: &str, label: &str) -> Option<Url> {
    let u = url.as_bytes();
    let ok = u.len() > HOST.len() && &u[..HOST.len()] == HOST && u[HOST.len()] == b'/';
    sym::assert(ok, label);
    if !ok { return None; }
    let rest = &u[HOST.len()..];
    let frag = find(rest, b'#').is_none();
    sym::assert(frag, label);
    let q = match find(rest, b'?') { Some(q) => q, None => { sym::assert(false, label); return None; } };
    let (path, all) = (&rest[..q], &rest[q + 1..]);
    let mut raw = vec![];
    let mut pairs = vec![];
    let parts = split(all, b'&');
    for p in parts.iter() {
        let (k, v) = match find(p, b'=') { Some(e) => (&p[..e], &p[e + 1..]), None => { sym::assert(false, label); return None; } };
        match (decode(k), decode(v)) {
            (Some(a), Some(b)) => { raw.push((k.to_vec(), v.to_vec())); pairs.push((a, b)); }
            _ => { sym::assert(false, label); return None; }
        }
    }
    let last = raw.pop();
    pairs.pop();
    match last {
        Some((k, v)) if k.as_slice() == b"X-Goog-Signature" => {
            let n = parts.last().map_or(0, |p| p.len());
            let end = all.len() - n;
            Some(Url { path: path.to_vec(), query: all[..end.saturating_sub(1)].to_vec(), raw, pairs, signature: v })
        }
        _ => { sym::assert(false, label); None }
    }
}
/// Canonical form of a header value: surrounding whitespace removed, inner runs folded.
pub fn fold(v: &[u8]) -> Vec<u8> {
    let mut o = vec![];
    let mut gap = false;
    for b in v {
        if *b == b' ' || *b == b'\t' { gap = true; continue; }
        if gap && !o.is_empty() { o.push(b' '); }
        gap = false;
        o.push(*b);
    }
    o
}
pub static LOWER: [u8; 256] = {
    let mut t = [0u8; 256];
    let mut i = 0;
    while i < 256 { t[i] = if i >= 65 && i <= 90 { i as u8 + 32 } else { i as u8 }; i += 1; }
    t
};
pub fn lower(s: &[u8]) -> Vec<u8> { s.iter().map(|b| LOWER[*b as usize]).collect() }
pub fn join(parts: &[&[u8]], sep: u8) -> Vec<u8> {
    let mut o = vec![];
    for (i, p) in parts.iter().enumerate() { if i > 0 { o.push(sep) } o.extend_from_slice(p); }
    o
}
/// All headers of the request a client sends: Host and the caller's.
pub fn request_headers(headers: &[(String, String)]) -> Vec<(Vec<u8>, Vec<u8>)> {
    let mut v = vec![(b"host".to_vec(), b"storage.googleapis.com".to_vec())];
    for (k, x) in headers { v.push((lower(k.as_bytes()), fold(x.as_bytes()))); }
    v
}
/// The canonical request a verifier builds from the URL it received, the method
/// and the headers of the request.
pub fn canonical_request(method: &[u8], url: &Url, signed_headers: &[u8], headers: &[(Vec<u8>, Vec<u8>)], label: &str) -> Option<Vec<u8>> {
    let path = match decode(&url.path) { Some(p) => p, None => { sym::assert(false, label); return None; } };
    // the bucket ends at the first raw slash after the leading one
    let b = find(&url.path[1..], b'/').map(|i| i + 1).unwrap_or(url.path.len());
    let blen = decode(&url.path[..b])?.len();
    let mut cpath = vec![b'/'];
    cpath.extend(encode(&path[1..blen], false));
    cpath.extend(encode(&path[blen..], true));
    let mut o = vec![];
    o.extend_from_slice(method);
    o.push(b'\n');
    o.extend_from_slice(&cpath);
    o.push(b'\n');
    o.extend_from_slice(&url.query);
    o.push(b'\n');
    for name in split(signed_headers, b';') {
        let vals: Vec<&[u8]> = headers.iter().filter(|(k, _)| k.len() == name.len() && k.as_slice() == name).map(|(_, v)| v.as_slice()).collect();
        sym::assert(!vals.is_empty(), label);
        o.extend_from_slice(name);
        o.push(b':');
        o.extend_from_slice(&join(&vals, b','));
        o.push(b'\n');
    }
    o.push(b'\n');
    o.extend_from_slice(signed_headers);
    o.extend_from_slice(b"\nUNSIGNED-PAYLOAD");
    Some(o)
}
/// Decimal text of `n`, `width` digits at least.
pub fn dec(mut n: u64, width: usize) -> Vec<u8> {
    let mut o = vec![];
    while n > 0 || o.len() < width.max(1) { o.push(b'0' + (n % 10) as u8); n /= 10; }
    o.reverse();
    o
}
/// Civil date of a day number since 1970-01-01 (0 <= day), by Howard Hinnant's algorithm.
pub fn civil(day: u64) -> (u64, u64, u64) {
    let z = day + 719_468;
    let era = z / 146_097;
    let doe = z - era * 146_097;
    let yoe = (doe - doe / 1_460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + if m <= 2 { 1 } else { 0 }, m, d)
}
/// YYYYMMDDThhmmssZ of seconds since 1970.
pub fn basic(t: u64) -> Vec<u8> {
    let (y, m, d) = civil(t / 86_400);
    let s = t % 86_400;
    let mut o = digits(y, 4);
    o.extend(digits(m, 2));
    o.extend(digits(d, 2));
    o.push(b'T');
    o.extend(digits(s / 3600, 2));
    o.extend(digits(s / 60 % 60, 2));
    o.extend(digits(s % 60, 2));
    o.push(b'Z');
    o
}
/// YYYY-MM-DDThh:mm:ssZ
pub fn extended(t: u64) -> Vec<u8> {
    let b = basic(t);
    join(&[&b[..4], &b[4..6], &b[6..8]], b'-').into_iter().chain([b'T']).chain(join(&[&b[9..11], &b[11..13], &b[13..15]], b':')).chain([b'Z']).collect()
}
pub fn digits(n: u64, width: usize) -> Vec<u8> {
    let mut o = vec![b'0'; width];
    let mut n = n;
    for i in (0..width).rev() { o[i] = b'0' + (n % 10) as u8; n /= 10; }
    o
}
pub static B64: [u8; 64] = *b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/";
static UNB64: [u8; 256] = {
    let mut t = [255u8; 256];
    let mut i = 0;
    while i < 64 { t[B64[i] as usize] = i as u8; i += 1; }
    t
};
/// Standard alphabet, padding required.
pub fn base64_decode(s: &[u8]) -> Option<Vec<u8>> {
    if s.len() % 4 != 0 { return None; }
    let mut o = Vec::with_capacity(s.len() / 4 * 3);
    let n = s.len() / 4;
    for (i, c) in s.chunks(4).enumerate() {
        let pad = if i + 1 == n { (c[3] == b'=') as usize + (c[3] == b'=' && c[2] == b'=') as usize } else { 0 };
        let mut q = [0u8; 4];
        let mut bad = false;
        for k in 0..4 - pad { q[k] = UNB64[c[k] as usize]; bad |= q[k] > 63; }
        if bad { return None; }
        o.push(q[0] << 2 | q[1] >> 4);
        if pad < 2 { o.push(q[1] << 4 | q[2] >> 2) } else if q[1] & 15 != 0 { return None; }
        if pad < 1 { o.push(q[2] << 6 | q[3]) } else if pad == 1 && q[2] & 3 != 0 { return None; }
    }
    Some(o)
}
pub fn base64_encode(s: &[u8]) -> Vec<u8> {
    let mut o = Vec::with_capacity(s.len() / 3 * 4 + 4);
    for c in s.chunks(3) {
        let b = [c[0], *c.get(1).unwrap_or(&0), *c.get(2).unwrap_or(&0)];
        o.push(B64[(b[0] >> 2) as usize]);
        o.push(B64[((b[0] & 3) << 4 | b[1] >> 4) as usize]);
        o.push(if c.len() > 1 { B64[((b[1] & 15) << 2 | b[2] >> 6) as usize] } else { b'=' });
        o.push(if c.len() > 2 { B64[(b[2] & 63) as usize] } else { b'=' });
    }
    o
}
/// A JSON value; strings are unescaped, numbers and literals are kept as text.
#[derive(Clone, Debug)]
pub enum J { S(Vec<u8>), N(Vec<u8>), A(Vec<J>), O(Vec<(Vec<u8>, J)>), L(Vec<u8>) }
pub fn json(s: &[u8]) -> Option<J> {
    let mut i = 0;
    let v = value(s, &mut i)?;
    ws(s, &mut i);
    if i == s.len() { Some(v) } else { None }
}
fn ws(s: &[u8], i: &mut usize) { while *i < s.len() && (s[*i] == b' ' || s[*i] == b'\n' || s[*i] == b'\t' || s[*i] == b'\r') { *i += 1; } }
fn value(s: &[u8], i: &mut usize) -> Option<J> {
    ws(s, i);
    match *s.get(*i)? {
        b'"' => { *i += 1; text(s, i).map(J::S) }
        b'[' => {
            *i += 1;
            let mut v = vec![];
            ws(s, i);
            if *s.get(*i)? == b']' { *i += 1; return Some(J::A(v)); }
            loop {
                v.push(value(s, i)?);
                ws(s, i);
                let c = *s.get(*i)?;
                *i += 1;
                if c == b']' { return Some(J::A(v)); }
                if c != b',' { return None; }
            }
        }
        b'{' => {
            *i += 1;
            let mut v = vec![];
            ws(s, i);
            if *s.get(*i)? == b'}' { *i += 1; return Some(J::O(v)); }
            loop {
                ws(s, i);
                if *s.get(*i)? != b'"' { return None; }
                *i += 1;
                let k = text(s, i)?;
                ws(s, i);
                if *s.get(*i)? != b':' { return None; }
                *i += 1;
                v.push((k, value(s, i)?));
                ws(s, i);
                let c = *s.get(*i)?;
                *i += 1;
                if c == b'}' { return Some(J::O(v)); }
                if c != b',' { return None; }
            }
        }
        c => {
            let k = *i;
            while *i < s.len() && s[*i] != b',' && s[*i] != b']' && s[*i] != b'}' && s[*i] > b' ' { *i += 1; }
            let t = s[k..*i].to_vec();
            if t.is_empty() { return None; }
            Some(if c == b't' || c == b'f' || c == b'n' { J::L(t) } else { J::N(t) })
        }
    }
}
fn text(s: &[u8], i: &mut usize) -> Option<Vec<u8>> {
    let mut o = vec![];
    loop {
        let c = *s.get(*i)?;
        *i += 1;
        if c == b'"' { return Some(o); }
        if c < 0x20 { return None; }
        if c != b'\\' { o.push(c); continue; }
        let c = *s.get(*i)?;
        *i += 1;
        match c {
            b'"' | b'\\' | b'/' => o.push(c),
            b'b' => o.push(8), b'f' => o.push(12), b'n' => o.push(10), b'r' => o.push(13), b't' => o.push(9),
            b'u' => {
                let mut u = hex4(s, i)?;
                if u >= 0xd800 && u < 0xdc00 {
                    if *s.get(*i)? != b'\\' || *s.get(*i + 1)? != b'u' { return None; }
                    *i += 2;
                    let l = hex4(s, i)?;
                    if l < 0xdc00 || l > 0xdfff { return None; }
                    u = 0x10000 + ((u - 0xd800) << 10) + (l - 0xdc00);
                }
                if u < 0x80 { o.push(u as u8) }
                else { o.extend_from_slice(char::from_u32(u)?.to_string().as_bytes()) }
            }
            _ => return None,
        }
    }
}
fn hex4(s: &[u8], i: &mut usize) -> Option<u32> {
    let mut u = 0u32;
    for _ in 0..4 { let d = NIBBLE[*s.get(*i)? as usize]; if d > 15 { return None; } u = u << 4 | d as u32; *i += 1; }
    Some(u)
}
