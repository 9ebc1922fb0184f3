//! Access to symbolic inputs.  In the symbolic build every value is an SMT
//! variable of the engine; in the native build (`--cfg native`) the values come
//! from a witness file, so that a counterexample is replayed on the real code.
#[cfg(not(native))]
mod imp {
    extern "C" {
        fn __sym_bytes(p: *mut u8, len: usize, name: *const u8, nlen: usize);
        fn __sym_u64(name: *const u8, nlen: usize) -> u64;
        fn __sym_choice(n: u64, name: *const u8, nlen: usize) -> u64;
        fn __sym_assume(c: bool);
        fn __sym_assert(c: bool, name: *const u8, nlen: usize);
        fn __sym_assert_eq(p: *const u8, l: usize, q: *const u8, m: usize, name: *const u8, nlen: usize);
        fn __sym_reach(name: *const u8, nlen: usize);
        fn __sym_print(p: *const u8, len: usize);
        fn __sym_conc(v: u64) -> u64;
    }
    pub fn fill(b: &mut [u8], name: &str) { unsafe { __sym_bytes(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) } }
    pub fn u64(name: &str) -> u64 { unsafe { __sym_u64(name.as_ptr(), name.len()) } }
    pub fn choice(n: usize, name: &str) -> usize { unsafe { __sym_choice(n as u64, name.as_ptr(), name.len()) as usize } }
    pub fn assume(c: bool) { unsafe { __sym_assume(c) } }
    pub fn assert(c: bool, label: &str) { unsafe { __sym_assert(c, label.as_ptr(), label.len()) } }
    pub fn assert_eq(a: &[u8], b: &[u8], label: &str) { unsafe { __sym_assert_eq(a.as_ptr(), a.len(), b.as_ptr(), b.len(), label.as_ptr(), label.len()) } }
    pub fn reach(label: &str) { unsafe { __sym_reach(label.as_ptr(), label.len()) } }
    pub fn print(b: &[u8]) { unsafe { __sym_print(b.as_ptr(), b.len()) } }
    pub fn conc(v: u64) -> u64 { unsafe { __sym_conc(v) } }
}
#[cfg(native)]
mod imp {
    use std::sync::Mutex;
    pub struct AssumptionFailed;
    pub static WITNESS: Mutex<(Vec<(String, Vec<u8>)>, usize)> = Mutex::new((Vec::new(), 0));
    fn next(name: &str) -> Vec<u8> {
        let mut g = WITNESS.lock().unwrap();
        let i = g.1;
        g.1 += 1;
        match g.0.get(i) {
            Some((n, v)) if n == name => v.clone(),
            Some((n, _)) => { println!("WITNESS-MISMATCH wanted {name} found {n}"); std::process::exit(3) }
            // the path ended before this input was read
            None => vec![],
        }
    }
    fn num(name: &str) -> u64 { next(name).iter().rev().fold(0u64, |a, b| (a << 8) | *b as u64) }
    pub fn fill(b: &mut [u8], name: &str) { let v = next(name); for (i, x) in b.iter_mut().enumerate() { *x = v.get(i).copied().unwrap_or(0); } }
    pub fn u64(name: &str) -> u64 { num(name) }
    pub fn choice(n: usize, name: &str) -> usize { (num(name) as usize) % n.max(1) }
    pub fn assume(c: bool) { if !c { println!("ASSUMPTION-FAILED"); std::process::exit(4) } }
    pub fn assert(c: bool, label: &str) { if !c { println!("ASSERT-FAILED {label}"); } }
    pub fn assert_eq(a: &[u8], b: &[u8], label: &str) {
        if a != b { println!("ASSERT-FAILED {label}\n  got      {:?}\n  expected {:?}", String::from_utf8_lossy(a), String::from_utf8_lossy(b)); }
    }
    pub fn reach(label: &str) { println!("REACH {label}"); }
    pub fn print(b: &[u8]) { println!("PRINT {}", b.iter().map(|x| format!("{x:02x}")).collect::<String>()); }
    pub fn conc(v: u64) -> u64 { v }
}
pub use imp::*;

pub fn bytes<const N: usize>(name: &str) -> [u8; N] { let mut b = [0u8; N]; fill(&mut b, name); b }
pub fn vec(n: usize, name: &str) -> Vec<u8> { let mut b = vec![0u8; n]; fill(&mut b, name); b }
pub fn byte(name: &str) -> u8 { bytes::<1>(name)[0] }
pub fn bool(name: &str) -> bool { choice(2, name) == 1 }
/// An arbitrary valid UTF-8 string of `n` bytes.
pub fn string(n: usize, name: &str) -> String {
    let v = vec(n, name);
    match String::from_utf8(v) { Ok(s) => s, Err(_) => { assume(false); String::new() } }
}
/// `n` arbitrary bytes of a class of ASCII characters.
pub fn class(n: usize, name: &str, f: fn(u8) -> bool) -> String {
    let v = vec(n, name);
    for b in v.iter() { assume(*b < 128 && f(*b)); }
    unsafe { String::from_utf8_unchecked(v) }
}
pub fn unreserved(b: u8) -> bool { UNRESERVED[b as usize] }
pub fn reserved(b: u8) -> bool { b >= 16 && b < 128 && !UNRESERVED[b as usize] && b != b'/' }
pub fn graphic(b: u8) -> bool { (b > 0x20) & (b < 0x7f) }
pub fn field_value(b: u8) -> bool { ((b >= 0x20) & (b < 0x7f)) | (b == 9) }
pub fn ascii(b: u8) -> bool { b < 128 }
pub fn alnum(b: u8) -> bool { ((b >= b'a') & (b <= b'z')) | ((b >= b'A') & (b <= b'Z')) | ((b >= b'0') & (b <= b'9')) }
pub fn token(b: u8) -> bool { TOKEN[b as usize] }
const fn set(s: &[u8]) -> [bool; 256] {
    let mut t = [false; 256];
    let mut i = 0;
    while i < s.len() { t[s[i] as usize] = true; i += 1; }
    t
}
pub static UNRESERVED: [bool; 256] = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789-._~");
pub static TOKEN: [bool; 256] = set(b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789!#$%&'*+-.^_`|~");
