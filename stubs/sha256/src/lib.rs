//! Stand-in for `sha256`, used only in the symbolic build.  SHA-256 is modelled
//! as an uninterpreted injective function: every distinct input gets its own
//! 64-hex-digit output; equal inputs get equal outputs.  Inputs are recorded.
use std::sync::Mutex;
pub static LOG: Mutex<Vec<(Vec<u8>, String)>> = Mutex::new(Vec::new());
pub fn log() -> Vec<(Vec<u8>, String)> { LOG.lock().unwrap().clone() }
pub fn reset() { LOG.lock().unwrap().clear() }

fn tag(n: usize) -> String {
    // Fixed hex text, different for each n.
    let mut s = String::from("a1b2c3d4e5f60718293a4b5c6d7e8f90fedcba98765432100123456789abcd");
    s.push(b"0123456789abcdef"[(n >> 4) & 15] as char);
    s.push(b"0123456789abcdef"[n & 15] as char);
    s
}
fn __digest__(data: &[u8]) -> String {
    let mut l = LOG.lock().unwrap();
    for (d, t) in l.iter() { if d.as_slice() == data { return t.clone(); } }
    let t = tag(l.len());
    l.push((data.to_vec(), t.clone()));
    t
}
pub fn digest<D: Sha256Digest>(input: D) -> String { input.digest() }
pub fn digest_bytes(input: &[u8]) -> String { __digest__(input) }
pub trait Sha256Digest { fn digest(self) -> String; }
impl<const N: usize> Sha256Digest for &[u8; N] { fn digest(self) -> String { __digest__(self) } }
impl Sha256Digest for &[u8] { fn digest(self) -> String { __digest__(self) } }
impl Sha256Digest for &Vec<u8> { fn digest(self) -> String { __digest__(self) } }
impl Sha256Digest for Vec<u8> { fn digest(self) -> String { __digest__(&self) } }
impl Sha256Digest for String { fn digest(self) -> String { __digest__(self.as_bytes()) } }
impl Sha256Digest for &str { fn digest(self) -> String { __digest__(self.as_bytes()) } }
impl Sha256Digest for char { fn digest(self) -> String { __digest__(self.encode_utf8(&mut [0; 4]).as_bytes()) } }
impl Sha256Digest for &mut &str { fn digest(self) -> String { __digest__(self.as_bytes()) } }
impl Sha256Digest for &String { fn digest(self) -> String { __digest__(self.as_bytes()) } }
