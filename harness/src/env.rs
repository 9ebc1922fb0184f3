//! The environment under harness control: wall clock, environment variables,
//! HTTP transport and the executor.
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

// ---- clock -----------------------------------------------------------------
pub static mut NOW: (i64, i64) = (1_700_000_000, 0);
pub static mut CLOCK_READS: u32 = 0;
pub fn set_now(secs: i64, nanos: i64) { unsafe { NOW = (secs, nanos) } }
pub fn now() -> std::time::SystemTime { let (s, n) = unsafe { NOW }; time(s, n as u32) }
pub fn clock_reads() -> u32 { unsafe { CLOCK_READS } }
#[repr(C)]
pub struct Timespec { sec: i64, nsec: i64 }
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_clock: i32, ts: *mut Timespec) -> i32 {
    CLOCK_READS += 1;
    (*ts).sec = NOW.0;
    (*ts).nsec = NOW.1;
    0
}
/// The instant `secs`.`nanos` relative to the Unix epoch.
pub fn time(secs: i64, nanos: u32) -> std::time::SystemTime {
    match checked_time(secs, nanos) { Some(t) => t, None => { crate::sym::assume(false); std::time::SystemTime::UNIX_EPOCH } }
}
pub fn checked_time(secs: i64, nanos: u32) -> Option<std::time::SystemTime> {
    use std::time::{Duration, SystemTime};
    if secs >= 0 { SystemTime::UNIX_EPOCH.checked_add(Duration::new(secs as u64, nanos)) }
    else { SystemTime::UNIX_EPOCH.checked_sub(Duration::new(secs.unsigned_abs(), 0))?.checked_add(Duration::new(0, nanos)) }
}

// ---- environment variables ----------------------------------------------------
#[cfg(not(native))]
mod vars {
    static mut METADATA_HOST: Option<Vec<u8>> = None;
    pub fn set_metadata_host(h: Option<&str>) {
        unsafe { METADATA_HOST = h.map(|h| { let mut v = h.as_bytes().to_vec(); v.push(0); v }) }
    }
    #[no_mangle]
    pub unsafe extern "C" fn getenv(name: *const u8) -> *const u8 {
        let want = b"GCE_METADATA_HOST\0";
        let mut i = 0;
        while i < want.len() {
            if *name.add(i) != want[i] { return std::ptr::null(); }
            i += 1;
        }
        #[allow(static_mut_refs)]
        match &METADATA_HOST { Some(v) => v.as_ptr(), None => std::ptr::null() }
    }
}
#[cfg(native)]
mod vars {
    pub fn set_metadata_host(h: Option<&str>) {
        unsafe { match h { Some(h) => std::env::set_var("GCE_METADATA_HOST", h), None => std::env::remove_var("GCE_METADATA_HOST") } }
    }
}
pub use vars::set_metadata_host;

// ---- executor ------------------------------------------------------------------
pub fn block_on<F: Future>(f: F) -> F::Output {
    let mut f = std::pin::pin!(f);
    let mut cx = Context::from_waker(Waker::noop());
    let mut n = 0;
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) { return r; }
        n += 1;
        if n > 64 { crate::sym::assert(false, "liveness: the call completes"); crate::sym::assume(false); }
    }
}
pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> { f.poll(&mut Context::from_waker(Waker::noop())) }

// ---- transport ------------------------------------------------------------------
#[derive(Clone, Debug)]
pub struct Sent { pub method: String, pub url: String, pub headers: Vec<(String, Vec<u8>)>, pub body: Option<Vec<u8>> }
impl Sent {
    pub fn header(&self, name: &str) -> Option<&[u8]> { self.headers.iter().find(|(n, _)| n == name).map(|(_, v)| v.as_slice()) }
    pub fn header_count(&self, name: &str) -> usize { self.headers.iter().filter(|(n, _)| n == name).count() }
}
pub use reqwest::Outcome;
type Responder = Box<dyn FnMut(&Sent, usize) -> (Outcome, u32)>;
static mut RESPONDER: Option<Responder> = None;
static mut SENT: Vec<Sent> = Vec::new();
#[allow(static_mut_refs)]
pub fn sent() -> &'static [Sent] { unsafe { &SENT } }
/// `f` answers the n-th request; the `u32` is how often `execute` is pending first.
pub fn transport(f: impl FnMut(&Sent, usize) -> (Outcome, u32) + 'static) {
    unsafe { RESPONDER = Some(Box::new(f)); }
    reqwest::set_responder(|r| {
        let s = Sent {
            method: r.method().as_str().to_string(),
            url: r.url().as_str().to_string(),
            headers: r.headers().iter().map(|(k, v)| (k.as_str().to_string(), v.as_bytes().to_vec())).collect(),
            body: r.body().and_then(|b| b.as_bytes().map(|b| b.to_vec())),
        };
        #[allow(static_mut_refs)]
        unsafe {
            let n = SENT.len();
            SENT.push(s.clone());
            (RESPONDER.as_mut().unwrap())(&s, n)
        }
    });
}
/// No request may be made.
pub fn no_transport() { transport(|_, _| { crate::sym::assert(false, "no HTTP request is made"); (Outcome::Fail, 0) }) }

// ---- files ---------------------------------------------------------------------
#[cfg(not(native))]
mod files {
    extern "C" { fn __errno_location() -> *mut i32; }
    enum Kind { Content(Vec<u8>), Missing, Unreadable }
    static mut FILE: Kind = Kind::Missing;
    static mut POS: usize = 0;
    const FD: i32 = 77;
    /// One file (or none) at a path of its own.
    pub struct File;
    impl File {
        fn new(k: Kind) -> File { unsafe { FILE = k; POS = 0; } File }
        pub fn with(b: &[u8]) -> File { File::new(Kind::Content(b.to_vec())) }
        pub fn missing() -> File { File::new(Kind::Missing) }
        pub fn unreadable() -> File { File::new(Kind::Unreadable) }
        pub fn path(&self) -> &str { "/key.json" }
    }
    unsafe fn fail(e: i32) -> i64 { *__errno_location() = e; -1 }
    #[no_mangle]
    pub unsafe extern "C" fn open64(path: *const u8, _flags: i32, _mode: i32) -> i32 {
        let want = b"/key.json\0";
        let mut i = 0;
        while i < want.len() { if *path.add(i) != want[i] { return fail(2) as i32; } i += 1; }
        if let Kind::Missing = FILE { return fail(2) as i32; }
        POS = 0;
        FD
    }
    #[no_mangle]
    pub unsafe extern "C" fn read(_fd: i32, buf: *mut u8, n: usize) -> isize {
        match &FILE {
            Kind::Content(c) => {
                let k = n.min(c.len() - POS);
                std::ptr::copy_nonoverlapping(c.as_ptr().add(POS), buf, k);
                POS += k;
                k as isize
            }
            _ => fail(21) as isize,
        }
    }
    #[no_mangle]
    pub unsafe extern "C" fn fstat64(_fd: i32, _st: *mut u8) -> i32 { fail(9) as i32 }
    #[no_mangle]
    pub unsafe extern "C" fn statx(_d: i32, _p: *const u8, _f: i32, _m: u32, _b: *mut u8) -> i32 { fail(38) as i32 }
    #[no_mangle]
    pub unsafe extern "C" fn lseek64(_fd: i32, _o: i64, _w: i32) -> i64 { fail(29) }
    #[no_mangle]
    pub unsafe extern "C" fn close(_fd: i32) -> i32 { 0 }

    #[no_mangle]
    pub unsafe extern "C" fn __xpg_strerror_r(_e: i32, buf: *mut u8, n: usize) -> i32 {
        let t = b"os error\0";
        std::ptr::copy_nonoverlapping(t.as_ptr(), buf, t.len().min(n));
        0
    }

    // ---- standard output and error
    static mut OUT: Vec<u8> = Vec::new();
    pub struct Written;
    impl Written { pub fn start() -> Written { unsafe { OUT = Vec::new() } Written } pub fn end(self) -> Vec<u8> { unsafe { std::mem::take(&mut OUT) } } }
    #[no_mangle]
    pub unsafe extern "C" fn write(_fd: i32, p: *const u8, n: usize) -> isize { OUT.extend_from_slice(std::slice::from_raw_parts(p, n)); n as isize }
    #[repr(C)]
    pub struct IoVec { p: *const u8, n: usize }
    #[no_mangle]
    pub unsafe extern "C" fn writev(_fd: i32, v: *const IoVec, k: i32) -> isize {
        let mut t = 0;
        for i in 0..k as usize { let v = &*v.add(i); OUT.extend_from_slice(std::slice::from_raw_parts(v.p, v.n)); t += v.n; }
        t as isize
    }
}
#[cfg(native)]
mod files {
    use std::io::{Read, Seek};
    /// One file (or none) in a scratch directory of its own.
    pub struct File { dir: std::path::PathBuf, path: String }
    impl File {
        fn new() -> File {
            let dir = std::env::temp_dir().join(format!("symharness-{}", std::process::id()));
            std::fs::create_dir_all(&dir).expect("scratch directory");
            File { path: dir.join("key.json").to_str().unwrap().into(), dir }
        }
        pub fn with(b: &[u8]) -> File { let f = File::new(); std::fs::write(&f.path, b).expect("scratch file"); f }
        pub fn missing() -> File { File::new() }
        pub fn unreadable() -> File { let f = File::new(); std::fs::create_dir_all(&f.path).expect("scratch directory"); f }
        pub fn path(&self) -> &str { &self.path }
    }
    impl Drop for File {
        fn drop(&mut self) {
            let _ = std::fs::remove_file(&self.path);
            let _ = std::fs::remove_dir(&self.path);
            let _ = std::fs::remove_dir(&self.dir);
        }
    }
    extern "C" { fn dup(fd: i32) -> i32; fn dup2(a: i32, b: i32) -> i32; fn memfd_create(n: *const u8, f: u32) -> i32; fn close(fd: i32) -> i32; }
    pub struct Written(i32, i32, i32);
    impl Written {
        pub fn start() -> Written {
            use std::io::Write;
            let _ = std::io::stdout().flush();
            unsafe { let w = Written(dup(1), dup(2), memfd_create(b"out\0".as_ptr(), 0)); dup2(w.2, 1); dup2(w.2, 2); w }
        }
        pub fn end(self) -> Vec<u8> {
            use std::io::Write;
            let _ = std::io::stdout().flush();
            unsafe { dup2(self.0, 1); dup2(self.1, 2); close(self.0); close(self.1); }
            let mut f = unsafe { <std::fs::File as std::os::fd::FromRawFd>::from_raw_fd(self.2) };
            let mut v = vec![];
            let _ = f.rewind();
            let _ = f.read_to_end(&mut v);
            v
        }
    }
}
pub use files::{File, Written};
