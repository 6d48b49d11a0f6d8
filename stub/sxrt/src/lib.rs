//! Runtime interface between harness code and the symbolic engine.
//! In the symbolic build the functions are external declarations that the
//! engine interprets.  In the native build (feature `native`) they read the
//! recorded values of one counterexample.

#[cfg(not(feature = "native"))]
mod imp {
    extern "C" {
        fn sx_sym(tag: *const u8, tag_len: usize, bits: u32) -> u64;
        fn sx_assume_(c: u64);
        fn sx_check_(c: u64, msg: *const u8, len: usize);
        fn sx_expect_(id: *const u8, len: usize);
        fn sx_cover_(id: *const u8, len: usize);
        fn sx_fork_(v: u64, bits: u32) -> u64;
        fn sx_note_(p: *const u8, len: usize);
        fn sx_stdout_len_() -> u64;
        fn sx_stdout_byte_(i: u64) -> u64;
        fn sx_set_stdin_(p: *const u8, len: usize);
        fn sx_end_() -> !;
        fn sx_is_sym_(v: u64) -> u64;
        fn sx_select_(c: u64, a: u64, b: u64) -> u64;
    }
    pub fn sym(tag: &str, bits: u32) -> u64 { unsafe { sx_sym(tag.as_ptr(), tag.len(), bits) } }
    pub fn assume(c: bool) { unsafe { sx_assume_(c as u64) } }
    pub fn check(c: bool, msg: &str) { unsafe { sx_check_(c as u64, msg.as_ptr(), msg.len()) } }
    pub fn cover(id: &str) { unsafe { sx_cover_(id.as_ptr(), id.len()) } }
    pub fn expect(id: &str) { unsafe { sx_expect_(id.as_ptr(), id.len()) } }
    pub fn fork(v: u64, bits: u32) -> u64 { unsafe { sx_fork_(v, bits) } }
    pub fn note(s: &str) { unsafe { sx_note_(s.as_ptr(), s.len()) } }
    pub fn stdout_len() -> usize { unsafe { sx_stdout_len_() as usize } }
    pub fn stdout_byte(i: usize) -> u8 { unsafe { sx_stdout_byte_(i as u64) as u8 } }
    pub fn set_stdin(b: &[u8]) { unsafe { sx_set_stdin_(b.as_ptr(), b.len()) } }
    pub fn end() -> ! { unsafe { sx_end_() } }
    pub fn is_sym(v: u64) -> bool { unsafe { sx_is_sym_(v) != 0 } }
    /// ITE without a fork
    pub fn select(c: bool, a: u64, b: u64) -> u64 { unsafe { sx_select_(c as u64, a, b) } }
}

#[cfg(feature = "native")]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    use std::sync::Mutex;
    pub static VALUES: Mutex<Option<VecDeque<u64>>> = Mutex::new(None);
    pub static COVERED: Mutex<Vec<String>> = Mutex::new(Vec::new());
    thread_local! { pub static X: RefCell<u8> = RefCell::new(0); }
    pub fn sym(_tag: &str, bits: u32) -> u64 {
        let mut q = VALUES.lock().unwrap();
        if q.is_none() {
            let mut t = std::env::var("SX_VALUES").unwrap_or_default();
            if let Some(f) = t.strip_prefix('@') { t = std::fs::read_to_string(f).unwrap_or_default(); }
            *q = Some(t.split(',').filter_map(|x| x.trim().parse().ok()).collect());
        }
        let v = q.as_mut().unwrap().pop_front().unwrap_or(0);
        if bits < 64 { v & ((1u64 << bits) - 1) } else { v }
    }
    pub fn assume(c: bool) {
        if !c {
            eprintln!("SX-REPLAY: assumption does not hold");
            std::process::exit(77);
        }
    }
    pub fn check(c: bool, msg: &str) {
        if !c {
            eprintln!("SX-REPLAY: CHECK FAILED: {}", msg);
            std::process::exit(99);
        }
    }
    pub fn cover(id: &str) { COVERED.lock().unwrap().push(id.to_string()); eprintln!("SX-COVER: {}", id); }
    pub fn expect(_id: &str) {}
    pub fn fork(v: u64, _bits: u32) -> u64 { v }
    pub fn note(s: &str) { eprintln!("SX-NOTE: {}", s); }
    extern "C" {
        fn memfd_create(name: *const u8, flags: u32) -> i32;
        fn dup2(a: i32, b: i32) -> i32;
        fn lseek(fd: i32, off: i64, wh: i32) -> i64;
        fn pread(fd: i32, b: *mut u8, n: usize, off: i64) -> isize;
        fn write(fd: i32, b: *const u8, n: usize) -> isize;
    }
    /// Redirects standard output into memory so that the harness can look at it.
    pub fn capture_stdout() {
        unsafe {
            let fd = memfd_create(b"out\0".as_ptr(), 0);
            if fd >= 0 { dup2(fd, 1); }
        }
    }
    pub fn stdout_len() -> usize {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        let n = unsafe { lseek(1, 0, 2) };
        if n < 0 { 0 } else { n as usize }
    }
    pub fn stdout_byte(i: usize) -> u8 {
        let mut b = [0u8];
        unsafe { pread(1, b.as_mut_ptr(), 1, i as i64); }
        b[0]
    }
    pub fn set_stdin(b: &[u8]) {
        unsafe {
            let fd = memfd_create(b"in\0".as_ptr(), 0);
            write(fd, b.as_ptr(), b.len());
            lseek(fd, 0, 0);
            dup2(fd, 0);
        }
    }
    pub fn end() -> ! { std::process::exit(0) }
    pub fn is_sym(_v: u64) -> bool { false }
    pub fn select(c: bool, a: u64, b: u64) -> u64 { if c { a } else { b } }
}

pub use imp::*;

pub fn any_u8(tag: &str) -> u8 { sym(tag, 8) as u8 }
pub fn any_u16(tag: &str) -> u16 { sym(tag, 16) as u16 }
pub fn any_u32(tag: &str) -> u32 { sym(tag, 32) as u32 }
pub fn any_u64(tag: &str) -> u64 { sym(tag, 64) }
pub fn any_usize(tag: &str) -> usize { sym(tag, 64) as usize }
pub fn any_isize(tag: &str) -> isize { sym(tag, 64) as i64 as isize }
pub fn any_bool(tag: &str) -> bool { let v = sym(tag, 8); assume(v < 2); v == 1 }

/// A symbolic value in 0..n on which execution is then split.
pub fn choice(tag: &str, n: usize) -> usize {
    if n <= 1 { return 0; }
    let v = sym(tag, 16);
    assume(v < n as u64);
    fork(v, 16) as usize
}

/// A symbolic value in lo..=hi, kept symbolic.
pub fn range_u8(tag: &str, lo: u8, hi: u8) -> u8 { let v = any_u8(tag); assume((v >= lo) & (v <= hi)); v }
