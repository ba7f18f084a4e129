//! Loaded before the tool (LD_PRELOAD), to put two parts of its surroundings under control.
//!
//! ENVSHIM_VALUE=v: every environment variable the program asks for and that is not set has the value v
//! (what the run-time system and the C library ask for themselves is left alone).
//!
//! RNGSHIM_SEED=n: the operating system's randomness is the fixed stream of seed n; RNGSHIM_FLIP=k flips
//! the lowest bit of its k-th byte; the number of bytes drawn is written to RNGSHIM_LOG when the program ends.
use std::ffi::{c_char, c_int, c_long, c_uint, c_void, CStr};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
extern "C" { static environ: *const *const c_char; fn atexit(f: extern "C" fn()) -> c_int; fn __errno_location() -> *mut c_int; }
unsafe fn find(name: &[u8]) -> *const c_char {
    if environ.is_null() { return std::ptr::null(); }
    let mut p = environ;
    while !(*p).is_null() {
        let e = CStr::from_ptr(*p).to_bytes();
        if e.len() > name.len() && e[name.len()] == b'=' && &e[..name.len()] == name { return (*p).add(name.len() + 1); }
        p = p.add(1);
    }
    std::ptr::null()
}
const OTHERS: [&str; 22] = ["RUST_BACKTRACE", "RUST_LIB_BACKTRACE", "RUST_MIN_STACK", "RUST_TEST", "LD_", "LC_", "LANG", "GCONV", "LOCPATH", "MALLOC", "GLIBC", "TZ", "HOME", "PATH", "TMPDIR", "PWD", "TERM", "COLUMNS", "LINES", "NLSPATH", "CLICOLOR", "COLORTERM"];
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *const c_char {
    let n = CStr::from_ptr(name).to_bytes();
    let v = find(n);
    if !v.is_null() || OTHERS.iter().any(|o| n.starts_with(o.as_bytes())) { return v; }
    find(b"ENVSHIM_VALUE")
}

unsafe fn number(name: &[u8]) -> Option<u64> { let p = find(name); if p.is_null() { None } else { CStr::from_ptr(p).to_str().ok()?.parse().ok() } }
fn mix(x: u64) -> u64 { let mut z = x.wrapping_add(0x9e3779b97f4a7c15); z = (z ^ z >> 30).wrapping_mul(0xbf58476d1ce4e5b9); z = (z ^ z >> 27).wrapping_mul(0x94d049bb133111eb); z ^ z >> 31 }
static DRAWN: AtomicU64 = AtomicU64::new(0);
extern "C" fn report() { unsafe { let p = find(b"RNGSHIM_LOG"); if !p.is_null() { if let Ok(f) = CStr::from_ptr(p).to_str() { let _ = std::fs::write(f, DRAWN.load(SeqCst).to_string()); } } } }
/// None: not under control
unsafe fn fill(buf: *mut u8, n: usize) -> Option<()> {
    let seed = number(b"RNGSHIM_SEED")?; let flip = number(b"RNGSHIM_FLIP");
    static ONCE: std::sync::Once = std::sync::Once::new(); ONCE.call_once(|| { atexit(report); });
    let at = DRAWN.fetch_add(n as u64, SeqCst);
    for i in 0..n as u64 { let k = at + i; let b = (mix(seed ^ mix(k / 8)) >> (k % 8 * 8)) as u8; *buf.add(i as usize) = if flip == Some(k) { b ^ 1 } else { b }; }
    Some(())
}
#[cfg(target_arch = "x86_64")]
unsafe fn raw(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    let r: c_long;
    std::arch::asm!("syscall", inlateout("rax") n => r, in("rdi") a, in("rsi") b, in("rdx") c, in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _);
    if (-4095..0).contains(&r) { *__errno_location() = -r as c_int; -1 } else { r }
}
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: usize, flags: c_uint) -> isize {
    if fill(buf as *mut u8, n).is_some() { return n as isize; }
    raw(318, buf as c_long, n as c_long, flags as c_long, 0, 0, 0) as isize
}
#[cfg(target_arch = "x86_64")]
#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: c_long, b: c_long, c: c_long, d: c_long, e: c_long, f: c_long) -> c_long {
    if n == 318 && fill(a as *mut u8, b as usize).is_some() { return b; }
    raw(n, a, b, c, d, e, f)
}
