//! An allocator that measures, per thread, how much memory one guarded call holds at its peak.
//! Oversized requests (far beyond what a correct decoder needs) are recorded and served from a
//! lazily populated reservation, so the run survives to report and shrink the case.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
pub struct Guarded;
thread_local! {
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static LIVE: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}
const BIG: usize = 1 << 29;
const CAP: usize = 1 << 44;
fn mapped(size: usize) -> usize { (size.min(CAP) + 4095) & !4095 }
unsafe impl GlobalAlloc for Guarded {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        if l.size() > BIG { return big(l.size()); }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        note(l.size() as isize);
        if l.size() > BIG { return big(l.size()); }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        note(-(l.size() as isize));
        if l.size() > BIG { libc::munmap(p as *mut libc::c_void, mapped(l.size())); return; }
        System.dealloc(p, l)
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if l.size() <= BIG && n <= BIG {
            note(n as isize - l.size() as isize);
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        if !q.is_null() { std::ptr::copy_nonoverlapping(p, q, l.size().min(n)); self.dealloc(p, l); }
        q
    }
}
unsafe fn big(size: usize) -> *mut u8 {
    let p = libc::mmap(std::ptr::null_mut(), mapped(size), libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0);
    if p == libc::MAP_FAILED { std::ptr::null_mut() } else { p as *mut u8 }
}
fn note(d: isize) {
    let _ = ACTIVE.try_with(|a| if a.get() {
        LIVE.with(|l| { let v = l.get().saturating_add(d); l.set(v); PEAK.with(|p| if v > p.get() { p.set(v) }) })
    });
}
/// Run `f` and report the peak of memory allocated by this thread during the call.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, usize) {
    struct Off;
    impl Drop for Off { fn drop(&mut self) { ACTIVE.with(|a| a.set(false)); } }
    LIVE.with(|l| l.set(0)); PEAK.with(|p| p.set(0));
    ACTIVE.with(|a| a.set(true));
    let _off = Off;
    let r = f();
    ACTIVE.with(|a| a.set(false));
    (r, PEAK.with(|p| p.get()).max(0) as usize)
}
/// The bound for decoding `n` bytes: generous for any sensible representation.
pub fn limit(n: usize) -> usize { (48 << 20) + 512 * n }
/// Run a decoder of `n` input bytes; an error message if memory was out of proportion.
pub fn bounded<T>(n: usize, f: impl FnOnce() -> T) -> Result<T, String> {
    let (r, peak) = measure(f);
    if peak > limit(n) { Err(format!("decoding {} bytes allocated {} bytes", n, peak)) } else { Ok(r) }
}
