//! Global allocator that counts bytes per thread and refuses absurd requests, so that memory demand
//! becomes an observation that does not depend on the machine.
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::Cell;
use std::sync::atomic::{AtomicBool, AtomicUsize, Ordering::Relaxed};

/// No monitored workload legitimately needs a single block of this size.
#[cfg(target_pointer_width = "64")]
pub const SINGLE_CAP: usize = 4 << 30;
#[cfg(target_pointer_width = "64")]
pub const THREAD_CAP: isize = 6 << 30;
#[cfg(not(target_pointer_width = "64"))]
pub const SINGLE_CAP: usize = 1 << 30;
#[cfg(not(target_pointer_width = "64"))]
pub const THREAD_CAP: isize = 1 << 30;
pub const MARK: &str = "VERIF-ALLOC-CAP";

thread_local! {
    static CUR: Cell<isize> = const { Cell::new(0) };
    static PEAK: Cell<isize> = const { Cell::new(0) };
}

struct Counting;

fn refuse(size: usize) {
    let mut buf = [0u8; 96];
    let mut n = 0;
    for b in MARK.bytes().chain(" refused bytes=".bytes()) {
        buf[n] = b;
        n += 1;
    }
    let mut digits = [0u8; 24];
    let mut d = 0;
    let mut v = size;
    loop {
        digits[d] = b'0' + (v % 10) as u8;
        d += 1;
        v /= 10;
        if v == 0 {
            break;
        }
    }
    while d > 0 {
        d -= 1;
        buf[n] = digits[d];
        n += 1;
    }
    buf[n] = b'\n';
    n += 1;
    #[cfg(not(miri))]
    unsafe {
        libc::write(2, buf.as_ptr().cast(), n);
    }
    #[cfg(miri)]
    let _ = n;
}

fn add(size: usize) -> bool {
    if size > SINGLE_CAP {
        refuse(size);
        return false;
    }
    let ok = CUR.try_with(|c| {
        let v = c.get() + size as isize;
        if v > THREAD_CAP {
            return false;
        }
        c.set(v);
        let _ = PEAK.try_with(|p| {
            if v > p.get() {
                p.set(v)
            }
        });
        true
    });
    match ok {
        Ok(false) => {
            refuse(size);
            false
        }
        _ => true,
    }
}

fn sub(size: usize) {
    let _ = CUR.try_with(|c| c.set(c.get() - size as isize));
}

/// Blocks that are never reused, for processes whose instructions are counted: what the C library's
/// allocator does now and then (consolidating free lists) is not a cost of the operation measured.
static ARENA: AtomicBool = AtomicBool::new(false);
static NEXT: AtomicUsize = AtomicUsize::new(0);
static END: AtomicUsize = AtomicUsize::new(0);
const BLOCK: usize = 64 << 20;

/// Switches to such blocks for the rest of this process, which must have a single thread.
pub fn never_reuse() {
    ARENA.store(true, Relaxed);
}

unsafe fn bump(l: Layout) -> *mut u8 {
    if l.size() > BLOCK / 4 {
        return System.alloc(l);
    }
    let mut at = (NEXT.load(Relaxed) + l.align() - 1) & !(l.align() - 1);
    if at + l.size() > END.load(Relaxed) {
        let block = System.alloc(Layout::from_size_align_unchecked(BLOCK, 4096)) as usize;
        if block == 0 {
            return std::ptr::null_mut();
        }
        END.store(block + BLOCK, Relaxed);
        at = block;
    }
    NEXT.store(at + l.size(), Relaxed);
    at as *mut u8
}

unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        if ARENA.load(Relaxed) {
            return bump(l);
        }
        System.alloc(l)
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !add(l.size()) {
            return std::ptr::null_mut();
        }
        if ARENA.load(Relaxed) {
            let p = bump(l);
            if !p.is_null() {
                std::ptr::write_bytes(p, 0, l.size());
            }
            return p;
        }
        System.alloc_zeroed(l)
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        sub(l.size());
        if !ARENA.load(Relaxed) {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, new: usize) -> *mut u8 {
        if new > l.size() && !add(new - l.size()) {
            return std::ptr::null_mut();
        }
        if new < l.size() {
            sub(l.size() - new);
        }
        if ARENA.load(Relaxed) {
            let q = bump(Layout::from_size_align_unchecked(new, l.align()));
            if !q.is_null() {
                std::ptr::copy_nonoverlapping(p, q, l.size().min(new));
            }
            return q;
        }
        System.realloc(p, l, new)
    }
}

#[global_allocator]
static GLOBAL: Counting = Counting;

/// Bytes currently allocated by this thread (minus what it freed).
pub fn current() -> isize {
    CUR.with(|c| c.get())
}

/// Runs `f` and returns its result, the bytes still held and the peak above the start.
pub fn measure<T>(f: impl FnOnce() -> T) -> (T, isize, isize) {
    let before = current();
    PEAK.with(|p| p.set(before));
    let r = f();
    let after = current();
    let peak = PEAK.with(|p| p.get());
    (r, after - before, peak - before)
}
