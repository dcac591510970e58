//! Arena allocator. While a model execution runs (`IN_EXEC`), every allocation of the code under
//! test comes from a bump arena that is reset between executions. Memory is never reused within
//! an execution; freed memory is poisoned and marked in a shadow map, so that intercepted accesses
//! can detect use after free and double free deterministically.
use std::alloc::{GlobalAlloc, Layout, System};

pub struct McAlloc;

const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 1 << 30;
const SHADOW: usize = 0x2100_0000_0000;
const HDR: usize = 16;

pub static mut IN_EXEC: bool = false;
static mut MAPPED: bool = false;
static mut TOP: usize = 0;
static mut LIVE: usize = 0;
static mut LIVE_BYTES: usize = 0;
static mut FAULT: Option<&'static str> = None;
/// When set, every newly allocated block is filled with this byte (uninitialised-read detection
/// is not attempted; this only makes executions deterministic).
const FRESH: u8 = 0xA5;

#[inline(always)]
pub fn in_arena(p: usize) -> bool {
    p.wrapping_sub(BASE) < SIZE
}

unsafe fn map_fixed(addr: usize, len: usize) {
    let p = libc::mmap(
        addr as *mut _,
        len,
        libc::PROT_READ | libc::PROT_WRITE,
        libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
        -1,
        0,
    );
    if p as usize != addr {
        let m = b"mcrt: cannot map arena\n";
        libc::write(2, m.as_ptr() as *const _, m.len());
        libc::_exit(3);
    }
}

pub fn init() {
    unsafe {
        if !MAPPED {
            map_fixed(BASE, SIZE);
            map_fixed(SHADOW, SIZE / 16);
            MAPPED = true;
        }
    }
}

/// Forget everything in the arena.
pub fn reset() {
    unsafe {
        std::ptr::write_bytes(SHADOW as *mut u8, 0, TOP / 16 + 1);
        // Keep resident memory bounded.
        if TOP > (64 << 20) {
            libc::madvise(BASE as *mut _, TOP, libc::MADV_DONTNEED);
        }
        TOP = 0;
        LIVE = 0;
        LIVE_BYTES = 0;
        FAULT = None;
    }
}

pub fn live() -> (usize, usize) {
    unsafe { (LIVE, LIVE_BYTES) }
}

pub fn take_fault() -> Option<&'static str> {
    unsafe { FAULT.take() }
}

/// Is `addr` (in the arena) inside a live block?  Addresses outside the arena are always fine.
#[inline(always)]
pub fn is_live(addr: usize) -> bool {
    if !in_arena(addr) {
        return addr > 4096 && addr >> 47 == 0;
    }
    unsafe { *((SHADOW + (addr - BASE) / 16) as *const u8) == 1 }
}

/// Run engine code: allocations go to the system allocator.
#[inline(always)]
pub fn sys<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let o = IN_EXEC;
        IN_EXEC = false;
        let r = f();
        IN_EXEC = o;
        r
    }
}

unsafe impl GlobalAlloc for McAlloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if !IN_EXEC {
            return System.alloc(l);
        }
        let al = l.align().max(16);
        let start = (BASE + TOP + HDR + al - 1) & !(al - 1);
        let size = l.size().max(1);
        let end = (start + size + 15) & !15;
        if end - BASE > SIZE {
            let m = b"mcrt: arena exhausted\n";
            libc::write(2, m.as_ptr() as *const _, m.len());
            libc::_exit(4);
        }
        TOP = end - BASE;
        *((start - 16) as *mut usize) = size;
        std::ptr::write_bytes((SHADOW + (start - BASE) / 16) as *mut u8, 1, (end - start) / 16);
        if size <= 4096 {
            std::ptr::write_bytes(start as *mut u8, FRESH, size);
        }
        LIVE += 1;
        LIVE_BYTES += size;
        start as *mut u8
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        let a = p as usize;
        if !in_arena(a) {
            return System.dealloc(p, l);
        }
        let s = (SHADOW + (a - BASE) / 16) as *mut u8;
        if *s != 1 {
            FAULT = Some("double free (or free of an invalid pointer)");
            return;
        }
        let size = *((a - 16) as *const usize);
        if size != l.size().max(1) {
            FAULT = Some("free with a wrong size");
        }
        std::ptr::write_bytes(s, 2, (size + 15) / 16);
        std::ptr::write_bytes(p, 0xDF, size.min(1 << 16));
        LIVE -= 1;
        LIVE_BYTES -= size;
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if !IN_EXEC {
            return System.alloc_zeroed(l);
        }
        let p = self.alloc(l);
        std::ptr::write_bytes(p, 0, l.size());
        p
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !IN_EXEC && !in_arena(p as usize) {
            return System.realloc(p, l, n);
        }
        let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
        std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
        self.dealloc(p, l);
        q
    }
}
