//! Global allocator: code running inside a fiber allocates from that fiber's bump arena (fixed
//! address, never reused within an execution, poisoned on free), everything else uses malloc.
use crate::engine::MAXT;
use std::alloc::{GlobalAlloc, Layout, System};

pub const ARENA_BASE: usize = 0x1000_0000_0000;
pub const ARENA_SIZE: usize = 0x400_0000; // 64 MB each, touched lazily
pub const POISON_NEW: u8 = 0xAA;
pub const POISON_FREE: u8 = 0xDD;

pub struct McAlloc;

/// Which arena to allocate from; usize::MAX = system allocator.
pub static mut MODEL: usize = usize::MAX;
static mut BUMP: [usize; MAXT] = [0; MAXT];
pub static mut LIVE: isize = 0;
pub static mut ALLOCS: usize = 0;
/// Free lists by size (in units of 16 bytes), used by untracked single-threaded executions only.
static mut FREE: [usize; 65] = [0; 65];
/// Whether the following is watched at all.
pub static mut WATCH: bool = false;
/// Whether the order in which waiting senders are woken is judged.
pub static mut ORDER: bool = false;
/// Whether waiting operations are watched for busy-waiting.
pub static mut SPIN: bool = false;
/// Per fiber: > 0 while inside an operation of the library, user code called from it excepted.
pub static mut ZONE: [i32; MAXT] = [0; MAXT];
/// Memory was allocated (1) or released (2) inside such an operation.
pub static mut ZHIT: [u8; MAXT] = [0; MAXT];
static mut MAPPED: bool = false;

pub fn map() {
    unsafe {
        if !MAPPED {
            let p = libc::mmap(
                ARENA_BASE as *mut _,
                ARENA_SIZE * MAXT,
                libc::PROT_READ | libc::PROT_WRITE,
                libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE | libc::MAP_FIXED_NOREPLACE,
                -1,
                0,
            );
            assert_eq!(p as usize, ARENA_BASE, "cannot map arenas");
            MAPPED = true;
        }
    }
}

pub fn reset() {
    unsafe {
        for i in 0..MAXT {
            BUMP[i] = ARENA_BASE + i * ARENA_SIZE;
        }
        LIVE = 0;
        ALLOCS = 0;
        FREE = [0; 65];
        ZONE = [0; MAXT];
        ZHIT = [0; MAXT];
    }
}

pub fn in_arena(p: usize) -> bool {
    p >= ARENA_BASE && p < ARENA_BASE + ARENA_SIZE * MAXT
}

unsafe impl GlobalAlloc for McAlloc {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let m = MODEL;
        if m == usize::MAX {
            return System.alloc(l);
        }
        if ZONE[m] > 0 {
            ZHIT[m] |= 1;
        }
        let a = l.align().max(16);
        if crate::engine::SOLO && l.size() <= 1024 {
            let k = (l.size() + 15) / 16;
            if FREE[k] != 0 && FREE[k] & (a - 1) == 0 {
                let p = FREE[k];
                FREE[k] = *(p as *const usize);
                LIVE += 1;
                core::ptr::write_bytes(p as *mut u8, POISON_NEW, l.size());
                return p as *mut u8;
            }
        }
        let p = (BUMP[m] + a - 1) & !(a - 1);
        let end = p + l.size();
        if end > ARENA_BASE + (m + 1) * ARENA_SIZE {
            libc::abort();
        }
        BUMP[m] = end;
        LIVE += 1;
        ALLOCS += 1;
        core::ptr::write_bytes(p as *mut u8, POISON_NEW, l.size());
        p as *mut u8
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if in_arena(p as usize) {
            LIVE -= 1;
            let m = MODEL;
            if m != usize::MAX && ZONE[m] > 0 {
                ZHIT[m] |= 2;
            }
            core::ptr::write_bytes(p, POISON_FREE, l.size());
            if crate::engine::SOLO && l.size() <= 1024 && l.size() >= 8 {
                let k = (l.size() + 15) / 16;
                *(p as *mut usize) = FREE[k];
                FREE[k] = p as usize;
            }
        } else {
            System.dealloc(p, l)
        }
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if in_arena(p as usize) || MODEL != usize::MAX {
            let q = self.alloc(Layout::from_size_align_unchecked(n, l.align()));
            core::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
            q
        } else {
            System.realloc(p, l, n)
        }
    }
}

/// Run `f` with allocations going to the system allocator.
#[inline]
pub fn sys<R>(f: impl FnOnce() -> R) -> R {
    unsafe {
        let old = MODEL;
        MODEL = usize::MAX;
        let r = f();
        MODEL = old;
        r
    }
}
