//! The allocator of the simulation. Code under test gets memory from an arena at a fixed address,
//! the layout, reuse and content of that memory is decided by `configure`.

use crate::*;
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;

const BASE: usize = 0x2000_0000_0000;
const SIZE: usize = 16 << 30;
const HDR: usize = 16;
const LIVE: u64 = 0x5afe_c0de_a110_c8ed;
const DEAD: u64 = 0xdead_beef_f4ee_d001;
const CLASSES: usize = 64 + 40;

static LOCK: AtomicU32 = AtomicU32::new(0);
static mut MAPPED: bool = false;
static mut BUMP: usize = BASE;
static mut FREE: [usize; CLASSES] = [0; CLASSES];
static mut LIVE_BYTES: usize = 0;
static mut LIVE_BLOCKS: usize = 0;
static mut PEAK: usize = 0;
static mut TOTAL: u64 = 0;
static mut LIMIT: usize = 2 << 30;
static mut CFG: Config = Config { seed: 0, pad: 0, reuse: 0, fill: 0, scrub: 0 };
static mut RNG: Rng = Rng(0);

#[derive(Clone, Copy, Debug)]
pub struct Config {
    pub seed: u64,
    /// maximal random distance between two blocks, in units of 16 bytes
    pub pad: u32,
    /// 0: last freed first, 1: never, 2: now and then
    pub reuse: u8,
    /// content of fresh memory
    pub fill: u8,
    /// content of released memory
    pub scrub: u8,
}

pub fn map_arena() {
    unsafe {
        // MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE|MAP_FIXED_NOREPLACE
        let p = sys::raw(9, BASE, SIZE, 3, 0x2 | 0x20 | 0x4000 | 0x100000, usize::MAX, 0);
        MAPPED = p == BASE as isize;
        if !MAPPED {
            sys::eprint("rt: can't map the arena\n");
            sys::exit(2);
        }
    }
}

pub fn configure(c: Config) {
    unsafe {
        CFG = c;
        RNG = Rng(c.seed);
        BUMP += 16 * (RNG.next() as usize % (c.pad as usize + 1));
    }
}
pub fn live() -> usize {
    unsafe { LIVE_BYTES }
}
pub fn live_blocks() -> usize {
    unsafe { LIVE_BLOCKS }
}
pub fn peak() -> usize {
    unsafe { PEAK }
}
pub fn total() -> u64 {
    unsafe { TOTAL }
}
pub fn reset_peak() {
    unsafe { PEAK = LIVE_BYTES }
}
/// from now on at most `more` additional bytes may be in use at any time
pub fn limit(more: usize) {
    unsafe {
        LIMIT = LIVE_BYTES.saturating_add(more);
        PEAK = LIVE_BYTES;
    }
}

struct Guard;
impl Guard {
    fn new() -> Guard {
        while LOCK.compare_exchange_weak(0, 1, Ordering::Acquire, Ordering::Relaxed).is_err() {
            std::hint::spin_loop();
        }
        Guard
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        LOCK.store(0, Ordering::Release)
    }
}

#[inline]
fn class(size: usize) -> (usize, usize) {
    let n = size.div_ceil(16).max(1);
    if n <= 64 {
        (n - 1, n * 16)
    } else {
        let s = size.next_power_of_two();
        (64 + s.trailing_zeros() as usize - 10, s)
    }
}

unsafe fn arena_alloc(l: Layout) -> *mut u8 {
    if l.size() > SIZE / 2 {
        violation("memory", format_args!("an allocation of {} bytes", l.size()));
    }
    let _g = Guard::new();
    let (c, cap) = class(l.size());
    LIVE_BYTES += l.size();
    LIVE_BLOCKS += 1;
    TOTAL += l.size() as u64;
    PEAK = PEAK.max(LIVE_BYTES);
    if LIVE_BYTES > LIMIT {
        drop(_g);
        violation(
            "memory",
            format_args!("{} bytes in use, the limit of this step is {LIMIT} (request of {} bytes)", LIVE_BYTES, l.size()),
        );
    }
    let reuse = match CFG.reuse {
        0 => true,
        1 => false,
        _ => RNG.next() & 1 == 0,
    };
    let mut p = 0;
    if reuse && l.align() <= 16 && FREE[c] != 0 {
        p = FREE[c];
        FREE[c] = *(p as *const usize);
    }
    if p == 0 {
        BUMP += HDR;
        if CFG.pad > 0 {
            BUMP += 16 * (RNG.next() as usize % (CFG.pad as usize + 1));
        }
        let align = l.align().max(16);
        BUMP = (BUMP + align - 1) & !(align - 1);
        p = BUMP;
        BUMP += cap;
        if BUMP > BASE + SIZE {
            drop(_g);
            violation("memory", format_args!("the arena is exhausted"));
        }
    }
    *((p - HDR) as *mut u64) = LIVE;
    *((p - 8) as *mut u64) = l.size() as u64;
    if CFG.fill != 0 {
        std::ptr::write_bytes(p as *mut u8, CFG.fill, l.size().min(1 << 16));
    }
    p as *mut u8
}

unsafe fn arena_free(p: *mut u8, l: Layout) {
    let g = Guard::new();
    let h = (p as usize - HDR) as *mut u64;
    if *h != LIVE {
        drop(g);
        violation("heap", format_args!("release of memory that isn't allocated (double free)"));
    }
    *h = DEAD;
    LIVE_BYTES -= l.size();
    LIVE_BLOCKS -= 1;
    let (c, _) = class(l.size());
    if CFG.scrub != 0 {
        std::ptr::write_bytes(p, CFG.scrub, l.size().min(1 << 16));
    }
    if l.align() <= 16 {
        *(p as *mut usize) = FREE[c];
        FREE[c] = p as usize;
    }
}

#[inline(always)]
fn ours(p: *mut u8) -> bool {
    (p as usize).wrapping_sub(BASE) < SIZE
}

unsafe impl GlobalAlloc for SimAlloc {
    #[inline]
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        if ARMED && MAPPED {
            arena_alloc(l)
        } else {
            System.alloc(l)
        }
    }
    #[inline]
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        if ARMED && MAPPED {
            let p = arena_alloc(l);
            std::ptr::write_bytes(p, 0, l.size());
            p
        } else {
            System.alloc_zeroed(l)
        }
    }
    #[inline]
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        if ours(p) {
            arena_free(p, l)
        } else {
            System.dealloc(p, l)
        }
    }
    #[inline]
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        if !ours(p) && !(ARMED && MAPPED) {
            return System.realloc(p, l, n);
        }
        let nl = Layout::from_size_align_unchecked(n, l.align());
        let q = self.alloc(nl);
        if !q.is_null() {
            std::ptr::copy_nonoverlapping(p, q, l.size().min(n));
            self.dealloc(p, l);
        }
        q
    }
}
