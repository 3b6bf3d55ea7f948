//! The simulator's runtime: everything a run can observe besides its own code goes through here.
//!
//! * `choice`      - the only source of decisions (three recorded lanes: ops, sched, fault)
//! * `lib`/`host`  - mark the time spent in code under test; only that is instrumented/simulated
//! * coverage callbacks - step counter, step budget, preemption points, block coverage
//! * `run_threads` - real threads, of which exactly one runs; who runs next is a `sched` choice
//! * allocator     - arena with seeded layout/poison, live/peak accounting, budgets
//! * libc interposition - open/read/close/stat/write/getrandom/clock/futex/sleep
//!
//! This crate is compiled without instrumentation.
#![allow(static_mut_refs)]
#![allow(clippy::missing_safety_doc)]

use std::fmt;
use std::sync::atomic::{AtomicU32, Ordering};

pub mod alloc;
pub mod sched;
pub mod sys;

// ---------------------------------------------------------------------------------------------
// shared memory: what survives a run, however it ends

pub const TAPE: usize = 1 << 16;
pub const TRACE: usize = 1 << 18;
pub const COV: usize = 1 << 15;
pub const OPS: usize = 0;
pub const SCHED: usize = 1;
pub const FAULT: usize = 2;

pub const RUNNING: u32 = 0;
pub const OK: u32 = 1;
pub const VIOLATION: u32 = 2;
pub const HARNESS: u32 = 3;

#[repr(C)]
pub struct Shm {
    pub status: u32,
    pub class_len: u32,
    pub msg_len: u32,
    pub trace_len: u32,
    pub digest: u64,
    pub sched_digest: u64,
    pub steps: u64,
    pub sim_ns: u64,
    pub events: u64,
    pub switches: u64,
    pub preemptions: u64,
    pub peak_alloc: u64,
    pub tape_len: [u32; 3],
    pub nthreads: u32,
    pub faults: [u32; 64],
    pub probes: [u32; 64],
    pub class: [u8; 256],
    pub msg: [u8; 8192],
    // not cleared between runs:
    pub tape: [[u32; TAPE]; 3],
    pub trace: [u8; TRACE],
    pub cov: [u8; COV],
}

pub static mut SHM: *mut Shm = std::ptr::null_mut();
/// result area of nested reference executions
pub static mut SCRATCH: *mut u8 = std::ptr::null_mut();
pub const SCRATCH_LEN: usize = 64 << 20;

pub fn map_shared(len: usize) -> *mut u8 {
    unsafe {
        // PROT_READ|PROT_WRITE, MAP_SHARED|MAP_ANONYMOUS|MAP_NORESERVE
        let p = sys::raw(9, 0, len, 3, 0x1 | 0x20 | 0x4000, usize::MAX, 0);
        if p < 0 && p > -4096 {
            sys::eprint("rt: mmap failed\n");
            sys::exit(2);
        }
        p as *mut u8
    }
}

pub fn new_shm() -> *mut Shm {
    map_shared(std::mem::size_of::<Shm>()) as *mut Shm
}

pub fn clear_shm() {
    unsafe {
        let s = &mut *SHM;
        let head = std::ptr::addr_of!((*SHM).tape) as usize - SHM as usize;
        std::ptr::write_bytes(SHM as *mut u8, 0, head);
        std::ptr::write_bytes(s.cov.as_mut_ptr(), 0, COV);
        s.digest = 0xcbf29ce484222325;
        s.sched_digest = 0xcbf29ce484222325;
    }
}

// ---------------------------------------------------------------------------------------------
// state of the running simulation (all of it is only touched by the thread holding the baton)

pub static mut ARMED: bool = false;
pub static mut STEP: u64 = 0;
pub static mut NEXT: u64 = u64::MAX;
pub static mut BUDGET: u64 = u64::MAX;
pub static mut PREEMPT_AT: u64 = u64::MAX;
/// inside a nested reference execution: nothing is recorded
pub static mut NESTED: bool = false;
pub static mut TRACE_ON: bool = false;
pub static mut SIM_NS: u64 = 0;
/// what the clock shows beyond the simulated time (jumps)
pub static mut JUMP_NS: u64 = 0;

#[inline(always)]
pub fn fnv(mut h: u64, bytes: &[u8]) -> u64 {
    for b in bytes {
        h = (h ^ *b as u64).wrapping_mul(0x100000001b3);
    }
    h
}

#[derive(Clone, Copy)]
pub struct Rng(pub u64);
impl Rng {
    #[inline]
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
}

struct Lane {
    pos: usize,
    replay: Vec<u32>,
    rng: Rng,
}
static mut LANES: [Lane; 3] = [
    Lane { pos: 0, replay: Vec::new(), rng: Rng(0) },
    Lane { pos: 0, replay: Vec::new(), rng: Rng(0) },
    Lane { pos: 0, replay: Vec::new(), rng: Rng(0) },
];
static mut RECORD: bool = true;

/// every decision of the coming run is derived from this seed
pub fn tapes_from_seed(seed: u64) {
    unsafe {
        RECORD = true;
        for (i, l) in LANES.iter_mut().enumerate() {
            let mut r = Rng(seed ^ (i as u64 + 1).wrapping_mul(0xD6E8FEB86659FD93));
            let s = r.next() ^ r.next().rotate_left(17);
            *l = Lane { pos: 0, replay: Vec::new(), rng: Rng(s) };
        }
    }
}

/// every decision of the coming run is taken from the given tapes (0 past their end)
pub fn tapes_from(t: [Vec<u32>; 3]) {
    unsafe {
        RECORD = false;
        for (l, v) in LANES.iter_mut().zip(t) {
            *l = Lane { pos: 0, replay: v, rng: Rng(0) };
        }
    }
}

/// a number below n; 0 is always the simplest alternative
pub fn choice(lane: usize, n: u32) -> u32 {
    if n <= 1 {
        return 0;
    }
    unsafe {
        if NESTED {
            harness_error("choice inside of a reference execution");
        }
        let l = &mut LANES[lane];
        let pos = l.pos;
        if pos >= TAPE {
            return 0;
        }
        l.pos += 1;
        let v = if RECORD {
            (l.rng.next() % n as u64) as u32
        } else if pos < l.replay.len() {
            l.replay[pos] % n
        } else {
            0
        };
        let s = &mut *SHM;
        s.tape[lane][pos] = v;
        s.tape_len[lane] = l.pos as u32;
        if lane != OPS {
            s.sched_digest = fnv(s.sched_digest, &v.to_le_bytes());
        }
        v
    }
}

/// true with probability num/den (false is the simple alternative)
pub fn chance(lane: usize, num: u32, den: u32) -> bool {
    choice(lane, den) >= den - num
}

// ---------------------------------------------------------------------------------------------
// events and verdicts

struct Sink;
impl fmt::Write for Sink {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        unsafe {
            let m = &mut *SHM;
            m.digest = fnv(m.digest, s.as_bytes());
            if TRACE_ON {
                let at = m.trace_len as usize;
                let n = s.len().min(TRACE - at);
                m.trace[at..at + n].copy_from_slice(&s.as_bytes()[..n]);
                m.trace_len = (at + n) as u32;
            }
        }
        Ok(())
    }
}

/// appends to the event log of the run
pub fn event(args: fmt::Arguments<'_>) {
    use fmt::Write;
    unsafe {
        if NESTED {
            return;
        }
        let a = std::mem::replace(&mut ARMED, false);
        (*SHM).events += 1;
        let cur = sched::current();
        if cur != sched::COORD {
            let _ = write!(Sink, "[t{} @{}] ", cur, STEP);
        }
        let _ = Sink.write_fmt(args);
        let _ = Sink.write_str("\n");
        ARMED = a;
    }
}
#[macro_export]
macro_rules! ev { ($($a:tt)*) => { $crate::event(format_args!($($a)*)) } }

pub fn fault(kind: usize) {
    unsafe {
        if !NESTED {
            (*SHM).faults[kind] += 1;
        }
    }
}
pub fn probe(kind: usize) {
    unsafe {
        if !NESTED {
            (*SHM).probes[kind] += 1;
        }
    }
}

fn finish_counters() {
    unsafe {
        let m = &mut *SHM;
        m.steps = STEP;
        m.sim_ns = SIM_NS;
        m.peak_alloc = alloc::peak() as u64;
    }
}

struct Fixed<'a> {
    buf: &'a mut [u8],
    len: usize,
}
impl fmt::Write for Fixed<'_> {
    fn write_str(&mut self, s: &str) -> fmt::Result {
        let n = s.len().min(self.buf.len() - self.len);
        self.buf[self.len..self.len + n].copy_from_slice(&s.as_bytes()[..n]);
        self.len += n;
        Ok(())
    }
}

fn verdict(status: u32, class: &str, msg: fmt::Arguments<'_>) -> ! {
    use fmt::Write;
    unsafe {
        ARMED = false;
        if NESTED {
            // reported by the nested execution's parent
            let mut f = Fixed { buf: std::slice::from_raw_parts_mut(SCRATCH.add(16), 4096), len: 0 };
            let _ = f.write_str(class);
            let _ = f.write_str(": ");
            let _ = f.write_fmt(msg);
            *(SCRATCH as *mut u64) = if status == HARNESS { 3 } else { 2 };
            *(SCRATCH.add(8) as *mut u64) = f.len as u64;
            sys::exit(0);
        }
        let m = &mut *SHM;
        if m.status == RUNNING {
            let n = class.len().min(m.class.len());
            m.class[..n].copy_from_slice(&class.as_bytes()[..n]);
            m.class_len = n as u32;
            let mut f = Fixed { buf: &mut m.msg, len: 0 };
            let _ = f.write_fmt(msg);
            m.msg_len = f.len as u32;
            finish_counters();
            let _ = Sink.write_str(class);
            (*SHM).status = status;
        }
        sys::exit(0)
    }
}

/// the property does not hold in this run (does not return)
pub fn violation(class: &str, msg: fmt::Arguments<'_>) -> ! {
    verdict(VIOLATION, class, msg)
}
#[macro_export]
macro_rules! fail { ($class:expr, $($a:tt)*) => { $crate::violation($class, format_args!($($a)*)) } }

pub fn harness_error(msg: &str) -> ! {
    verdict(HARNESS, "harness", format_args!("{msg}"))
}

pub fn passed() -> ! {
    unsafe {
        ARMED = false;
        finish_counters();
        (*SHM).status = OK;
        sys::exit(0)
    }
}

// ---------------------------------------------------------------------------------------------
// code under test

pub struct Armed(bool);
impl Armed {
    #[inline(never)]
    pub fn set(on: bool) -> Armed {
        unsafe {
            Armed(std::ptr::replace(std::ptr::addr_of_mut!(ARMED), on))
        }
    }
}
impl Drop for Armed {
    #[inline(never)]
    fn drop(&mut self) {
        unsafe { std::ptr::write_volatile(std::ptr::addr_of_mut!(ARMED), self.0) }
    }
}

/// runs code under test
pub fn lib<R>(f: impl FnOnce() -> R) -> R {
    let _a = Armed::set(true);
    f()
}
/// runs harness code called back from code under test
pub fn host<R>(f: impl FnOnce() -> R) -> R {
    let _a = Armed::set(false);
    f()
}

pub static mut LAST_PANIC: [u8; 1024] = [0; 1024];
pub static mut LAST_PANIC_LEN: usize = 0;

pub fn last_panic() -> String {
    unsafe { String::from_utf8_lossy(&LAST_PANIC[..LAST_PANIC_LEN]).into_owned() }
}

pub fn install_panic_hook() {
    std::panic::set_hook(Box::new(|info| unsafe {
        use fmt::Write;
        let a = std::mem::replace(&mut ARMED, false);
        let mut f = Fixed { buf: &mut LAST_PANIC, len: 0 };
        if let Some(s) = info.payload().downcast_ref::<&str>() {
            let _ = f.write_str(s);
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            let _ = f.write_str(s);
        } else {
            let _ = f.write_str("?");
        }
        if let Some(l) = info.location() {
            let _ = write!(f, " at {}:{}", l.file(), l.line());
        }
        LAST_PANIC_LEN = f.len;
        ARMED = a;
    }));
}

/// payload of panics raised by the simulator (a crashing client)
pub struct Crash;

pub enum Caught<R> {
    Done(R),
    /// the panic raised by the simulator came back out
    Crashed,
    Panicked(String),
}

/// runs code under test, a panic is returned
pub fn lib_catch<R>(f: impl FnOnce() -> R) -> Caught<R> {
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| lib(f)));
    match r {
        Ok(r) => Caught::Done(r),
        Err(p) => {
            if p.is::<Crash>() {
                Caught::Crashed
            } else {
                let m = last_panic();
                drop(p);
                Caught::Panicked(m)
            }
        }
    }
}

pub fn steps() -> u64 {
    unsafe { STEP }
}
pub fn set_budget(steps_from_now: u64) {
    unsafe {
        BUDGET = STEP.saturating_add(steps_from_now);
        NEXT = BUDGET.min(PREEMPT_AT);
    }
}
/// the clock jumps without time passing
pub fn clock_jump(ns: u64) {
    unsafe { JUMP_NS = JUMP_NS.wrapping_add(ns) }
}
pub fn advance(ns: u64) {
    unsafe { SIM_NS += ns }
}

// ---------------------------------------------------------------------------------------------
// instrumentation callbacks

static GUARDS: AtomicU32 = AtomicU32::new(0);
pub fn num_guards() -> usize {
    GUARDS.load(Ordering::Relaxed) as usize
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard_init(mut start: *mut u32, stop: *mut u32) {
    while start < stop {
        if *start == 0 {
            *start = GUARDS.fetch_add(1, Ordering::Relaxed) + 1;
        }
        start = start.add(1);
    }
}

#[no_mangle]
pub unsafe extern "C" fn __sanitizer_cov_trace_pc_guard(g: *mut u32) {
    if ARMED {
        let s: *mut Shm = SHM;
        (*s).cov[(*g as usize) & (COV - 1)] = 1;
        step()
    }
}

#[inline(always)]
unsafe fn step() {
    STEP += 1;
    if STEP >= NEXT {
        slow();
    }
}

#[cold]
#[inline(never)]
unsafe fn slow() {
    if STEP >= BUDGET {
        BUDGET = u64::MAX;
        violation("no-progress", format_args!("step budget exhausted at step {STEP}: no progress"));
    }
    if STEP >= PREEMPT_AT {
        PREEMPT_AT = u64::MAX;
        sched::preempt();
    }
    NEXT = BUDGET.min(PREEMPT_AT);
}

macro_rules! access {
    ($($n:ident),*) => { $(
        #[no_mangle]
        pub unsafe extern "C" fn $n(_p: usize) { if ARMED { step() } }
    )* };
}
access!(
    __sanitizer_cov_load1, __sanitizer_cov_load2, __sanitizer_cov_load4, __sanitizer_cov_load8,
    __sanitizer_cov_load16, __sanitizer_cov_store1, __sanitizer_cov_store2, __sanitizer_cov_store4,
    __sanitizer_cov_store8, __sanitizer_cov_store16
);

// ---------------------------------------------------------------------------------------------
// nested executions: the same code in a process that has done nothing else

/// Runs f in a fork of this process (which has to be single threaded) and returns its output.
/// Err: the nested execution ended in a panic, crash or exhausted budget.
pub fn pristine(f: impl FnOnce() -> Vec<u8>) -> Result<Vec<u8>, String> {
    unsafe {
        if NESTED || sched::current() != sched::COORD {
            harness_error("pristine() has to be called by the coordinator");
        }
        let hdr = SCRATCH as *mut u64;
        *hdr = 0;
        let pid = sys::fork();
        if pid == 0 {
            NESTED = true;
            STEP = 0;
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            ARMED = false;
            match r {
                Ok(v) => {
                    if v.len() > SCRATCH_LEN - 16 {
                        harness_error("reference result too large");
                    }
                    std::ptr::copy_nonoverlapping(v.as_ptr(), SCRATCH.add(16), v.len());
                    *hdr.add(1) = v.len() as u64;
                    *hdr = 1;
                }
                Err(_) => violation("panic", format_args!("{}", last_panic())),
            }
            sys::exit(0);
        }
        let st = sys::wait(pid);
        let bytes = |n: usize| std::slice::from_raw_parts(SCRATCH.add(16), n).to_vec();
        match *hdr {
            1 => Ok(bytes(*hdr.add(1) as usize)),
            2 => Err(String::from_utf8_lossy(&bytes(*hdr.add(1) as usize)).into_owned()),
            3 => harness_error(&String::from_utf8_lossy(&bytes(*hdr.add(1) as usize))),
            _ => Err(format!("killed by the environment (wait status {st:#x})")),
        }
    }
}
