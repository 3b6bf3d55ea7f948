//! names and small helpers shared by all scenarios

pub use rt::sched::{run_threads, yield_now, Job};
pub use rt::{ev, fail, host, lib, lib_catch, pristine, Caught};

pub const DEFAULT_BUDGET: u64 = 400_000_000;

macro_rules! names {
    ($list:ident: $($id:ident = $n:expr, $name:expr;)*) => {
        $(#[allow(dead_code)] pub const $id: usize = $n;)*
        pub const $list: &[&str] = &[$($name),*];
    };
}
names! { FAULTS:
    F_EINTR = 0, "interrupted call (EINTR)";
    F_SHORT = 1, "short read";
    F_READERR = 2, "read error";
    F_READERR_ONCE = 3, "transient read error";
    F_CORRUPT = 4, "corrupted byte(s)";
    F_TRUNC = 5, "truncated data";
    F_LOST = 6, "lost block or line";
    F_DUP = 7, "duplicated block, line or message";
    F_REORDER = 8, "reordered blocks, lines or messages";
    F_UTF8 = 9, "invalid UTF-8";
    F_OPEN = 10, "open fails";
    F_STAT = 11, "stat fails";
    F_VANISH = 12, "file disappears between stat and open";
    F_SINKERR = 13, "write to stdout/stderr fails";
    F_SINKSHORT = 14, "short write to stdout/stderr";
    F_SINKEINTR = 15, "interrupted write to stdout/stderr";
    F_CRASH = 16, "client crashes (panic) inside a callback";
    F_CANCEL = 17, "work is abandoned (dropped) part-way";
    F_ENTROPY = 18, "other hash seed";
    F_LAYOUT = 19, "other heap layout";
    F_POISON = 20, "other content of fresh/released memory";
    F_CLOCK = 21, "clock jump";
    F_STACK = 22, "small stack";
    F_HISTORY = 23, "other history of the process or thread";
    F_THREAD = 24, "moved to another thread";
    F_ENDLESS = 25, "endless stream";
    F_HUGE = 26, "huge declared count";
    F_TORN = 27, "torn write";
    F_LOSTWRITE = 28, "lost write";
    F_WRITEERR = 29, "write error (full disk)";
    F_BITFLIP = 30, "flipped stored bits";
    F_STALE = 31, "stale or unknown handle";
    F_DELAY = 32, "delayed delivery";
    F_HINT = 33, "unhelpful size hint";
    F_UNFUSED = 34, "source that delivers again after its end";
    F_REENTRANT = 35, "reentrant use from a callback";
    F_STALECOPY = 36, "late write back of a stale copy";
    F_NOROOM = 37, "storage fault while saving";
    F_CRASHRESTART = 38, "crash and restart";
    F_FIELD = 39, "stored field missing, null or replaced";
    F_ROGUE = 40, "contract-breaking input makes a build fail or panic";
}
names! { PROBES:
    P_OK = 0, "accepted";
    P_ERR = 1, "error reported";
    P_DECIDED = 2, "fault after the outcome was decided";
    P_MALFORMED = 3, "malformed line reached";
    P_DIAG = 4, "diagnostic written";
    P_POINTS = 5, "points present";
    P_SEGS = 6, "segments present";
    P_CURVED = 7, "curved edges present";
    P_SECONDARY = 8, "secondary edges present";
    P_DEGENERATE = 9, "degenerate cells present";
    P_NOVERTEX = 10, "diagram without vertices";
    P_EMPTY = 11, "empty diagram";
    P_SINGLE = 12, "single cell diagram";
    P_BIG = 13, "more than 60 sites";
    P_HIGHDEG = 14, "vertex of degree above 3";
    P_INTERLEAVED = 15, "operations of clients interleaved";
    P_DUPSITE = 16, "site contributed more than once";
    P_SITEVERTEX = 17, "vertex on a site";
    P_EXTERIOR = 18, "edge marked as exterior";
    P_INTERIOR = 19, "edge not marked as exterior";
    P_REJECTED = 20, "late vertices rejected";
    P_DESER_OK = 21, "damaged data accepted by the decoder";
    P_DESER_ERR = 22, "damaged data refused by the decoder";
    P_OLD = 23, "previous version recovered after a crash";
    P_NEW = 24, "new version recovered after a crash";
    P_WRAP = 25, "colour with the highest bits set";
    P_REPOPEN = 26, "file opened";
    P_MULTILINE = 27, "more than one read per line";
    P_ZEROLEN = 28, "zero length segment";
    P_COLLINEAR = 29, "collinear start (vertical sites)";
}

pub const ASSUMPTIONS: &[&str] = &[
    "structured (nearly degenerate) inputs stay within about +-1e6 (beyond that doubles can't express their diagrams), random ones use all of the 32 bit range; the input obeys the documented contract (segments only meet at end points, no point inside a segment) unless the scenario says otherwise",
    "x86-64 Linux, the dev profile with debug assertions and overflow checks, default features plus serde",
    "sampling: a clean batch is evidence, not proof",
    "preemption happens between instrumented basic blocks, loads and stores; weak memory effects are not simulated",
];

pub fn ops(n: u32) -> u32 {
    rt::choice(rt::OPS, n)
}
/// num/den, false is the simple alternative
pub fn maybe(num: u32, den: u32) -> bool {
    rt::chance(rt::OPS, num, den)
}
pub fn flt(n: u32) -> u32 {
    rt::choice(rt::FAULT, n)
}
pub fn flt_maybe(num: u32, den: u32) -> bool {
    rt::chance(rt::FAULT, num, den)
}
pub fn sch(n: u32) -> u32 {
    rt::choice(rt::SCHED, n)
}
/// bound for the gap between preemptions: from "at every step" to "hardly ever"
pub fn gap() -> u32 {
    [0, 3, 10, 40, 150, 700, 4000, 30000][sch(8) as usize]
}

/// heap and entropy of the coming run; value 0 is the plain environment
pub fn swarm_env() {
    if flt_maybe(1, 2) {
        let seed = flt(1 << 30) as u64;
        rt::fault(F_ENTROPY);
        unsafe { rt::sys::ENTROPY = rt::Rng(seed.wrapping_mul(0x9E37_79B9)) };
    }
    if flt_maybe(1, 2) {
        let c = alloc_config();
        rt::alloc::configure(c);
    }
}
pub fn alloc_config() -> rt::alloc::Config {
    let pad = [0, 1, 7, 300][flt(4) as usize];
    let reuse = flt(3) as u8;
    let fill = [0, 0xff, 0xa5, 0x01][flt(4) as usize];
    let scrub = [0, 0xff, 0xdd, 0x01][flt(4) as usize];
    if pad > 0 || reuse > 0 {
        rt::fault(F_LAYOUT);
    }
    if fill > 0 || scrub > 0 {
        rt::fault(F_POISON);
    }
    rt::alloc::Config { seed: flt(1 << 20) as u64, pad, reuse, fill, scrub }
}

/// the result of a step that must not panic
pub fn unwrap_caught<R>(what: &str, c: Caught<R>) -> R {
    match c {
        Caught::Done(r) => r,
        Caught::Crashed => fail!("panic", "{what}: the simulated crash of another client came out here"),
        Caught::Panicked(m) => fail!("panic", "{what}: {m}"),
    }
}

/// interleaves the steps of tasks on one thread; a task returns false when it is done
pub fn interleave(tasks: &mut [Box<dyn FnMut() -> bool + '_>]) {
    let mut live: Vec<usize> = (0..tasks.len()).collect();
    let mut last = usize::MAX;
    while !live.is_empty() {
        // 0: continue with the current one
        let k = match live.iter().position(|x| *x == last) {
            Some(p) => (p + sch(live.len() as u32) as usize) % live.len(),
            None => sch(live.len() as u32) as usize,
        };
        if last != usize::MAX && live[k] != last {
            rt::probe(P_INTERLEAVED);
        }
        last = live[k];
        if !tasks[last]() {
            live.remove(k);
        }
    }
}
