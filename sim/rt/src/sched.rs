//! Real threads, of which exactly one runs at any time. Which one is a recorded choice.

use crate::*;
use std::cell::Cell;

pub const COORD: usize = usize::MAX;
pub const MAX: usize = 16;

#[derive(Clone, Copy, PartialEq)]
enum St {
    Ready,
    Blocked { addr: usize, timed: bool },
    Done,
}

struct Th {
    turn: AtomicU32,
    st: St,
    timed_out: bool,
}
static mut TH: [Th; MAX] = [const { Th { turn: AtomicU32::new(0), st: St::Done, timed_out: false } }; MAX];
static mut N: usize = 0;
static ARRIVED: AtomicU32 = AtomicU32::new(0);
static COORD_TURN: AtomicU32 = AtomicU32::new(0);
static RELEASE: AtomicU32 = AtomicU32::new(0);
/// bound of the gap between two preemptions (0: never preempt)
static mut GAP: u32 = 0;

thread_local! { static ME: Cell<usize> = const { Cell::new(COORD) }; }

#[inline]
pub fn current() -> usize {
    ME.with(|m| m.get())
}

fn wait_on(a: &AtomicU32) {
    while a.load(Ordering::Acquire) == 0 {
        sys::futex_wait(a as *const _ as usize, 0);
    }
    a.store(0, Ordering::Relaxed);
}
fn wake(a: &AtomicU32) {
    a.store(1, Ordering::Release);
    sys::futex_wake(a as *const _ as usize, 1);
}

unsafe fn hand_to(next: usize) {
    if next == COORD {
        wake(&COORD_TURN)
    } else {
        wake(&TH[next].turn)
    }
}

/// distance to the next preemption
unsafe fn arm_preemption() {
    PREEMPT_AT = u64::MAX;
    if GAP > 0 {
        // 0: no further preemption until the next scheduling event
        let g = choice(SCHED, GAP + 1);
        if g > 0 {
            PREEMPT_AT = STEP + g as u64;
        }
    }
    NEXT = BUDGET.min(PREEMPT_AT);
}

/// the runnable threads except `me`
unsafe fn others(me: usize) -> ([usize; MAX], usize) {
    let mut v = [0; MAX];
    let mut k = 0;
    for i in 0..N {
        if i != me && TH[i].st == St::Ready {
            v[k] = i;
            k += 1;
        }
    }
    (v, k)
}

/// gives the baton away and returns once it is back
unsafe fn switch(me: usize, to: usize) {
    let armed = std::mem::replace(&mut ARMED, false);
    (*SHM).switches += 1;
    hand_to(to);
    wait_on(&TH[me].turn);
    ARMED = armed;
}

/// called from the instrumentation: the running thread loses the processor
pub unsafe fn preempt() {
    let me = current();
    if me == COORD {
        return;
    }
    let (v, k) = others(me);
    if k > 0 {
        let to = v[choice(SCHED, k as u32) as usize];
        (*SHM).preemptions += 1;
        ev!("preempted, next t{to}");
        switch(me, to);
    }
    arm_preemption();
}

/// a point where a thread offers the processor (callbacks, simulated I/O)
pub fn yield_now() {
    unsafe {
        let me = current();
        if me == COORD || NESTED {
            return;
        }
        let (v, k) = others(me);
        if k > 0 {
            let c = choice(SCHED, k as u32 + 1) as usize;
            if c > 0 {
                ev!("yields to t{}", v[c - 1]);
                switch(me, v[c - 1]);
                arm_preemption();
            }
        }
    }
}

/// pick somebody else because `me` can't run (blocked or done)
unsafe fn next_after(me: usize) -> usize {
    loop {
        let (v, k) = others(me);
        if k > 0 {
            return v[choice(SCHED, k as u32) as usize];
        }
        if (0..N).all(|i| TH[i].st == St::Done) {
            return COORD;
        }
        // everybody is blocked: time passes until a timed wait expires
        let timed = (0..N).find(|i| matches!(TH[*i].st, St::Blocked { timed: true, .. }));
        match timed {
            Some(t) => {
                SIM_NS += 1_000_000_000;
                TH[t].st = St::Ready;
                TH[t].timed_out = true;
                if t == me {
                    return me;
                }
            }
            None => violation("deadlock", format_args!("all unfinished threads are blocked")),
        }
    }
}

/// FUTEX_WAIT of a simulated thread. true: timed out
pub fn block_on(addr: usize, timed: bool) -> bool {
    unsafe {
        let me = current();
        TH[me].st = St::Blocked { addr, timed };
        TH[me].timed_out = false;
        let to = next_after(me);
        if to != me {
            switch(me, to);
            arm_preemption();
        }
        TH[me].timed_out
    }
}

/// FUTEX_WAKE of a simulated thread
pub fn unblock(addr: usize, mut n: u32) -> u32 {
    let mut woken = 0;
    unsafe {
        for t in TH[..N].iter_mut() {
            if let St::Blocked { addr: a, .. } = t.st {
                if a == addr && n > 0 {
                    t.st = St::Ready;
                    n -= 1;
                    woken += 1;
                }
            }
        }
    }
    woken
}

pub struct Job<'a> {
    pub stack: usize,
    pub f: Box<dyn FnOnce() + 'a>,
}

/// Runs the jobs, each on a thread of its own. `gap` bounds the number of instrumented steps
/// between two preemptions.
pub fn run_threads(gap: u32, jobs: Vec<Job<'_>>) {
    unsafe {
        if NESTED || current() != COORD {
            harness_error("run_threads() has to be called by the coordinator");
        }
        N = jobs.len();
        (*SHM).nthreads = (*SHM).nthreads.max(N as u32);
        ARRIVED.store(0, Ordering::SeqCst);
        RELEASE.store(0, Ordering::SeqCst);
        GAP = gap;
        let mut handles = Vec::new();
        for (i, j) in jobs.into_iter().enumerate() {
            TH[i].st = St::Ready;
            TH[i].turn.store(0, Ordering::SeqCst);
            let f: Box<dyn FnOnce() + 'static> = std::mem::transmute(j.f);
            struct Send_(Box<dyn FnOnce()>);
            unsafe impl Send for Send_ {}
            let f = Send_(f);
            let h = std::thread::Builder::new().stack_size(j.stack).spawn(move || {
                let f = f;
                let _ = ARRIVED.fetch_add(1, Ordering::SeqCst);
                wait_on(&TH[i].turn);
                ME.with(|m| m.set(i));
                arm_preemption();
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(move || {
                    let f = f;
                    (f.0)()
                }));
                ARMED = false;
                if r.is_err() {
                    violation("panic", format_args!("unexpected panic: {}", last_panic()));
                }
                TH[i].st = St::Done;
                let to = next_after(i);
                PREEMPT_AT = u64::MAX;
                ME.with(|m| m.set(COORD));
                hand_to(to);
                // stay around (and quiet) until everybody is done
                while RELEASE.load(Ordering::Acquire) == 0 {
                    sys::futex_wait(&RELEASE as *const _ as usize, 0);
                }
            });
            match h {
                Ok(h) => handles.push(h),
                Err(_) => harness_error("can't start a thread"),
            }
        }
        while ARRIVED.load(Ordering::SeqCst) != N as u32 {
            sys::sched_yield();
        }
        if N > 0 {
            let first = choice(SCHED, N as u32) as usize;
            hand_to(first);
            wait_on(&COORD_TURN);
        }
        PREEMPT_AT = u64::MAX;
        NEXT = BUDGET;
        RELEASE.store(1, Ordering::Release);
        sys::futex_wake(&RELEASE as *const _ as usize, u32::MAX >> 1);
        for h in handles {
            let _ = h.join();
        }
        N = 0;
    }
}
