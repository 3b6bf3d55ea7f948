//! System calls, and the libc entry points std uses that the simulation takes over.

use crate::*;
use std::arch::asm;

pub unsafe fn raw(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}

extern "C" {
    #[link_name = "fork"]
    fn c_fork() -> i32;
    fn __errno_location() -> *mut i32;
}

pub fn exit(code: i32) -> ! {
    unsafe {
        raw(231, code as usize, 0, 0, 0, 0, 0);
    }
    loop {}
}
pub fn fork() -> i32 {
    unsafe {
        let p = c_fork();
        if p < 0 {
            harness_error("fork failed");
        }
        p
    }
}
pub fn wait(pid: i32) -> i32 {
    let mut st = 0i32;
    unsafe {
        loop {
            let r = raw(61, pid as usize, &mut st as *mut i32 as usize, 0, 0, 0, 0);
            if r == pid as isize {
                return st;
            }
            if r != -4 {
                return -1;
            }
        }
    }
}
pub fn futex_wait(a: usize, v: u32) {
    unsafe {
        raw(202, a, 128, v as usize, 0, 0, 0);
    }
}
pub fn futex_wake(a: usize, n: u32) {
    unsafe {
        raw(202, a, 128 | 1, n as usize, 0, 0, 0);
    }
}
pub fn sched_yield() {
    unsafe {
        raw(24, 0, 0, 0, 0, 0, 0);
    }
}
pub fn write_all(fd: i32, mut b: &[u8]) {
    while !b.is_empty() {
        let r = unsafe { raw(1, fd as usize, b.as_ptr() as usize, b.len(), 0, 0, 0) };
        if r == -4 {
            continue;
        }
        if r <= 0 {
            return;
        }
        b = &b[r as usize..];
    }
}
pub fn eprint(s: &str) {
    write_all(2, s.as_bytes())
}
pub fn rlimit(res: usize, soft: u64, hard: u64) {
    let l = [soft, hard];
    unsafe {
        raw(160, res, l.as_ptr() as usize, 0, 0, 0, 0);
    }
}
pub fn alarm(s: u32) {
    unsafe {
        raw(37, s as usize, 0, 0, 0, 0, 0);
    }
}
/// disables address space randomisation for the processes executed from now on
pub fn no_aslr() -> bool {
    unsafe {
        let p = raw(135, 0xffff_ffff, 0, 0, 0, 0, 0);
        if p < 0 {
            return true;
        }
        if p & 0x40000 != 0 {
            return true;
        }
        raw(135, p as usize | 0x40000, 0, 0, 0, 0, 0) < 0
    }
}

// ---------------------------------------------------------------------------------------------
// hooks: None = not ours, Some(-errno) or Some(result)

pub struct Hooks {
    pub open: fn(&[u8], i32) -> Option<isize>,
    pub stat: fn(&[u8]) -> Option<Result<(u32, u64), i32>>,
    pub fstat: fn(i32) -> Option<Result<(u32, u64), i32>>,
    pub read: fn(i32, &mut [u8]) -> Option<isize>,
    pub write: fn(i32, &[u8]) -> Option<isize>,
    pub lseek: fn(i32, i64, i32) -> Option<isize>,
    pub close: fn(i32) -> Option<isize>,
}
static mut HOOKS: Option<Hooks> = None;
pub static mut ENTROPY: Rng = Rng(0);
pub static mut ENTROPY_CALLS: u64 = 0;
static mut SIM_ENV: bool = false;

pub fn set_hooks(h: Hooks) {
    unsafe { HOOKS = Some(h) }
}
/// from now on clock and entropy are simulated
pub fn simulate_env(on: bool) {
    unsafe { SIM_ENV = on }
}

unsafe fn hooked<T>(f: impl FnOnce(&Hooks) -> Option<T>) -> Option<T> {
    match &HOOKS {
        Some(h) => {
            let a = std::mem::replace(&mut ARMED, false);
            let r = f(h);
            ARMED = a;
            r
        }
        None => None,
    }
}
unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        *__errno_location() = -r as i32;
        -1
    } else {
        r
    }
}
unsafe fn cstr<'a>(p: *const u8) -> &'a [u8] {
    let mut n = 0;
    while *p.add(n) != 0 {
        n += 1;
    }
    std::slice::from_raw_parts(p, n)
}

#[no_mangle]
pub unsafe extern "C" fn open64(path: *const u8, flags: i32, mode: u32) -> i32 {
    ret(match hooked(|h| (h.open)(cstr(path), flags)) {
        Some(r) => r,
        None => raw(2, path as usize, flags as usize, mode as usize, 0, 0, 0),
    }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const u8, flags: i32, mode: u32) -> i32 {
    open64(path, flags, mode)
}
unsafe fn fill_statx(buf: *mut u8, mode: u32, size: u64) {
    std::ptr::write_bytes(buf, 0, 256);
    *(buf as *mut u32) = 0x7ff; // stx_mask
    *(buf.add(4) as *mut u32) = 4096;
    *(buf.add(16) as *mut u32) = 1; // nlink
    *(buf.add(28) as *mut u16) = mode as u16;
    *(buf.add(40) as *mut u64) = size;
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: i32, path: *const u8, flags: i32, mask: u32, buf: *mut u8) -> i32 {
    let p: &[u8] = if path.is_null() { b"" } else { cstr(path) };
    let r = if p.is_empty() { hooked(|h| (h.fstat)(dir)) } else { hooked(|h| (h.stat)(p)) };
    ret(match r {
        Some(Ok((mode, size))) => {
            fill_statx(buf, mode, size);
            0
        }
        Some(Err(e)) => -(e as isize),
        None => raw(332, dir as usize, path as usize, flags as usize, mask as usize, buf as usize, 0),
    }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: i32, p: *mut u8, n: usize) -> isize {
    ret(match hooked(|h| (h.read)(fd, std::slice::from_raw_parts_mut(p, n))) {
        Some(r) => r,
        None => raw(0, fd as usize, p as usize, n, 0, 0, 0),
    })
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: i32, p: *const u8, n: usize) -> isize {
    ret(match hooked(|h| (h.write)(fd, std::slice::from_raw_parts(p, n))) {
        Some(r) => r,
        None => raw(1, fd as usize, p as usize, n, 0, 0, 0),
    })
}
#[repr(C)]
struct Iov {
    p: *const u8,
    n: usize,
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: i32, v: *const u8, n: i32) -> isize {
    let mut all = Vec::new();
    let iov = std::slice::from_raw_parts(v as *const Iov, n as usize);
    let a = std::mem::replace(&mut ARMED, false);
    for i in iov {
        all.extend_from_slice(std::slice::from_raw_parts(i.p, i.n));
    }
    let r = write(fd, all.as_ptr(), all.len());
    drop(all);
    ARMED = a;
    r
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: i32, off: i64, whence: i32) -> i64 {
    ret(match hooked(|h| (h.lseek)(fd, off, whence)) {
        Some(r) => r,
        None => raw(8, fd as usize, off as usize, whence as usize, 0, 0, 0),
    }) as i64
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: i32) -> i32 {
    ret(match hooked(|h| (h.close)(fd)) {
        Some(r) => r,
        None => raw(3, fd as usize, 0, 0, 0, 0, 0),
    }) as i32
}

#[no_mangle]
pub unsafe extern "C" fn getrandom(p: *mut u8, n: usize, flags: u32) -> isize {
    if SIM_ENV {
        let a = std::mem::replace(&mut ARMED, false);
        ENTROPY_CALLS += 1;
        for i in 0..n {
            *p.add(i) = (ENTROPY.next() >> 32) as u8;
        }
        ARMED = a;
        return n as isize;
    }
    ret(raw(318, p as usize, n, flags as usize, 0, 0, 0))
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(id: i32, ts: *mut i64) -> i32 {
    if SIM_ENV {
        // every look at the clock takes a while
        SIM_NS += 100;
        let base: i64 = if id == 0 || id == 5 { 1_700_000_000 } else { 1000 };
        let now = SIM_NS.wrapping_add(JUMP_NS);
        *ts = base + (now / 1_000_000_000) as i64;
        *ts.add(1) = (now % 1_000_000_000) as i64;
        return 0;
    }
    ret(raw(228, id as usize, ts as usize, 0, 0, 0, 0)) as i32
}
unsafe fn sim_sleep(req: *const i64) {
    SIM_NS += (*req as u64).wrapping_mul(1_000_000_000).wrapping_add(*req.add(1) as u64);
    sched::yield_now();
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const i64, rem: *mut i64) -> i32 {
    if SIM_ENV {
        sim_sleep(req);
        return 0;
    }
    ret(raw(35, req as usize, rem as usize, 0, 0, 0, 0)) as i32
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(id: i32, flags: i32, req: *const i64, rem: *mut i64) -> i32 {
    if SIM_ENV {
        sim_sleep(req);
        return 0;
    }
    -raw(230, id as usize, flags as usize, req as usize, rem as usize, 0, 0) as i32
}
#[no_mangle]
pub unsafe extern "C" fn syscall(n: usize, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    if n == 202 && sched::current() != sched::COORD && !NESTED {
        match b & 0x7f {
            0 | 9 => {
                if AtomicU32::from_ptr(a as *mut u32).load(Ordering::SeqCst) != c as u32 {
                    return ret(-11);
                }
                return if sched::block_on(a, d != 0) { ret(-110) } else { 0 };
            }
            1 | 10 => return sched::unblock(a, c.min(1 << 20) as u32) as isize,
            _ => {}
        }
    }
    if n == 202 && ARMED && sched::current() == sched::COORD && matches!(b & 0x7f, 0 | 9) {
        // library code on the only thread there is: nobody is going to wake it
        if AtomicU32::from_ptr(a as *mut u32).load(Ordering::SeqCst) != c as u32 {
            return ret(-11);
        }
        if d == 0 {
            violation("deadlock", format_args!("the only thread waits for itself"));
        }
        SIM_NS += 1_000_000_000;
        return ret(-110);
    }
    if n == 318 {
        return getrandom(a as *mut u8, b, c as u32);
    }
    ret(raw(n, a, b, c, d, e, f))
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: i32, cmd: i32, arg: usize) -> i32 {
    // std looks at a descriptor before it is closed
    ret(match hooked(|h| (h.fstat)(fd)) {
        Some(Ok(_)) => 0,
        Some(Err(e)) => -(e as isize),
        None => raw(72, fd as usize, cmd as usize, arg, 0, 0, 0),
    }) as i32
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: i32, cmd: i32, arg: usize) -> i32 {
    fcntl(fd, cmd, arg)
}
