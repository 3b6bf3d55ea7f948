//! Simulated disk and console behind std::fs and std::io::{stdout,stderr}.
//! Paths below /simdisk/ and the file descriptors 1 and 2 belong to the simulation.

use crate::common::*;
use crate::io::{Plan, Source};

pub struct File {
    pub path: &'static [u8],
    pub mode: u32, // S_IFREG 0o100000, S_IFDIR 0o040000, 0: does not exist
    pub plan: Plan,
    pub size: u64,
    pub stat_error: i32,
    pub open_error: i32,
    pub open_eintr: u32,
    pub vanish: bool,
}
impl File {
    pub fn new(path: &'static str, plan: Plan) -> File {
        File {
            path: path.as_bytes(),
            mode: 0o100644,
            size: plan.data.len() as u64,
            plan,
            stat_error: 0,
            open_error: 0,
            open_eintr: 0,
            vanish: false,
        }
    }
}

#[derive(Default)]
pub struct Console {
    /// errno of failing writes (0: healthy)
    pub error: i32,
    /// fails from this write on
    pub from: u64,
    pub short: bool,
    pub eintr: u32,
    pub writes: u64,
    pub bytes: u64,
    pub yields: bool,
    row: u32,
}

pub struct Disk {
    pub files: Vec<File>,
    pub fds: Vec<Option<(usize, Source)>>,
    pub opens: u64,
    pub closes: u64,
    pub bad_closes: u64,
    pub console: Console,
}
pub static mut DISK: Option<Disk> = None;
const BASE: i32 = 5000;

pub fn disk() -> &'static mut Disk {
    unsafe { DISK.as_mut().unwrap() }
}

fn find(p: &[u8]) -> Option<Option<usize>> {
    if !p.starts_with(b"/simdisk") {
        return None;
    }
    Some(disk().files.iter().position(|f| f.path == p && f.mode != 0))
}
fn slot(fd: i32) -> Option<usize> {
    let n = fd.checked_sub(BASE)?;
    if n >= 0 && (n as usize) < disk().fds.len() {
        Some(n as usize)
    } else {
        None
    }
}

fn open(p: &[u8], flags: i32) -> Option<isize> {
    let f = find(p)?;
    let d = disk();
    ev!("open {} flags {flags:#o}", String::from_utf8_lossy(p));
    let Some(i) = f else { return Some(-2) };
    if d.files[i].open_eintr > 0 {
        d.files[i].open_eintr -= 1;
        rt::fault(F_EINTR);
        return Some(-4);
    }
    if d.files[i].vanish {
        rt::fault(F_VANISH);
        d.files[i].mode = 0;
        return Some(-2);
    }
    if d.files[i].open_error != 0 {
        rt::fault(F_OPEN);
        return Some(-(d.files[i].open_error as isize));
    }
    if flags & 3 != 0 {
        return Some(-30); // EROFS
    }
    d.opens += 1;
    rt::probe(P_REPOPEN);
    let s = Source::new(d.files[i].plan.clone());
    d.fds.push(Some((i, s)));
    Some((BASE as usize + d.fds.len() - 1) as isize)
}
fn stat(p: &[u8]) -> Option<Result<(u32, u64), i32>> {
    let f = find(p)?;
    let d = disk();
    ev!("stat {}", String::from_utf8_lossy(p));
    let Some(i) = f else { return Some(Err(2)) };
    if d.files[i].stat_error != 0 {
        rt::fault(F_STAT);
        return Some(Err(d.files[i].stat_error));
    }
    Some(Ok((d.files[i].mode, d.files[i].size)))
}
fn fstat(fd: i32) -> Option<Result<(u32, u64), i32>> {
    let n = slot(fd)?;
    let d = disk();
    match &d.fds[n] {
        Some((i, _)) => Some(Ok((d.files[*i].mode, d.files[*i].size))),
        None => Some(Err(9)),
    }
}
fn read(fd: i32, buf: &mut [u8]) -> Option<isize> {
    let n = slot(fd)?;
    yield_now();
    let Some((i, s)) = &mut disk().fds[n] else { return Some(-9) };
    if disk().files[*i].mode & 0o170000 == 0o040000 {
        return Some(-21);
    }
    Some(match s.step(buf) {
        Ok(k) => k as isize,
        Err(None) => -4,
        Err(Some(crate::io::Fault::Os(e))) => -(e as isize),
        Err(Some(_)) => -5,
    })
}
fn lseek(fd: i32, off: i64, whence: i32) -> Option<isize> {
    let n = slot(fd)?;
    let d = disk();
    let Some((_, s)) = &mut d.fds[n] else { return Some(-9) };
    let base = match whence {
        0 => 0,
        1 => s.pos as i64,
        _ => s.plan.data.len() as i64,
    };
    s.pos = (base + off).max(0) as usize;
    Some(s.pos as isize)
}
fn close(fd: i32) -> Option<isize> {
    let n = slot(fd)?;
    let d = disk();
    if d.fds[n].take().is_some() {
        d.closes += 1;
        ev!("close");
        Some(0)
    } else {
        d.bad_closes += 1;
        Some(-9)
    }
}
fn write(fd: i32, buf: &[u8]) -> Option<isize> {
    if fd != 1 && fd != 2 {
        return slot(fd).map(|_| -9);
    }
    if disk().console.yields {
        yield_now();
    }
    let c = &mut disk().console;
    c.writes += 1;
    rt::probe(P_DIAG);
    if c.eintr > 0 && c.row < 4 && flt_maybe(c.eintr, 16) {
        c.row += 1;
        rt::fault(F_SINKEINTR);
        ev!("write to fd {fd}: EINTR");
        return Some(-4);
    }
    c.row = 0;
    if c.error != 0 && c.writes > c.from {
        rt::fault(F_SINKERR);
        ev!("write of {} bytes to fd {fd} fails with errno {}", buf.len(), c.error);
        return Some(-(c.error as isize));
    }
    let mut n = buf.len();
    if c.short && n > 1 {
        let k = 1 + flt(n as u32) as usize;
        if k < n {
            n = k;
            rt::fault(F_SINKSHORT);
        }
    }
    c.bytes += n as u64;
    ev!("write to fd {fd}: {n} of {} bytes", buf.len());
    Some(n as isize)
}

pub fn install() {
    unsafe {
        DISK = Some(Disk { files: vec![], fds: vec![], opens: 0, closes: 0, bad_closes: 0, console: Console::default() });
    }
    rt::sys::set_hooks(rt::sys::Hooks { open, stat, fstat, read, write, lseek, close });
}
