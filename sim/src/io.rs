//! Simulated byte sources: chunking, interruptions, errors, endless streams.

use crate::common::*;
use std::io;

pub const KINDS: &[io::ErrorKind] = &[
    io::ErrorKind::Other,
    io::ErrorKind::ConnectionReset,
    io::ErrorKind::BrokenPipe,
    io::ErrorKind::TimedOut,
    io::ErrorKind::WouldBlock,
    io::ErrorKind::UnexpectedEof,
    io::ErrorKind::PermissionDenied,
    io::ErrorKind::InvalidData,
    io::ErrorKind::InvalidInput,
    io::ErrorKind::NotFound,
    io::ErrorKind::ConnectionAborted,
    io::ErrorKind::WriteZero,
    io::ErrorKind::OutOfMemory,
    io::ErrorKind::NotConnected,
];
pub const ERRNOS: &[i32] = &[5 /*EIO*/, 104 /*ECONNRESET*/, 110 /*ETIMEDOUT*/, 11 /*EAGAIN*/, 116 /*ESTALE*/, 13, 12 /*ENOMEM*/, 9];

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    Kind(io::ErrorKind),
    Os(i32),
}
impl Fault {
    pub fn draw() -> Fault {
        let k = flt((KINDS.len() + ERRNOS.len()) as u32) as usize;
        if k < KINDS.len() {
            Fault::Kind(KINDS[k])
        } else {
            Fault::Os(ERRNOS[k - KINDS.len()])
        }
    }
    pub fn draw_os() -> i32 {
        ERRNOS[flt(ERRNOS.len() as u32) as usize]
    }
    pub fn error(self) -> io::Error {
        match self {
            Fault::Kind(k) => io::Error::new(k, "injected"),
            Fault::Os(e) => io::Error::from_raw_os_error(e),
        }
    }
    pub fn kind(self) -> io::ErrorKind {
        self.error().kind()
    }
}

/// what a source delivers
#[derive(Clone, Debug)]
pub struct Plan {
    pub data: Vec<u8>,
    /// after this many bytes a read fails
    pub fail_at: Option<(usize, Fault)>,
    /// the failure persists
    pub persistent: bool,
    /// repeated for ever after `data`
    pub endless: Vec<u8>,
    /// 0: as much as fits, otherwise at most this many bytes at a time
    pub chunk: usize,
    /// interruptions per 16 reads
    pub eintr: u32,
    pub delay: u64,
    /// panics at this read
    pub crash_at: Option<u64>,
}
impl Plan {
    pub fn of(data: Vec<u8>) -> Plan {
        Plan { data, fail_at: None, persistent: true, endless: vec![], chunk: 0, eintr: 0, delay: 0, crash_at: None }
    }
    /// benign variations of the delivery
    pub fn vary(&mut self) {
        if flt_maybe(2, 3) {
            self.chunk = [1, 2, 3, 5, 16, 64, 1000][flt(7) as usize];
        }
        if flt_maybe(1, 2) {
            self.eintr = 1 + flt(8);
        }
        if flt_maybe(1, 4) {
            self.delay = 1_000 * (1 + flt(1_000_000) as u64);
            rt::fault(F_DELAY);
        }
    }
}

#[derive(Default, Debug, Clone)]
pub struct Log {
    pub calls: u64,
    pub bytes: u64,
    pub errors: u64,
    pub interrupts: u64,
    pub eofs: u64,
}

pub struct Source {
    pub plan: Plan,
    pub pos: usize,
    pub log: Log,
    row: u32,
    failed: bool,
}
impl Source {
    pub fn new(plan: Plan) -> Source {
        Source { plan, pos: 0, log: Log::default(), row: 0, failed: false }
    }
    /// one read of the simulated medium
    pub fn step(&mut self, buf: &mut [u8]) -> Result<usize, Option<Fault>> {
        self.log.calls += 1;
        rt::advance(self.plan.delay);
        if self.plan.crash_at == Some(self.log.calls - 1) {
            rt::fault(F_CRASH);
            ev!("read #{}: client crashes", self.log.calls);
            std::panic::panic_any(rt::Crash);
        }
        if buf.is_empty() {
            return Ok(0);
        }
        if self.plan.eintr > 0 && self.row < 6 && flt_maybe(self.plan.eintr, 16) {
            self.row += 1;
            self.log.interrupts += 1;
            rt::fault(F_EINTR);
            ev!("read #{}: EINTR", self.log.calls);
            return Err(None);
        }
        self.row = 0;
        let mut end = self.plan.data.len();
        if let Some((at, f)) = self.plan.fail_at {
            if at <= self.pos && (self.plan.persistent || !self.failed) {
                self.failed = true;
                self.log.errors += 1;
                rt::fault(if self.plan.persistent { F_READERR } else { F_READERR_ONCE });
                ev!("read #{}: fails with {f:?} at offset {}", self.log.calls, self.pos);
                return Err(Some(f));
            }
            if !(self.failed && !self.plan.persistent) {
                end = end.min(at);
            }
        }
        let mut n = buf.len();
        if self.plan.chunk > 0 {
            let c = 1 + flt(self.plan.chunk as u32) as usize;
            if c < n {
                n = c;
                rt::fault(F_SHORT);
            }
        }
        let mut k = 0;
        while k < n && self.pos < end {
            buf[k] = self.plan.data[self.pos];
            k += 1;
            self.pos += 1;
        }
        if self.pos >= self.plan.data.len() && !self.plan.endless.is_empty() && (self.plan.fail_at.is_none()) {
            rt::fault(F_ENDLESS);
            while k < n {
                buf[k] = self.plan.endless[(self.pos - self.plan.data.len()) % self.plan.endless.len()];
                k += 1;
                self.pos += 1;
            }
        }
        if k == 0 {
            self.log.eofs += 1;
        }
        self.log.bytes += k as u64;
        ev!("read #{}: {k} of {} bytes", self.log.calls, buf.len());
        Ok(k)
    }
}

impl io::Read for &mut Source {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        host(|| {
            yield_now();
            match self.step(buf) {
                Ok(n) => Ok(n),
                Err(None) => Err(io::Error::from(io::ErrorKind::Interrupted)),
                Err(Some(f)) => Err(f.error()),
            }
        })
    }
}
