//! The simulated streams and the simulated disk.

use crate::rt::*;
use std::io::{self, ErrorKind, Read, Write};

pub const KINDS: [ErrorKind; 18] = [
    ErrorKind::Other,
    ErrorKind::BrokenPipe,
    ErrorKind::PermissionDenied,
    ErrorKind::TimedOut,
    ErrorKind::WouldBlock,
    ErrorKind::ConnectionReset,
    ErrorKind::ConnectionAborted,
    ErrorKind::InvalidData,
    ErrorKind::InvalidInput,
    ErrorKind::NotFound,
    ErrorKind::AlreadyExists,
    ErrorKind::UnexpectedEof,
    ErrorKind::StorageFull,
    ErrorKind::WriteZero,
    ErrorKind::Unsupported,
    ErrorKind::OutOfMemory,
    ErrorKind::AddrInUse,
    ErrorKind::NotConnected,
];

/// The same failure as different streams report it: a bare kind, one with a message or
/// another error inside, or what the operating system gave.
fn failure(kind: ErrorKind, form: u64) -> io::Error {
    let os = match kind {
        ErrorKind::Interrupted => libc::EINTR,
        ErrorKind::BrokenPipe => libc::EPIPE,
        ErrorKind::PermissionDenied => libc::EACCES,
        ErrorKind::TimedOut => libc::ETIMEDOUT,
        ErrorKind::WouldBlock => libc::EAGAIN,
        ErrorKind::ConnectionReset => libc::ECONNRESET,
        ErrorKind::ConnectionAborted => libc::ECONNABORTED,
        ErrorKind::InvalidInput => libc::EINVAL,
        ErrorKind::NotFound => libc::ENOENT,
        ErrorKind::AlreadyExists => libc::EEXIST,
        ErrorKind::StorageFull => libc::ENOSPC,
        ErrorKind::Unsupported => libc::ENOSYS,
        ErrorKind::OutOfMemory => libc::ENOMEM,
        ErrorKind::AddrInUse => libc::EADDRINUSE,
        ErrorKind::NotConnected => libc::ENOTCONN,
        _ => 0,
    };
    match form % 4 {
        0 => io::Error::from(kind),
        1 => io::Error::new(kind, "simulated failure"),
        2 => io::Error::new(kind, io::Error::new(ErrorKind::Other, "simulated cause")),
        _ if os == 0 => io::Error::from(kind),
        _ => io::Error::from_raw_os_error(os),
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Chunk {
    Whole,
    One,
    Fixed(usize),
    Random(usize),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Fault {
    None,
    /// This error once the offset is reached, for ever or once only.
    Error { at: u64, kind: ErrorKind, once: bool },
    /// The sink accepts nothing more (a write of 0 bytes).
    Zero { at: u64 },
    /// Bytes up to the offset fit, the write that crosses it fails with StorageFull at it.
    Full { at: u64 },
}

#[derive(Clone, Debug)]
pub struct Plan {
    pub chunk: Chunk,
    /// Interruptions: 0 none, otherwise about one call in n; bursts.
    pub eintr: u64,
    pub fault: Fault,
    pub seed: u64,
}

pub const CLEAN: Plan = Plan { chunk: Chunk::Whole, eintr: 0, fault: Fault::None, seed: 0 };

/// Draws a way of splitting that loses nothing.
pub fn transparent() -> Plan {
    let chunk = match draw(6) {
        0 => Chunk::Whole,
        1 => Chunk::One,
        2 => Chunk::Fixed(1 + draw(40) as usize),
        3 => Chunk::Random(1 + draw(8) as usize),
        4 => Chunk::Random(1 + draw(100) as usize),
        _ => Chunk::Random(1 + draw(5000) as usize),
    };
    let eintr = *pick(&[0, 0, 7, 3, 2]);
    Plan { chunk, eintr, fault: Fault::None, seed: seed_draw() }
}

impl Plan {
    pub fn describe(&self) -> String {
        format!("{:?}, interrupted 1 in {}, {:?}", self.chunk, self.eintr, self.fault)
    }
}

struct Core {
    plan: Plan,
    rng: Prng,
    pos: u64,
    calls: u64,
    burst: u64,
    storm: u64,
    fired: bool,
    spent: bool,
    livelock: bool,
}

/// Calls allowed, beside those that the bytes transferred account for.
pub const MAX_CALLS: u64 = 2_000_000;
/// No file of a run is this large.
pub const MAX_BYTES: u64 = 1 << 28;

enum Act {
    Go(usize),
    Ret(io::Result<usize>),
}

impl Core {
    fn new(plan: Plan) -> Core {
        Core {
            rng: Prng::new(plan.seed ^ 0x10),
            plan,
            pos: 0,
            calls: 0,
            burst: 0,
            storm: 5000,
            fired: false,
            spent: false,
            livelock: false,
        }
    }
    /// What happens to a transfer of up to `want` (> 0) bytes.
    fn act(&mut self, want: usize, zero_ok: bool) -> Act {
        yield_point(0);
        self.calls += 1;
        if self.calls > MAX_CALLS + 16 * self.pos || self.pos > MAX_BYTES {
            self.livelock = true;
            return Act::Ret(Err(io::Error::from(ErrorKind::Other)));
        }
        if self.plan.eintr > 0 {
            if self.burst > 0 {
                self.burst -= 1;
                count("io_interrupted");
                let form = self.rng.below(4);
                return Act::Ret(Err(failure(ErrorKind::Interrupted, form)));
            }
            if self.rng.below(self.plan.eintr) == 0 {
                self.burst = self.rng.below(3);
                // Now and then many in a row, a limited number in one stream.
                if self.storm > 0 && self.rng.below(40) == 0 {
                    self.burst = (4 << self.rng.below(8)) + self.rng.below(4);
                    self.storm = self.storm.saturating_sub(self.burst);
                    count("io_interruption_storm");
                }
                count("io_interrupted");
                let form = self.rng.below(4);
                return Act::Ret(Err(failure(ErrorKind::Interrupted, form)));
            }
        }
        let mut n = match self.plan.chunk {
            Chunk::Whole => want,
            Chunk::One => 1,
            Chunk::Fixed(k) => k.min(want),
            Chunk::Random(k) => (1 + self.rng.below(k as u64) as usize).min(want),
        };
        let at = match self.plan.fault {
            Fault::None => u64::MAX,
            Fault::Error { at, .. } | Fault::Zero { at } | Fault::Full { at } => at,
        };
        if at != u64::MAX && !self.spent {
            if self.pos >= at {
                self.fired = true;
                match self.plan.fault {
                    Fault::Error { kind, once, .. } => {
                        if once {
                            self.spent = true;
                        }
                        count("io_error");
                        return Act::Ret(Err(failure(kind, self.plan.seed >> 7)));
                    }
                    Fault::Zero { .. } if zero_ok => {
                        count("io_zero_write");
                        return Act::Ret(Ok(0));
                    }
                    _ => {
                        count("io_disk_full");
                        return Act::Ret(Err(failure(ErrorKind::StorageFull, self.plan.seed >> 7)));
                    }
                }
            }
            n = n.min((at - self.pos) as usize);
        }
        if n < want {
            count("io_short");
        }
        self.pos += n as u64;
        Act::Go(n)
    }
}

pub struct SimWriter {
    core: Core,
    pub out: Vec<u8>,
    pub flushes: u64,
}

impl SimWriter {
    pub fn new(plan: &Plan) -> SimWriter {
        SimWriter { core: Core::new(plan.clone()), out: Vec::new(), flushes: 0 }
    }
    pub fn fired(&self) -> bool {
        self.core.fired
    }
    pub fn livelock(&self) -> bool {
        self.core.livelock
    }
    pub fn calls(&self) -> u64 {
        self.core.calls
    }
}

impl Write for SimWriter {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        match self.core.act(buf.len(), true) {
            Act::Go(n) => {
                self.out.extend_from_slice(&buf[..n]);
                Ok(n)
            }
            Act::Ret(r) => r,
        }
    }
    fn flush(&mut self) -> io::Result<()> {
        self.flushes += 1;
        Ok(())
    }
}

pub struct SimReader<'a> {
    core: Core,
    data: &'a [u8],
    pub eofs: u64,
}

impl<'a> SimReader<'a> {
    pub fn new(data: &'a [u8], plan: &Plan) -> SimReader<'a> {
        SimReader { core: Core::new(plan.clone()), data, eofs: 0 }
    }
    pub fn fired(&self) -> bool {
        self.core.fired
    }
    pub fn livelock(&self) -> bool {
        self.core.livelock
    }
    pub fn consumed(&self) -> u64 {
        self.core.pos
    }
    pub fn calls(&self) -> u64 {
        self.core.calls
    }
}

impl<'a> Read for SimReader<'a> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        let left = self.data.len() - self.core.pos as usize;
        if left == 0 {
            // The end of the data; an error may still be waiting behind it.
            if let Fault::Error { at, .. } = self.core.plan.fault {
                if at <= self.core.pos && !self.core.spent {
                    return match self.core.act(1, false) {
                        Act::Ret(r) => r,
                        Act::Go(_) => Ok(0),
                    };
                }
            }
            yield_point(0);
            self.eofs += 1;
            self.core.calls += 1;
            if self.core.calls > MAX_CALLS + 16 * self.core.pos {
                self.core.livelock = true;
                return Err(io::Error::from(ErrorKind::Other));
            }
            return Ok(0);
        }
        match self.core.act(buf.len().min(left), false) {
            Act::Go(n) => {
                let p = self.core.pos as usize;
                buf[..n].copy_from_slice(&self.data[p - n..p]);
                Ok(n)
            }
            Act::Ret(r) => r,
        }
    }
}

// ------------------------------------------------------------------------------------------------
// Disk

#[derive(Clone, Debug)]
pub enum DiskOp {
    Write { off: usize, data: Vec<u8> },
    Resize(usize),
}

/// A file on a disk with a volatile cache. Writes reach the cache; only `sync` makes them durable
/// for sure. A crash keeps the durable image plus any subset of the sectors written since, some of
/// them torn.
pub struct SimFile {
    pub durable: Vec<u8>,
    pub cache: Vec<u8>,
    pub ops: Vec<DiskOp>,
    pub pos: usize,
}

impl SimFile {
    pub fn new(data: Vec<u8>) -> SimFile {
        SimFile { cache: data.clone(), durable: data, ops: Vec::new(), pos: 0 }
    }
    pub fn truncate(&mut self, n: usize) {
        self.cache.resize(n, 0);
        self.ops.push(DiskOp::Resize(n));
    }
    pub fn sync(&mut self) {
        self.durable = self.cache.clone();
        self.ops.clear();
    }
    /// What is on the disk after the machine stops now.
    pub fn crash(&self, sector: usize, rng: &mut Prng, how: CrashHow) -> Vec<u8> {
        let mut img = self.durable.clone();
        let keep = match how {
            CrashHow::All => 256,
            CrashHow::None => 0,
            _ => rng.below(257),
        };
        let prefix = match how {
            CrashHow::Prefix => rng.below(self.ops.len() as u64 + 1) as usize,
            _ => self.ops.len(),
        };
        for (i, op) in self.ops.iter().enumerate() {
            match how {
                CrashHow::Prefix if i > prefix => break,
                _ => {}
            }
            match op {
                DiskOp::Resize(n) => {
                    let yes = match how {
                        CrashHow::Prefix | CrashHow::All => true,
                        CrashHow::None => false,
                        _ => rng.below(2) == 0,
                    };
                    if yes {
                        img.resize(*n, 0);
                    }
                }
                DiskOp::Write { off, data } => {
                    let mut at = 0;
                    while at < data.len() {
                        let pos = off + at;
                        let n = (sector - pos % sector).min(data.len() - at);
                        let mut part = &data[at..at + n];
                        at += n;
                        match how {
                            CrashHow::Prefix => {
                                if i == prefix {
                                    let k = rng.below(n as u64 + 1) as usize;
                                    part = &part[..k];
                                    if img.len() < pos + k {
                                        img.resize(pos + k, 0);
                                    }
                                    img[pos..pos + k].copy_from_slice(part);
                                    break;
                                }
                            }
                            CrashHow::All => {}
                            CrashHow::None => continue,
                            CrashHow::Subset | CrashHow::Torn => {
                                if rng.below(256) >= keep {
                                    continue;
                                }
                                if how == CrashHow::Torn && rng.below(3) == 0 {
                                    part = &part[..rng.below(n as u64 + 1) as usize];
                                }
                            }
                        }
                        if img.len() < pos + part.len() {
                            img.resize(pos + part.len(), 0);
                        }
                        img[pos..pos + part.len()].copy_from_slice(part);
                    }
                }
            }
        }
        img
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum CrashHow {
    /// Everything written survives.
    All,
    /// Nothing since the last sync survives.
    None,
    /// Writes survive in order up to a point, the last one in part.
    Prefix,
    /// Any subset of sectors.
    Subset,
    /// Any subset of sectors, some of them cut off.
    Torn,
}

/// Writes to a simulated file. The process is killed at `kill_at` bytes: the write that crosses it
/// is cut off there, and nothing that the process does afterwards has any effect.
pub struct DiskWriter<'a> {
    pub file: &'a mut SimFile,
    pub kill_at: usize,
    pub written: usize,
    pub chunk: Chunk,
    pub rng: Prng,
    /// The disk is full, or fails, from here on.
    pub fail_at: usize,
    pub failed: bool,
    /// Calls are interrupted now and then.
    pub eintr: bool,
}

impl<'a> DiskWriter<'a> {
    pub fn new(file: &'a mut SimFile, kill_at: usize, chunk: Chunk, seed: u64) -> DiskWriter<'a> {
        let rng = Prng::new(seed ^ 0x77);
        DiskWriter { file, kill_at, written: 0, chunk, rng, fail_at: usize::MAX, failed: false, eintr: false }
    }
    pub fn killed(&self) -> bool {
        self.written >= self.kill_at
    }
}

impl<'a> Write for DiskWriter<'a> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() {
            return Ok(0);
        }
        yield_point(0);
        if self.eintr && self.rng.below(5) == 0 {
            return Err(io::Error::from(io::ErrorKind::Interrupted));
        }
        if self.written >= self.fail_at && !self.killed() {
            self.failed = true;
            return Err(io::Error::from_raw_os_error(libc::ENOSPC));
        }
        let n = match self.chunk {
            Chunk::Whole => buf.len(),
            Chunk::One => 1,
            Chunk::Fixed(k) => k.min(buf.len()),
            Chunk::Random(k) => (1 + self.rng.below(k as u64) as usize).min(buf.len()),
        };
        let n = if self.killed() { n } else { n.min(self.fail_at.saturating_sub(self.written).max(1)) };
        let eff = n.min(self.kill_at.saturating_sub(self.written));
        if eff > 0 {
            let f = &mut *self.file;
            let end = f.pos + eff;
            if f.cache.len() < end {
                f.cache.resize(end, 0);
            }
            f.cache[f.pos..end].copy_from_slice(&buf[..eff]);
            f.ops.push(DiskOp::Write { off: f.pos, data: buf[..eff].to_vec() });
            f.pos = end;
            self.written += eff;
        }
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}
