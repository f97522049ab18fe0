//! Instrumented in-memory device: Read + BufRead + Write + Seek with
//! scheduled chunking, interruptions and faults.

use std::io::{self, BufRead, Read, Seek, SeekFrom, Write};

#[derive(Clone, Debug, PartialEq)]
pub enum Fault {
    None,
    /// The `n`th read/write call (0-based) and all later ones fail.
    Call(u64),
    /// Any access at or beyond this offset fails.
    Offset(u64),
    /// Like `Call`, but writes return Ok(0) and reads return end-of-file.
    Zero(u64),
    /// Like `Offset`, but writes return Ok(0) once nothing more fits.
    Full(u64),
    /// The `n`th seek and all later ones fail.
    Seek(u64),
    /// Only the `n`th read/write call fails.
    Once(u64),
}

pub const FAULT_MSG: &str = "injected fault 7341";

#[derive(Clone, Debug)]
pub struct Mem {
    pub data: Vec<u8>,
    pub pos: u64,
    /// Cyclic schedule of chunk sizes; 0 means "interrupted".  Empty: no limit.
    pub plan: Vec<u8>,
    pub plan_at: usize,
    pub fault: Fault,
    pub fault_kind: io::ErrorKind,
    /// Injected faults delivered so far.
    pub faults: u64,
    pub seek_ok: bool,
    /// Statistics
    pub reads: u64,
    pub writes: u64,
    pub seeks: u64,
    pub bytes_read: u64,
    /// One past the highest offset ever delivered to a reader.
    pub max_read: u64,
    pub min_written: u64,
    pub max_written: u64,
    pub min_pos: u64,
    pub max_pos: u64,
    /// Remaining calls before the fuse blows.
    pub fuse: u64,
    /// Reads past the end are counted.
    pub eof_reads: u64,
    /// Extra offset added to positions reported by seek.
    buf: Vec<u8>,
}

impl Mem {
    pub fn new(data: Vec<u8>) -> Self {
        Mem {
            data, pos: 0, plan: Vec::new(), plan_at: 0, fault: Fault::None, fault_kind: io::ErrorKind::BrokenPipe, faults: 0, seek_ok: true,
            reads: 0, writes: 0, seeks: 0, bytes_read: 0, max_read: 0,
            min_written: u64::MAX, max_written: 0, min_pos: 0, max_pos: 0,
            fuse: 50_000_000, eof_reads: 0, buf: Vec::new(),
        }
    }
    pub fn with_plan(mut self, plan: Vec<u8>) -> Self { self.plan = plan; self }
    pub fn with_fault(mut self, f: Fault) -> Self { self.fault = f; self }
    pub fn with_fuse(mut self, n: u64) -> Self { self.fuse = n; self }
    pub fn no_seek(mut self) -> Self { self.seek_ok = false; self }

    fn burn(&mut self) {
        if self.fuse == 0 { panic!("FUSE: runaway number of I/O calls"); }
        self.fuse -= 1;
    }
    /// Err(interrupted) or the number of bytes this call may move.
    fn step(&mut self, want: usize) -> io::Result<usize> {
        if self.plan.is_empty() { return Ok(want); }
        let p = self.plan[self.plan_at % self.plan.len()] as usize;
        self.plan_at += 1;
        if p == 0 {
            // never interrupt for ever
            if self.plan.iter().all(|&x| x == 0) { return Ok(want.min(1)); }
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        Ok(want.min(p))
    }
    fn err(&mut self) -> io::Error { self.faults += 1; io::Error::new(self.fault_kind, FAULT_MSG) }
    fn touch(&mut self) {
        if self.pos < self.min_pos { self.min_pos = self.pos; }
        if self.pos > self.max_pos { self.max_pos = self.pos; }
    }
    fn avail(&self) -> usize {
        if self.pos >= self.data.len() as u64 { 0 } else { self.data.len() - self.pos as usize }
    }
}

impl Read for Mem {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        self.burn();
        let call = self.reads;
        self.reads += 1;
        if buf.is_empty() { return Ok(0); }
        let mut want = buf.len();
        match self.fault {
            Fault::Call(n) if call >= n => return Err(self.err()),
            Fault::Once(n) if call == n => return Err(self.err()),
            Fault::Zero(n) if call >= n => { self.faults += 1; return Ok(0) }
            Fault::Offset(o) => {
                if self.pos >= o { return Err(self.err()); }
                want = want.min((o - self.pos) as usize);
            }
            _ => {}
        }
        let n = self.step(want)?.min(self.avail());
        if n == 0 { self.eof_reads += 1; return Ok(0); }
        let p = self.pos as usize;
        buf[..n].copy_from_slice(&self.data[p..p + n]);
        self.pos += n as u64;
        self.bytes_read += n as u64;
        if self.pos > self.max_read { self.max_read = self.pos; }
        self.touch();
        Ok(n)
    }
}

impl BufRead for Mem {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        self.burn();
        let call = self.reads;
        self.reads += 1;
        match self.fault {
            Fault::Call(n) if call >= n => return Err(self.err()),
            Fault::Once(n) if call == n => return Err(self.err()),
            Fault::Zero(n) if call >= n => { self.faults += 1; return Ok(&[]) }
            Fault::Offset(o) if self.pos >= o => return Err(self.err()),
            _ => {}
        }
        let n = self.step(64)?.min(self.avail());
        if n == 0 { self.eof_reads += 1; return Ok(&[]); }
        let p = self.pos as usize;
        self.buf.clear();
        self.buf.extend_from_slice(&self.data[p..p + n]);
        Ok(&self.buf)
    }
    fn consume(&mut self, amt: usize) {
        self.pos += amt as u64;
        if self.pos > self.max_read { self.max_read = self.pos; }
        self.touch();
    }
}

impl Write for Mem {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        self.burn();
        let call = self.writes;
        self.writes += 1;
        if buf.is_empty() { return Ok(0); }
        let mut want = buf.len();
        match self.fault {
            Fault::Call(n) if call >= n => return Err(self.err()),
            Fault::Once(n) if call == n => return Err(self.err()),
            Fault::Zero(n) if call >= n => { self.faults += 1; return Ok(0) }
            Fault::Offset(o) => {
                if self.pos >= o { return Err(self.err()); }
                want = want.min((o - self.pos) as usize);
            }
            Fault::Full(o) => {
                if self.pos >= o { self.faults += 1; return Ok(0); }
                want = want.min((o - self.pos) as usize);
            }
            _ => {}
        }
        let n = self.step(want)?;
        let p = self.pos as usize;
        if self.data.len() < p { self.data.resize(p, 0xEE); }
        for (i, &b) in buf[..n].iter().enumerate() {
            if p + i < self.data.len() { self.data[p + i] = b; } else { self.data.push(b); }
        }
        if n > 0 {
            self.min_written = self.min_written.min(self.pos);
            self.max_written = self.max_written.max(self.pos + n as u64);
        }
        self.pos += n as u64;
        self.touch();
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}

impl Seek for Mem {
    fn seek(&mut self, w: SeekFrom) -> io::Result<u64> {
        self.burn();
        let call = self.seeks;
        self.seeks += 1;
        if !self.seek_ok { return Err(io::Error::new(io::ErrorKind::Other, "not seekable")); }
        if let Fault::Seek(n) = self.fault {
            if call >= n { return Err(self.err()); }
        }
        let (base, off) = match w {
            SeekFrom::Start(p) => { self.pos = p; self.touch(); return Ok(p); }
            SeekFrom::End(o) => (self.data.len() as u64, o),
            SeekFrom::Current(o) => (self.pos, o),
        };
        match base.checked_add_signed(off) {
            Some(p) => { self.pos = p; self.touch(); Ok(p) }
            None => Err(io::Error::new(io::ErrorKind::InvalidInput, "seek out of range")),
        }
    }
}

/// Shared handle to a `Mem`, so that a test can look at the device while the
/// code under test owns a handle.
#[derive(Debug)]
pub struct Dev {
    core: std::rc::Rc<std::cell::RefCell<Mem>>,
    buf: Vec<u8>,
}
impl Clone for Dev {
    fn clone(&self) -> Self { Dev { core: self.core.clone(), buf: Vec::new() } }
}
impl Dev {
    pub fn new(m: Mem) -> Self { Dev { core: std::rc::Rc::new(std::cell::RefCell::new(m)), buf: Vec::new() } }
    pub fn of(data: &[u8]) -> Self { Dev::new(Mem::new(data.to_vec())) }
    pub fn m(&self) -> std::cell::RefMut<'_, Mem> { self.core.borrow_mut() }
    pub fn data(&self) -> Vec<u8> { self.m().data.clone() }
    pub fn pos(&self) -> u64 { self.m().pos }
}
impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> { self.core.borrow_mut().read(buf) }
}
impl BufRead for Dev {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let mut c = self.core.borrow_mut();
        let b = c.fill_buf()?;
        self.buf.clear();
        self.buf.extend_from_slice(b);
        drop(c);
        Ok(&self.buf)
    }
    fn consume(&mut self, amt: usize) { self.core.borrow_mut().consume(amt) }
}
impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> { self.core.borrow_mut().write(buf) }
    fn flush(&mut self) -> io::Result<()> { self.core.borrow_mut().flush() }
}
impl Seek for Dev {
    fn seek(&mut self, w: SeekFrom) -> io::Result<u64> { self.core.borrow_mut().seek(w) }
}

/// A device of any size: given bytes at the start, a pattern in the middle and
/// given bytes from `end` on.
#[derive(Debug)]
pub struct Sparse {
    pub head: Vec<u8>,
    pub end: u64,
    pub tail: Vec<u8>,
    pub over: std::collections::BTreeMap<u64, u8>,
    pub pos: u64,
    pub plan: Vec<u8>,
    plan_at: usize,
    pub min: u64,
    pub max: u64,
    pub calls: u64,
    buf: Vec<u8>,
    /// Further given bytes, in order.
    pub segs: Vec<(u64, Vec<u8>)>,
}
pub fn pattern(p: u64) -> u8 { (p.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 56) as u8 }
impl Sparse {
    pub fn new(head: Vec<u8>, end: u64, tail: Vec<u8>, plan: Vec<u8>) -> Sparse {
        Sparse { head, end, tail, over: Default::default(), pos: 0, plan, plan_at: 0, min: u64::MAX, max: 0, calls: 0, buf: vec![], segs: vec![] }
    }
    pub fn at(&self, p: u64) -> Option<u8> {
        if let Some(&b) = self.over.get(&p) { return Some(b); }
        if p < self.head.len() as u64 { return Some(self.head[p as usize]); }
        if p < self.end {
            let i = self.segs.partition_point(|x| x.0 <= p);
            if i > 0 { if let Some(&b) = self.segs[i - 1].1.get((p - self.segs[i - 1].0) as usize) { return Some(b); } }
            return Some(pattern(p));
        }
        self.tail.get((p - self.end) as usize).cloned()
    }
    fn step(&mut self, want: usize) -> io::Result<usize> {
        self.calls += 1;
        if self.calls > 5_000_000 { panic!("FUSE: runaway number of I/O calls"); }
        if self.plan.is_empty() { return Ok(want.min(1000)); }
        let p = self.plan[self.plan_at % self.plan.len()] as usize;
        self.plan_at += 1;
        if p == 0 {
            if self.plan.iter().all(|&x| x == 0) { return Ok(want.min(1)); }
            return Err(io::Error::new(io::ErrorKind::Interrupted, "interrupted"));
        }
        Ok(want.min(p))
    }
    fn touch(&mut self, n: u64) {
        if n == 0 { return; }
        self.min = self.min.min(self.pos);
        self.pos += n;
        self.max = self.max.max(self.pos);
    }
}
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        let n = self.step(buf.len())?;
        let mut k = 0;
        while k < n { match self.at(self.pos + k as u64) { Some(b) => buf[k] = b, None => break } k += 1; }
        self.touch(k as u64);
        Ok(k)
    }
}
impl BufRead for Sparse {
    fn fill_buf(&mut self) -> io::Result<&[u8]> {
        let n = self.step(64)?;
        self.buf.clear();
        for k in 0..n { match self.at(self.pos + k as u64) { Some(b) => self.buf.push(b), None => break } }
        Ok(&self.buf)
    }
    fn consume(&mut self, n: usize) { self.touch(n as u64) }
}
impl Write for Sparse {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        if buf.is_empty() { return Ok(0); }
        let n = self.step(buf.len())?;
        for k in 0..n { self.over.insert(self.pos + k as u64, buf[k]); }
        self.touch(n as u64);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> { Ok(()) }
}
impl Seek for Sparse {
    fn seek(&mut self, w: SeekFrom) -> io::Result<u64> {
        let t = match w {
            SeekFrom::Start(p) => Some(p),
            SeekFrom::End(o) => (self.end + self.tail.len() as u64).checked_add_signed(o),
            SeekFrom::Current(o) => self.pos.checked_add_signed(o),
        };
        match t {
            Some(p) => { self.pos = p; Ok(p) }
            None => Err(io::Error::new(io::ErrorKind::InvalidInput, "seek out of range")),
        }
    }
}
