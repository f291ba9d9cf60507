//! A stream of up to 2^63 bytes whose content is a function of the position, except where written.
use crate::explore::LIVELOCK;
use crate::types::*;
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

enum Content {
    Bytes(Vec<u8>),
    Zeros(u64),
}
impl Content {
    fn len(&self) -> u64 {
        match self {
            Content::Bytes(v) => v.len() as u64,
            Content::Zeros(n) => *n,
        }
    }
}
#[derive(Default)]
struct St {
    len: u64,
    regions: Vec<(u64, Content)>,
    ops: u64,
    pub low_write: u64,
    trace: Option<Trace>,
    last: Trace,
}
/// What was done to a stream.
#[derive(Default, Clone, Debug)]
pub struct Trace {
    pub ops: u64,
    /// (position, bytes)
    pub reads: Vec<(u64, u64)>,
    pub written: u64,
}
#[derive(Clone)]
pub struct Sparse {
    st: Rc<RefCell<St>>,
    pos: u64,
    pub budget: u64,
}
impl std::fmt::Debug for Sparse {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Sparse")
    }
}
#[inline]
fn word(i: u64) -> [u8; 8] {
    let mut x = i.wrapping_mul(0x9E37_79B9_7F4A_7C15) ^ 0x5151_5151_5151_5151;
    x ^= x >> 31;
    x = x.wrapping_mul(0xD6E8_FEB8_6659_FD93);
    x ^= x >> 29;
    x.to_le_bytes()
}
/// The byte at a position nobody wrote.
pub fn at(p: u64) -> u8 {
    word(p >> 3)[(p & 7) as usize]
}
/// The canonical bytes of the sample stored at a position nobody wrote.
pub fn sample_at(ty: Ty, p: u64, be: bool) -> Vec<u8> {
    to_order(ty, (0..ty.size() as u64).map(|i| at(p + i)).collect(), be)
}
pub fn fill(mut p: u64, mut buf: &mut [u8]) {
    while !buf.is_empty() {
        let w = word(p >> 3);
        let o = (p & 7) as usize;
        let n = (8 - o).min(buf.len());
        buf[..n].copy_from_slice(&w[o..o + n]);
        buf = &mut buf[n..];
        p += n as u64;
    }
}
impl Sparse {
    pub fn new() -> Sparse {
        Sparse { st: Default::default(), pos: 0, budget: 1_000_000 }
    }
    pub fn again(&self) -> Sparse {
        self.st.borrow_mut().ops = 0;
        Sparse { st: self.st.clone(), pos: 0, budget: self.budget }
    }
    pub fn len(&self) -> u64 {
        self.st.borrow().len
    }
    /// Lay down bytes at the end.
    pub fn put(&self, b: &[u8]) {
        let mut s = self.st.borrow_mut();
        let at = s.len;
        s.regions.push((at, Content::Bytes(b.to_vec())));
        s.len += b.len() as u64;
    }
    /// Leave room at the end.
    pub fn skip(&self, n: u64) {
        self.st.borrow_mut().len += n;
    }
    /// From here on, remember the lowest position written.
    pub fn watch(&self) {
        self.st.borrow_mut().low_write = u64::MAX;
    }
    pub fn lowest_write(&self) -> u64 {
        self.st.borrow().low_write
    }
    /// Samples of a hash of everything (for the state count).
    pub fn digest(&self) -> Vec<u8> {
        let s = self.st.borrow();
        let mut v = s.len.to_le_bytes().to_vec();
        for (p, c) in &s.regions {
            v.extend(p.to_le_bytes());
            match c {
                Content::Bytes(b) => v.extend(b),
                Content::Zeros(n) => v.extend(n.to_le_bytes()),
            }
        }
        v
    }
    pub fn trace_start(&self) {
        self.st.borrow_mut().trace = Some(Trace::default());
    }
    pub fn trace_take(&self) -> Trace {
        let mut s = self.st.borrow_mut();
        s.last = s.trace.take().unwrap_or_default();
        s.last.clone()
    }
    /// The reads of the last trace.
    pub fn last_reads(&self) -> Vec<(u64, u64)> {
        self.st.borrow().last.reads.clone()
    }
    fn enter(&self) -> Result<()> {
        let mut s = self.st.borrow_mut();
        s.ops += 1;
        if let Some(t) = &mut s.trace {
            t.ops += 1;
        }
        if s.ops > self.budget {
            LIVELOCK.with(|l| l.set(true));
            if s.ops > self.budget + 100_000 && !std::thread::panicking() {
                panic!("stream operation budget exceeded");
            }
            return Err(Error::other("operation budget"));
        }
        Ok(())
    }
}
impl Read for Sparse {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        self.enter()?;
        let n = (buf.len() as u64).min(self.st.borrow().len.saturating_sub(self.pos)) as usize;
        let at = self.pos;
        if let Some(t) = &mut self.st.borrow_mut().trace {
            t.reads.push((at, n as u64));
        }
        let s = self.st.borrow();
        let buf = &mut buf[..n];
        if n == 0 {
            return Ok(0);
        }
        fill(self.pos, buf);
        let (a, b) = (self.pos, self.pos + n as u64);
        for (p, c) in &s.regions {
            let (lo, hi) = (a.max(*p), b.min(*p + c.len()));
            if lo < hi {
                let out = &mut buf[(lo - a) as usize..(hi - a) as usize];
                match c {
                    Content::Bytes(v) => out.copy_from_slice(&v[(lo - p) as usize..(hi - p) as usize]),
                    Content::Zeros(_) => out.fill(0),
                }
            }
        }
        self.pos = b;
        Ok(n)
    }
}
impl Write for Sparse {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        self.enter()?;
        if buf.is_empty() {
            return Ok(0);
        }
        let mut s = self.st.borrow_mut();
        s.low_write = s.low_write.min(self.pos);
        if let Some(t) = &mut s.trace {
            t.written += buf.len() as u64;
        }
        let n = buf.len() as u64;
        let end = self.pos.checked_add(n).filter(|e| *e <= i64::MAX as u64).ok_or_else(|| Error::new(ErrorKind::StorageFull, "device limit"))?;
        let pos = self.pos;
        let zeros = n >= 4096 && buf.iter().all(|b| *b == 0);
        let follows = s.regions.last().is_some_and(|(p, c)| p + c.len() == pos);
        match s.regions.last_mut() {
            Some((_, Content::Zeros(m))) if follows && zeros => *m += n,
            Some((_, Content::Bytes(v))) if follows && !zeros && v.len() < 1 << 26 => v.extend(buf),
            _ => {
                let c = if zeros { Content::Zeros(n) } else { Content::Bytes(buf.to_vec()) };
                s.regions.push((pos, c));
            }
        }
        s.len = s.len.max(end);
        self.pos = end;
        Ok(buf.len())
    }
    fn flush(&mut self) -> Result<()> {
        self.enter()
    }
}
impl Seek for Sparse {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        self.enter()?;
        let p: i128 = match to {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(d) => self.st.borrow().len as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        // as a file does: positions are signed 64 bit numbers
        if p < 0 || p > i64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "invalid seek"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

/// An anonymous mapping of zero bytes: memory is used only where it is written.
pub struct Zeroed {
    p: *mut u8,
    n: usize,
}
impl Zeroed {
    pub fn new(n: usize) -> Zeroed {
        let p = unsafe { libc::mmap(std::ptr::null_mut(), n, libc::PROT_READ | libc::PROT_WRITE, libc::MAP_PRIVATE | libc::MAP_ANONYMOUS | libc::MAP_NORESERVE, -1, 0) };
        assert!(p != libc::MAP_FAILED, "harness: mmap of {n} bytes");
        Zeroed { p: p as *mut u8, n }
    }
    /// Only for element types for which all zero bytes are a value.
    pub unsafe fn slice<T>(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.p as *mut T, self.n / std::mem::size_of::<T>()) }
    }
}
impl Drop for Zeroed {
    fn drop(&mut self) {
        unsafe { libc::munmap(self.p as *mut libc::c_void, self.n) };
    }
}
