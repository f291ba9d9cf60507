//! In-memory stream with an operation log, short/interrupted transfers and injected faults.
use crate::explore::LIVELOCK;
use std::cell::RefCell;
use std::io::{Error, ErrorKind, Read, Result, Seek, SeekFrom, Write};
use std::rc::Rc;

/// What an injected error says.
pub const INJECTED: &str = "injected";

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Class {
    Read,
    Write,
    Seek,
    Flush,
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Op {
    Read { off: u64, len: usize, got: usize },
    Write { off: u64, len: usize },
    Seek { to: u64 },
    Flush,
    Failed(Class),
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub enum Fault {
    /// Fail this operation only.
    Once(ErrorKind),
    /// Fail this and every later operation of the class until healed.
    Forever(ErrorKind),
    /// Transfer at most this many bytes.
    Short(usize),
    /// Report an interruption without transferring anything.
    Intr,
    /// A write that accepts nothing.
    Zero,
    /// Accept this many bytes, then fail every later operation of the class until healed.
    PartialThenForever(usize),
    /// Accept this many bytes, then fail the next operation of the class only.
    PartialThenOnce(usize),
    /// Panic, after transferring this many bytes (but at least one less than asked; HALF: half of them).
    Panic(usize),
}
pub const HALF: usize = usize::MAX - 1;

#[derive(Default)]
pub struct State {
    pub data: Vec<u8>,
    pub log: Vec<Op>,
    pub log_on: bool,
    /// Operation counters per class since the last `reset_counters`.
    pub n: [usize; 4],
    pub faults: Vec<(Class, usize, Fault)>,
    pub forever: [Option<ErrorKind>; 4],
    pub once: [Option<ErrorKind>; 4],
    pub max_read: usize,
    pub max_write: usize,
    /// Interrupt before every transfer.
    pub intr: bool,
    intr_armed: bool,
    pub ops: u64,
    pub budget: u64,
    pub fault_hit: bool,
    /// How many bytes of the current operation to transfer before it panics.
    dying: Option<usize>,
}
#[derive(Clone)]
pub struct Dev {
    pub st: Rc<RefCell<State>>,
    pub pos: u64,
}
impl std::fmt::Debug for Dev {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Dev")
    }
}
pub const BUDGET: u64 = 2_000_000;
impl Dev {
    pub fn new(data: Vec<u8>) -> Dev {
        Dev { st: Rc::new(RefCell::new(State { data, budget: BUDGET, ..Default::default() })), pos: 0 }
    }
    /// Another handle to the same bytes, at position 0.
    pub fn again(&self) -> Dev {
        Dev { st: self.st.clone(), pos: 0 }
    }
    pub fn bytes(&self) -> Vec<u8> {
        self.st.borrow().data.clone()
    }
    pub fn len(&self) -> usize {
        self.st.borrow().data.len()
    }
    pub fn heal(&self) {
        let mut s = self.st.borrow_mut();
        s.faults.clear();
        s.forever = [None; 4];
        s.once = [None; 4];
        s.max_read = 0;
        s.max_write = 0;
        s.intr = false;
    }
    pub fn log_start(&self) {
        let mut s = self.st.borrow_mut();
        s.log.clear();
        s.log_on = true;
    }
    pub fn log_take(&self) -> Vec<Op> {
        let mut s = self.st.borrow_mut();
        s.log_on = false;
        std::mem::take(&mut s.log)
    }
    pub fn reset_counters(&self) {
        self.st.borrow_mut().n = [0; 4];
    }
    pub fn counts(&self) -> [usize; 4] {
        self.st.borrow().n
    }
    pub fn fault(&self, c: Class, at: usize, f: Fault) {
        self.st.borrow_mut().faults.push((c, at, f));
    }
}
impl State {
    fn log(&mut self, op: Op) {
        if self.log_on {
            self.log.push(op);
        }
    }
    /// Returns the transfer limit for this operation, or the injected error.
    fn enter(&mut self, c: Class) -> Result<usize> {
        self.ops += 1;
        if self.ops > self.budget {
            LIVELOCK.with(|l| l.set(true));
            if self.ops > self.budget + 100_000 && !std::thread::panicking() {
                panic!("stream operation budget exceeded");
            }
            return Err(Error::other("operation budget"));
        }
        let i = c as usize;
        let at = self.n[i];
        self.n[i] += 1;
        let mut limit = usize::MAX;
        if let Some(k) = self.once[i].take() {
            self.fault_hit = true;
            self.log(Op::Failed(c));
            return Err(Error::new(k, INJECTED));
        }
        if let Some(k) = self.forever[i] {
            self.log(Op::Failed(c));
            return Err(Error::new(k, INJECTED));
        }
        if let Some(f) = self.faults.iter().find(|f| f.0 == c && f.1 == at).map(|f| f.2) {
            self.fault_hit = true;
            match f {
                Fault::Once(k) => {
                    self.log(Op::Failed(c));
                    return Err(Error::new(k, INJECTED));
                }
                Fault::Forever(k) => {
                    self.forever[i] = Some(k);
                    self.log(Op::Failed(c));
                    return Err(Error::new(k, INJECTED));
                }
                Fault::Intr => return Err(Error::new(ErrorKind::Interrupted, INJECTED)),
                Fault::Short(n) => limit = n,
                Fault::Zero => limit = 0,
                Fault::PartialThenForever(n) => {
                    self.forever[i] = Some(ErrorKind::StorageFull);
                    limit = n;
                }
                Fault::Panic(0) => crate::explore::injected_panic(),
                Fault::Panic(n) => self.dying = Some(n),
                Fault::PartialThenOnce(n) => {
                    self.once[i] = Some(ErrorKind::Other);
                    limit = n;
                }
            }
        }
        if self.intr && (c == Class::Read || c == Class::Write) {
            self.intr_armed = !self.intr_armed;
            if self.intr_armed {
                return Err(Error::new(ErrorKind::Interrupted, INJECTED));
            }
        }
        if c == Class::Read && self.max_read > 0 {
            limit = limit.min(self.max_read);
        }
        if c == Class::Write && self.max_write > 0 {
            limit = limit.min(self.max_write);
        }
        Ok(limit)
    }
}
impl Read for Dev {
    fn read(&mut self, buf: &mut [u8]) -> Result<usize> {
        let mut s = self.st.borrow_mut();
        let limit = s.enter(Class::Read)?;
        let have = (s.data.len() as u64).saturating_sub(self.pos) as usize;
        let dying = s.dying.take();
        let n = buf.len().min(have).min(limit).min(before_panic(dying, buf.len()));
        if n > 0 {
            let p = self.pos as usize;
            buf[..n].copy_from_slice(&s.data[p..p + n]);
        }
        s.log(Op::Read { off: self.pos, len: buf.len(), got: n });
        self.pos += n as u64;
        if dying.is_some() {
            crate::explore::injected_panic();
        }
        Ok(n)
    }
}
fn before_panic(dying: Option<usize>, len: usize) -> usize {
    match dying {
        None => usize::MAX,
        Some(HALF) => len / 2,
        Some(n) => n.min(len.saturating_sub(1)),
    }
}
impl Write for Dev {
    fn write(&mut self, buf: &[u8]) -> Result<usize> {
        let mut s = self.st.borrow_mut();
        let limit = s.enter(Class::Write)?;
        let dying = s.dying.take();
        let n = buf.len().min(limit).min(before_panic(dying, buf.len()));
        if n > 0 {
            let p = self.pos as usize;
            if p + n > 1 << 30 {
                return Err(Error::new(ErrorKind::StorageFull, "device limit"));
            }
            if s.data.len() < p + n {
                s.data.resize(p + n, 0);
            }
            s.data[p..p + n].copy_from_slice(&buf[..n]);
        }
        s.log(Op::Write { off: self.pos, len: n });
        self.pos += n as u64;
        if dying.is_some() {
            crate::explore::injected_panic();
        }
        Ok(n)
    }
    fn flush(&mut self) -> Result<()> {
        let mut s = self.st.borrow_mut();
        s.enter(Class::Flush)?;
        s.log(Op::Flush);
        Ok(())
    }
}
impl Seek for Dev {
    fn seek(&mut self, to: SeekFrom) -> Result<u64> {
        let mut s = self.st.borrow_mut();
        s.enter(Class::Seek)?;
        let p: i128 = match to {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(d) => s.data.len() as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if p < 0 || p > u64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "invalid seek"));
        }
        self.pos = p as u64;
        s.log(Op::Seek { to: self.pos });
        Ok(self.pos)
    }
}
