//! C33: several threads.  Every execution runs real threads of which one at a time may go on; at
//! each operation of a stream (and each value an application's storage type encodes or decodes, and
//! each item of a listing) the explorer decides which one.
use super::crash::check_torn;
use crate::check::*;
use crate::explore::*;
use crate::generate::*;
use crate::hist::*;
use crate::spec::*;
use crate::types::*;
use crate::{bail, ensure, exec_cmd, with_ty};
use std::cell::RefCell;
use std::collections::BTreeMap;
use std::io::{Error, ErrorKind, Read, Result as IoResult, Seek, SeekFrom, Write};
use std::marker::PhantomData;
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use std::time::Duration;
use tedium::types::DataType;
use tedium::{ChannelPath, PropertyPath, TdmsError, TdmsFile, TdmsStorageType};

// ---------------------------------------------------------------- the scheduler

struct Turns {
    ctx: Option<Ctx>,
    turn: usize,
    alive: Vec<bool>,
    /// Preemptions that may still happen.
    left: usize,
    /// Nobody waits any more: the thread whose turn it was did not come back.
    free: bool,
    points: u64,
}
pub struct Sched {
    st: Mutex<Turns>,
    cv: Condvar,
}
thread_local! {
    static ME: RefCell<Option<(Arc<Sched>, usize)>> = const { RefCell::new(None) };
}
/// How long the thread whose turn it is may take from one point to the next.
const PATIENCE: Duration = Duration::from_secs(15);
impl Sched {
    fn lock(&self) -> MutexGuard<'_, Turns> {
        self.st.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn wait(&self, me: usize, mut g: MutexGuard<'_, Turns>) {
        while g.turn != me && !g.free {
            let before = g.points;
            let (h, late) = self.cv.wait_timeout(g, PATIENCE).unwrap_or_else(|e| e.into_inner());
            g = h;
            if late.timed_out() && g.points == before && g.turn != me {
                g.free = true;
                self.cv.notify_all();
            }
        }
    }
    fn point(&self, me: usize) {
        let mut g = self.lock();
        if g.free {
            return;
        }
        g.points += 1;
        if g.left == 0 {
            return;
        }
        let others: Vec<usize> = (0..g.alive.len()).filter(|i| g.alive[*i] && *i != me).collect();
        if others.is_empty() {
            return;
        }
        let c = g.ctx.as_mut().unwrap().choose(1 + others.len());
        if c > 0 {
            g.left -= 1;
            g.turn = others[c - 1];
            g.ctx.as_mut().unwrap().note(|| format!("thread {me} is interrupted by thread {}", others[c - 1]));
            self.cv.notify_all();
            self.wait(me, g);
        }
    }
    fn end(&self, me: usize) {
        let mut g = self.lock();
        g.alive[me] = false;
        g.points += 1;
        let others: Vec<usize> = (0..g.alive.len()).filter(|i| g.alive[*i]).collect();
        if !g.free && !others.is_empty() {
            let c = if others.len() > 1 { g.ctx.as_mut().unwrap().choose(others.len()) } else { 0 };
            g.turn = others[c];
        }
        self.cv.notify_all();
    }
}
/// A point at which another thread may be let go on.
fn point() {
    let me = ME.with(|m| m.borrow().clone());
    if let Some((s, i)) = me {
        s.point(i);
    }
}
/// Lets something cross to another thread. Whether the library's types may is a scenario of its own.
struct Cross<T>(T);
unsafe impl<T> Send for Cross<T> {}
impl<T> Cross<T> {
    fn open(self) -> T {
        self.0
    }
}

/// Run the bodies in every order that preempts a thread at most `left` times (as the explorer chooses).
fn interleave<'a, O>(ctx: &mut Ctx, left: usize, bodies: Vec<Box<dyn FnOnce() -> R<O> + 'a>>) -> R<Vec<O>> {
    let n = bodies.len();
    let turn = ctx.choose(n);
    ctx.note(|| format!("thread {turn} starts"));
    let own = std::mem::replace(ctx, Ctx::new(vec![], false));
    let s = Arc::new(Sched { st: Mutex::new(Turns { ctx: Some(own), turn, alive: vec![true; n], left, free: false, points: 0 }), cv: Condvar::new() });
    let outs: Vec<R<O>> = std::thread::scope(|sc| {
        let hs: Vec<_> = bodies
            .into_iter()
            .enumerate()
            .map(|(i, b)| {
                let s = s.clone();
                let b = Cross(b);
                sc.spawn(move || {
                    let b = b.open();
                    s.wait(i, s.lock());
                    ME.with(|m| *m.borrow_mut() = Some((s.clone(), i)));
                    let r = contained(b);
                    ME.with(|m| *m.borrow_mut() = None);
                    s.end(i);
                    Cross(r)
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("harness: a thread could not be joined").open()).collect()
    });
    let mut g = s.lock();
    *ctx = g.ctx.take().unwrap();
    ctx.steps += g.points;
    if ctx.diverged {
        panic!("harness: replay diverged in a thread");
    }
    if g.free {
        bail!("waits", "a thread that works on its own file object waits for another one that is in the middle of a call");
    }
    let mut all = vec![];
    for (i, o) in outs.into_iter().enumerate() {
        match o {
            Ok(o) => all.push(o),
            Err(f) if f.msg.starts_with("harness:") => panic!("{}", f.msg),
            Err(f) => return fail(&f.key, format!("thread {i}: {}", f.msg)),
        }
    }
    Ok(all)
}

// ---------------------------------------------------------------- streams

/// What happened to the bytes of a stream.
#[derive(Default)]
struct Store {
    data: Vec<u8>,
    ops: u64,
    /// Fail (or panic) at this operation.
    fault: Option<(u64, bool)>,
}
/// A handle on bytes shared between threads.
struct Shared {
    b: Arc<Mutex<Store>>,
    pos: u64,
}
impl Shared {
    fn new(data: Vec<u8>) -> Shared {
        Shared { b: Arc::new(Mutex::new(Store { data, ..Default::default() })), pos: 0 }
    }
    fn again(&self) -> Shared {
        Shared { b: self.b.clone(), pos: 0 }
    }
    fn content(&self) -> Vec<u8> {
        self.store().data.clone()
    }
    fn store(&self) -> MutexGuard<'_, Store> {
        self.b.lock().unwrap_or_else(|e| e.into_inner())
    }
    fn enter(&self) -> IoResult<()> {
        point();
        let mut s = self.store();
        s.ops += 1;
        match s.fault {
            Some((n, panics)) if n == s.ops => {
                drop(s);
                if panics {
                    injected_panic()
                }
                Err(Error::new(ErrorKind::PermissionDenied, "injected"))
            }
            _ if s.ops > 1_000_000 => Err(Error::other("operation budget")),
            _ => Ok(()),
        }
    }
}
impl std::fmt::Debug for Shared {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "Shared")
    }
}
impl Read for Shared {
    fn read(&mut self, b: &mut [u8]) -> IoResult<usize> {
        self.enter()?;
        let s = self.store();
        let at = self.pos.min(s.data.len() as u64) as usize;
        let n = b.len().min(s.data.len() - at);
        b[..n].copy_from_slice(&s.data[at..at + n]);
        drop(s);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Shared {
    fn write(&mut self, b: &[u8]) -> IoResult<usize> {
        self.enter()?;
        let mut s = self.store();
        let at = self.pos as usize;
        assert!(at + b.len() < 1 << 26, "harness: stream too long");
        let end = s.data.len().max(at + b.len());
        s.data.resize(end, 0);
        s.data[at..at + b.len()].copy_from_slice(b);
        drop(s);
        self.pos += b.len() as u64;
        Ok(b.len())
    }
    fn flush(&mut self) -> IoResult<()> {
        self.enter()
    }
}
impl Seek for Shared {
    fn seek(&mut self, to: SeekFrom) -> IoResult<u64> {
        self.enter()?;
        let p = match to {
            SeekFrom::Start(x) => x as i128,
            SeekFrom::End(d) => self.store().data.len() as i128 + d as i128,
            SeekFrom::Current(d) => self.pos as i128 + d as i128,
        };
        if p < 0 || p > i64::MAX as i128 {
            return Err(Error::new(ErrorKind::InvalidInput, "invalid seek"));
        }
        self.pos = p as u64;
        Ok(self.pos)
    }
}

/// A storage type of an application whose encoding and decoding can be interrupted.
#[derive(Clone)]
struct Slow<T: Sample>(T);
impl<T: Sample> TdmsStorageType for Slow<T> {
    const SUPPORTED_TYPES: &'static [DataType] = T::SUPPORTED_TYPES;
    const NATURAL_TYPE: DataType = T::NATURAL_TYPE;
    const SIZE_BYTES: usize = T::SIZE_BYTES;
    fn read_le(reader: &mut impl Read) -> Result<Self, TdmsError> {
        point();
        let v = T::read_le(reader)?;
        point();
        Ok(Slow(v))
    }
    fn read_be(reader: &mut impl Read) -> Result<Self, TdmsError> {
        point();
        let v = T::read_be(reader)?;
        point();
        Ok(Slow(v))
    }
    fn write_le(&self, writer: &mut impl Write) -> Result<(), TdmsError> {
        point();
        self.0.write_le(writer)?;
        point();
        Ok(())
    }
    fn write_be(&self, writer: &mut impl Write) -> Result<(), TdmsError> {
        self.0.write_be(writer)
    }
    fn size(&self) -> usize {
        self.0.size()
    }
}
impl<T: Sample> Sample for Slow<T> {
    const TY: Ty = T::TY;
    fn from_canon(b: &[u8]) -> Self {
        Slow(T::from_canon(b))
    }
    fn same(&self, b: &[u8]) -> bool {
        self.0.same(b)
    }
    fn show(&self) -> String {
        self.0.show()
    }
    fn eq(&self, o: &Self) -> bool {
        Sample::eq(&self.0, &o.0)
    }
}

// ---------------------------------------------------------------- what the threads do

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
enum Job {
    /// New file: data of two channels, properties, data again, synced; read back.
    Write,
    /// Data of more than the buffer of the writer, twice.
    Large,
    /// Existing file: one more session, then opened again and read.
    Append,
    /// A file in big-endian order, interleaved, read from several starts.
    ReadBig,
    /// Several chunks and blocks, several channels at once.
    ReadMulti,
    /// Listings and properties of a file with many of them.
    Query,
    /// Files that are refused.
    Bad,
    /// Refused calls, then accepted ones.
    Refused,
    /// Texts longer than any buffer, written and read.
    Text,
    /// 40 channels in one segment, written and read together.
    Wide,
}
const JOBS: [Job; 10] = [Job::Text, Job::Wide, Job::Write, Job::Large, Job::Append, Job::ReadBig, Job::ReadMulti, Job::Query, Job::Bad, Job::Refused];
/// Bytes and content of the stream a job works on; `k` tells the threads' data apart.
fn start(job: Job, k: u32) -> (Vec<u8>, Model) {
    let mut f = Foreign::new();
    f.k += k * 1000;
    match job {
        Job::Write | Job::Large | Job::Refused | Job::Text | Job::Wide => return (vec![], Model::default()),
        Job::Append | Job::Bad => {
            f.push(&full(false, false, 1, &[("a", Ty::F64, 2), ("b", Ty::F64, 2)]));
        }
        Job::ReadBig => {
            f.push(&full(true, true, 2, &[("a", Ty::F64, 3), ("b", Ty::I16, 3)]));
            f.push(&full(true, false, 1, &[("b", Ty::I16, 2), ("a", Ty::F64, 1 + k as u64 % 2)]));
        }
        Job::ReadMulti => {
            f.push(&full(false, false, 3, &[("a", Ty::I32, 2), ("b", Ty::I32, 1)]));
            f.push(&full(false, false, 1, &[("b", Ty::I32, 2 + k as u64 % 2)]));
            f.push(&full(true, true, 2, &[("b", Ty::I32, 1), ("a", Ty::I32, 1)]));
        }
        Job::Query => {
            for i in 0..3 {
                let mut s = full(false, false, 1, &[("a", Ty::U8, 1 + i)]);
                if let Some(m) = s.meta.as_mut() {
                    m[0].props = vec![(format!("p{k}"), Pv::i(i as i32 + k as i32)), ("q".into(), Pv::s(&format!("text {k} {i}")))];
                    m.push(SObj { path: gpath(&format!("group {k} {i}")), idx: Idx::None, props: vec![("u".into(), Pv::i(k as i32))] });
                    m.push(SObj { path: cpath(&format!("h{i}"), &format!("c{k}")), idx: Idx::None, props: vec![] });
                }
                f.push(&s);
            }
        }
    }
    (f.bytes.clone(), f.model.clone())
}
fn put<F: Read + Write + Seek>(f: &mut TdmsFile<F>, ops: &[WOp], m: &mut Model, k: &mut u32) -> R {
    let mut w = f.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
    for op in ops {
        exec_cmd!(w, &cmd(op, *k)).or_else(|e| fail("write-error", format!("{op:?} refused: {e:?}")))?;
        *k = effect(op, m, *k);
    }
    Ok(())
}
/// A few reads of every channel, singly and together.
fn look<T: Sample>(f: &mut TdmsFile<Shared>, m: &Model, chans: &[&str], starts: &[u64]) -> R {
    for s in starts {
        for c in chans {
            let p = ch(c);
            check_read::<T, _>(f, &p, &m.objs[&p].samples, *s, 3)?;
        }
        if chans.len() > 1 {
            let req: Vec<(String, usize)> = chans.iter().rev().enumerate().map(|(i, c)| (ch(c), 2 + i)).collect();
            check_multi::<T, _>(f, m, &req, *s)?;
        }
    }
    Ok(())
}
/// Do it. Gives the bytes the stream has afterwards, and what was said besides (errors).
fn work(job: Job, k: u32) -> R<(Vec<u8>, Vec<String>)> {
    let (bytes, mut m) = start(job, k);
    let s = Shared::new(bytes);
    let mut said = vec![];
    let mut k = k * 10_000 + 1;
    let open = |what: &str| TdmsFile::new(s.again()).or_else(|e| fail("open", format!("{what}: {e:?}")));
    match job {
        Job::Write => {
            let mut f = open("new file")?;
            put(&mut f, &[data(&["a", "b"], Ty::F64, 2, true), WOp::Props { path: P::Chan("g".into(), "a".into()), props: vec![("y".into(), Pv::i(k as i32))] }, data(&["a", "b"], Ty::F64, 3, false), WOp::Sync], &mut m, &mut k)?;
            look::<f64>(&mut f, &m, &["a", "b"], &[1])?;
            check_meta(&f, &m, "live")?;
        }
        Job::Large => {
            let mut f = open("new file")?;
            put(&mut f, &[data(&["a"], Ty::F64, 1500, false), data(&["a"], Ty::F64, 1500, false)], &mut m, &mut k)?;
            look::<f64>(&mut f, &m, &["a"], &[1499])?;
        }
        Job::Append => {
            let mut f = open("existing file")?;
            put(&mut f, &[data(&["b", "a"], Ty::F64, 1, false), WOp::Sync], &mut m, &mut k)?;
            drop(f);
            let mut f = open("reopen")?;
            look::<f64>(&mut f, &m, &["a", "b"], &[1])?;
        }
        Job::Text => {
            let text = |c: &str, n: usize| Pv::s(&format!("{k}{c}").repeat(n));
            let mut f = open("new file")?;
            put(&mut f, &[WOp::Props { path: P::File, props: vec![("p".into(), text("x", 3000)), (format!("q{k}").repeat(800), text("é", 1))] }, WOp::Props { path: P::Group(format!("group {k}").repeat(900)), props: vec![("p".into(), text("z", 1500))] }], &mut m, &mut k)?;
            drop(f);
            let f = open("reopen")?;
            check_meta(&f, &m, "reopened")?;
        }
        Job::Wide => {
            let names: Vec<String> = (0..40).map(|i| format!("c{i} {k}")).collect();
            let names: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            let mut f = open("new file")?;
            put(&mut f, &[data(&names, Ty::I32, 30, true), data(&names, Ty::I32, 30, false)], &mut m, &mut k)?;
            let req: Vec<(String, usize)> = names.iter().map(|c| (ch(c), 33)).collect();
            check_multi::<i32, _>(&mut f, &m, &req, 5)?;
        }
        Job::ReadBig => {
            let mut f = open("existing file")?;
            look::<f64>(&mut f, &m, &["a"], &[0, 5])?;
            look::<i16>(&mut f, &m, &["b"], &[1])?;
        }
        Job::ReadMulti => {
            let mut f = open("existing file")?;
            look::<i32>(&mut f, &m, &["a", "b"], &[0, 3])?;
        }
        Job::Query => {
            let f = open("existing file")?;
            check_meta(&f, &m, "existing file")?;
            // and with others in between the items of a listing
            let mut names = vec![];
            for g in f.list_groups() {
                point();
                names.push(g.to_string());
                for c in f.list_channels_in_group(&PropertyPath::group(g)) {
                    point();
                    names.push(c.path().to_string());
                    for (n, v) in f.read_all_properties(&prop_path(c.path())?).into_iter().flatten() {
                        point();
                        names.push(format!("{n}={v:?}"));
                    }
                }
            }
            said.push(format!("{names:?}"));
        }
        Job::Bad => {
            // another tag, other text, an unknown type, and too short
            for (at, b) in [(0usize, 0x41u8), (49, 0xFF), (60, 0x77), (12, 0xFF)] {
                let mut x = s.content();
                if at < x.len() {
                    x[at] = b;
                }
                said.push(format!("{:?}", TdmsFile::new(Shared::new(x)).map(|_| "opened").map_err(|e| e.to_string())));
            }
        }
        Job::Refused => {
            let mut f = open("new file")?;
            {
                let mut w = f.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
                let paths = [ChannelPath::new("g", "a"), ChannelPath::new("g", "b")];
                said.push(format!("{:?}", w.write_channels(&paths, &[1.0f64; 3], tedium::DataLayout::Interleaved)));
                said.push(format!("{:?}", w.write_channels(&paths[..0], &[1.0f64; 3], tedium::DataLayout::Interleaved)));
            }
            put(&mut f, &[data(&["a"], Ty::I32, 2, false)], &mut m, &mut k)?;
            said.push(format!("{:?}", f.read_channel(&ChannelPath::new("g", "zz"), &mut [0i32; 2])));
            said.push(format!("{:?}", f.read_channel(&ChannelPath::new("g", "a"), &mut [0f64; 2])));
            look::<i32>(&mut f, &m, &["a"], &[0])?;
        }
    }
    Ok((s.content(), said))
}
static ALONE: Mutex<BTreeMap<(Job, u32), (Vec<u8>, Vec<String>)>> = Mutex::new(BTreeMap::new());
/// The same with no other thread around.
fn alone(job: Job, k: u32) -> R<(Vec<u8>, Vec<String>)> {
    if let Some(x) = ALONE.lock().unwrap().get(&(job, k)) {
        return Ok(x.clone());
    }
    let x = work(job, k).map_err(|f| Fail { key: f.key, msg: format!("{job:?} alone: {}", f.msg) })?;
    ALONE.lock().unwrap().insert((job, k), x.clone());
    Ok(x)
}
fn together(ctx: &mut Ctx, left: usize, jobs: &[Job]) -> R {
    let mut want = vec![];
    for (i, j) in jobs.iter().enumerate() {
        want.push(alone(*j, i as u32 + 1)?);
    }
    ctx.note(|| format!("{jobs:?}"));
    let bodies = jobs.iter().enumerate().map(|(i, j)| { let j = *j; Box::new(move || work(j, i as u32 + 1)) as Box<dyn FnOnce() -> R<_>> }).collect();
    let got = interleave(ctx, left, bodies)?;
    ctx.state(&got.iter().map(|g: &(Vec<u8>, Vec<String>)| hash(g)).collect::<Vec<_>>());
    ctx.outcome = hash(&ctx.choices);
    for (i, (g, w)) in got.iter().zip(&want).enumerate() {
        ensure!(g.1 == w.1, "answers", "thread {i} ({:?}): answers {:?}, alone {:?}", jobs[i], g.1, w.1);
        ensure!(g.0 == w.0, "bytes", "thread {i} ({:?}): the file differs from the one written alone: {:02x?} instead of {:02x?}", jobs[i], g.0, w.0);
    }
    Ok(())
}

// ---------------------------------------------------------------- one file, two threads

/// What the writing thread has done so far.
#[derive(Default)]
struct Progress {
    models: Vec<Model>,
    /// The newest model that was synced.
    synced: usize,
    /// The device ended in the middle of a segment, at this many stream operations.
    torn: bool,
}
/// A stream of the writing thread: keeps track of when the device ends within a segment.
struct Watched {
    s: Shared,
    p: Arc<Mutex<Progress>>,
}
impl Read for Watched {
    fn read(&mut self, b: &mut [u8]) -> IoResult<usize> {
        self.s.read(b)
    }
}
impl Seek for Watched {
    fn seek(&mut self, to: SeekFrom) -> IoResult<u64> {
        self.s.seek(to)
    }
}
impl Write for Watched {
    fn write(&mut self, b: &[u8]) -> IoResult<usize> {
        let n = self.s.write(b)?;
        let d = self.s.content();
        if super::handles::whole(&d) < d.len() {
            self.p.lock().unwrap_or_else(|e| e.into_inner()).torn = true;
        }
        Ok(n)
    }
    fn flush(&mut self) -> IoResult<()> {
        self.s.flush()
    }
}
fn one_file(ctx: &mut Ctx, left: usize, ops: &[WOp], readers: usize) -> R {
    let (bytes, m) = start(Job::Append, 1);
    let s = Shared::new(bytes);
    let p = Arc::new(Mutex::new(Progress { models: vec![m.clone()], ..Default::default() }));
    let get = |p: &Mutex<Progress>| -> (usize, usize) {
        let p = p.lock().unwrap_or_else(|e| e.into_inner());
        (p.synced, p.models.len() - 1)
    };
    let mut bodies: Vec<Box<dyn FnOnce() -> R<Option<(TdmsFile<Shared>, usize, usize)>> + '_>> = vec![];
    let (sp, pp) = (&s, &p);
    bodies.push(Box::new(move || {
        let mut f = TdmsFile::new(Watched { s: sp.again(), p: pp.clone() }).or_else(|e| fail("open", format!("writing thread: {e:?}")))?;
        let mut w = f.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
        let mut m = m;
        let mut k = 70_001;
        for op in ops {
            let c = cmd(op, k);
            // whoever looks while the call runs may see its effect
            k = effect(op, &mut m, k);
            if *op != WOp::Sync {
                pp.lock().unwrap().models.push(m.clone());
            }
            point();
            exec_cmd!(w, &c).or_else(|e| fail("write-error", format!("{op:?} refused: {e:?}")))?;
            if *op == WOp::Sync {
                let mut g = pp.lock().unwrap();
                g.synced = g.models.len() - 1;
            }
        }
        drop(w);
        {
            let mut g = pp.lock().unwrap();
            g.synced = g.models.len() - 1;
        }
        check_view(&mut f, &m, "view of the writing thread")?;
        Ok(None)
    }));
    for _ in 0..readers {
        bodies.push(Box::new(move || {
            let (lo, _) = get(pp);
            let f = TdmsFile::new(sp.again());
            let (_, hi) = get(pp);
            let (torn, models) = {
                let g = pp.lock().unwrap();
                (g.torn, g.models.clone())
            };
            let mut f = match f {
                Err(e) => {
                    ensure!(torn, "open", "opening a file of which only whole segments ever were on the device failed: {e:?}");
                    return Ok(None);
                }
                Ok(f) => f,
            };
            shown(&mut f, &models, lo, hi, torn, "while another thread writes")?;
            Ok(Some((f, lo, hi)))
        }));
    }
    let fs = interleave(ctx, left, bodies)?;
    let g = p.lock().unwrap();
    let mut seen = vec![];
    for (f, lo, hi) in fs.into_iter().flatten() {
        let mut f = f;
        seen.push((lo, hi, shown(&mut f, &g.models, lo, hi, g.torn, "when the other thread is done")?));
    }
    ctx.state(&seen);
    ctx.outcome = hash(&ctx.choices);
    let mut f = TdmsFile::new(s.again()).or_else(|e| fail("open", format!("afterwards: {e:?}")))?;
    check_view(&mut f, g.models.last().unwrap(), "file afterwards")
}
/// A handle that was opened between two states shows one of them.
fn shown(f: &mut TdmsFile<Shared>, models: &[Model], lo: usize, hi: usize, torn: bool, what: &str) -> R<usize> {
    for i in lo..=hi {
        if check_meta(f, &models[i], what).is_ok() {
            // a state; its data may be still on its way
            if torn {
                check_torn(f, &models[lo], &models[hi], what)?;
            } else {
                check_data(f, &models[i], what)?;
            }
            return Ok(i);
        }
    }
    if torn {
        return check_torn(f, &models[lo], &models[hi], what).map(|_| usize::MAX);
    }
    // which state it is nearest to does not matter for the message
    check_meta(f, &models[hi], &format!("{what}, none of the states {lo}..={hi} the file had meanwhile"))?;
    Ok(hi)
}

// ---------------------------------------------------------------- what may cross

trait Not {
    const SEND: bool = false;
    const SYNC: bool = false;
}
impl<T: ?Sized> Not for T {}
struct IsSend<T: ?Sized>(PhantomData<T>);
struct IsSync<T: ?Sized>(PhantomData<T>);
impl<T: ?Sized + Send> IsSend<T> {
    const SEND: bool = true;
}
impl<T: ?Sized + Sync> IsSync<T> {
    const SYNC: bool = true;
}
macro_rules! crosses {
    ($t:ty) => {{
        (stringify!($t), <IsSend<$t>>::SEND, <IsSync<$t>>::SYNC)
    }};
}

pub fn c33(t: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let more = move |a: usize, b: usize| if t { b } else { a };
    v.push(scenario("may_cross", "which types of the interface may be moved to and shared with other threads", |ctx| {
        let all = [crosses!(TdmsFile<std::fs::File>), crosses!(TdmsFile<std::io::Cursor<Vec<u8>>>), crosses!(TdmsError), crosses!(ChannelPath), crosses!(PropertyPath), crosses!(tedium::PropertyValue), crosses!(tedium::DataLayout)];
        let (n, send, sync) = *ctx.pick(&all);
        ctx.step();
        ensure!(send, "send", "{n} can not be moved to another thread");
        ensure!(sync, "sync", "{n} can not be shared between threads");
        Ok(())
    }));
    let left = more(2, 3);
    v.push(scenario("own_files", &format!("2 threads, each doing one of 10 jobs on its own file ({JOBS:?}): every schedule with up to {left} preemptions at stream operations (and items of listings)"), move |ctx| {
        let a = ctx.choose(JOBS.len());
        let b = a + ctx.choose(JOBS.len() - a);
        // listings and refusals have many points and no shared work: one preemption less
        let jobs = [JOBS[a], JOBS[b]];
        let long = jobs.iter().any(|j| matches!(j, Job::Query | Job::ReadMulti));
        together(ctx, if long { left - 1 } else { left }, &jobs)
    }));
    let left3 = more(1, 2);
    v.push(scenario("three_files", &format!("3 threads, each doing one of 4 jobs on its own file: every schedule with up to {left3} preemptions"), move |ctx| {
        let pool = [Job::Write, Job::Append, Job::ReadBig, Job::Bad];
        let a = ctx.choose(4);
        let b = a + ctx.choose(4 - a);
        let c = b + ctx.choose(4 - b);
        together(ctx, left3, &[pool[a], pool[b], pool[c]])
    }));
    v.push(scenario("in_a_value", &format!("2 threads, each writing 2 values of 1..2 channels and reading them back (both layouts), by a storage type of the application that can be interrupted before and after each value: every schedule with up to {left} preemptions"), move |ctx| {
        let what = [(Ty::F64, ctx.flag(), ctx.flag()), (*ctx.pick(&[Ty::F64, Ty::I16, Ty::Time, Ty::Bool]), ctx.flag(), ctx.flag())];
        fn go<T: Sample>(k: u32, inter: bool, two: bool) -> R<Vec<u8>> {
            let chans: &[&str] = if two { &["a", "b"] } else { &["a"] };
            let op = data(chans, T::TY, 2, inter);
            let s = Shared::new(vec![]);
            let mut f = TdmsFile::new(s.again()).or_else(|e| fail("open", format!("{e:?}")))?;
            let mut m = Model::default();
            {
                let mut w = f.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
                let Cmd::Data { paths, ks, inter, .. } = cmd(&op, k) else { panic!("harness: not data") };
                let v: Vec<Slow<T>> = ks.iter().map(|k| Slow::from_canon(&canon(T::TY, *k))).collect();
                let layout = if inter { tedium::DataLayout::Interleaved } else { tedium::DataLayout::Contigious };
                w.write_channels(&paths[..], &v[..], layout).or_else(|e| fail("write-error", format!("{e:?}")))?;
            }
            effect(&op, &mut m, k);
            for c in chans {
                check_read::<Slow<T>, _>(&mut f, &ch(c), &m.objs[&ch(c)].samples, 0, 3)?;
            }
            if two {
                check_multi::<Slow<T>, _>(&mut f, &m, &[(ch("b"), 2), (ch("a"), 1)], 1)?;
            }
            Ok(s.content())
        }
        let one = |i: usize| -> R<Vec<u8>> {
            let (ty, inter, two) = what[i];
            with_ty!(ty, T => go::<T>(i as u32 * 1000 + 1, inter, two))
        };
        let want = [one(0)?, one(1)?];
        ctx.note(|| format!("{what:?}"));
        let got = interleave(ctx, left, vec![Box::new(|| one(0)), Box::new(|| one(1))])?;
        ctx.state(&got);
        ctx.outcome = hash(&ctx.choices);
        ensure!(got[..] == want[..], "bytes", "{what:?}: the files differ from those written alone: {got:02x?} instead of {want:02x?}");
        Ok(())
    }));
    v.push(scenario("one_fails", &format!("a thread whose stream fails or panics at each of its operations while it writes, appends or reads, another one at work on its own file; every schedule with {} preemption(s); the other one is not disturbed, and this one goes on with another file", more(1, 2)), move |ctx| {
        let job = *ctx.pick(&[Job::Write, Job::Append, Job::ReadBig]);
        let bad = *ctx.pick(&[Job::Write, Job::Large, Job::Append, Job::ReadMulti]);
        let panics = ctx.flag();
        let at = 1 + ctx.choose(more(14, 24)) as u64;
        let want = [alone(job, 1)?, alone(Job::Write, 2)?];
        ctx.note(|| format!("{job:?} beside {bad:?}, whose stream {} at operation {at}", if panics { "panics" } else { "fails" }));
        let failing = move || -> R<(Vec<u8>, Vec<String>)> {
            let (bytes, mut m) = start(bad, 3);
            let s = Shared::new(bytes);
            s.store().fault = Some((at, panics));
            // what is acknowledged and what not is the matter of C15 and C32
            let _ = caught(|| -> Result<(), TdmsError> {
                let mut f = TdmsFile::new(s.again())?;
                if bad == Job::ReadMulti {
                    let paths = [ChannelPath::new("g", "a"), ChannelPath::new("g", "b")];
                    let (mut x, mut y) = ([0i32; 4], [0i32; 4]);
                    f.read_channels_from(&paths, 1, &mut [&mut x[..], &mut y[..]])?;
                    f.read_channels(&paths, &mut [&mut x[..], &mut y[..]])?;
                } else {
                    let n = if bad == Job::Large { 1500 } else { 2 };
                    let mut w = f.writer()?;
                    let mut k = 30_001;
                    for op in [data(&["a"], Ty::F64, n, false), WOp::Sync, data(&["b", "a"], Ty::F64, n, true)] {
                        exec_cmd!(w, &cmd(&op, k))?;
                        k = effect(&op, &mut m, k);
                    }
                }
                Ok(())
            });
            work(Job::Write, 2)
        };
        let got = interleave(ctx, more(1, 2), vec![Box::new(move || work(job, 1)), Box::new(failing)])?;
        ctx.state(&got.iter().map(hash).collect::<Vec<_>>());
        ctx.outcome = hash(&ctx.choices);
        ensure!(got[..] == want[..], "answers", "{job:?} beside a stream that fails: answers or bytes {got:02x?}, alone {want:02x?}");
        Ok(())
    }));
    let ops = |n: usize, sync: bool| {
        let mut o = vec![data(&["a", "b"], Ty::F64, n, false), data(&["a", "b"], Ty::F64, n, true), WOp::Props { path: P::Chan("g".into(), "a".into()), props: vec![("y".into(), Pv::i(5))] }, data(&["c"], Ty::I16, n, false)];
        if sync {
            o.insert(1, WOp::Sync);
            o.insert(4, WOp::Sync);
        }
        o
    };
    v.push(scenario("one_file", &format!("one thread appends 4 segments to a file (2 values, 300, or more than its buffer; with syncs or without), another one opens and reads the same file by its own handle: every schedule with up to {left} preemptions; it shows a state the file had meanwhile, or an error if the device ended within a segment"), move |ctx| {
        let n = *ctx.pick(&[2usize, 300, 700]);
        let sync = ctx.flag();
        one_file(ctx, left, &ops(n, sync), 1)
    }));
    v.push(scenario("one_file_two_readers", "the same with two reading threads and up to 2 preemptions (2 or 700 values, with syncs)", move |ctx| {
        let n = *ctx.pick(&[2usize, 700]);
        one_file(ctx, more(1, 2), &ops(n, true), 2)
    }));
    v.push(scenario("handed_over", "a file object, its writer and its listings used by another thread for every call of a history (every combination of staying and moving for 8 calls): the same bytes and answers", |ctx| {
        let all = [data(&["a", "b"], Ty::F64, 2, true), WOp::Props { path: P::Chan("g".into(), "a".into()), props: vec![("y".into(), Pv::i(5))] }, data(&["a", "b"], Ty::F64, 2, true), WOp::Sync, data(&["c"], Ty::Time, 1, false)];
        let moves: Vec<bool> = (0..8).map(|_| ctx.flag()).collect();
        ctx.note(|| format!("moved: {moves:?}"));
        let s = Shared::new(vec![]);
        let mut m = Model::default();
        fn on<O>(ctx: &mut Ctx, other: bool, f: impl FnOnce() -> R<O>) -> R<O> {
            ctx.step();
            if !other {
                return f();
            }
            let f = Cross(f);
            let r = std::thread::scope(|sc| sc.spawn(move || { let f = f.open(); Cross(contained(f)) }).join().expect("harness: join").open());
            match r {
                Err(f) if f.msg.starts_with("harness:") => panic!("{}", f.msg),
                r => r,
            }
        }
        let mut f = on(ctx, moves[0], || TdmsFile::new(s.again()).or_else(|e| fail("open", format!("{e:?}"))))?;
        {
            let mut w = on(ctx, moves[1], || f.writer().or_else(|e| fail("writer", format!("{e:?}"))))?;
            let mut k = 1;
            for (i, op) in all.iter().enumerate() {
                on(ctx, moves[2 + i % 5], || exec_cmd!(w, &cmd(op, k)).or_else(|e| fail("write-error", format!("{op:?}: {e:?}"))))?;
                k = effect(op, &mut m, k);
            }
            on(ctx, moves[7], || {
                drop(w);
                Ok(())
            })?;
        }
        on(ctx, moves[3], || check_meta(&f, &m, "live, other thread"))?;
        on(ctx, moves[4], || check_data(&mut f, &m, "live, other thread"))?;
        let b = s.content();
        let d = decode(&b).or_else(|e| fail("conformance", e))?;
        decoded_matches(&d, &m).or_else(|e| fail("conformance", e))?;
        ctx.state(&b);
        Ok(())
    }));
    v.push(scenario("shared", &format!("2 threads ask one shared file object for listings, properties and lengths (interrupted at each item): every schedule with up to {} preemptions, the answers as for one", more(2, 3)), move |ctx| {
        let (bytes, m) = start(Job::Query, 1);
        let s = Shared::new(bytes);
        let f = TdmsFile::new(s.again()).or_else(|e| fail("open", format!("{e:?}")))?;
        let f = &f;
        let ask = || -> R<Vec<String>> {
            let mut said = vec![];
            for g in f.list_groups() {
                point();
                said.push(g.to_string());
                for c in f.list_channels_in_group(&PropertyPath::group(g)) {
                    point();
                    said.push(format!("{} {:?}", c.path(), f.channel_length(&c)));
                    if let Some(i) = f.read_all_properties(&prop_path(c.path())?) {
                        for (n, v) in i {
                            point();
                            said.push(format!("{n} = {v:?}"));
                        }
                    }
                    said.push(format!("{:?}", f.read_property(&prop_path(c.path())?, "q")));
                }
            }
            Ok(said)
        };
        check_meta(f, &m, "before")?;
        let want = ask()?;
        let got = interleave(ctx, more(2, 3), vec![Box::new(ask), Box::new(ask)])?;
        ctx.outcome = hash(&ctx.choices);
        for g in &got {
            ensure!(*g == want, "answers", "a file object shared by two threads answers {g:?}, otherwise {want:?}");
        }
        check_meta(f, &m, "afterwards")
    }));
    v
}
