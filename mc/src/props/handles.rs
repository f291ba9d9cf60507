//! C29: several handles on one file.
use super::crash::check_torn;
use super::disk::Scratch;
use crate::check::*;
use crate::dev::Dev;
use crate::explore::*;
use crate::generate::*;
use crate::hist::*;
use crate::spec::*;
use crate::types::*;
use crate::{bail, ensure, exec_cmd};
use std::cell::RefCell;
use std::fs::{File, OpenOptions};
use std::io::{Read, Result as IoResult, Seek, SeekFrom, Write};
use std::rc::Rc;
use tedium::{TdmsError, TdmsFile};

/// A handle whose position is shared with every clone, as duplicated file handles share theirs.
#[derive(Clone)]
struct OneCursor(Rc<RefCell<Dev>>);
impl Read for OneCursor {
    fn read(&mut self, b: &mut [u8]) -> IoResult<usize> {
        self.0.borrow_mut().read(b)
    }
}
impl Write for OneCursor {
    fn write(&mut self, b: &[u8]) -> IoResult<usize> {
        self.0.borrow_mut().write(b)
    }
    fn flush(&mut self) -> IoResult<()> {
        self.0.borrow_mut().flush()
    }
}
impl Seek for OneCursor {
    fn seek(&mut self, p: SeekFrom) -> IoResult<u64> {
        self.0.borrow_mut().seek(p)
    }
}

/// What a handle must show: exactly one of the models, or a torn view between two of them.
#[derive(Clone, Copy, Debug, PartialEq, Hash)]
enum Snap {
    At(usize),
    Torn(usize, usize),
}
struct World<'a, F: Read + Write + Seek> {
    open: &'a dyn Fn() -> Result<TdmsFile<F>, TdmsError>,
    bytes: &'a dyn Fn() -> Vec<u8>,
    slots: Vec<Option<(TdmsFile<F>, Snap)>>,
    /// The file's content after every accepted write.
    models: Vec<Model>,
    k: u32,
}
/// The longest run of whole segments.
pub fn whole(b: &[u8]) -> usize {
    let mut at = 0usize;
    while b.len() - at >= 28 {
        let next = u64::from_le_bytes(b[at + 12..at + 20].try_into().unwrap());
        match usize::try_from(next).ok().and_then(|n| (at + 28).checked_add(n)) {
            Some(e) if e <= b.len() => at = e,
            _ => break,
        }
    }
    at
}
impl<F: Read + Write + Seek> World<'_, F> {
    fn latest(&self) -> usize {
        self.models.len() - 1
    }
    /// The newest model all of which is on the device, and whether there is more.
    fn on_device(&self) -> R<(usize, bool)> {
        let b = (self.bytes)();
        let n = whole(&b);
        let d = decode(&b[..n]).or_else(|e| fail("conformance", format!("the whole segments on the device do not conform: {e}")))?;
        match (0..self.models.len()).rev().find(|i| decoded_matches(&d, &self.models[*i]).is_ok()) {
            Some(i) => Ok((i, n < b.len())),
            None => fail("conformance", "the whole segments on the device are no state the file ever had"),
        }
    }
    fn open_slot(&mut self, i: usize, what: &str) -> R {
        let (k, torn) = self.on_device()?;
        match (self.open)() {
            Err(e) => ensure!(torn, "open", "{what}: opening a file of whole segments failed: {e:?}"),
            Ok(f) => {
                self.slots[i] = Some((f, if torn { Snap::Torn(k, self.latest()) } else { Snap::At(k) }));
                self.view(i, what)?;
            }
        }
        Ok(())
    }
    fn view(&mut self, i: usize, what: &str) -> R {
        let what = format!("{what}: handle {i}");
        let (f, s) = self.slots[i].as_mut().unwrap();
        match *s {
            Snap::At(k) => check_view(f, &self.models[k], &what),
            Snap::Torn(k, n) => check_torn(f, &self.models[k], &self.models[n], &what),
        }
    }
    /// A writer from a handle that does not know the whole file must be refused, and nothing may be written.
    fn try_writer(&mut self, i: usize, what: &str) -> R {
        let before = (self.bytes)();
        let (latest, more) = self.on_device()?;
        let (f, s) = self.slots[i].as_mut().unwrap();
        let ok = match f.writer() {
            Ok(w) => {
                drop(w);
                true
            }
            Err(_) => false,
        };
        match *s {
            Snap::At(k) if k == latest && !more => ensure!(ok, "writer", "{what}: handle {i} knows the whole file but gets no writer"),
            Snap::At(k) => ensure!(!ok, "stale", "{what}: handle {i} gets a writer although the file has grown since state {k}"),
            // It may have learnt of a segment before its data arrived.
            Snap::Torn(..) => {
                if ok {
                    check_view(f, &self.models[latest], &format!("{what}: handle {i} got a writer"))?;
                    ensure!(!more, "stale", "{what}: handle {i} gets a writer behind half a segment");
                }
            }
        }
        ensure!((self.bytes)() == before, "bytes", "{what}: asking for a writer changed the file");
        self.view(i, what)
    }
}

#[derive(Clone, Copy, Debug, PartialEq)]
enum Ev {
    Open(usize),
    Close(usize),
    View(usize),
    TryWriter(usize),
    Session(usize),
    Write(usize),
    Sync,
    End,
}

fn play<F: Read + Write + Seek>(ctx: &mut Ctx, w: &mut World<F>, pool: &[WOp], depth: usize, inside: bool) -> R {
    let mut left = depth;
    while left > 0 {
        let mut evs = vec![];
        if let Some(i) = w.slots.iter().position(|s| s.is_none()) {
            evs.push(Ev::Open(i));
        }
        let mut writable = vec![];
        for i in 0..w.slots.len() {
            let Some((_, s)) = &w.slots[i] else { continue };
            if *s == Snap::At(w.latest()) {
                evs.push(Ev::Session(i));
                writable.push(i);
            } else {
                evs.push(Ev::TryWriter(i));
            }
            evs.push(Ev::View(i));
            evs.push(Ev::Close(i));
        }
        let e = *ctx.pick(&evs);
        ctx.note(|| format!("{e:?}"));
        ctx.step();
        left -= 1;
        match e {
            Ev::Open(i) => w.open_slot(i, "between sessions")?,
            Ev::Close(i) => w.slots[i] = None,
            Ev::View(i) => w.view(i, "between sessions")?,
            Ev::TryWriter(i) => w.try_writer(i, "between sessions")?,
            Ev::Session(i) => {
                let (mut f, _) = w.slots[i].take().unwrap();
                {
                    let mut wr = f.writer().or_else(|e| fail("writer", format!("handle {i} knows the whole file but gets no writer: {e:?}")))?;
                    let mut synced = w.latest();
                    while left > 0 {
                        let mut evs: Vec<Ev> = (0..pool.len()).map(Ev::Write).collect();
                        evs.push(Ev::End);
                        evs.push(Ev::Sync);
                        if inside {
                            for j in (0..w.slots.len()).filter(|j| *j != i) {
                                if w.slots[j].is_some() {
                                    evs.push(Ev::View(j));
                                    evs.push(Ev::TryWriter(j));
                                } else {
                                    evs.push(Ev::Open(j));
                                }
                            }
                        }
                        let e = *ctx.pick(&evs);
                        ctx.note(|| format!("  {e:?}"));
                        ctx.step();
                        left -= 1;
                        match e {
                            Ev::End => break,
                            Ev::Sync => {
                                wr.sync().or_else(|e| fail("sync", format!("{e:?}")))?;
                                synced = w.latest();
                            }
                            Ev::Write(o) => {
                                let mut op = pool[o].clone();
                                if let WOp::Props { props, .. } = &mut op {
                                    // every state of the file is different
                                    props[0].1 = Pv::i(w.models.len() as i32);
                                }
                                exec_cmd!(wr, &cmd(&op, w.k)).or_else(|e| fail("write-error", format!("{op:?} refused: {e:?}")))?;
                                let mut m = w.models.last().unwrap().clone();
                                w.k = effect(&op, &mut m, w.k);
                                w.models.push(m);
                            }
                            Ev::Open(j) => w.open_slot(j, "while another handle writes")?,
                            Ev::View(j) => w.view(j, "while another handle writes")?,
                            Ev::TryWriter(j) => {
                                // With nothing of the session on the device yet it has no way to know.
                                let before = (w.bytes)();
                                let (_, more) = w.on_device()?;
                                match w.slots[j].as_ref().unwrap().1 {
                                    Snap::At(k) if !more && w.on_device()?.0 == k => {}
                                    _ => w.try_writer(j, "while another handle writes")?,
                                }
                                ensure!((w.bytes)() == before, "bytes", "asking for a second writer changed the file");
                            }
                            _ => bail!("harness", "no such event"),
                        }
                        ensure!(w.on_device()?.0 >= synced, "sync", "writes that were synced are not on the device");
                    }
                }
                let now = w.latest();
                w.slots[i] = Some((f, Snap::At(now)));
                w.view(i, "after its session")?;
            }
            _ => bail!("harness", "no such event"),
        }
        let (k, more) = w.on_device()?;
        ensure!(k == w.latest() && !more, "lost", "with no writer open the device holds state {k} of {}", w.latest());
        ctx.state(&((w.bytes)(), w.slots.iter().map(|s| s.as_ref().map(|s| s.1)).collect::<Vec<_>>()));
    }
    for i in 0..w.slots.len() {
        if w.slots[i].is_some() {
            w.view(i, "in the end")?;
            w.try_writer(i, "in the end")?;
            w.slots[i] = None;
        }
    }
    let latest = w.latest();
    let mut f = (w.open)().or_else(|e| fail("open", format!("in the end: {e:?}")))?;
    check_view(&mut f, &w.models[latest], "opened in the end")
}
fn pool() -> Vec<WOp> {
    vec![
        data(&["a"], Ty::F64, 2, false),
        data(&["a", "b"], Ty::F64, 1, true),
        WOp::Props { path: P::Chan("g".into(), "a".into()), props: vec![("y".into(), Pv::i(0))] },
        data(&["b"], Ty::F64, 1100, false),
    ]
}
fn start(which: usize) -> (Vec<u8>, Model) {
    if which == 0 {
        return (vec![], Model::default());
    }
    let mut f = Foreign::new();
    f.k = 7000;
    let mut s = full(false, true, 2, &[("b", Ty::F64, 2), ("a", Ty::F64, 2)]);
    s.meta.as_mut().unwrap()[0].props.push(("x".into(), Pv::i(3)));
    assert!(f.push(&s));
    (f.bytes, f.model)
}
fn arena<'a, F: Read + Write + Seek>(open: &'a dyn Fn() -> Result<TdmsFile<F>, TdmsError>, bytes: &'a dyn Fn() -> Vec<u8>, n: usize, m: Model) -> World<'a, F> {
    World { open, bytes, slots: (0..n).map(|_| None).collect(), models: vec![m], k: 1 }
}
pub fn c29(t: bool) -> Vec<Scenario> {
    let mut v = vec![];
    for (handles, depth) in if t { [(2usize, 7usize), (3, 6)] } else { [(2, 6), (3, 5)] } {
        v.push(scenario(&format!("snapshots{handles}"), &format!("up to {handles} handles on one stream, each with its own position, every sequence of {depth} events (open, close, look, ask for a writer; in a writer session: 4 writes, one larger than the write buffer, sync, and all the former on the other handles) on an empty and a written file"), move |ctx| {
            let (b, m) = start(ctx.choose(2));
            let dev = Dev::new(b);
            let open = || TdmsFile::new(dev.again());
            let bytes = || Dev::bytes(&dev);
            let mut w = arena(&open, &bytes, handles, m);
            w.open_slot(0, "at first")?;
            play(ctx, &mut w, &pool(), depth, true)
        }));
    }
    let depth = if t { 8 } else { 6 };
    v.push(scenario("one position", &format!("2 handles that share one position, as duplicates of a file handle do: every sequence of {depth} events, other handles resting during a writer session"), move |ctx| {
        let (b, m) = start(ctx.choose(2));
        let dev = Dev::new(b);
        let cur = OneCursor(Rc::new(RefCell::new(dev.again())));
        let open = || TdmsFile::new(cur.clone());
        let bytes = || Dev::bytes(&dev);
        let mut w = arena(&open, &bytes, 2, m);
        w.open_slot(0, "at first")?;
        play(ctx, &mut w, &pool(), depth, false)
    }));
    let depth = if t { 6 } else { 5 };
    v.push(scenario("files", &format!("2 handles of a real file, loaded by path or duplicated: every sequence of {depth} events"), move |ctx| {
        let (b, m) = start(ctx.choose(2));
        let dup = ctx.flag();
        let dir = Scratch::new();
        let path = dir.path(0);
        std::fs::write(&path, b).expect("harness: write");
        let one: File = OpenOptions::new().read(true).write(true).open(&path).expect("harness: open");
        let open = || if dup { TdmsFile::new(one.try_clone().expect("harness: clone")) } else { TdmsFile::load(&path) };
        let bytes = || std::fs::read(&path).expect("harness: read");
        let mut w = arena(&open, &bytes, 2, m);
        w.open_slot(0, "at first")?;
        play(ctx, &mut w, &pool(), depth, !dup)
    }));
    let alpha = super::crash::c11_alphabet(t);
    let depth = if t { 3 } else { 2 };
    v.push(scenario("shortened", &format!("every file of 1..{depth} writes out of {}, cut short at every byte while open, looked at, asked for a writer, and restored", alpha.len()), move |ctx| {
        let ops = super::writing::pick_hist(ctx, &alpha, 1, depth);
        ctx.note(|| format!("{ops:?}"));
        let dev = Dev::new(vec![]);
        let (models, ends, _) = super::crash::written(&dev, &ops, Model::default(), 1)?;
        let full = models.last().unwrap();
        let all = Dev::bytes(&dev);
        let mut f = must_open(&dev, "open")?;
        let cut = ctx.choose(all.len() + 1);
        ctx.step();
        ctx.state(&(ops.clone(), cut));
        let seg = ends.iter().rposition(|e| *e <= cut).unwrap_or(0);
        dev.st.borrow_mut().data.truncate(cut);
        let what = format!("cut at byte {cut} of {} while open", all.len());
        check_meta(&f, full, &what)?;
        check_torn(&mut f, &models[seg], full, &what)?;
        if cut < all.len() {
            ensure!(f.writer().is_err(), "shortened", "{what}: a handle that knows of {} bytes gets a writer", all.len());
            ensure!(dev.len() == cut, "bytes", "{what}: asking for a writer changed the file");
            check_torn(&mut f, &models[seg], full, &what)?;
        }
        dev.st.borrow_mut().data = all;
        check_view(&mut f, full, "restored after having been cut while open")?;
        ensure!(f.writer().is_ok(), "writer", "restored, but there is no writer");
        Ok(())
    }));
    v
}
