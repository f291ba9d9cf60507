//! C32: code of the application that runs inside calls of the library - its storage types, the
//! things it names channels by, its stream - works like the library's own, and errors or panics
//! in it fail that call only.
use super::crash::*;
use crate::check::*;
use crate::dev::*;
use crate::explore::*;
use crate::generate::*;
use crate::hist::*;
use crate::spec::*;
use crate::types::*;
use crate::{ensure, exec_cmd, session, with_ty};
use std::cell::Cell;
use std::io::{Error, Read, Write};
use tedium::types::DataType;
use tedium::{ChannelPath, DataLayout, TdmsError, TdmsStorageType};

/// How code of the application fails.
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum How {
    /// The way a stream reports errors.
    Error,
    /// After half of its bytes.
    LateError,
    /// In any other way.
    Other,
    LateOther,
    Panic,
    LatePanic,
}
const HOWS: [How; 6] = [How::Error, How::LateError, How::Other, How::LateOther, How::Panic, How::LatePanic];
thread_local! {
    static CALLS: Cell<usize> = const { Cell::new(0) };
    static FAIL: Cell<Option<(usize, How)>> = const { Cell::new(None) };
    static ALIVE: Cell<i64> = const { Cell::new(0) };
}
fn plan(f: Option<(usize, How)>) {
    CALLS.with(|c| c.set(0));
    FAIL.with(|x| x.set(f));
}
fn due() -> Option<How> {
    let n = CALLS.with(|c| c.replace(c.get() + 1));
    FAIL.with(|x| x.get()).filter(|f| f.0 == n).map(|f| f.1)
}
const TEXT: &str = "the application's own error";
fn fails(how: How) -> TdmsError {
    match how {
        How::Error | How::LateError => TdmsError::IoError(Error::other(TEXT)),
        How::Other | How::LateOther => TdmsError::InvalidObjectPath(TEXT.to_string()),
        How::Panic | How::LatePanic => injected_panic(),
    }
}

/// Counts its instances.
struct Alive;
impl Alive {
    fn new() -> Alive {
        ALIVE.with(|a| a.set(a.get() + 1));
        Alive
    }
}
impl Drop for Alive {
    fn drop(&mut self) {
        ALIVE.with(|a| a.set(a.get() - 1));
    }
}
/// A storage type of an application: larger in memory than in the file, not trivially copied,
/// reading and writing byte by byte, failing where it is told to.
pub struct Own<T: Sample> {
    v: Box<T>,
    _pad: [u64; 3],
    _alive: Alive,
}
impl<T: Sample> Own<T> {
    fn of(v: T) -> Self {
        Own { v: Box::new(v), _pad: [7; 3], _alive: Alive::new() }
    }
}
impl<T: Sample> Clone for Own<T> {
    fn clone(&self) -> Self {
        Own::of((*self.v).clone())
    }
}
impl<T: Sample> TdmsStorageType for Own<T> {
    const SUPPORTED_TYPES: &'static [DataType] = T::SUPPORTED_TYPES;
    const NATURAL_TYPE: DataType = T::NATURAL_TYPE;
    const SIZE_BYTES: usize = T::SIZE_BYTES;
    fn read_le(reader: &mut impl Read) -> Result<Self, TdmsError> {
        Self::get(reader, false)
    }
    fn read_be(reader: &mut impl Read) -> Result<Self, TdmsError> {
        Self::get(reader, true)
    }
    fn write_le(&self, writer: &mut impl Write) -> Result<(), TdmsError> {
        self.put(writer, false)
    }
    fn write_be(&self, writer: &mut impl Write) -> Result<(), TdmsError> {
        self.put(writer, true)
    }
    fn size(&self) -> usize {
        T::SIZE_BYTES
    }
}
impl<T: Sample> Own<T> {
    fn get(reader: &mut impl Read, be: bool) -> Result<Self, TdmsError> {
        let how = due();
        if let Some(h @ (How::Error | How::Other | How::Panic)) = how {
            return Err(fails(h));
        }
        let mut b = vec![0u8; T::SIZE_BYTES];
        let half = b.len() / 2;
        for i in 0..b.len() {
            if let (Some(h), true) = (how, i == half) {
                return Err(fails(h));
            }
            reader.read_exact(&mut b[i..i + 1])?;
        }
        let v = if be { T::read_be(&mut &b[..])? } else { T::read_le(&mut &b[..])? };
        Ok(Own::of(v))
    }
    fn put(&self, writer: &mut impl Write, be: bool) -> Result<(), TdmsError> {
        let how = due();
        if let Some(h @ (How::Error | How::Other | How::Panic)) = how {
            return Err(fails(h));
        }
        let mut b = vec![];
        if be { self.v.write_be(&mut b)? } else { self.v.write_le(&mut b)? };
        let half = b.len() / 2;
        for (i, x) in b.iter().enumerate() {
            if let (Some(h), true) = (how, i == half) {
                return Err(fails(h));
            }
            writer.write_all(&[*x])?;
        }
        Ok(())
    }
}
impl<T: Sample> Sample for Own<T> {
    const TY: Ty = T::TY;
    fn from_canon(b: &[u8]) -> Self {
        Own::of(T::from_canon(b))
    }
    fn same(&self, b: &[u8]) -> bool {
        self.v.same(b)
    }
    fn show(&self) -> String {
        self.v.show()
    }
    fn eq(&self, o: &Self) -> bool {
        Sample::eq(&*self.v, &*o.v)
    }
}
/// Bits of any stored type of `N` bytes: one storage type for channels of several types.
#[derive(Clone, PartialEq, Debug)]
struct Bits<const N: usize>([u8; N]);
impl<const N: usize> TdmsStorageType for Bits<N> {
    const SUPPORTED_TYPES: &'static [DataType] = match N {
        1 => &[DataType::U8, DataType::I8, DataType::Boolean],
        2 => &[DataType::I16, DataType::U16],
        4 => &[DataType::SingleFloat, DataType::U32, DataType::SingleFloatWithUnit, DataType::I32],
        8 => &[DataType::I64, DataType::DoubleFloat, DataType::U64, DataType::DoubleFloatWithUnit],
        _ => &[DataType::Timestamp],
    };
    const NATURAL_TYPE: DataType = Self::SUPPORTED_TYPES[0];
    fn read_le(reader: &mut impl Read) -> Result<Self, TdmsError> {
        let mut b = [0; N];
        reader.read_exact(&mut b)?;
        Ok(Bits(b))
    }
    fn read_be(reader: &mut impl Read) -> Result<Self, TdmsError> {
        let mut x = Self::read_le(reader)?;
        x.0.reverse();
        Ok(x)
    }
    fn write_le(&self, writer: &mut impl Write) -> Result<(), TdmsError> {
        Ok(writer.write_all(&self.0)?)
    }
    fn write_be(&self, writer: &mut impl Write) -> Result<(), TdmsError> {
        let mut b = self.0;
        b.reverse();
        Ok(writer.write_all(&b)?)
    }
    fn size(&self) -> usize {
        N
    }
}
/// Something of the application that has a channel path.
struct Named<'a>(&'a ChannelPath);
impl AsRef<ChannelPath> for Named<'_> {
    fn as_ref(&self) -> &ChannelPath {
        if due().is_some() {
            injected_panic();
        }
        self.0
    }
}

fn own<T: Sample>(ks: &[u32]) -> Vec<Own<T>> {
    ks.iter().map(|k| Own::from_canon(&canon(T::TY, *k))).collect()
}
/// The call on a writer as an application with its own types makes it.
macro_rules! exec_own {
    ($w:expr, $c:expr) => {
        match $c {
            Cmd::Data { paths, ty, ks, inter } => {
                let layout = if *inter { DataLayout::Interleaved } else { DataLayout::Contigious };
                with_ty!(*ty, T => $w.write_channels(&paths[..], &own::<T>(ks)[..], layout))
            }
            c => exec_cmd!($w, c),
        }
    };
}
pub fn c32(t: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(scenario("own_types", "2 writes of 1..2 channels as 15 storage types of the application (larger in memory than in the file, with heap and drop, byte by byte) beside the library's own, both layouts, same or new session: the same bytes, and the same values by every kind of read; no value leaked or dropped twice", |ctx| {
        let ty = *ctx.pick(&NATURAL);
        let two = *ctx.pick(&[Ty::F64, Ty::I16, ty]);
        let (inter, n) = (ctx.flag(), *ctx.pick(&[1usize, 3, 700]));
        let chans: &[&str] = if ctx.flag() { &["a", "b"] } else { &["a"] };
        let mut ops = vec![data(chans, ty, n, inter), data(&["c"], two, 2, false), data(chans, ty, n, inter)];
        match ctx.choose(3) {
            0 => {}
            1 => ops.insert(2, WOp::Session),
            _ => ops.insert(1, WOp::Reopen),
        }
        ctx.note(|| format!("{ops:?}"));
        ALIVE.with(|a| a.set(0));
        plan(None);
        let (dev, plain) = (Dev::new(vec![]), Dev::new(vec![]));
        let m = run(ctx, &plain, &ops, no_view)?;
        let mut f = must_open(&dev, "first open")?;
        let (mut i, mut k) = (0, 1);
        while i < ops.len() {
            let mut w = f.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
            while i < ops.len() && !matches!(ops[i], WOp::Session | WOp::Reopen) {
                // every other call with the type of the application
                let c = cmd(&ops[i], k);
                let r = if i % 2 == 0 { exec_own!(w, &c) } else { exec_cmd!(w, &c) };
                r.or_else(|e| fail("write-error", format!("{:?} refused: {e:?}", ops[i])))?;
                k = effect(&ops[i], &mut Model::default(), k);
                i += 1;
            }
            drop(w);
            if i < ops.len() && ops[i] == WOp::Reopen {
                f = must_open(&dev, "reopen")?;
            }
            i += 1;
        }
        let (mine, usual) = (Dev::bytes(&dev), Dev::bytes(&plain));
        ensure!(mine == usual, "bytes", "writing by a storage type of the application gives other bytes: {mine:02x?} instead of {usual:02x?}");
        ctx.state(&mine);
        for (f, what) in [(&mut f, "live"), (&mut must_open(&dev, "reopen")?, "reopened")] {
            let ctx = |e: Fail| Fail { key: e.key, msg: format!("{what}, by a type of the application: {}", e.msg) };
            check_view(f, &m, what)?;
            for c in chans.iter().chain(&["c"]) {
                let p = cpath("g", c);
                let s = &m.objs[&p].samples;
                with_ty!(s[0].0, T => for (start, len) in [(0, s.len() + 2), (1, 2), (s.len() as u64 - 1, 3), (n as u64, n), (s.len() as u64, 1)] {
                    check_read::<Own<T>, _>(f, &p, s, start, len).map_err(ctx)?
                });
                // another type must be refused whoever defines it
                if s[0].0 != Ty::I64 {
                    check_read::<Own<i64>, _>(f, &p, s, 0, 2).map_err(ctx)?;
                }
            }
            with_ty!(ty, T => for start in [0, 1, n as u64] {
                let req: Vec<(String, usize)> = chans.iter().rev().enumerate().map(|(i, c)| (cpath("g", c), n + 1 - i)).collect();
                check_multi::<Own<T>, _>(f, &m, &req, start).map_err(ctx)?
            });
        }
        let left = ALIVE.with(|a| a.get());
        ensure!(left == 0, "drop", "{left} values of the application's type are left (or dropped too often, if negative)");
        Ok(())
    }));
    v.push(scenario("several_types", "one storage type of the application for several stored types of 1, 2, 4, 8 and 16 bytes: channels of each two of 18 stored types in two segments, both layouts and byte orders, every start, single and multi reads: the right bits, or a refusal if a stored type is not supported", |ctx| {
        let (x, y) = (*ctx.pick(&FIXED), *ctx.pick(&FIXED));
        let (be, inter) = (ctx.flag(), ctx.flag());
        let mut f = Foreign::new();
        f.push(&full(be, inter, 2, &[("a", x, 3), ("b", y, 3)]));
        f.push(&full(!be, !inter, 1, &[("b", x, 2), ("a", y, 2)]));
        let dev = Dev::new(f.bytes.clone());
        ctx.state(&f.bytes);
        ctx.note(|| format!("{x:?} then {y:?}, big endian {be}, interleaved {inter}"));
        fn go<const N: usize>(ctx: &mut Ctx, dev: &Dev, m: &Model) -> R {
            let mut file = must_open(dev, "open")?;
            let has = |t: Ty| Bits::<N>::SUPPORTED_TYPES.iter().any(|d| *d as u32 == t.code());
            let none = Bits::<N>([0xEE; N]);
            for start in 0..9u64 {
                for len in [1usize, 4, 9] {
                    for multi in [false, true] {
                        ctx.step();
                        let names: &[&str] = if multi { &["b", "a"] } else { &["a"] };
                        let mut bufs: Vec<Vec<Bits<N>>> = names.iter().map(|_| vec![none.clone(); len]).collect();
                        let paths: Vec<ChannelPath> = names.iter().map(|c| ChannelPath::new("g", c)).collect();
                        let r = if multi {
                            file.read_channels_from(&paths, start, &mut bufs.iter_mut().map(|b| &mut b[..]).collect::<Vec<_>>())
                        } else {
                            file.read_channel_from(&paths[0], start, &mut bufs[0])
                        };
                        let what = format!("read {len} of {names:?} from {start} as bits of {N} bytes");
                        let mut all = true;
                        for (c, b) in names.iter().zip(&bufs) {
                            for (i, got) in b.iter().enumerate() {
                                let s = m.objs[&cpath("g", c)].samples.get(start as usize + i);
                                let right = s.filter(|s| has(s.0)).map(|s| canon(s.0, s.1));
                                all &= s.is_none() || right.is_some();
                                let fine = match (&right, r.is_ok()) {
                                    (Some(w), true) => got.0[..] == w[..],
                                    (Some(w), false) => got.0[..] == w[..] || *got == none,
                                    (None, _) => *got == none,
                                };
                                ensure!(fine, "data", "{what} ({r:?}): element {i} of {c} is {got:02x?}, stored is {s:?} ({right:02x?})");
                            }
                        }
                        let nothing = names.iter().all(|c| m.objs[&cpath("g", c)].samples.len() as u64 <= start);
                        ensure!(r.is_ok() == all || nothing, "type", "{what}: {r:?}, but all types supported: {all}");
                    }
                }
            }
            Ok(())
        }
        // every width that has either type, and one that has none
        go::<4>(ctx, &dev, &f.model)?;
        match x.size() {
            1 => go::<1>(ctx, &dev, &f.model),
            2 => go::<2>(ctx, &dev, &f.model),
            8 => go::<8>(ctx, &dev, &f.model),
            16 => go::<16>(ctx, &dev, &f.model),
            _ => Ok(()),
        }
    }));
    // what precedes the call in which something goes wrong
    let before = [vec![], vec![data(&["a"], Ty::F64, 2, false)], vec![data(&["a", "b"], Ty::F64, 3, true), pr(P::File, "y", Pv::i(7))], vec![data(&["a", "b"], Ty::F64, 600, false), WOp::Sync]];
    let sizes: &[usize] = if t { &[1, 2, 3, 5, 64, 600, 1024, 1100, 3000] } else { &[1, 3, 600, 1100] };
    v.push(scenario("encoding_fails", &format!("a write of {sizes:?} values to 1..2 channels, known or new, both layouts, in which the application's type reports an error or panics, before or within one of its values (each, or 15 of them around the buffer), behind 4 histories with or without a sync; then further writes on the same writer, a new one, or after reopening: everything acknowledged is there, nothing is made up"), move |ctx| {
        let ops = ctx.pick(&before).clone();
        let chans: &[&str] = *ctx.pick(&[&["a"][..], &["a", "b"], &["n", "a"]]);
        let n = *ctx.pick(sizes);
        let inter = ctx.flag();
        let bad = data(chans, Ty::F64, n, inter);
        let all = n * chans.len();
        let mut at_value: Vec<usize> = if all <= 10 { (0..all).collect() } else { vec![0, 1, 2, all / 2, 1000, 1005, 1010, 1015, 1019, 1020, 1021, 1022, 1023, 1024, all - 1] };
        at_value.retain(|k| *k < all);
        at_value.dedup();
        let at = *ctx.pick(&at_value);
        let how = *ctx.pick(&HOWS);
        let react = ctx.choose(4);
        broken_write(ctx, &ops, &bad, Bad::Encode(at, how), react, &format!("value {at} of {bad:?} fails ({how:?}) behind {ops:?}"))
    }));
    v.push(scenario("names_panic", "the same where what names the channels panics at each of its uses: the call leaves no trace", |ctx| {
        let ops = ctx.pick(&[vec![], vec![data(&["a", "b"], Ty::F64, 3, true)]]).clone();
        let chans: &[&str] = *ctx.pick(&[&["a"][..], &["a", "b"], &["n", "a"]]);
        let at = ctx.choose(4);
        let bad = data(chans, Ty::F64, 2, ctx.flag());
        let react = ctx.choose(4);
        broken_write(ctx, &ops, &bad, Bad::Names(at), react, &format!("naming a channel panics at use {at} in {bad:?} behind {ops:?}"))
    }));
    v.push(scenario("decoding_fails", "5 files, 9 reads, in which the application's type reports an error or panics before or within one of the values (each, or 12 of them), then the same or another read, and a write: the buffers hold right values or are untouched, and afterwards everything shows exactly", |ctx| {
        let f = super::faults::file_of(ctx.choose(super::faults::FILES));
        let calls = super::faults::calls();
        let c = ctx.pick(&calls).clone();
        let dev = Dev::new(f.bytes.clone());
        let mut x = must_open(&dev, "open")?;
        ALIVE.with(|a| a.set(0));
        plan(None);
        call_own(&mut x, &f.model, &c)?;
        let n = CALLS.with(|c| c.get());
        if n == 0 {
            return Ok(());
        }
        let mut places: Vec<usize> = if n <= 12 { (0..n).collect() } else { vec![0, 1, 2, 3, n / 4, n / 3, n / 2, n / 2 + 1, n * 3 / 4, n - 3, n - 2, n - 1] };
        places.dedup();
        let at = *ctx.pick(&places);
        let how = *ctx.pick(&HOWS);
        let what = format!("{c:?} with value {at} of {n} failing ({how:?})");
        ctx.note(|| what.clone());
        ctx.step();
        plan(Some((at, how)));
        // the buffers are judged inside, unless it panics: then it must leave the file alone
        let clean = caught(|| allowing_io(|| call_own(&mut x, &f.model, &c)));
        plan(None);
        match clean {
            Ok(r) => ensure!(!r?, "read-error", "{what}: the read succeeds although a value could not be decoded"),
            Err(Panicked) => ensure!(matches!(how, How::Panic | How::LatePanic), "panic", "{what}: panics"),
        }
        let left = ALIVE.with(|a| a.get());
        ensure!(left == 0, "drop", "{what}: {left} values of the application's type are left (or dropped too often, if negative)");
        ctx.state(&(at, n, how as u8));
        ensure!(Dev::bytes(&dev) == f.bytes, "bytes", "{what}: the file changed");
        let d = ctx.pick(&calls).clone();
        call_own(&mut x, &f.model, &d).map_err(|e| Fail { key: e.key, msg: format!("after {what}: {}", e.msg) })?;
        super::faults::call(&mut x, &f.model, &c).map_err(|e| Fail { key: e.key, msg: format!("after {what}: {}", e.msg) })?;
        if places[0] != at {
            return Ok(());
        }
        check_view(&mut x, &f.model, &format!("after {what}"))?;
        let mut m = f.model.clone();
        let op = data(&["a"], Ty::F64, 2, false);
        session!(x, w => { w(&cmd(&op, f.k)).or_else(|e| fail("write-error", format!("after {what}: {e:?}")))?; });
        effect(&op, &mut m, f.k);
        check_view(&mut x, &m, &format!("after {what} and a write"))?;
        check_reopened(&dev, &m)
    }));
    v.push(scenario("stream_panics_reading", "the same files and reads (by the library's own types), and opening: each read and seek of the stream panics once: then the same", |ctx| {
        let f = super::faults::file_of(ctx.choose(super::faults::FILES));
        let dev = Dev::new(f.bytes.clone());
        let calls = super::faults::calls();
        let which = ctx.choose(calls.len() + 1);
        let mut x = must_open(&dev, "open")?;
        if which == calls.len() {
            // opening
            let n = dev.counts();
            dev.reset_counters();
            let (c, at) = pick_op(ctx, n);
            dev.fault(c, at, Fault::Panic(0));
            let what = format!("opening with {c:?} {at} panicking");
            ctx.note(|| what.clone());
            let r = caught(|| open(&dev));
            dev.heal();
            ctx.state(&(at, r.is_err()));
            ensure!(Dev::bytes(&dev) == f.bytes, "bytes", "{what}: the file changed");
            ensure!(!matches!(r, Ok(Ok(_))), "panic", "{what}: the panic of the stream has vanished");
            // other handles on the file are not concerned
            check_view(&mut x, &f.model, &what)?;
            return check_view(&mut must_open(&dev, "open again")?, &f.model, &what);
        }
        let c = calls[which].clone();
        dev.reset_counters();
        super::faults::call(&mut x, &f.model, &c)?;
        let n = dev.counts();
        if n[Class::Read as usize] + n[Class::Seek as usize] == 0 {
            return Ok(());
        }
        let mut x = must_open(&dev, "open")?;
        dev.reset_counters();
        let (k, at) = pick_op(ctx, n);
        let part = if k == Class::Read { *ctx.pick(&[0usize, 1]) } else { 0 };
        dev.fault(k, at, Fault::Panic(part));
        let what = format!("{c:?} with {k:?} {at} panicking");
        ctx.note(|| what.clone());
        ctx.step();
        let r = caught(|| allowing_io(|| super::faults::call(&mut x, &f.model, &c)));
        let hit = dev.st.borrow().fault_hit;
        dev.heal();
        ctx.state(&(at, k as usize, r.is_err()));
        if let Ok(r) = r {
            ensure!(!(r? && hit), "panic", "{what}: the panic of the stream has vanished");
        }
        ensure!(Dev::bytes(&dev) == f.bytes, "bytes", "{what}: the file changed");
        super::faults::call(&mut x, &f.model, &c).map_err(|e| Fail { key: e.key, msg: format!("after {what}: {}", e.msg) })?;
        check_view(&mut x, &f.model, &format!("after {what}"))?;
        let mut m = f.model.clone();
        let op = data(&["a"], Ty::F64, 2, false);
        session!(x, w => { w(&cmd(&op, f.k)).or_else(|e| fail("write-error", format!("after {what}: {e:?}")))?; });
        effect(&op, &mut m, f.k);
        check_view(&mut x, &m, &format!("after {what} and a write"))
    }));
    let alpha = vec![data(&["a"], Ty::F64, 2, false), data(&["a", "b"], Ty::F64, 600, true), pr(P::File, "y", Pv::i(7)), WOp::Sync];
    v.push(scenario("stream_panics_writing", &format!("every history of 1..{} calls over {} calls, each write and flush of the stream panicking once, before or after accepting 1 byte, half or all but one; then further writes on the same writer, a new one, or after reopening: everything acknowledged by a sync is there, nothing is made up: {alpha:?}", if t { 4 } else { 3 }, alpha.len()), move |ctx| {
        let ops = super::writing::pick_hist(ctx, &alpha, 1, if t { 4 } else { 3 });
        let clean = Dev::new(vec![]);
        run_numbered(&clean, &ops)?;
        let n = clean.counts();
        let (nw, nf) = (n[Class::Write as usize], n[Class::Flush as usize]);
        let i = ctx.choose(nw + nf);
        let (c, at) = if i < nw { (Class::Write, i) } else { (Class::Flush, i - nw) };
        let part = if c == Class::Write { *ctx.pick(&[0usize, 1, HALF, usize::MAX]) } else { 0 };
        let react = ctx.choose(4);
        panicking_device(ctx, &ops, c, at, part, react)
    }));
    v
}
fn pick_op(ctx: &mut Ctx, n: [usize; 4]) -> (Class, usize) {
    let (r, s) = (n[Class::Read as usize], n[Class::Seek as usize]);
    let i = ctx.choose(r + s);
    if i < r { (Class::Read, i) } else { (Class::Seek, i - r) }
}
fn call_own(f: &mut tedium::TdmsFile<Dev>, m: &Model, c: &super::faults::Call) -> R {
    use super::faults::Call;
    match c {
        Call::One(p, s, n) => check_read::<Own<f64>, _>(f, &ch(p), &m.objs[&ch(p)].samples, *s, *n),
        Call::Many(req, s) => check_multi::<Own<f64>, _>(f, m, &req.iter().map(|(p, n)| (ch(p), *n)).collect::<Vec<_>>(), *s),
    }
}
fn run_numbered(dev: &Dev, ops: &[WOp]) -> R {
    let mut f = must_open(dev, "first open")?;
    let mut k = 1;
    let mut w = f.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
    for op in ops {
        let op = numbered(op, k);
        exec_cmd!(w, &cmd(&op, k)).or_else(|e| fail("write-error", format!("{op:?} refused: {e:?}")))?;
        k = effect(&op, &mut Model::default(), k) + 1;
    }
    Ok(())
}

#[derive(Clone, Copy)]
enum Bad {
    Encode(usize, How),
    Names(usize),
}
/// `bad` goes wrong behind `ops`. `react`: 0 go on with the same writer, 1 a new writer, 2 open the
/// file again, 3 the same, but the writer is dropped while the error or panic is on its way up.
fn broken_write(ctx: &mut Ctx, ops: &[WOp], bad: &WOp, b: Bad, react: usize, what: &str) -> R {
    ctx.note(|| format!("{what}; reaction {react}"));
    let dev = Dev::new(vec![]);
    let mut f = must_open(&dev, "first open")?;
    let mut at: Vec<Attempt> = vec![];
    let mut k = 1;
    ALIVE.with(|a| a.set(0));
    plan(None);
    // what the failing call gave: an error, nothing if it panicked
    let mut ended: Option<Result<(), TdmsError>> = None;
    let mut early = Ok(());
    let session = caught(|| {
        let mut w = match f.writer() {
            Ok(w) => w,
            Err(e) => {
                early = fail("writer", format!("{e:?}"));
                return;
            }
        };
        for op in ops {
            if !submit(ctx, &mut at, op, &mut k, |c| exec_cmd!(w, c)) {
                early = fail("write-error", format!("{op:?} refused"));
                return;
            }
        }
        at.push(Attempt { op: bad.clone(), k, ok: false, must: false });
        let c = cmd(bad, k);
        k = effect(bad, &mut Model::default(), k) + 1;
        ctx.step();
        let mut go = || match b {
            Bad::Encode(i, how) => {
                plan(Some((i, how)));
                exec_own!(w, &c)
            }
            Bad::Names(i) => {
                let Cmd::Data { paths, ks, inter, .. } = &c else { unreachable!() };
                let named: Vec<Named> = paths.iter().map(Named).collect();
                let values: Vec<f64> = ks.iter().map(|k| f64::from_canon(&canon(Ty::F64, *k))).collect();
                plan(Some((i, How::Panic)));
                w.write_channels(&named, &values, if *inter { DataLayout::Interleaved } else { DataLayout::Contigious })
            }
        };
        if react == 3 {
            ended = Some(go());
        } else if let Ok(r) = caught(go) {
            ended = Some(r);
        }
        plan(None);
        at.last_mut().unwrap().ok = matches!(ended, Some(Ok(())));
        if react == 0 {
            for op in more() {
                submit(ctx, &mut at, &op, &mut k, |c| exec_cmd!(w, c));
            }
        }
    });
    plan(None);
    early?;
    let panics = matches!(b, Bad::Names(_) | Bad::Encode(_, How::Panic | How::LatePanic));
    ensure!(panics || (session.is_ok() && ended.is_some()), "panic", "{what}: panics");
    match &ended {
        Some(Ok(())) => ensure!(matches!(b, Bad::Names(_)), "write-error", "{what}: the write succeeds although a value could not be encoded"),
        Some(Err(e)) => ensure!(panics || format!("{e:?}").contains(TEXT), "error", "{what}: the application's error is reported as {e:?}"),
        None => {}
    }
    let left = ALIVE.with(|a| a.get());
    ensure!(left == 0, "drop", "{what}: {left} values of the application's type are left (or dropped too often, if negative)");
    // the device is in order: what was acknowledged before the writer went is there
    for a in &mut at {
        a.must = a.ok;
    }
    judge_live(&mut f, &at, &format!("live file after {what}"))?;
    let fine = judge_device(ctx, &dev, &at, &format!("file after {what}"))?;
    go_on(ctx, f, &dev, &mut at, k, if react == 1 { 1 } else { 2 }, fine, what)
}
fn more() -> [WOp; 4] {
    [data(&["a"], Ty::F64, 1, false), data(&["a", "b"], Ty::F64, 3, true), pr(P::File, "y", Pv::i(0)), WOp::Sync]
}
fn panicking_device(ctx: &mut Ctx, ops: &[WOp], class: Class, idx: usize, part: usize, react: usize) -> R {
    let what = format!("{class:?} {idx} of {ops:?} panics after {part} bytes, reaction {react}");
    ctx.note(|| what.clone());
    let dev = Dev::new(vec![]);
    let mut f = must_open(&dev, "first open")?;
    dev.reset_counters();
    dev.fault(class, idx, Fault::Panic(part));
    let mut at: Vec<Attempt> = vec![];
    let mut k = 1;
    let mut early = Ok(());
    let _ = caught(|| {
        let mut w = match f.writer() {
            Ok(w) => w,
            Err(e) => {
                early = fail("writer", format!("{e:?}"));
                return;
            }
        };
        let more = more();
        let all: Vec<&WOp> = if react == 0 { ops.iter().chain(&more).collect() } else { ops.iter().collect() };
        for op in all {
            let op = numbered(op, k);
            if op != WOp::Sync {
                at.push(Attempt { op: op.clone(), k, ok: false, must: false });
            }
            let c = cmd(&op, k);
            k = effect(&op, &mut Model::default(), k) + 1;
            ctx.step();
            let r = if react == 3 { Ok(exec_cmd!(w, &c)) } else { caught(|| exec_cmd!(w, &c)) };
            match r {
                Ok(Ok(())) if op == WOp::Sync => at.iter_mut().filter(|a| a.ok).for_each(|a| a.must = true),
                Ok(Ok(())) => at.last_mut().unwrap().ok = true,
                Ok(Err(_)) => {}
                Err(Panicked) if react == 0 => {}
                Err(Panicked) => break,
            }
        }
        drop(w);
    });
    early?;
    dev.heal();
    judge_live(&mut f, &at, &format!("live file after {what}"))?;
    let fine = judge_device(ctx, &dev, &at, &format!("file after {what}"))?;
    go_on(ctx, f, &dev, &mut at, k, if react == 1 { 1 } else { 2 }, fine, &what)
}
