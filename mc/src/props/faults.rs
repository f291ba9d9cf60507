//! C10, C12, C13: malformed bytes, failing reads, short and interrupted transfers.
use crate::check::*;
use crate::dev::*;
use crate::explore::*;
use crate::generate::*;
use crate::hist::*;
use crate::spec::*;
use crate::types::*;
use crate::{bail, ensure, exec_cmd};
use labview_interop::types::LVTime;
use std::io::ErrorKind;
use std::sync::Arc;
use tedium::types::{Complex, ExtendedRaw};
use tedium::{ChannelPath, PropertyPath, TdmsFile, TdmsStorageType};

// ---------------------------------------------------------------- C10

fn try_reads<T: TdmsStorageType + Clone>(f: &mut TdmsFile<Dev>, chans: &[ChannelPath], fill: T, deep: bool) -> u64 {
    let mut outcome = 0u64;
    let mut note = |ok: bool| outcome = outcome.rotate_left(1) ^ ok as u64;
    let mut b: Vec<T> = vec![fill; 9];
    for c in chans {
        let len = f.channel_length(c).unwrap_or(0);
        note(f.read_channel(c, &mut b[..]).is_ok());
        note(f.read_channel_from(c, 1, &mut b[..3]).is_ok());
        if deep {
            note(f.read_channel(c, &mut b[..0]).is_ok());
            for s in [len.wrapping_sub(1), len, len / 2, u64::MAX, 1 << 32, 1 << 63] {
                note(f.read_channel_from(c, s, &mut b[..2]).is_ok());
            }
        }
    }
    for start in if deep { &[0u64, 1, 2, 5, u64::MAX][..] } else { &[0u64, 1][..] } {
        let mut bs: Vec<Vec<T>> = chans.iter().map(|_| b.clone()).collect();
        let mut outs: Vec<&mut [T]> = bs.iter_mut().enumerate().map(|(i, b)| &mut b[..9 - i % 9]).collect();
        note(f.read_channels_from(chans, *start, &mut outs).is_ok());
    }
    outcome
}
/// Everything the public interface offers, on whatever these bytes are.
pub fn exercise(ctx: &mut Ctx, bytes: Vec<u8>, deep: bool) -> R {
    let n = bytes.len();
    let dev = Dev::new(bytes);
    // generous: proportional to the file, not to what it claims to hold
    dev.st.borrow_mut().budget = 50_000 + 50 * n as u64;
    ctx.step();
    let mut f = match open(&dev) {
        Ok(f) => f,
        Err(e) => {
            ctx.state(&std::mem::discriminant(&e));
            return Ok(());
        }
    };
    let groups: Vec<String> = f.list_groups().map(|s| s.to_string()).collect();
    let mut chans: Vec<ChannelPath> = vec![];
    for g in &groups {
        for p in [Some(PropertyPath::group(g)), PropertyPath::try_from(format!("/'{g}'").as_str()).ok()].into_iter().flatten() {
            for c in f.list_channels_in_group(&p) {
                if !chans.contains(&c) {
                    chans.push(c);
                }
            }
            ctx.state(&f.read_all_properties(&p).map(|x| x.count()));
        }
    }
    for p in [ch("a"), ch("b")] {
        let c = chan(&p)?;
        if !chans.contains(&c) {
            chans.push(c);
        }
    }
    let mut out = 0u64;
    for c in &chans {
        let p: &PropertyPath = c.as_ref();
        let all: Vec<String> = f.read_all_properties(p).into_iter().flatten().map(|x| format!("{x:?}")).collect();
        ctx.state(&all);
        let _ = f.read_property(p, "p");
        out = out.rotate_left(7) ^ f.channel_length(c).unwrap_or(77);
    }
    for p in [PropertyPath::file(), PropertyPath::group("g")] {
        let _ = f.read_property(&p, "p");
    }
    macro_rules! go {
        ($f:expr; $($t:ty, $v:expr);*) => { $( ctx.step(); out = out.rotate_left(9) ^ try_reads::<$t>($f, &chans, $v, deep); )* };
    }
    go!(&mut f; f64, 0.0; i32, 0; u8, 0; LVTime, LVTime::from_parts(0, 0));
    if deep {
        go!(&mut f; bool, false; i16, 0; i64, 0; f32, 0.0; ExtendedRaw, ExtendedRaw::new(0); Complex<f32>, Complex::new(0.0, 0.0); Complex<f64>, Complex::new(0.0, 0.0); String, String::new());
    }
    let _ = f.list_channels_in_group(&PropertyPath::file()).count();
    // append
    ctx.step();
    match f.writer() {
        Err(_) => out ^= 1,
        Ok(mut w) => {
            let mut ok = true;
            for op in [data(&["a"], Ty::F64, 2, false), data(&["a", "b"], Ty::I32, 2, true), data(&["b"], Ty::I32, 2, true), WOp::Props { path: P::Chan("g".into(), "a".into()), props: vec![("p".into(), Pv::i(1))] }] {
                ok &= exec_cmd!(w, &cmd(&op, 1)).is_ok();
            }
            out = out.rotate_left(1) ^ (ok & w.sync().is_ok()) as u64;
        }
    }
    go!(&mut f; f64, 0.0; i32, 0);
    drop(f);
    if let Ok(mut f) = open(&dev) {
        go!(&mut f; f64, 0.0; i32, 0);
    }
    ctx.state(&out);
    Ok(())
}

#[derive(Clone)]
struct Base {
    name: &'static str,
    bytes: Vec<u8>,
    segs: Vec<(usize, usize, usize)>,
    be: bool,
}
fn bases() -> Vec<Base> {
    let mut out = vec![];
    let mut add = |name, be, f: &Foreign| out.push(Base { name, bytes: f.bytes.clone(), segs: f.segs.clone(), be });
    for be in [false, true] {
        let mut f = Foreign::new();
        let mut s = full(be, false, 2, &[("a", Ty::F64, 1), ("b", Ty::I32, 2)]);
        s.meta.as_mut().unwrap()[0].props = vec![("p".into(), Pv::s("v")), ("i".into(), Pv::i(1))];
        f.push(&s);
        f.push(&Seg { be, new_list: false, meta: None, interleaved: false, chunks: 1 });
        add("contiguous, two segments", be, &f);
        let mut f = Foreign::new();
        f.push(&full(be, true, 1, &[("a", Ty::I32, 3), ("b", Ty::U8, 3)]));
        f.push(&Seg { be, new_list: false, meta: Some(vec![so(&ch("b"), Idx::None), so(&ch("a"), Idx::Same)]), interleaved: true, chunks: 2 });
        add("interleaved, then without one channel", be, &f);
        let mut f = Foreign::new();
        f.push(&full(be, false, 1, &[("a", Ty::Str, 2), ("b", Ty::F64, 2)]));
        f.push(&Seg { be, new_list: false, meta: Some(vec![SObj { path: "/".into(), idx: Idx::None, props: vec![("t".into(), Pv::of(Ty::Time, 1)), ("c".into(), Pv::of(Ty::C32, 1)), ("b".into(), Pv::of(Ty::Bool, 1)), ("e".into(), Pv::of(Ty::Ext, 1))] }]), interleaved: false, chunks: 0 });
        add("strings and properties", be, &f);
        let mut f = Foreign::new();
        f.push(&full(be, false, 1, &[("a", Ty::Time, 1), ("b", Ty::Ext, 1)]));
        add("wide types", be, &f);
    }
    out
}
/// Fields of a file: (offset, width), found by walking it.
fn fields(b: &Base) -> Vec<(usize, usize)> {
    let u32_at = |o: usize| { let x: [u8; 4] = b.bytes[o..o + 4].try_into().unwrap(); if b.be { u32::from_be_bytes(x) } else { u32::from_le_bytes(x) } };
    let mut v = vec![];
    for &(s, raw, _) in &b.segs {
        v.extend([(s, 4), (s + 4, 4), (s + 8, 4), (s + 12, 8), (s + 20, 8)]);
        let mut p = s + 28;
        if p == raw {
            continue;
        }
        let n = u32_at(p);
        v.push((p, 4));
        p += 4;
        for _ in 0..n {
            v.push((p, 4));
            p += 4 + u32_at(p) as usize;
            v.push((p, 4));
            let idx = u32_at(p);
            p += 4;
            if idx == 20 || idx == 28 {
                v.extend([(p, 4), (p + 4, 4), (p + 8, 8)]);
                p += 16;
                if idx == 28 {
                    v.push((p, 8));
                    p += 8;
                }
            }
            v.push((p, 4));
            let np = u32_at(p);
            p += 4;
            for _ in 0..np {
                v.push((p, 4));
                p += 4 + u32_at(p) as usize;
                v.push((p, 4));
                let code = u32_at(p);
                p += 4;
                if code == Ty::Str.code() {
                    v.push((p, 4));
                    p += 4 + u32_at(p) as usize;
                } else {
                    p += Ty::from_code(code).map_or(0, |t| t.size());
                }
            }
        }
        assert_eq!(p, raw, "harness: field walk");
    }
    v
}
fn put(b: &mut [u8], off: usize, w: usize, v: u64, be: bool) {
    let x = if be { v.to_be_bytes()[8 - w..].to_vec() } else { v.to_le_bytes()[..w].to_vec() };
    b[off..off + w].copy_from_slice(&x);
}
fn values(w: usize, few: bool) -> Vec<u64> {
    let mut v: Vec<u64> = if few {
        vec![0, 1, 2, 0x7FFF_FFFF, 0xFFFF_FFFF]
    } else {
        vec![0, 1, 2, 3, 4, 7, 8, 16, 19, 20, 21, 27, 28, 29, 32, 100, 255, 256, 65535, 1 << 20, (1 << 24) - 1, 0x7FFF_FFFF, 0x8000_0000, 0xFFFF_FFFE, 0xFFFF_FFFF]
    };
    if w == 4 && !few {
        // type codes, DAQmx markers, ToC combinations
        v.extend([9, 10, 0x19, 0x1A, 0x1B, 0x20, 0x21, 0x44, 0x4F, 0x0008_000C, 0x0010_000D, 0x6912_0000, 0x6912_FFFF, 0x6913_1234, 0x126A, 0x0A, 0x0E, 0x2E, 0x4E, 0x8E, 0x6D53_4454, 0x5444_536D]);
    }
    if w == 8 {
        v.extend(if few {
            vec![u64::MAX, i64::MAX as u64]
        } else {
            vec![1 << 32, (1 << 32) + 8, 1 << 33, 1 << 56, 1 << 60, 1 << 61, 1 << 62, (1 << 63) - 28, (1 << 63) - 1, 1 << 63, u64::MAX / 3, u64::MAX / 8, u64::MAX / 8 + 1, u64::MAX - 28, u64::MAX - 27, u64::MAX - 1, u64::MAX]
        });
    }
    v
}
pub fn c10(t: bool) -> Vec<Scenario> {
    let bs = Arc::new(bases());
    let mut v = vec![];
    let b = bs.clone();
    v.push(scenario("truncated", "8 base files (both byte orders; contiguous, interleaved, strings, wide types, all property kinds), every prefix; then everything the interface offers", move |ctx| {
        let b = &b[ctx.choose(b.len())];
        ctx.note(|| b.name.to_string());
        let n = ctx.choose(b.bytes.len() + 1);
        exercise(ctx, b.bytes[..n].to_vec(), true)
    }));
    let b = bs.clone();
    v.push(scenario("bytes", "the base files, every byte replaced by every other value", move |ctx| {
        let b = &b[ctx.choose(b.len())];
        let at = ctx.choose(b.bytes.len());
        let x = ctx.choose(255) as u8;
        let mut y = b.bytes.clone();
        y[at] = y[at].wrapping_add(x + 1);
        ctx.note(|| format!("{}: byte {at} becomes {:#x}", b.name, y[at]));
        exercise(ctx, y, false)
    }));
    let b = bs.clone();
    v.push(scenario("fields", "the base files, every length, count, offset, type or flag field replaced by every boundary value (small, around 2^31, 2^32, 2^63, 2^64, type codes, DAQmx markers), plus every truncation behind it by 0..3 bytes", move |ctx| {
        let b = &b[ctx.choose(b.len())];
        let fs = fields(b);
        let (o, w) = *ctx.pick(&fs);
        let v = *ctx.pick(&values(w, false));
        let mut y = b.bytes.clone();
        put(&mut y, o, w, v, b.be);
        let cut = ctx.choose(4);
        y.truncate(y.len() - cut);
        ctx.note(|| format!("{}: field at {o} (width {w}) becomes {v:#x}, {cut} bytes cut", b.name));
        exercise(ctx, y, true)
    }));
    let b = bs.clone();
    v.push(scenario("two_fields", &format!("the base files, every pair of fields replaced by every pair of {} boundary values", if t { "all" } else { "5 (4 byte) or 7 (8 byte)" }), move |ctx| {
        let b = &b[ctx.choose(b.len())];
        let fs = fields(b);
        let i = ctx.choose(fs.len() - 1);
        let j = i + 1 + ctx.choose(fs.len() - 1 - i);
        let mut y = b.bytes.clone();
        for (o, w) in [fs[i], fs[j]] {
            let v = *ctx.pick(&values(w, !t));
            put(&mut y, o, w, v, b.be);
        }
        ctx.note(|| format!("{}: fields at {:?} and {:?}", b.name, fs[i], fs[j]));
        exercise(ctx, y, false)
    }));
    v.push(scenario("lead_in", "every combination of all 256 low ToC bytes, 9 next segment offsets, 9 raw data offsets, and 6 bodies", |ctx| {
        let toc = ctx.choose(256) as u32;
        let be = toc & 64 != 0;
        let next = *ctx.pick(&[0u64, 1, 4, 8, 24, 64, 1 << 32, u64::MAX - 28, u64::MAX]);
        let raw = *ctx.pick(&[0u64, 1, 4, 8, 24, 64, 1 << 32, u64::MAX - 28, u64::MAX]);
        let meta = encode_meta(&[so(&ch("a"), Idx::Full(Ty::F64, 1))], be);
        let mut b = lead_in(be, toc, 4713, next, raw);
        match ctx.choose(6) {
            0 => {}
            1 => b.extend([0; 4]),
            2 => b.extend(&meta),
            3 => {
                b.extend(&meta);
                b.extend([1; 8]);
            }
            4 => b.extend(encode_meta(&[so(&ch("a"), Idx::None)], be)),
            _ => {
                b.extend(&meta);
                b.extend([1; 8]);
                let c = b.clone();
                b.extend(c);
            }
        }
        exercise(ctx, b, false)
    }));
    // structures that are not ambiguous nonsense but unusual
    v.push(scenario("objects", "object lists with repeated, unknown or unsuitable objects: every list of 1..3 over 5 paths, 9 raw data indexes, 3 sizes of raw data, both layouts and byte orders, new or continued list after a normal segment", |ctx| {
        let mut f = Foreign::new();
        let be = ctx.flag();
        let cont = ctx.flag();
        if cont {
            f.push(&full(be, false, 1, &[("a", Ty::F64, 1)]));
        }
        let n = ctx.range(1, 2);
        let mut m = u32b(n as u32, be);
        for _ in 0..n {
            let p = *ctx.pick(&["/'g'/'a'", "/'g'/'b'", "/'g'", "/", "nonsense"]);
            m.extend(u32b(p.len() as u32, be));
            m.extend(p.bytes());
            let (code, ty, count): (u32, u32, u64) = *ctx.pick(&[(0xFFFF_FFFF, 0, 0), (0, 0, 0), (20, 10, 1), (20, 3, 2), (20, 0, 1), (20, 10, 0), (28, 0x20, 2), (20, 10, 1 << 61), (20, 0x99, 1)]);
            m.extend(u32b(code, be));
            if code == 20 || code == 28 {
                m.extend(u32b(ty, be));
                m.extend(u32b(1, be));
                m.extend(u64b(count, be));
                if code == 28 {
                    m.extend(u64b(8, be));
                }
            }
            m.extend(u32b(0, be));
        }
        let raw = *ctx.pick(&[0usize, 8, 24, 37]);
        let toc = 2 | (!cont as u32) << 2 | 8 | (ctx.flag() as u32) << 5 | (be as u32) << 6;
        let mut b = f.bytes.clone();
        b.extend(lead_in(be, toc, 4713, (m.len() + raw) as u64, m.len() as u64));
        b.extend(&m);
        b.extend((0..raw).map(|i| i as u8));
        exercise(ctx, b, true)
    }));
    v.push(scenario("short_files", &format!("every file of 0..{} bytes over 4 byte values, and after a correct tag every 0..{} bytes", if t { 9 } else { 7 }, if t { 8 } else { 6 }), move |ctx| {
        let tag = ctx.flag();
        let max = if t { 9 } else { 7 } - tag as usize;
        let n = ctx.range(0, max);
        let mut b = if tag { b"TDSm".to_vec() } else { vec![] };
        for _ in 0..n {
            b.push(*ctx.pick(&[0u8, 0x0E, b'T', 0xFF]));
        }
        exercise(ctx, b, false)
    }));
    v
}

// ---------------------------------------------------------------- C12 and C13 files

/// A mixture of files with what they mean. `big`: larger than the stream buffer.
pub fn file_of(i: usize) -> Foreign {
    let mut f = Foreign::new();
    let cont = |be, chunks, inter| Seg { be, new_list: false, meta: None, interleaved: inter, chunks };
    match i {
        0 | 1 => {
            let be = i == 1;
            let mut s = full(be, false, 2, &[("a", Ty::F64, 2), ("b", Ty::F64, 1)]);
            s.meta.as_mut().unwrap()[0].props = vec![("p".into(), Pv::s("v")), ("t".into(), Pv::of(Ty::Time, 5))];
            f.push(&s);
            f.push(&cont(be, 1, false));
            f.push(&full(!be, true, 3, &[("b", Ty::F64, 1), ("a", Ty::F64, 1)]));
        }
        2 => {
            f.push(&full(false, false, 1, &[("a", Ty::F64, 1100), ("b", Ty::F64, 3)]));
            f.push(&full(true, true, 1, &[("a", Ty::F64, 600), ("b", Ty::F64, 600)]));
        }
        3 => {
            f.push(&full(false, false, 3, &[("s", Ty::Str, 0), ("a", Ty::F64, 2)]));
            f.push(&full(true, false, 1, &[("s", Ty::Str, 3), ("a", Ty::F64, 2), ("b", Ty::F64, 2)]));
            let mut s = full(false, false, 1, &[("b", Ty::F64, 1)]);
            s.meta.as_mut().unwrap()[0].props = vec![("p".into(), Pv::s(&"long".repeat(2500)))];
            f.push(&s);
        }
        _ => {
            for k in 0..4 {
                f.push(&full(k % 2 == 1, k == 2, 1, &[("a", Ty::F64, 2)]));
                f.push(&full(k % 2 == 0, false, 1, &[("b", Ty::F64, 300)]));
            }
        }
    }
    f
}
pub const FILES: usize = 5;
#[derive(Clone, Debug)]
pub enum Call {
    One(&'static str, u64, usize),
    Many(Vec<(&'static str, usize)>, u64),
}
pub fn calls() -> Vec<Call> {
    vec![
        Call::One("a", 0, 5),
        Call::One("a", 0, 4000),
        Call::One("a", 3, 2),
        Call::One("b", 1, 4000),
        Call::One("b", 2, 1),
        Call::One("a", 1105, 500),
        Call::Many(vec![("a", 4000), ("b", 4000)], 0),
        Call::Many(vec![("b", 2), ("a", 7)], 1),
        Call::Many(vec![("a", 3), ("b", 650), ("a", 1200)], 2),
    ]
}
pub fn call(f: &mut TdmsFile<Dev>, m: &Model, c: &Call) -> R {
    match c {
        Call::One(p, s, n) => check_read::<f64, _>(f, &ch(p), &m.objs[&ch(p)].samples, *s, *n),
        Call::Many(req, s) => check_multi::<f64, _>(f, m, &req.iter().map(|(p, n)| (ch(p), *n)).collect::<Vec<_>>(), *s),
    }
}
/// The call must deliver the right data or an error; on an error nothing wrong may be in the buffers.
fn call_may_fail(f: &mut TdmsFile<Dev>, m: &Model, c: &Call) -> R<bool> {
    allowing_io(|| call(f, m, c))
}
const KINDS: [ErrorKind; 6] = [ErrorKind::Other, ErrorKind::WouldBlock, ErrorKind::TimedOut, ErrorKind::InvalidData, ErrorKind::NotFound, ErrorKind::InvalidInput];

fn pick_fault(ctx: &mut Ctx, counts: [usize; 4], kinds: &[ErrorKind]) -> Option<(Class, usize, Fault)> {
    let (nr, ns) = (counts[Class::Read as usize], counts[Class::Seek as usize]);
    if nr + ns == 0 {
        return None;
    }
    let i = ctx.choose(nr + ns);
    let (c, at) = if i < nr { (Class::Read, i) } else { (Class::Seek, i - nr) };
    let k = *ctx.pick(kinds);
    let f = match ctx.choose(if c == Class::Read { 3 } else { 2 }) {
        0 => Fault::Once(k),
        1 => Fault::Forever(k),
        _ => Fault::PartialThenOnce(1),
    };
    Some((c, at, f))
}
pub fn c12(t: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(scenario("open", "5 files (small to several stream buffers), every read and seek of opening failing once, for good or after a partial transfer, with 6 kinds of error; then opened again on a working stream", |ctx| {
        let f = file_of(ctx.choose(FILES));
        let dev = Dev::new(f.bytes.clone());
        must_open(&dev, "clean open")?;
        let n = dev.counts();
        dev.reset_counters();
        let (c, at, fault) = pick_fault(ctx, n, &KINDS).unwrap();
        dev.fault(c, at, fault);
        let what = format!("open with {c:?} {at} failing ({fault:?})");
        ctx.note(|| what.clone());
        ctx.step();
        let r = open(&dev);
        ctx.state(&(r.is_err(), at, c as usize));
        let hit = dev.st.borrow().fault_hit;
        dev.heal();
        match r {
            Err(_) => {
                ensure!(hit, "open", "{what}: failed before the fault was reached");
            }
            // whatever opened must be complete
            Ok(mut x) => check_view(&mut x, &f.model, &what)?,
        }
        let mut x = must_open(&dev, "open after the stream was repaired")?;
        check_view(&mut x, &f.model, "after the stream was repaired")
    }));
    let cs = calls();
    for (name, two) in [("read", false), ("after_failure", true)] {
        let cs = cs.clone();
        v.push(scenario(name, &format!("the same files, {} calls ({cs:?}), every read and seek of the call failing once, for good or after a partial transfer{}; buffers judged; afterwards the same file object must show everything exactly", cs.len(), if two { ", followed by each other call" } else { ", 6 kinds of error" }), move |ctx| {
            let i = ctx.choose(FILES);
            let f = file_of(i);
            let c = ctx.pick(&cs).clone();
            let dev = Dev::new(f.bytes.clone());
            let mut x = must_open(&dev, "clean open")?;
            dev.reset_counters();
            call(&mut x, &f.model, &c)?;
            let n = dev.counts();
            let mut x = must_open(&dev, "clean open")?;
            dev.reset_counters();
            let Some((cl, at, fault)) = pick_fault(ctx, n, if two { &KINDS[..1] } else { &KINDS }) else { return Ok(()) };
            dev.fault(cl, at, fault);
            let what = format!("{c:?} with {cl:?} {at} failing ({fault:?})");
            ctx.note(|| what.clone());
            ctx.step();
            let ok = call_may_fail(&mut x, &f.model, &c).map_err(|e| Fail { key: e.key, msg: format!("{what}: {}", e.msg) })?;
            let hit = dev.st.borrow().fault_hit;
            ensure!(ok || hit, "read-error", "{what}: failed before the fault was reached");
            ctx.state(&(ok, hit, at, cl as usize));
            if !matches!(fault, Fault::Once(_)) || two && ctx.flag() {
                dev.heal();
            } else {
                let mut s = dev.st.borrow_mut();
                s.faults.clear();
                s.forever = [None; 4];
            }
            let lab = |e: Fail| Fail { key: e.key, msg: format!("after {what}: {}", e.msg) };
            if two {
                let d = ctx.pick(&cs).clone();
                call(&mut x, &f.model, &d).map_err(lab)?;
            } else {
                call(&mut x, &f.model, &c).map_err(lab)?;
                check_view(&mut x, &f.model, &format!("after {what}"))?;
            }
            Ok(())
        }));
    }
    // failing while a writer is made; reading what was just written
    v.push(scenario("writer", "asking for a writer with the seek failing once or for good (6 kinds of error), then writing on the repaired stream, reading with every read and seek failing, all in the session that wrote", |ctx| {
        let f = file_of(ctx.choose(2));
        let dev = Dev::new(f.bytes.clone());
        let mut x = must_open(&dev, "clean open")?;
        dev.reset_counters();
        let k = *ctx.pick(&KINDS);
        let fault = if ctx.flag() { Fault::Once(k) } else { Fault::Forever(k) };
        dev.fault(Class::Seek, 0, fault);
        ctx.step();
        let r = x.writer().map(|_| ());
        ensure!(r.is_err() || !dev.st.borrow().fault_hit, "writer", "writer() succeeded although its seek failed ({fault:?})");
        dev.heal();
        ensure!(dev.bytes() == f.bytes, "writer", "a failed writer() changed the file");
        check_view(&mut x, &f.model, "after a failed writer()")?;
        let mut m = f.model.clone();
        {
            let mut w = x.writer().or_else(|e| fail("writer", format!("writer() fails on the repaired stream: {e:?}")))?;
            let op = data(&["a", "b"], Ty::F64, 3, true);
            exec_cmd!(w, &cmd(&op, f.k)).or_else(|e| fail("write-error", format!("{e:?}")))?;
            effect(&op, &mut m, f.k);
        }
        let c = ctx.pick(&calls()).clone();
        dev.reset_counters();
        call(&mut x, &m, &c)?;
        let n = dev.counts();
        dev.reset_counters();
        let Some((cl, at, fault)) = pick_fault(ctx, n, &KINDS[..1]) else { return Ok(()) };
        dev.fault(cl, at, fault);
        call_may_fail(&mut x, &m, &c).map_err(|e| Fail { key: e.key, msg: format!("{c:?} with {cl:?} {at} failing ({fault:?}): {}", e.msg) })?;
        dev.heal();
        ctx.state(&(format!("{c:?}{cl:?}{fault:?}"), at));
        check_view(&mut x, &m, "after a failed read in the session that wrote")?;
        let mut x = must_open(&dev, "reopen")?;
        check_view(&mut x, &m, "reopened")
    }));
    // two faults
    if t {
        v.push(scenario("two_faults", "two failing operations (once each) at every pair of positions in two reads on the same file object", |ctx| {
            let f = file_of(*ctx.pick(&[0usize, 1, 4]));
            let cs = calls();
            let (c, d) = (ctx.pick(&cs).clone(), ctx.pick(&cs).clone());
            let dev = Dev::new(f.bytes.clone());
            let mut x = must_open(&dev, "clean open")?;
            for c in [c, d] {
                dev.reset_counters();
                let mut y = must_open(&dev, "clean open")?;
                dev.reset_counters();
                call(&mut y, &f.model, &c)?;
                let n = dev.counts();
                dev.reset_counters();
                let Some((cl, at, fault)) = pick_fault(ctx, n, &KINDS[..1]) else { return Ok(()) };
                dev.fault(cl, at, fault);
                ctx.step();
                call_may_fail(&mut x, &f.model, &c)?;
                dev.heal();
            }
            check_view(&mut x, &f.model, "after two failed reads")
        }));
    }
    v
}

// ---------------------------------------------------------------- C13

pub fn chop(dev: &Dev, r: usize, w: usize, intr: bool) {
    let mut s = dev.st.borrow_mut();
    s.max_read = r;
    s.max_write = w;
    s.intr = intr;
}
pub fn c13(t: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let mut sizes = vec![1usize, 2, 3, 5, 7, 8, 13, 27, 28, 100, 4096];
    if t {
        sizes.extend(4..200);
        sizes.sort();
        sizes.dedup();
    }
    let s2 = sizes.clone();
    v.push(scenario("reading", &format!("5 files, reads returning at most n bytes (n of {sizes:?}, or unlimited), with and without an interruption before every transfer: view and data, 9 calls"), move |ctx| {
        let f = file_of(ctx.choose(FILES));
        let n = if ctx.flag() { *ctx.pick(&s2) } else { 0 };
        let intr = ctx.flag();
        let dev = Dev::new(f.bytes.clone());
        chop(&dev, n, 0, intr);
        let what = format!("reads of at most {n} bytes, interruptions {intr}");
        let mut x = must_open(&dev, &what)?;
        ctx.step();
        check_view(&mut x, &f.model, &what)?;
        for c in calls() {
            ctx.step();
            call(&mut x, &f.model, &c).map_err(|e| Fail { key: e.key, msg: format!("{what}: {}", e.msg) })?;
        }
        ctx.state(&(n, intr));
        Ok(())
    }));
    v.push(scenario("one_read", "5 files, opening and 9 calls, each single read returning 1 to 16 bytes less than asked, half, or one byte, or being interrupted", |ctx| {
        let f = file_of(ctx.choose(FILES));
        let dev = Dev::new(f.bytes.clone());
        let cs = calls();
        let which = ctx.choose(cs.len() + 1);
        let mut x = must_open(&dev, "clean open")?;
        if which > 0 {
            dev.reset_counters();
            dev.log_start();
            call(&mut x, &f.model, &cs[which - 1])?;
        } else {
            dev.reset_counters();
            dev.log_start();
            must_open(&dev, "clean open")?;
        }
        let log: Vec<usize> = dev.log_take().iter().filter_map(|o| if let Op::Read { got, .. } = o { Some(*got) } else { None }).collect();
        if log.is_empty() {
            return Ok(());
        }
        let at = ctx.choose(log.len());
        let got = log[at];
        let mut opts: Vec<usize> = (1..=16).filter_map(|d| got.checked_sub(d)).filter(|x| *x > 0).collect();
        opts.extend([1, 2, 3, got / 2]);
        opts.retain(|x| *x > 0 && *x < got);
        opts.sort();
        opts.dedup();
        let i = ctx.choose(opts.len() + 1);
        let fault = if i == opts.len() { Fault::Intr } else { Fault::Short(opts[i]) };
        let what = format!("read {at} of {} being {fault:?}", if which == 0 { "open".to_string() } else { format!("{:?}", cs[which - 1]) });
        ctx.note(|| what.clone());
        let mut x = if which == 0 {
            dev.reset_counters();
            dev.fault(Class::Read, at, fault);
            must_open(&dev, &what)?
        } else {
            let mut x = must_open(&dev, "clean open")?;
            dev.reset_counters();
            dev.fault(Class::Read, at, fault);
            call(&mut x, &f.model, &cs[which - 1]).map_err(|e| Fail { key: e.key, msg: format!("{what}: {}", e.msg) })?;
            x
        };
        ctx.step();
        ctx.state(&(which, at, i));
        dev.heal();
        check_view(&mut x, &f.model, &what)
    }));
    let alpha = vec![
        data(&["a"], Ty::F64, 2, false),
        data(&["a", "b"], Ty::I16, 3, true),
        data(&["a", "b"], Ty::F64, 600, true),
        WOp::Props { path: P::Chan("g".into(), "a".into()), props: vec![("x".into(), Pv::s("value")), ("e".into(), Pv::of(Ty::Ext, 3))] },
        WOp::Props { path: P::File, props: vec![("y".into(), Pv::s(&"long".repeat(2300)))] },
        WOp::Sync,
        WOp::Session,
    ];
    let hi = if t { 4 } else { 3 };
    let (a2, s3) = (alpha.clone(), sizes.clone());
    v.push(scenario("writing", &format!("every history of 1..{hi} over {} operations, writes accepting at most n bytes (n of {:?}), with and without interruptions: same bytes, same view", alpha.len(), if t { &sizes } else { &sizes[..] }), move |ctx| {
        let ops = super::writing::pick_hist(ctx, &a2, 1, hi);
        let clean = Dev::new(vec![]);
        let m = run(&mut Ctx::new(vec![], false), &clean, &ops, no_view)?;
        let n = if ctx.flag() { *ctx.pick(if t && ops.len() > 2 { &[1, 3, 28, 100] } else { &s3 }) } else { 0 };
        let intr = ctx.flag();
        let dev = Dev::new(vec![]);
        chop(&dev, n, n, intr);
        run(ctx, &dev, &ops, if ops.len() < 3 { data_view } else { no_view })?;
        ensure!(dev.bytes() == clean.bytes(), "bytes", "writes of at most {n} bytes, interruptions {intr}: the file differs from that of an undisturbed stream ({} and {} bytes)", dev.len(), clean.len());
        let mut x = must_open(&dev, "reopen")?;
        check_view(&mut x, &m, &format!("writes of at most {n} bytes, interruptions {intr}"))
    }));
    v.push(scenario("one_write", "every history of 1..3 operations, each single write accepting part of its bytes (16 cut positions) or being interrupted once: same bytes", move |ctx| {
        let ops = super::writing::pick_hist(ctx, &alpha, 1, 3);
        let clean = Dev::new(vec![]);
        clean.log_start();
        let m = run(&mut Ctx::new(vec![], false), &clean, &ops, no_view)?;
        let log: Vec<usize> = clean.log_take().iter().filter_map(|o| if let Op::Write { len, .. } = o { Some(*len) } else { None }).collect();
        if log.is_empty() {
            return Ok(());
        }
        let at = ctx.choose(log.len());
        let n = log[at];
        let mut opts = vec![1, 3, 4, 8, 27, 28, 29, 40, n / 3, n / 2, n.saturating_sub(9), n.saturating_sub(8), n.saturating_sub(1)];
        opts.retain(|x| *x > 0 && *x < n);
        opts.sort();
        opts.dedup();
        let i = ctx.choose(opts.len() + 1);
        let fault = if i == opts.len() { Fault::Intr } else { Fault::Short(opts[i]) };
        let dev = Dev::new(vec![]);
        dev.fault(Class::Write, at, fault);
        ctx.note(|| format!("write {at} of {n} bytes being {fault:?}"));
        run(ctx, &dev, &ops, no_view)?;
        if dev.bytes() != clean.bytes() {
            bail!("bytes", "write {at} of {n} bytes being {fault:?}: the file differs from that of an undisturbed stream ({} and {} bytes)", dev.len(), clean.len());
        }
        let mut x = must_open(&dev, "reopen")?;
        check_meta(&mut x, &m, "reopened")
    }));
    v
}
