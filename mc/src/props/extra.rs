//! C25..C28: cost of opening and appending, unsupported content, causes of errors, size of files.
use crate::check::*;
use crate::dev::*;
use crate::explore::*;
use crate::generate::*;
use crate::hist::*;
use crate::sparse::Sparse;
use crate::spec::*;
use crate::types::*;
use crate::{bail, ensure, exec_cmd, with_ty};
use std::io::{ErrorKind, Read, Seek};
use tedium::types::DataType;
use tedium::{ChannelPath, DataLayout, PropertyPath, PropertyValue, TdmsError, TdmsFile};

// ---------------------------------------------------------------- C25

/// Stream operations and bytes moved.
#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
struct Cost {
    ops: u64,
    read: u64,
    written: u64,
    heap: usize,
}
#[derive(Clone, Debug)]
pub struct Part {
    pub new_list: bool,
    /// Channels and values per chunk; None: no metadata.
    pub meta: Option<Vec<(&'static str, Ty)>>,
    pub props: usize,
    pub inter: bool,
    pub raw: bool,
}
/// Lays the parts down with `n` values per chunk and `chunks` chunks; gives the file and the raw ranges.
pub fn lay(parts: &[Part], be: bool, n: u64, chunks: u64) -> (Sparse, Vec<(u64, u64)>, std::collections::BTreeMap<String, u64>) {
    let dev = Sparse::new();
    let mut active: Vec<(&str, Ty)> = vec![];
    let mut raws = vec![];
    let mut lens: std::collections::BTreeMap<String, u64> = Default::default();
    for p in parts {
        if p.new_list {
            active.clear();
        }
        let mut objs = vec![];
        for (c, t) in p.meta.iter().flatten() {
            active.retain(|x| x.0 != *c);
            active.push((c, *t));
            lens.entry(ch(c)).or_default();
            objs.push(SObj { path: ch(c), idx: Idx::Full(*t, n), props: vec![] });
        }
        if p.props > 0 {
            objs.push(SObj { path: "/".into(), idx: Idx::None, props: (0..p.props).map(|i| (format!("p{i}"), Pv::i(i as i32))).collect() });
        }
        let m = if p.meta.is_some() { encode_meta(&objs, be) } else { vec![] };
        let bytes = if p.raw { active.iter().map(|x| x.1.size() as u64 * n).sum::<u64>() * chunks } else { 0 };
        let toc = (p.meta.is_some() as u32) << 1 | (p.new_list as u32) << 2 | (p.raw as u32) << 3 | (p.inter as u32) << 5 | (be as u32) << 6;
        dev.put(&lead_in(be, toc, 4713, m.len() as u64 + bytes, m.len() as u64));
        dev.put(&m);
        raws.push((dev.len(), dev.len() + bytes));
        dev.skip(bytes);
        if p.raw {
            for (c, _) in &active {
                *lens.get_mut(&ch(c)).unwrap() += n * chunks;
            }
        }
    }
    (dev, raws, lens)
}
/// Read-ahead of a buffered reader that is accepted behind the metadata of a segment.
const AHEAD: u64 = 1 << 16;

fn measured<T>(dev: &Sparse, f: impl FnOnce() -> T) -> (T, Cost) {
    dev.trace_start();
    crate::alloc::peak_start();
    let r = f();
    let heap = crate::alloc::peak_take();
    let t = dev.trace_take();
    (r, Cost { ops: t.ops, read: t.reads.iter().map(|x| x.1).sum(), written: t.written, heap })
}

pub fn c25(t: bool) -> Vec<Scenario> {
    let mut parts: Vec<Part> = vec![];
    for inter in [false, true] {
        for raw in [true, false] {
            for c in [vec![("a", Ty::F64)], vec![("b", Ty::I16), ("a", Ty::F64)], vec![]] {
                for (new_list, props) in [(true, 0), (false, 3), (false, 700)] {
                    if (c.is_empty() && (new_list || props == 0)) || (!raw && inter) || (props == 700 && c.len() == 2) {
                        continue;
                    }
                    parts.push(Part { new_list, meta: Some(c.clone()), props, inter, raw });
                }
            }
        }
        parts.push(Part { new_list: false, meta: None, props: 0, inter, raw: true });
    }
    let valid = |v: &[Part]| {
        let mut any = false;
        v.iter().all(|p| {
            if p.new_list {
                any = false;
            }
            any |= p.meta.as_ref().is_some_and(|m| !m.is_empty());
            any || !p.raw
        })
    };
    let parts2 = parts.clone();
    vec![
        scenario("opening", &format!("every well-formed file of 1..{} segments out of {} kinds (data, no data, no metadata, long metadata; both byte orders and layouts), each with 128 KiB, 8 GiB and 8 TiB of raw data per channel in one or 2^20 chunks: opening, listing and every query cost the same, and touch only lead-ins and metadata", if t { 4 } else { 3 }, parts.len()), move |ctx| {
            let be = ctx.flag();
            let n = ctx.range(1, if t { 4 } else { 3 });
            let mut v = vec![];
            for _ in 0..n {
                v.push(ctx.pick(&parts).clone());
            }
            if !valid(&v) {
                return Ok(());
            }
            ctx.note(|| format!("be={be} {v:?}"));
            let many = ctx.flag();
            let mut costs: Vec<Cost> = vec![];
            for size in [1u64 << 14, 1 << 30, 1 << 40] {
                let (n, chunks) = if many && size > 1 << 20 { (size >> 20, 1 << 20) } else { (size, 1) };
                let (dev, raws, lens) = lay(&v, be, n, chunks);
                ctx.step();
                ctx.state(&dev.digest());
                let (f, cost) = measured(&dev, || TdmsFile::new(dev.again()));
                let f = f.or_else(|e| fail("open", format!("open failed: {e:?}")))?;
                for (off, len) in dev.last_reads() {
                    for (a, b) in &raws {
                        let (lo, hi) = (off.max(*a), (off + len).min(*b));
                        ensure!(lo >= hi || hi - a <= AHEAD, "data-read", "opening reads raw data: bytes {lo}..{hi}, raw data starts at {a}");
                    }
                }
                ensure!(cost.written == 0, "write", "opening wrote");
                // the lead-in and metadata, a read-ahead each, and a few operations per segment
                let meta: u64 = dev.len() - raws.iter().map(|r| r.1 - r.0).sum::<u64>();
                let max_ops = 16 * v.len() as u64 + meta / 1024 + 8;
                ensure!(cost.ops <= max_ops, "cost", "opening {} segments with {meta} bytes of metadata took {} stream operations", v.len(), cost.ops);
                costs.push(cost);
                let (r, q) = measured(&dev, || -> R {
                    let mut listed: Vec<String> = vec![];
                    for g in f.list_groups() {
                        listed.extend(f.list_channels_in_group(&PropertyPath::group(g)).map(|c| c.path().to_string()));
                    }
                    listed.sort();
                    ensure!(listed == lens.keys().cloned().collect::<Vec<_>>(), "channels", "listed {listed:?}");
                    for (p, n) in &lens {
                        ensure!(f.channel_length(&chan(p)?) == Some(*n), "length", "length of {p} is {:?}, expected {n}", f.channel_length(&chan(p)?));
                    }
                    let _ = f.read_property(&PropertyPath::file(), "p0");
                    let _ = f.read_all_properties(&PropertyPath::file()).map(|x| x.count());
                    Ok(())
                });
                r?;
                ensure!(q.ops == 0, "query", "listing and querying took {} stream operations", q.ops);
            }
            for c in &costs[1..] {
                ensure!((c.ops, c.read) == (costs[0].ops, costs[0].read), "cost", "cost of opening depends on the amount of raw data: {costs:?}");
                ensure!(c.heap.abs_diff(costs[0].heap) <= 4096, "memory", "memory for opening depends on the amount of raw data: {costs:?}");
            }
            Ok(())
        }),
        scenario("appending", "the same files of one or two segments, then each of 6 writes of up to 3 calls: getting a writer, writing and syncing reads nothing and costs the same whatever the amount of raw data", move |ctx| {
            let be = ctx.flag();
            let n = ctx.range(1, 2);
            let mut v = vec![];
            for _ in 0..n {
                v.push(ctx.pick(&parts2).clone());
            }
            if !valid(&v) {
                return Ok(());
            }
            let pool = [data(&["a"], Ty::F64, 3, false), data(&["a", "b"], Ty::I16, 1, true), data(&["new"], Ty::F64, 2000, false), WOp::Props { path: P::File, props: vec![("x".into(), Pv::i(1))] }, WOp::Props { path: P::Chan("g".into(), "a".into()), props: vec![("x".into(), Pv::s("text"))] }, WOp::Sync];
            let ops: Vec<WOp> = (0..ctx.range(0, if t { 3 } else { 2 })).map(|_| ctx.pick(&pool).clone()).collect();
            ctx.note(|| format!("be={be} {v:?} then {ops:?}"));
            let mut costs: Vec<Cost> = vec![];
            for size in [1u64 << 14, 1 << 40] {
                let (dev, _, _) = lay(&v, be, size, 1);
                ctx.state(&dev.digest());
                let mut f = TdmsFile::new(dev.again()).or_else(|e| fail("open", format!("open failed: {e:?}")))?;
                let before = dev.len();
                let (r, cost) = measured(&dev, || -> R {
                    let mut w = f.writer().or_else(|e| fail("writer", format!("writer() failed: {e:?}")))?;
                    for op in &ops {
                        ctx.step();
                        let r = exec_cmd!(w, &cmd(op, 1));
                        if let Err(e) = r {
                            bail!("write-error", "{op:?} refused: {e:?}");
                        }
                    }
                    Ok(())
                });
                r?;
                ensure!(cost.read == 0, "read", "appending read {} bytes", cost.read);
                ensure!(cost.written == dev.len() - before, "write", "appending {} bytes wrote {} bytes", dev.len() - before, cost.written);
                costs.push(cost);
            }
            ensure!(costs[0].ops == costs[1].ops && costs[0].written == costs[1].written, "cost", "cost of appending depends on the amount of raw data: {costs:?}");
            ensure!(costs[0].heap.abs_diff(costs[1].heap) <= 4096, "memory", "memory for appending depends on the amount of raw data: {costs:?}");
            Ok(())
        }),
        scenario("reading_memory", "reads of 1..100000 samples out of 128 KiB, 8 GiB and 8 TiB: the memory a read takes beyond the caller's buffers does not depend on the amount of raw data nor on how much of it is read or skipped", move |ctx| {
            let (be, inter, multi) = (ctx.flag(), ctx.flag(), ctx.flag());
            let len = *ctx.pick(&[1usize, 1000, 100_000]);
            let place = ctx.choose(3);
            let many = ctx.flag();
            for size in [1u64 << 17, 1 << 30, 1 << 40] {
                let (n, chunks) = if many && size > 1 << 20 { (size >> 10, 1 << 10) } else { (size, 1) };
                let v = [Part { new_list: true, meta: Some(vec![("b", Ty::F64), ("a", Ty::F64)]), props: 0, inter, raw: true }];
                let (dev, _, lens) = lay(&v, be, n, chunks);
                let total = lens[&ch("a")];
                let start = [0, total / 2 + 1, total - len as u64][place];
                ctx.state(&dev.digest());
                ctx.step();
                let mut f = TdmsFile::new(dev.again()).or_else(|e| fail("open", format!("open failed: {e:?}")))?;
                let mut a = vec![0f64; len];
                let mut b = vec![0f64; len];
                let (pa, pb) = (ChannelPath::new("g", "a"), ChannelPath::new("g", "b"));
                let (r, cost) = measured(&dev, || if multi { f.read_channels_from(&[&pa, &pb], start, &mut [&mut a[..], &mut b[..]]) } else { f.read_channel_from(&pa, start, &mut a[..]) });
                if let Err(e) = r {
                    bail!("read-error", "reading {len} from {start} failed: {e:?}");
                }
                ensure!(cost.heap <= 1 << 18, "memory", "reading {len} samples from {start} of {total} took {} bytes of memory beyond the buffers", cost.heap);
                ensure!(cost.written == 0, "write", "reading wrote");
            }
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C26

fn good(be: bool, i: usize) -> Seg {
    full(be, i % 2 == 1, 1, &[("a", Ty::F64, 2), ("b", Ty::I16, 2)])
}
/// A segment with one object whose raw data index and properties are the given bytes.
fn raw_segment(be: bool, toc: u32, objs: &[(&str, Vec<u8>)], raw: &[u8]) -> Vec<u8> {
    let mut m = u32b(objs.len() as u32, be);
    for (p, rest) in objs {
        m.extend(u32b(p.len() as u32, be));
        m.extend(p.as_bytes());
        m.extend(rest);
    }
    let mut v = lead_in(be, toc | (be as u32) << 6, 4713, (m.len() + raw.len()) as u64, m.len() as u64);
    v.extend(&m);
    v.extend(raw);
    v
}
/// A DAQmx raw data index as the NI format document describes it.
fn daqmx_index(be: bool, header: u32, scalers: usize, widths: usize, digital: bool, props: usize) -> Vec<u8> {
    let mut v = u32b(header, be);
    v.extend(u32b(0xFFFF_FFFF, be));
    v.extend(u32b(1, be));
    v.extend(u64b(4, be));
    v.extend(u32b(scalers as u32, be));
    for i in 0..scalers {
        v.extend(u32b([3, 2, 0, 5][i % 4], be)); // DAQmx data type
        v.extend(u32b(0, be)); // raw buffer
        v.extend(u32b(2 * i as u32, be)); // offset
        if digital {
            v.push(0);
        } else {
            v.extend(u32b(0, be)); // sample format bitmap
        }
        v.extend(u32b(i as u32, be)); // scale id
    }
    v.extend(u32b(widths as u32, be));
    for _ in 0..widths {
        v.extend(u32b(2 * scalers as u32, be));
    }
    v.extend(u32b(props as u32, be));
    for _ in 0..props {
        v.extend(u32b(1, be));
        v.push(b'p');
        v.extend(u32b(3, be));
        v.extend(u32b(7, be));
    }
    v
}
fn plain_index(be: bool, ty: u32, n: u64) -> Vec<u8> {
    let mut v = u32b(20, be);
    v.extend(u32b(ty, be));
    v.extend(u32b(1, be));
    v.extend(u64b(n, be));
    v
}
fn no_index(be: bool) -> Vec<u8> {
    u32b(0xFFFF_FFFF, be)
}
fn no_props(mut v: Vec<u8>, be: bool) -> Vec<u8> {
    v.extend(u32b(0, be));
    v
}
fn known(code: u32) -> Option<Ty> {
    let mut all = FIXED.to_vec();
    all.push(Ty::Str);
    all.into_iter().find(|t| t.code() == code)
}
/// Must the stream refuse to open, with an error accepted by `ok`?
fn refused(ctx: &mut Ctx, bytes: &[u8], what: &str, ok: impl Fn(&TdmsError) -> bool) -> R {
    ctx.step();
    ctx.state(bytes);
    let dev = Dev::new(bytes.to_vec());
    match open(&dev) {
        Ok(f) => bail!("accepted", "{what}: opened as if it were valid, groups {:?}; bytes {bytes:02x?}", f.list_groups().collect::<Vec<_>>()),
        Err(e) => {
            ensure!(ok(&e), "cause", "{what}: refused with {e:?}");
            told(&e)?;
        }
    }
    Ok(())
}
/// Put segments before and behind.
fn between(ctx: &mut Ctx, be: bool, mid: &[u8]) -> Vec<u8> {
    let mut f = Foreign::new();
    for i in 0..ctx.range(0, 2) {
        f.push(&good(be ^ (i == 1), i));
    }
    let mut v = f.bytes;
    v.extend(mid);
    if ctx.flag() {
        let mut g = Foreign::new();
        g.push(&good(be, 0));
        v.extend(g.bytes);
    }
    v
}
fn any_read<F: Read + Seek>(f: &mut TdmsFile<F>, p: &str, what: &str) -> R {
    for t in NATURAL {
        with_ty!(t, T => {
            let mut b: Vec<T> = (0..2).map(tail::<T>).collect();
            let r = f.read_channel(&chan(p)?, &mut b);
            ensure!(r.is_err(), "accepted", "{what}: reading {p} as {t:?} succeeded");
            ensure!(b.iter().enumerate().all(|(i, v)| same(v, &tail::<T>(i))), "data", "{what}: refused read of {p} as {t:?} altered the buffer");
        });
    }
    Ok(())
}

pub fn c26(t: bool) -> Vec<Scenario> {
    let mut codes: Vec<u32> = (0..if t { 0x400 } else { 0x100 }).collect();
    for b in 0..32 {
        codes.push(1 << b);
        for k in [0x0008_000cu32, 0x0010_000d, 0x44, 0x20, 0x21, 0x4F, 10, 0xFFFF_FFFF] {
            codes.push(k ^ (1 << b));
            codes.push(k);
        }
    }
    codes.sort();
    codes.dedup();
    let codes2 = codes.clone();
    vec![
        scenario("daqmx", "DAQmx segments (format changing and digital line scalers, 1..2 scalers, 1..2 widths, 0..1 properties, alone or beside an ordinary channel, both byte orders) first, behind or between ordinary segments: opening reports that DAQmx is not supported", |ctx| {
            let be = ctx.flag();
            let digital = ctx.flag();
            // as published, and as NI's and other readers' files have it
            let header = *ctx.pick(if digital { &[0x1369u32, 0x126A, 0x6913_0000][..] } else { &[0x1269u32, 0x6912_0000][..] });
            let (scalers, widths, props) = (ctx.range(1, 2), ctx.range(1, 2), ctx.range(0, 1));
            let idx = daqmx_index(be, header, scalers, widths, digital, props);
            let mut objs = vec![("/'g'/'dq'", idx)];
            let place = ctx.choose(3);
            if place == 1 {
                objs.insert(0, ("/", no_props(no_index(be), be)));
            }
            if place == 2 {
                objs.push(("/'g'/'dq2'", daqmx_index(be, header, scalers, widths, digital, props)));
            }
            let toc = if ctx.flag() { 0b1000_1110 } else { 0b1000_0110 };
            let seg = raw_segment(be, toc, &objs, &vec![7u8; if toc & 8 > 0 { 4 * 2 * scalers } else { 0 }]);
            let bytes = between(ctx, be, &seg);
            refused(ctx, &bytes, &format!("DAQmx index {header:#x}"), |e| matches!(e, TdmsError::DaqmxChannelsNotSupported))
        }),
        scenario("daqmx_headers", "all 2^17 index headers 0x6912xxxx and 0x6913xxxx, followed by a DAQmx or an ordinary index, both byte orders: refused as DAQmx", |ctx| {
            let be = ctx.flag();
            let ordinary = ctx.flag();
            let high = *ctx.pick(&[0x6912_0000u32, 0x6913_0000]) + ((ctx.choose(256) as u32) << 8);
            for low in 0..256 {
                let header = high + low;
                let idx = if ordinary {
                    let mut i = plain_index(be, Ty::I16.code(), 2);
                    i[..4].copy_from_slice(&u32b(header, be));
                    no_props(i, be)
                } else {
                    daqmx_index(be, header, 1, 1, high >= 0x6913_0000, 0)
                };
                let bytes = raw_segment(be, 0b1110, &[("/'g'/'dq'", idx)], &[0; 8]);
                refused(ctx, &bytes, &format!("DAQmx index {header:#x}"), |e| matches!(e, TdmsError::DaqmxChannelsNotSupported))?;
            }
            Ok(())
        }),
        scenario("channel_types", &format!("a channel of each of {} type codes, known, unsupported and unknown, beside an ordinary one in both byte orders: unknown types are refused on opening, and no read ever makes values of an unsupported one", codes.len()), move |ctx| {
            let be = ctx.flag();
            let code = *ctx.pick(&codes);
            if known(code).is_some() {
                return Ok(());
            }
            let seg = raw_segment(be, 0b1110, &[("/'g'/'u'", no_props(plain_index(be, code, 2), be)), ("/'g'/'b'", no_props(plain_index(be, Ty::I16.code(), 2), be))], &[1u8; 64]);
            let bytes = between(ctx, be, &seg);
            ctx.step();
            ctx.state(&bytes);
            let dev = Dev::new(bytes);
            match open(&dev) {
                Err(_) => Ok(()),
                Ok(mut f) => {
                    // types the format knows but the library does not read: void, fixed point
                    ensure!(code == 0 || code == 0x4F, "accepted", "channel type {code:#x} accepted");
                    any_read(&mut f, "/'g'/'u'", &format!("channel type {code:#x}"))
                }
            }
        }),
        scenario("property_types", &format!("a property of each of {} type codes, in both byte orders, on file, group or channel: unknown and unsupported types are refused on opening", codes2.len()), move |ctx| {
            let be = ctx.flag();
            let code = *ctx.pick(&codes2);
            if known(code).is_some() || code == 0 {
                return Ok(());
            }
            let path = *ctx.pick(&["/", "/'g'", "/'g'/'a'"]);
            let mut rest = no_index(be);
            rest.extend(u32b(1, be));
            rest.extend(u32b(1, be));
            rest.push(b'p');
            rest.extend(u32b(code, be));
            rest.extend([0u8; 16]);
            let seg = raw_segment(be, 0b0110, &[(path, rest)], &[]);
            let bytes = between(ctx, be, &seg);
            refused(ctx, &bytes, &format!("property type {code:#x}"), |e| match e {
                TdmsError::UnknownDataType(c) | TdmsError::UnknownPropertyType(c) => *c == code,
                TdmsError::UnsupportedType(d) => *d as u32 == code,
                _ => false,
            })
        }),
        scenario("tags", "each byte of the tag of each of 1..3 segments replaced by every other value: opening names the four bytes found", |ctx| {
            let n = ctx.range(1, 3);
            let k = ctx.choose(n);
            let i = ctx.choose(4);
            let be = ctx.flag();
            let mut f = Foreign::new();
            for j in 0..n {
                f.push(&good(be, j));
            }
            let at = f.segs[k].0;
            for v in 0..=255u8 {
                let mut b = f.bytes.clone();
                if b[at + i] == v {
                    continue;
                }
                b[at + i] = v;
                let tag = [b[at], b[at + 1], b[at + 2], b[at + 3]];
                refused(ctx, &b, &format!("tag {tag:x?}"), |e| matches!(e, TdmsError::HeaderPatternNotMatched(x) if *x == tag))?;
            }
            Ok(())
        }),
        scenario("text", "every invalid UTF-8 sequence of 1..2 bytes (and selected longer ones) in an object path, a property name or a text property: refused on opening", |ctx| {
            let be = ctx.flag();
            let place = ctx.choose(3);
            let first = ctx.choose(256) as u8;
            let mut cases: Vec<Vec<u8>> = vec![vec![first]];
            for b in 0..=255u8 {
                cases.push(vec![first, b]);
            }
            cases.push(vec![0xED, 0xA0, first]);
            cases.push(vec![0xF4, 0x90, 0x80, first]);
            for bad in cases {
                if std::str::from_utf8(&bad).is_ok() {
                    continue;
                }
                let s = |b: &[u8]| {
                    let mut v = u32b(b.len() as u32, be);
                    v.extend(b);
                    v
                };
                let mut path = b"/'g'".to_vec();
                if place == 0 {
                    path = [b"/'", &bad[..], b"'"].concat();
                }
                let mut m = u32b(1, be);
                m.extend(s(&path));
                m.extend(no_index(be));
                m.extend(u32b(1, be));
                m.extend(s(if place == 1 { &bad } else { b"p" }));
                m.extend(u32b(0x20, be));
                m.extend(s(if place == 2 { &bad } else { b"v" }));
                let mut b = lead_in(be, 0b0110 | (be as u32) << 6, 4713, m.len() as u64, m.len() as u64);
                b.extend(m);
                refused(ctx, &b, &format!("text {bad:x?} in place {place}"), |e| matches!(e, TdmsError::StringFormatError(_)))?;
            }
            Ok(())
        }),
        scenario("late", &format!("{} of ordinary segments or objects before a DAQmx index, an unknown channel or property type, a wrong tag or an index that repeats nothing: refused on opening, naming the reason", super::scale::counts(if t { 4097 } else { 513 }).len()), move |ctx| {
            let n = *ctx.pick(&super::scale::counts(if t { 4097 } else { 513 }));
            let be = ctx.flag();
            let what = ctx.choose(5);
            let objects = ctx.flag();
            let bad: Vec<u8> = match what {
                0 => daqmx_index(be, 0x1269, 1, 1, false, 0),
                1 => no_props(plain_index(be, 0x123, 1), be),
                2 => {
                    let mut r = no_index(be);
                    r.extend(u32b(1, be));
                    r.extend(u32b(1, be));
                    r.push(b'p');
                    r.extend(u32b(0x123, be));
                    r.extend([0; 8]);
                    r
                }
                3 => no_props(no_index(be), be),
                _ => no_props(u32b(0, be), be),
            };
            let names: Vec<String> = (0..n).map(|i| format!("/'g'/'c{i}'")).collect();
            let mut objs: Vec<(&str, Vec<u8>)> = vec![];
            let mut bytes = vec![];
            if objects {
                objs.extend(names.iter().map(|p| (p.as_str(), no_props(plain_index(be, Ty::I16.code(), 1), be))));
            } else {
                let mut f = Foreign::new();
                for i in 0..n {
                    f.push(&good(be ^ (i % 3 == 1), i));
                }
                bytes = f.bytes;
            }
            objs.push(("/'bad'/'c'", bad));
            let mut seg = raw_segment(be, 0b1110, &objs, &vec![1u8; 2 * n + 64]);
            if what == 3 {
                seg[2] = b'x';
            }
            bytes.extend(seg);
            refused(ctx, &bytes, &format!("kind {what} behind {n}"), |e| match (what, e) {
                (0, TdmsError::DaqmxChannelsNotSupported) => true,
                (1, TdmsError::UnknownDataType(c) | TdmsError::UnknownPropertyType(c)) => *c == 0x123,
                (2, TdmsError::UnknownDataType(c) | TdmsError::UnknownPropertyType(c)) => *c == 0x123,
                (3, TdmsError::HeaderPatternNotMatched(x)) => x == b"TDxm",
                (4, _) => true,
                _ => false,
            })
        }),
        scenario("contradictions", "raw data flagged but absent, without channels, or before its metadata ends; indexes that repeat what was never given; sizes beyond 2^64; behind 0..2 good segments: refused on opening", |ctx| {
            let be = ctx.flag();
            let flag = (be as u32) << 6;
            let which = ctx.choose(8);
            let idx = no_props(plain_index(be, Ty::F64.code(), 2), be);
            let meta = |objs: &[(&str, Vec<u8>)]| {
                let s = raw_segment(be, 0, objs, &[]);
                s[28..].to_vec()
            };
            let one = meta(&[("/'g'/'n'", idx.clone())]);
            let build = |toc: u32, next: u64, raw: u64, m: &[u8], data: &[u8]| {
                let mut v = lead_in(be, toc | flag, 4713, next, raw);
                v.extend(m);
                v.extend(data);
                v
            };
            let n = one.len() as u64;
            let (what, mid) = match which {
                0 => ("raw data flagged, none there", build(0b1110, n, n, &one, &[])),
                1 => ("raw data without channels", build(0b1110, 4 + 8, 4, &u32b(0, be), &[0; 8])),
                2 => ("raw data begins behind the segment's end", build(0b1110, n, n + 8, &one, &[0; 16])),
                3 => ("index repeats what was never given", {
                    let m = meta(&[("/'g'/'never'", no_props(u32b(0, be), be))]);
                    build(0b1110, m.len() as u64 + 16, m.len() as u64, &m, &[0; 16])
                }),
                4 => ("segment ends beyond 2^64", build(0b1110, u64::MAX - 27 + ctx.choose(28) as u64, n, &one, &[0; 16])),
                5 => ("chunk larger than 2^64 bytes", {
                    let m = meta(&[("/'g'/'n'", no_props(plain_index(be, Ty::F64.code(), (1 << 61) + ctx.choose(2) as u64), be)), ("/'g'/'m'", idx.clone())]);
                    build(0b1110, m.len() as u64 + 16, m.len() as u64, &m, &[0; 16])
                }),
                6 => ("object list promises more objects than there are", {
                    let mut m = one.clone();
                    m[..4].copy_from_slice(&u32b(2 + ctx.choose(3) as u32, be));
                    build(0b0110, n, n, &m, &[])
                }),
                _ => ("property list promises more than there is", {
                    let mut m = one.clone();
                    let at = m.len() - 4;
                    m[at..].copy_from_slice(&u32b(1 + ctx.choose(3) as u32, be));
                    build(0b0110, n, n, &m, &[])
                }),
            };
            let mut f = Foreign::new();
            for i in 0..ctx.range(0, 2) {
                f.push(&good(be ^ (i == 1), i));
            }
            let mut bytes = f.bytes;
            bytes.extend(mid);
            refused(ctx, &bytes, what, |_| true)
        }),
    ]
}

// ---------------------------------------------------------------- C27

fn io_kind(e: &TdmsError) -> Option<ErrorKind> {
    if let TdmsError::IoError(e) = e { Some(e.kind()) } else { None }
}
/// The message of an error holds its details in their order; the stream's own error is its source.
pub fn told(e: &TdmsError) -> R {
    let text = e.to_string();
    let details: Vec<String> = match e {
        TdmsError::MissingObject(p) | TdmsError::InvalidObjectPath(p) | TdmsError::InvalidChannelPath(p) => vec![p.clone()],
        TdmsError::BadDataBlockLength(a, b) => vec![a.to_string(), b.to_string()],
        TdmsError::IncompleteSegment(a, b) => vec![a.to_string(), b.to_string()],
        TdmsError::DataTypeMismatch(a, b) => vec![format!("{a:?}"), format!("{b:?}")],
        TdmsError::UnsupportedType(t) => vec![format!("{t:?}")],
        TdmsError::UnknownPropertyType(c) | TdmsError::UnknownDataType(c) => vec![format!("{c:X}")],
        TdmsError::HeaderPatternNotMatched(b) => b.iter().map(|b| format!("{b:X}")).collect(),
        TdmsError::IoError(io) => {
            let source = std::error::Error::source(e).map(|s| s.to_string());
            ensure!(source == Some(io.to_string()), "source", "the source of {e:?} is {source:?}");
            vec![]
        }
        _ => vec![],
    };
    let lower = text.to_lowercase();
    let mut at = 0;
    for d in &details {
        match lower[at..].find(&d.to_lowercase()) {
            Some(i) => at += i + d.to_lowercase().len(),
            None => bail!("message", "{e:?} is told as {text:?}, without {d}"),
        }
    }
    ensure!(!text.trim().is_empty(), "message", "{e:?} has no message");
    Ok(())
}
fn sample_file(be: bool) -> Foreign {
    let mut f = Foreign::new();
    let mut s = full(be, false, 2, &[("a", Ty::F64, 3), ("b", Ty::I16, 3), ("s", Ty::Time, 3)]);
    s.meta.as_mut().unwrap().push(SObj { path: gpath("g"), idx: Idx::None, props: vec![("p".into(), Pv::i(4)), ("t".into(), Pv::s("x"))] });
    f.push(&s);
    f.push(&full(!be, true, 1, &[("b", Ty::I16, 2), ("a", Ty::F64, 2)]));
    f
}
pub fn c27(t: bool) -> Vec<Scenario> {
    let names = ["g", "x", "", "a/b", "é"];
    vec![
        scenario("missing", "every query and read of objects that do not exist, built from 5 names, in single and multi reads at any place of the request: the error names the object", move |ctx| {
            let be = ctx.flag();
            let f = sample_file(be);
            let dev = Dev::new(f.bytes.clone());
            ctx.state(&f.bytes);
            let mut file = must_open(&dev, "open")?;
            let (g, c) = (*ctx.pick(&names), *ctx.pick(&names));
            let cp = ChannelPath::new(g, c);
            let want = cpath(g, c);
            assert!(!f.model.objs.contains_key(&want));
            ctx.step();
            let named = |what: &str, r: Result<(), TdmsError>, want: &str| -> R {
                match r {
                    Err(TdmsError::MissingObject(p)) => {
                        ensure!(p == want, "cause", "{what} of missing {want} reports {p:?}");
                        told(&TdmsError::MissingObject(p))
                    }
                    r => fail("cause", format!("{what} of missing {want} gives {r:?}")),
                }
            };
            named("property", file.read_property(AsRef::<PropertyPath>::as_ref(&cp), "p").map(|_| ()), &want)?;
            ensure!(file.read_all_properties(AsRef::<PropertyPath>::as_ref(&cp)).is_none(), "cause", "properties of {want}");
            ensure!(file.channel_length(&cp).is_none(), "cause", "length of {want}");
            if g != "g" {
                named("property", file.read_property(&PropertyPath::group(g), "p").map(|_| ()), &gpath(g))?;
            }
            let len = *ctx.pick(&[0usize, 1, 9]);
            let start = *ctx.pick(&[0u64, 2, 100]);
            let mut b = vec![1.5f64; len];
            named("read", file.read_channel_from(&cp, start, &mut b), &want)?;
            named("read", file.read_channel(&cp, &mut b), &want)?;
            ensure!(b.iter().all(|x| *x == 1.5), "data", "refused read altered the buffer");
            let at = ctx.choose(3);
            let mut req = vec![ChannelPath::new("g", "a"), ChannelPath::new("g", "a")];
            req.insert(at, cp.clone());
            let mut bs = vec![vec![1.5f64; len]; 3];
            let mut outs: Vec<&mut [f64]> = bs.iter_mut().map(|x| &mut x[..]).collect();
            named("multi read", file.read_channels_from(&req, start, &mut outs), &want)?;
            let mut outs: Vec<&mut [f64]> = bs.iter_mut().map(|x| &mut x[..]).collect();
            named("multi read", file.read_channels(&req, &mut outs), &want)?;
            // one that exists is not reported
            ensure!(matches!(file.read_property(&PropertyPath::group("g"), "none"), Ok(None)), "cause", "unknown property of a known object");
            Ok(())
        }),
        scenario("missing_among_many", "a missing channel at the first, a middle or the last place of a request for 1..513 channels, some more than once: the error names it and no buffer changes", move |ctx| {
            let n = *ctx.pick(&super::scale::counts(if t { 1025 } else { 513 }));
            let at = [0, n / 2, n][ctx.choose(3)];
            let names: Vec<String> = (0..n).map(|i| format!("c{i}")).collect();
            let mut f = Foreign::new();
            f.push(&full(ctx.flag(), ctx.flag(), 2, &names.iter().map(|s| (s.as_str(), Ty::F64, 2)).collect::<Vec<_>>()));
            let dev = Dev::new(f.bytes.clone());
            ctx.state(&(&f.bytes, at));
            let mut file = must_open(&dev, "open")?;
            let mut req: Vec<ChannelPath> = names.iter().map(|c| ChannelPath::new("g", c)).collect();
            req.insert(at, ChannelPath::new("g", "missing"));
            if ctx.flag() {
                req.push(req[0].clone());
            }
            let mut bs = vec![vec![1.5f64; 3]; req.len()];
            for start in [0, 1, 9] {
                ctx.step();
                let mut outs: Vec<&mut [f64]> = bs.iter_mut().map(|x| &mut x[..]).collect();
                match file.read_channels_from(&req, start, &mut outs) {
                    Err(TdmsError::MissingObject(p)) => ensure!(p == ch("missing"), "cause", "missing channel {at} of {n} reported as {p}"),
                    r => bail!("cause", "a request for {n} channels with a missing one gives {r:?}"),
                }
                ensure!(bs.iter().flatten().all(|x| *x == 1.5), "data", "a refused read altered a buffer");
            }
            Ok(())
        }),
        scenario("types", "every pair of stored and requested type, both byte orders and layouts, single and multi read: a mismatch names the stored and the requested type", move |ctx| {
            let (be, inter) = (ctx.flag(), ctx.flag());
            let stored = *ctx.pick(&FIXED);
            let asked = *ctx.pick(&NATURAL);
            if supports(asked, stored) {
                return Ok(());
            }
            let mut f = Foreign::new();
            f.push(&full(be, inter, 1, &[("x", Ty::I32, 2), ("a", stored, 2)]));
            ctx.state(&f.bytes);
            ctx.step();
            let dev = Dev::new(f.bytes.clone());
            let mut file = must_open(&dev, "open")?;
            let start = ctx.choose(2) as u64;
            with_ty!(asked, T => {
                let a = chan(&ch("a"))?;
                let mut b: Vec<T> = (0..2).map(tail::<T>).collect();
                let r1 = file.read_channel_from(&a, start, &mut b);
                let r2 = file.read_channel(&a, &mut b);
                let r3 = { let mut o = [&mut b[..]]; file.read_channels_from(&[&a], start, &mut o) };
                for r in [r1, r2, r3] {
                    if let Err(e) = &r {
                        told(e)?;
                    }
                    match r {
                        Err(TdmsError::DataTypeMismatch(s, q)) => ensure!(s as u32 == stored.code() && q as u32 == asked.code(), "cause", "{stored:?} read as {asked:?} reported as {s} read as {q}"),
                        r => bail!("cause", "{stored:?} read as {asked:?} gives {r:?}"),
                    }
                }
            });
            Ok(())
        }),
        scenario("types_among", "3 channels in each order, one of them of each other type from the first or from the second block on, read together as i32: the error names its type, not another's", move |ctx| {
            let (be, inter) = (ctx.flag(), ctx.flag());
            let other = *ctx.pick(&FIXED);
            if supports(Ty::I32, other) {
                return Ok(());
            }
            let odd = ctx.choose(3);
            let from = ctx.choose(2);
            let names = ["a", "b", "c"];
            let mut f = Foreign::new();
            for block in 0..2 {
                let chans: Vec<(&str, Ty, u64)> = names.iter().enumerate().map(|(i, c)| (*c, if i == odd && block >= from { other } else { Ty::I32 }, 2)).collect();
                f.push(&full(be, inter, 1, &chans));
            }
            let order = *ctx.pick(&[[0, 1, 2], [0, 2, 1], [1, 0, 2], [1, 2, 0], [2, 0, 1], [2, 1, 0]]);
            let start = ctx.choose(3) as u64;
            ctx.step();
            ctx.state(&(&f.bytes, order, start));
            let dev = Dev::new(f.bytes.clone());
            let mut file = must_open(&dev, "open")?;
            let req: Vec<ChannelPath> = order.iter().map(|i| ChannelPath::new("g", names[*i])).collect();
            let mut bs = [[7i32; 4]; 3];
            let mut outs: Vec<&mut [i32]> = bs.iter_mut().map(|b| &mut b[..]).collect();
            match file.read_channels_from(&req, start, &mut outs) {
                Err(e @ TdmsError::DataTypeMismatch(s, q)) => {
                    ensure!(s as u32 == other.code() && q as u32 == Ty::I32.code(), "cause", "{other:?} read as i32 reported as {s} read as {q}");
                    told(&e)?;
                }
                r => bail!("cause", "{other:?} among i32 channels, read as i32, gives {r:?}"),
            }
            Ok(())
        }),
        scenario("writes", "every refused combination of 0..4 channels, 0..9 values, both layouts and numeric or text values, on an empty or existing file: the error names a reason that applies, with the right numbers", move |ctx| {
            let existing = ctx.flag();
            let dev = Dev::new(if existing { sample_file(false).bytes } else { vec![] });
            let mut file = must_open(&dev, "open")?;
            let (nc, nv) = (ctx.range(0, if t { 7 } else { 4 }), ctx.range(0, if t { 20 } else { 9 }));
            let text = ctx.flag();
            let layout = if ctx.flag() { DataLayout::Interleaved } else { DataLayout::Contigious };
            let bad = nc == 0 || nv == 0 || text || nv % nc.max(1) != 0;
            let chans: Vec<ChannelPath> = (0..nc).map(|i| ChannelPath::new("g", &format!("c{i}"))).collect();
            ctx.step();
            ctx.state(&(existing, nc, nv, text));
            let r = {
                let mut w = file.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
                if text { w.write_channels(&chans, &vec![String::from("x"); nv], layout) } else { w.write_channels(&chans, &vec![1i32; nv], layout) }
            };
            let applies = match &r {
                Ok(()) => !bad,
                Err(TdmsError::NoChannels) => nc == 0,
                Err(TdmsError::ZeroLengthDataBlock) => nv == 0,
                Err(TdmsError::UnsupportedType(d)) => text && *d == DataType::TdmsString,
                Err(TdmsError::BadDataBlockLength(l, c)) => nc > 0 && nv % nc != 0 && (*l, *c) == (nv, nc),
                Err(_) => false,
            };
            ensure!(applies, "cause", "writing {nv} {} values to {nc} channels gives {r:?}", if text { "text" } else { "i32" });
            if let Err(e) = &r {
                told(e)?;
            }
            Ok(())
        }),
        scenario("paths", "every text of up to 6 characters of / ' a é that is no object path, or no channel path: the error carries the text", move |ctx| {
            let mut s = String::new();
            for _ in 0..ctx.range(0, if t { 8 } else { 7 }) {
                s.push(*ctx.pick(&['/', '\'', 'a', 'é']));
            }
            ctx.step();
            ctx.state(&s);
            let parsed = parse_path(&s);
            match (PropertyPath::try_from(s.as_str()), &parsed) {
                (Ok(_), Some(_)) => {}
                (Err(TdmsError::InvalidObjectPath(x)), None) => ensure!(x == s, "cause", "{s:?} reported as {x:?}"),
                (r, _) => bail!("cause", "{s:?} as an object path gives {r:?}"),
            }
            match (ChannelPath::try_from(s.as_str()), parsed.as_ref().map(|p| p.len())) {
                (Ok(_), Some(2)) => {}
                (Err(TdmsError::InvalidObjectPath(x)), None) => ensure!(x == s, "cause", "{s:?} reported as {x:?}"),
                (Err(TdmsError::InvalidChannelPath(x)), Some(0 | 1)) => ensure!(x == s, "cause", "{s:?} reported as {x:?}"),
                (r, _) => bail!("cause", "{s:?} as a channel path gives {r:?}"),
            }
            for e in [PropertyPath::try_from(s.as_str()).err(), ChannelPath::try_from(s.as_str()).err()].iter().flatten() {
                told(e)?;
            }
            Ok(())
        }),
        scenario("stream", "each stream operation of opening, reading (single and multi), getting a writer, writing and syncing fails with each of 4 kinds: the error is the stream's, with that kind", move |ctx| {
            let be = ctx.flag();
            let f = sample_file(be);
            let kind = *ctx.pick(&[ErrorKind::PermissionDenied, ErrorKind::StorageFull, ErrorKind::TimedOut, ErrorKind::Other]);
            let act = ctx.choose(4);
            let class = *ctx.pick(&[Class::Read, Class::Seek, Class::Write, Class::Flush]);
            let run = |dev: &Dev, arm: &mut dyn FnMut()| -> Vec<Result<(), TdmsError>> {
                if act == 0 {
                    arm();
                    return vec![open(dev).map(|_| ())];
                }
                let mut file = match open(dev) { Ok(f) => f, Err(e) => return vec![Err(e)] };
                arm();
                let (a, b) = (ChannelPath::new("g", "a"), ChannelPath::new("g", "b"));
                match act {
                    1 => {
                        let mut x = [0f64; 8];
                        vec![file.read_channel_from(&a, 4, &mut x)]
                    }
                    2 => {
                        let (mut x, mut y) = ([0i16; 8], [0i16; 3]);
                        vec![file.read_channels(&[&b, &b], &mut [&mut x[..], &mut y[..]])]
                    }
                    _ => {
                        let mut out = vec![];
                        match file.writer() {
                            Err(e) => out.push(Err(e)),
                            Ok(mut w) => {
                                out.push(w.write_channels(&[&a], &vec![1f64; 1100], DataLayout::Contigious));
                                if out.iter().all(|x| x.is_ok()) {
                                    out.push(w.write_properties(&PropertyPath::file(), &[("p", PropertyValue::I32(1))]));
                                }
                                if out.iter().all(|x| x.is_ok()) {
                                    out.push(w.sync());
                                }
                            }
                        }
                        out
                    }
                }
            };
            let dev = Dev::new(f.bytes.clone());
            let r = run(&dev, &mut || dev.reset_counters());
            ensure!(r.iter().all(|x| x.is_ok()), "error", "without faults: {r:?}");
            let n = dev.counts()[class as usize];
            // the writer flushes once more when dropped, unheard
            let n = if class == Class::Flush { n.min(1) } else { n };
            if n == 0 {
                return Ok(());
            }
            let at = ctx.choose(n);
            let dev = Dev::new(f.bytes.clone());
            let r = run(&dev, &mut || {
                dev.reset_counters();
                dev.fault(class, at, Fault::Forever(kind));
            });
            ctx.step();
            ctx.state(&(act, at));
            let last = r.last().unwrap();
            match last {
                Ok(()) => ensure!(class == Class::Flush || !dev.st.borrow().fault_hit, "silent", "{class:?} #{at} failed with {kind:?}, but the call succeeded"),
                Err(e) => {
                    ensure!(io_kind(e) == Some(kind), "cause", "{class:?} #{at} failed with {kind:?}, reported as {e:?}");
                    ensure!(matches!(e, TdmsError::IoError(e) if e.to_string() == INJECTED), "cause", "{class:?} #{at} failed with {INJECTED:?}, reported as {e:?}");
                    told(e)?;
                }
            }
            Ok(())
        }),
        scenario("incomplete", "a file of 1..3 segments cut at every byte, or with 1..40 stray bytes: the refusal of a writer gives the end of the segments and of the file", move |ctx| {
            let be = ctx.flag();
            let mut f = Foreign::new();
            for i in 0..ctx.range(1, 3) {
                f.push(&good(be, i));
            }
            let (start, raw, end) = *f.segs.last().unwrap();
            let cut = raw + ctx.choose(end - raw);
            ctx.step();
            ctx.state(&(start, cut));
            let dev = Dev::new(f.bytes[..cut].to_vec());
            let Ok(mut file) = open(&dev) else { return Ok(()) };
            let r = file.writer().map(|_| ());
            match r {
                Err(e @ TdmsError::IncompleteSegment(a, b)) => {
                    ensure!((a, b) == (end as u64, cut as u64), "cause", "segments end at {end}, file at {cut}, reported {a} and {b}");
                    told(&e)?;
                }
                r => bail!("cause", "writer on a file cut at {cut} of {end} gives {r:?}"),
            }
            Ok(())
        }),
        scenario("after_failure", "a device that fails at each write of a history of up to 3 calls: later calls on that writer are refused because of the earlier failure", move |ctx| {
            let dev = Dev::new(vec![]);
            let mut file = must_open(&dev, "open")?;
            let pool = [data(&["a"], Ty::F64, 1500, false), data(&["a", "b"], Ty::I16, 5000, true), WOp::Props { path: P::File, props: vec![("x".into(), Pv::s(&"t".repeat(9000)))] }];
            let first = ctx.pick(&pool).clone();
            let next = ctx.pick(&[data(&["a"], Ty::F64, 1, false), data(&["z"], Ty::I32, 1, false), WOp::Props { path: P::File, props: vec![] }, WOp::Sync]).clone();
            let at = ctx.choose(3);
            dev.reset_counters();
            dev.fault(Class::Write, at, Fault::Once(ErrorKind::Other));
            let mut w = file.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
            ctx.step();
            ctx.state(&(&first, &next, at));
            let r = exec_cmd!(w, &cmd(&first, 1));
            if r.is_ok() {
                return Ok(());
            }
            ensure!(io_kind(r.as_ref().unwrap_err()) == Some(ErrorKind::Other), "cause", "failing write reported as {r:?}");
            for _ in 0..2 {
                let r = exec_cmd!(w, &cmd(&next, 50));
                ensure!(matches!(r, Err(TdmsError::PreviousWriteFailed)), "cause", "{next:?} after a failed write gives {r:?}");
            }
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C28

/// Bytes the call may add: what the format needs to say it, and no more.
fn segment_size(op: &WOp, last: &Option<(Vec<(String, String)>, Ty, usize)>, fmt: &std::collections::BTreeMap<String, (Ty, usize)>) -> usize {
    match op {
        WOp::Props { path, props } => 28 + 4 + 4 + path.path().len() + 4 + 4 + props.iter().map(|(n, v)| 4 + n.len() + 4 + v.bytes(false).len()).sum::<usize>(),
        WOp::Data { chans, ty, n, .. } => {
            let raw = chans.len() * n * ty.size();
            if last.as_ref().is_some_and(|l| l.0 == *chans) && chans.iter().all(|(g, c)| fmt.get(&cpath(g, c)) == Some(&(*ty, *n))) {
                return 28 + raw;
            }
            let meta: usize = chans.iter().map(|(g, c)| {
                let p = cpath(g, c);
                let same = fmt.get(&p) == Some(&(*ty, *n));
                4 + p.len() + if same { 4 } else { 24 } + 4
            }).sum();
            28 + 4 + meta + raw
        }
        _ => 0,
    }
}
pub fn c28(t: bool) -> Vec<Scenario> {
    let pool: Vec<WOp> = vec![
        data(&["a"], Ty::F64, 2, false),
        data(&["a"], Ty::F64, 3, false),
        data(&["a", "b"], Ty::F64, 2, false),
        data(&["a", "b"], Ty::F64, 2, true),
        data(&["b", "a"], Ty::F64, 2, false),
        data(&["a", "b"], Ty::I32, 2, false),
        data(&["b"], Ty::I32, 4, true),
        WOp::Props { path: P::File, props: vec![("p".into(), Pv::i(1))] },
        WOp::Props { path: P::Chan("g".into(), "a".into()), props: vec![("p".into(), Pv::s("text")), ("q".into(), Pv::i(2))] },
        WOp::Props { path: P::Group("é".into()), props: vec![] },
        WOp::Sync,
        WOp::Session,
        WOp::Reopen,
    ];
    let depth = if t { 5 } else { 4 };
    vec![
        scenario("growth", &format!("every history of up to {depth} calls out of {}: each write adds one segment no larger than a lead-in, the entries the call needs and its data; a repeat of the last channel list and format adds 28 bytes and its data", pool.len()), move |ctx| {
            let dev = Dev::new(vec![]);
            let mut file = must_open(&dev, "open")?;
            let n = ctx.range(1, depth);
            let mut last: Option<(Vec<(String, String)>, Ty, usize)> = None;
            let mut fmt: std::collections::BTreeMap<String, (Ty, usize)> = Default::default();
            let mut todo: Vec<WOp> = (0..n).map(|_| ctx.pick(&pool).clone()).collect();
            todo.reverse();
            while let Some(first) = todo.last().cloned() {
                if first == WOp::Reopen {
                    drop(file);
                    file = must_open(&dev, "reopen")?;
                    todo.pop();
                    continue;
                }
                if first == WOp::Session {
                    todo.pop();
                    continue;
                }
                let mut w = file.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
                while let Some(op) = todo.last().cloned() {
                    if matches!(op, WOp::Session | WOp::Reopen) {
                        break;
                    }
                    todo.pop();
                    ctx.step();
                    ctx.note(|| format!("{op:?}"));
                    let before = { w.sync().ok(); dev.len() };
                    let r = exec_cmd!(w, &cmd(&op, 1));
                    ensure!(r.is_ok() && w.sync().is_ok(), "write-error", "{op:?} refused: {r:?}");
                    let grew = dev.len() - before;
                    let max = segment_size(&op, &last, &fmt);
                    ensure!(grew <= max, "growth", "{op:?} added {grew} bytes where {max} say it all");
                    if let WOp::Data { chans, ty, n, .. } = &op {
                        for (g, c) in chans {
                            fmt.insert(cpath(g, c), (*ty, *n));
                        }
                        last = Some((chans.clone(), *ty, *n));
                    }
                }
            }
            ctx.state(&Dev::bytes(&dev));
            Ok(())
        }),
        scenario("streaming", "1..3 channels written 2..300 times in the same shape, with and without sessions and property updates between: the file holds one metadata section for the data", move |ctx| {
            let c = ctx.range(1, 3);
            let chans: Vec<&str> = ["a", "b", "c"][..c].to_vec();
            let ty = *ctx.pick(&[Ty::F64, Ty::I16, Ty::Time]);
            let n = *ctx.pick(&[1usize, 7]);
            let inter = ctx.flag();
            let times = *ctx.pick(&[2usize, 3, 50, 300]);
            let between = ctx.choose(4);
            let dev = Dev::new(vec![]);
            let mut ops = vec![];
            for i in 0..times {
                ops.push(data(&chans, ty, n, inter));
                match between {
                    1 => ops.push(WOp::Session),
                    2 if i < 40 => ops.push(WOp::Reopen),
                    3 => ops.push(WOp::Props { path: P::Chan("g".into(), "a".into()), props: vec![("i".into(), Pv::i(i as i32))] }),
                    _ => {}
                }
            }
            run(ctx, &dev, &ops, no_view)?;
            let raw = times * c * n * ty.size();
            let props = if between == 3 { times * segment_size(&ops[1], &None, &Default::default()) } else { 0 };
            let max = segment_size(&ops[0], &None, &Default::default()) - c * n * ty.size() + (times - 1) * 28 + raw + props;
            ensure!(dev.len() <= max, "growth", "{times} writes of {c} x {n} {ty:?} take {} bytes where {max} suffice", dev.len());
            Ok(())
        }),
    ]
}
