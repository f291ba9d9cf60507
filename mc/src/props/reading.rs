//! C03, C04, C05, C06, C21, C22: what the reader makes of a file.
use crate::check::*;
use crate::dev::*;
use crate::explore::*;
use crate::generate::*;
use crate::spec::*;
use crate::types::*;
use crate::hist::*;
use crate::{bail, ensure, exec_cmd, with_ty};
use tedium::{ChannelPath, TdmsFile};

fn open_shape(ctx: &mut Ctx, f: &Foreign) -> R<(Dev, TdmsFile<Dev>)> {
    ctx.state(&f.bytes);
    ctx.step();
    let dev = Dev::new(f.bytes.clone());
    let file = must_open(&dev, "well-formed file")?;
    Ok((dev, file))
}
fn push(ctx: &mut Ctx, f: &mut Foreign, s: &Seg) {
    ctx.note(|| show_seg(s));
    assert!(f.push(s), "harness: invalid segment {}", show_seg(s));
}

// ---------------------------------------------------------------- C03

fn seq(name: &str, alpha: Vec<Seg>, lo: usize, hi: usize, id: u64) -> Scenario {
    scenario(name, &format!("every well-formed sequence of {lo}..{hi} segments over an alphabet of {} segments; whole view compared", alpha.len()), move |ctx| {
        let mut f = Foreign::new();
        for _ in 0..ctx.range(lo, hi) {
            let Some(s) = choose_valid(ctx, id, &f, &alpha) else { return Ok(()) };
            push(ctx, &mut f, s);
        }
        let (_, mut file) = open_shape(ctx, &f)?;
        check_view(&mut file, &f.model, "foreign file")
    })
}
/// A file made by NI's own software, as the strict reference decoder understands it.
static NI: &[u8] = include_bytes!("../ni.tdms");
fn ni() -> &'static Decoded {
    static D: std::sync::OnceLock<Decoded> = std::sync::OnceLock::new();
    D.get_or_init(|| decode(NI).unwrap_or_else(|e| panic!("harness: the reference decoder refuses a file made by NI: {e}")))
}
fn check_ni<T: Sample>(file: &mut TdmsFile<Dev>, p: &str, all: &[(Ty, Vec<u8>)], start: u64, len: usize) -> R {
    let from = (start as usize).min(all.len());
    let exp = &all[from..(from + len).min(all.len())];
    let mut buf: Vec<T> = (0..len).map(tail::<T>).collect();
    let r = file.read_channel_from(&chan(p)?, start, &mut buf);
    ensure!(r.is_ok(), "read", "reading {len} of {p} from {start} fails: {r:?}");
    for (i, v) in buf.iter().enumerate() {
        match exp.get(i) {
            Some((_, b)) => ensure!(v.same(b), "data", "{p}: sample {} is {}, the file holds {b:x?}", from + i, v.show()),
            None => ensure!(same(v, &tail::<T>(i)), "tail", "{p}: element {i} behind the end of the data altered"),
        }
    }
    Ok(())
}
fn instrument() -> Scenario {
    scenario("instrument", "the file made by LabVIEW that comes with the repository: all of its objects, properties and channels, every channel from 23 starts with 9 buffer lengths", |ctx| {
        let d = ni();
        let chans: Vec<&String> = d.objs.keys().filter(|p| parse_path(p).is_some_and(|x| x.len() == 2)).collect();
        let p = chans[ctx.choose(chans.len())];
        let o = &d.objs[p];
        let n = o.samples.len();
        ctx.state(p);
        ctx.step();
        let dev = Dev::new(NI.to_vec());
        let mut file = must_open(&dev, "file made by LabVIEW")?;
        let mut m = Model::default();
        for (p, o) in &d.objs {
            m.objs.insert(p.clone(), MObj { props: o.props.clone(), samples: o.samples.iter().map(|s| (s.0, 0)).collect() });
        }
        check_meta(&file, &m, "file made by LabVIEW")?;
        let Some(ty) = o.samples.first().map(|s| s.0) else { return Ok(()) };
        if ty == Ty::Str || o.samples.iter().any(|s| s.0 != ty) {
            return Ok(());
        }
        with_ty!(ty.natural(), T => {
            check_ni::<T>(&mut file, p, &o.samples, 0, n + 2)?;
            let mut starts: Vec<usize> = vec![0, 1, 2, 3, 5, 7, 9, 10, 11, 99, 100, 101, 255, 256, 999, 1000, 1001, n / 3, n / 2, n.saturating_sub(2), n.saturating_sub(1), n, n + 1];
            starts.retain(|s| *s <= n + 1);
            let start = *ctx.pick(&starts);
            let len = *ctx.pick(&[0, 1, 2, 3, 10, 100, 1000, 1001, n + 1]);
            ctx.note(|| format!("{len} of {p} from {start}"));
            check_ni::<T>(&mut file, p, &o.samples, start as u64, len)?;
        });
        Ok(())
    })
}
pub fn c03(t: bool) -> Vec<Scenario> {
    let (a, b, c) = (ch("a"), ch("b"), ch("c"));
    let i32s = |ns: &[u64]| -> Vec<Idx> { ns.iter().map(|n| Idx::Full(Ty::I32, *n)).collect() };
    let mut idx = vec![Idx::None, Idx::Same];
    idx.extend(i32s(&[1, 2]));
    let mut wide = idx.clone();
    wide.push(Idx::Full(Ty::F64, 1));
    let mut zero = idx.clone();
    zero.extend([Idx::Full(Ty::I32, 0), Idx::Full(Ty::Time, 1)]);
    let strs = vec![Idx::None, Idx::Same, Idx::Full(Ty::Str, 3), Idx::Full(Ty::I16, 2), Idx::Full(Ty::I16, 0)];
    let small = vec![Idx::None, Idx::Same, Idx::Full(Ty::I32, 1), Idx::Full(Ty::I16, 2)];
    let mut v = vec![
        seq("structure", alphabet(&[&a, &b], 2, &wide, &[false, true], &[false, true], &[0, 1, 2]), 1, 2, 10),
        seq("incremental", alphabet(&[&a, &b], 2, &small, &[false], &[false, true], &[0, 2]), 3, if t { 4 } else { 3 }, 11),
        seq("three_channels", alphabet(&[&a, &b, &c], 3, &idx, &[true], &[false, true], &[1, 3]), 1, 2, 12),
        seq("zero_counts", alphabet(&[&a, &b], 2, &zero, &[false, true], &[false], &[0, 1, 2]), 1, 2, 13),
        seq("strings", alphabet(&[&a, &b], 2, &strs, &[false, true], &[false], &[0, 1, 2]), 1, 2, 14),
    ];
    if t {
        v.push(seq("structure3", alphabet(&[&a, &b], 2, &idx, &[false, true], &[false, true], &[0, 1, 2]), 3, 3, 15));
        v.push(seq("three_channels3", alphabet(&[&a, &b, &c], 2, &small, &[false], &[false, true], &[1, 2]), 3, 3, 16));
    }
    // The two halves of the reference were written independently: they have to agree on what the files mean.
    let files: Vec<(u64, Vec<Seg>)> = vec![
        (20, alphabet(&[&a, &b], 2, &wide, &[false, true], &[false, true], &[0, 1, 2])),
        (21, alphabet(&[&a, &b], 2, &zero, &[false, true], &[false], &[0, 1, 2])),
        (22, alphabet(&[&a, &b], 2, &strs, &[false, true], &[false], &[0, 1, 2])),
        (23, FIXED.iter().flat_map(|t| FIXED.iter().map(move |u| (t, u))).map(|(t, u)| full(true, true, 2, &[("a", *t, 2), ("b", *u, 2)])).collect()),
    ];
    v.push(scenario("reference", "no library: the reference encoder and the strict reference decoder agree on every sequence of up to 2 segments of 4 alphabets", move |ctx| {
        let (id, alpha) = &files[ctx.choose(files.len())];
        let mut f = Foreign::new();
        for _ in 0..ctx.range(1, 2) {
            let Some(s) = choose_valid(ctx, *id, &f, alpha) else { return Ok(()) };
            push(ctx, &mut f, s);
        }
        ctx.step();
        ctx.state(&f.bytes);
        let d = decode(&f.bytes).unwrap_or_else(|e| panic!("harness: the decoder refuses what the encoder makes: {e}"));
        decoded_matches(&d, &f.model).unwrap_or_else(|e| panic!("harness: decoder and encoder disagree: {e}"));
        Ok(())
    }));
    v.push(instrument());
    v.push(scenario("types", "one segment with two channels of every pair of 18 stored types, both layouts and byte orders, 1..3 chunks, 1..3 values, followed by a segment without metadata in the other byte order", move |ctx| {
        let t1 = *ctx.pick(&FIXED);
        let t2 = *ctx.pick(&FIXED);
        let (be, inter) = (ctx.flag(), ctx.flag());
        let chunks = ctx.range(1, 3);
        let n1 = ctx.range(1, 3) as u64;
        let n2 = if inter { n1 } else { ctx.range(1, 3) as u64 };
        let mut f = Foreign::new();
        if ctx.flag() {
            f.version = 4712;
        }
        push(ctx, &mut f, &full(be, inter, chunks, &[("a", t1, n1), ("b", t2, n2)]));
        push(ctx, &mut f, &Seg { be: !be, new_list: false, meta: None, interleaved: inter, chunks: 1 });
        let (_, mut file) = open_shape(ctx, &f)?;
        check_view(&mut file, &f.model, "foreign file")
    }));
    v.push(scenario("objects", "objects without data, groups, the root and properties between channels with data, in any of several orders, in both byte orders", move |ctx| {
        let mut f = Foreign::new();
        for s in 0..ctx.range(1, 2) {
            let be = ctx.flag();
            let all = [
                SObj { path: "/".into(), idx: Idx::None, props: vec![("r".into(), Pv::of(Ty::Time, s as u32)), ("q".into(), Pv::of(Ty::F64U, 9))] },
                SObj { path: gpath("g"), idx: Idx::None, props: vec![("x".into(), Pv::s("é"))] },
                SObj { path: gpath("empty"), idx: Idx::None, props: vec![] },
                SObj { path: ch("a"), idx: if s == 0 || ctx.flag() { Idx::Full(Ty::I16, 2) } else { Idx::Same }, props: vec![("n".into(), Pv::of(Ty::ExtU, 4))] },
                SObj { path: ch("b"), idx: Idx::Full(Ty::F64, 1), props: vec![] },
                SObj { path: cpath("h", "nodata"), idx: Idx::None, props: vec![("v".into(), Pv::Void)] },
            ];
            let mask = ctx.choose(64);
            let rev = ctx.flag();
            let mut objs: Vec<SObj> = all.iter().enumerate().filter(|(i, _)| mask >> i & 1 == 1).map(|x| x.1.clone()).collect();
            if rev {
                objs.reverse();
            }
            let has = objs.iter().any(|o| o.idx != Idx::None);
            let seg = Seg { be, new_list: ctx.flag(), meta: Some(objs), interleaved: false, chunks: if has { ctx.range(0, 2) } else { 0 } };
            if f.after(&seg).is_none() {
                return Ok(());
            }
            push(ctx, &mut f, &seg);
        }
        let (_, mut file) = open_shape(ctx, &f)?;
        check_view(&mut file, &f.model, "foreign file")
    }));
    v.push(scenario("large", "blocks, chunks and metadata larger than the 8 KiB stream buffers, 1..300 channels, both layouts and byte orders", move |ctx| {
        let mut f = Foreign::new();
        let (be, inter) = (ctx.flag(), ctx.flag());
        let ty = *ctx.pick(&[Ty::U8, Ty::I16, Ty::Ext, Ty::F64, Ty::C64]);
        let per = (8192 / ty.size()) as u64;
        let (c, n, chunks) = *ctx.pick(&[(1, per - 1, 2), (1, per, 1), (1, per + 1, 2), (2, per, 2), (3, per / 2 + 1, 3), (300, 2, 2), (40, 100, 3)]);
        let names: Vec<String> = (0..c).map(|i| format!("channel number {i}")).collect();
        let mut seg = full(be, inter, chunks, &names.iter().map(|s| (s.as_str(), ty, n)).collect::<Vec<_>>());
        if ctx.flag() {
            seg.meta.as_mut().unwrap()[0].props.push(("long".into(), Pv::s(&"x".repeat(20000))));
        }
        push(ctx, &mut f, &seg);
        push(ctx, &mut f, &full(!be, !inter, 1, &[("a", ty, 3)]));
        let (_, mut file) = open_shape(ctx, &f)?;
        check_view(&mut file, &f.model, "foreign file")
    }));
    v
}

// ---------------------------------------------------------------- C04

/// Segment kinds holding channel a (type `t`) among others.
fn kinds_a(t: Ty, o: Ty, be: bool) -> Vec<Seg> {
    let mut v = vec![];
    for chunks in [1, 2] {
        for n in [1u64, 2, 3] {
            v.push(full(be, false, chunks, &[("a", t, n)]));
            v.push(full(be, true, chunks, &[("a", t, n), ("b", o, n)]));
            v.push(full(be, true, chunks, &[("b", o, n), ("a", t, n)]));
        }
        for (n, m) in [(1, 1), (2, 1), (1, 3), (3, 2)] {
            v.push(full(be, false, chunks, &[("a", t, n), ("b", o, m)]));
            v.push(full(be, false, chunks, &[("b", o, m), ("a", t, n)]));
        }
        v.push(full(be, false, chunks, &[("b", o, 2), ("a", t, 2), ("c", Ty::Time, 1)]));
    }
    v.push(full(be, false, 3, &[("b", o, 2)]));
    v.push(full(be, false, 2, &[("b", o, 1), ("a", t, 0)]));
    v.push(full(be, false, 2, &[("a", t, 0), ("b", o, 2)]));
    v.push(full(be, false, 1, &[("c", Ty::Str, 3), ("a", t, 2)]));
    v.push(full(be, false, 1, &[("a", t, 2), ("c", Ty::Str, 2)]));
    v.push(Seg { be, new_list: false, meta: None, interleaved: false, chunks: 1 });
    v.push(Seg { be, new_list: false, meta: None, interleaved: true, chunks: 2 });
    v
}
fn slices(name: &str, t: Ty, o: Ty, lo: usize, hi: usize, id: u64, bes: bool) -> Scenario {
    let ks = [kinds_a(t, o, false), kinds_a(t, o, true)];
    let ok = |ks: &Vec<Seg>| ks.len();
    scenario(name, &format!("every well-formed sequence of {lo}..{hi} segments over {} kinds holding a {t:?} channel beside {o:?} channels; every start 0..len+2 and every buffer length 0..len-start+2", ok(&ks[0])), move |ctx| {
        let be = bes && ctx.flag();
        let mut f = Foreign::new();
        for _ in 0..ctx.range(lo, hi) {
            let Some(s) = choose_valid(ctx, id + be as u64, &f, &ks[be as usize]) else { return Ok(()) };
            push(ctx, &mut f, s);
        }
        let Some(o) = f.model.objs.get(&ch("a")) else { return Ok(()) };
        let all = o.samples.clone();
        let start = ctx.choose(all.len() + 3) as u64;
        let (_, mut file) = open_shape(ctx, &f)?;
        // buffer lengths in the inner loop: the file is rebuilt for every start only
        for len in 0..=(all.len().saturating_sub(start as usize) + 2) {
            ctx.step();
            with_ty!(t.natural(), T => check_read::<T, Dev>(&mut file, &ch("a"), &all, start, len)?);
        }
        Ok(())
    })
}
pub fn c04(t: bool) -> Vec<Scenario> {
    let mut v = vec![
        slices("f64_among_i16", Ty::F64, Ty::I16, 1, 2, 20, true),
        slices("i16_among_i16", Ty::I16, Ty::I16, 1, if t { 3 } else { 2 }, 22, true),
        slices("ext_among_time", Ty::Ext, Ty::Time, 1, 2, 24, true),
        slices("three_segments", Ty::U16, Ty::F64, 3, 3, 26, t),
    ];
    v.push(scenario("types", "every stored type in both layouts, orders and byte orders: 2 chunks of 3 values, twice; every start and length", move |ctx| {
        let ty = *ctx.pick(&FIXED);
        let o = *ctx.pick(&[Ty::I8, Ty::Ext, Ty::F64]);
        let (be, inter, swap) = (ctx.flag(), ctx.flag(), ctx.flag());
        let mut f = Foreign::new();
        for _ in 0..2 {
            let mut x = vec![("a", ty, 3), ("b", o, 3)];
            if swap {
                x.reverse();
            }
            push(ctx, &mut f, &full(be, inter, 2, &x));
        }
        let all = f.model.objs[&ch("a")].samples.clone();
        let start = ctx.choose(all.len() + 2) as u64;
        let (_, mut file) = open_shape(ctx, &f)?;
        for len in 0..=(all.len() + 1) {
            ctx.step();
            with_ty!(ty.natural(), T => check_read::<T, Dev>(&mut file, &ch("a"), &all, start, len)?);
        }
        Ok(())
    }));
    v.push(scenario("buffers", "blocks of 1000..3000 samples around the 8 KiB stream buffer: starts and lengths at every boundary and its neighbours", move |ctx| {
        let ty = *ctx.pick(&[Ty::F64, Ty::I16, Ty::Ext]);
        let (be, inter) = (ctx.flag(), ctx.flag());
        let per = (8192 / ty.size()) as u64;
        let n = per + 200;
        let chunks = ctx.range(1, 2);
        let mut f = Foreign::new();
        push(ctx, &mut f, &full(be, inter, chunks, &[("b", Ty::I8, n), ("a", ty, n)]));
        push(ctx, &mut f, &full(be, !inter, 1, &[("a", ty, per)]));
        let all = f.model.objs[&ch("a")].samples.clone();
        let c = chunks as u64;
        let mut pts: Vec<u64> = vec![0, 1, per - 1, per, per + 1, n - 1, n, n + 1, n * c - 1, n * c, n * c + 1, n * c + per - 1, n * c + per, n * c + per + 1, 2, 100];
        pts.sort();
        pts.dedup();
        let start = *ctx.pick(&pts);
        let end = *ctx.pick(&pts);
        if end < start {
            return Ok(());
        }
        let (_, mut file) = open_shape(ctx, &f)?;
        with_ty!(ty.natural(), T => check_read::<T, Dev>(&mut file, &ch("a"), &all, start, (end - start) as usize)?);
        Ok(())
    }));
    v.push(scenario("extreme_starts", "starts at the integer boundaries, on channels with and without data, both layouts", move |ctx| {
        let inter = ctx.flag();
        let mut f = Foreign::new();
        let be_flag = ctx.flag();
        push(ctx, &mut f, &full(be_flag, inter, 2, &[("a", Ty::I32, 2), ("b", Ty::I32, 2)]));
        push(ctx, &mut f, &Seg { be: false, new_list: false, meta: Some(vec![so(&ch("none"), Idx::None)]), interleaved: false, chunks: 0 });
        let start = *ctx.pick(&[1u64 << 31, (1 << 31) + 1, (1 << 32) - 1, 1 << 32, (1 << 32) + 1, (1 << 62) + 1, i64::MAX as u64, (1 << 63), u64::MAX - 1, u64::MAX]);
        let c = *ctx.pick(&["a", "b", "none"]);
        let all = f.model.objs[&ch(c)].samples.clone();
        let (_, mut file) = open_shape(ctx, &f)?;
        check_read::<i32, Dev>(&mut file, &ch(c), &all, start, 3)?;
        check_multi::<i32, Dev>(&mut file, &f.model, &[(ch("b"), 2), (ch("a"), 3)], start)?;
        check_read::<i32, Dev>(&mut file, &ch(c), &all, 0, 5)
    }));
    v
}

// ---------------------------------------------------------------- C05

fn kinds_abc(t: Ty, be: bool) -> Vec<Seg> {
    let mut v = vec![];
    let o = Ty::I8;
    for chunks in [1, 2] {
        for inter in [false, true] {
            v.push(full(be, inter, chunks, &[("a", t, 2), ("b", t, 2)]));
            v.push(full(be, inter, chunks, &[("b", t, 1), ("a", t, 1)]));
            v.push(full(be, inter, chunks, &[("c", t, 2), ("x", o, 2), ("a", t, 2)]));
            v.push(full(be, inter, chunks, &[("a", t, 3), ("b", t, 3), ("c", t, 3)]));
        }
        v.push(full(be, false, chunks, &[("a", t, 1), ("b", t, 2)]));
        v.push(full(be, false, chunks, &[("b", t, 3), ("a", t, 1)]));
        v.push(full(be, false, chunks, &[("c", t, 1), ("x", o, 3), ("b", t, 2), ("a", t, 3)]));
        v.push(full(be, false, chunks, &[("a", t, 2)]));
        v.push(full(be, false, chunks, &[("b", t, 2)]));
        v.push(full(be, false, chunks, &[("a", t, 0), ("b", t, 2)]));
        v.push(full(be, false, chunks, &[("b", t, 1), ("c", t, 0), ("a", t, 2)]));
    }
    v
}
fn multi(name: &str, t: Ty, lo: usize, hi: usize, reqs: Vec<Vec<&'static str>>, bes: bool, fine: bool) -> Scenario {
    let ks = [kinds_abc(t, false), kinds_abc(t, true)];
    scenario(name, &format!("every sequence of {lo}..{hi} segments over {} kinds (2..4 {t:?} channels, unequal lengths, both layouts, 1..2 chunks); requests {reqs:?}; every start; buffer lengths 0, 1, middle, all, more for each requested channel", ks[0].len()), move |ctx| {
        let be = bes && ctx.flag();
        let mut f = Foreign::new();
        for _ in 0..ctx.range(lo, hi) {
            let s = ctx.pick(&ks[be as usize]);
            push(ctx, &mut f, s);
        }
        let req = ctx.pick(&reqs).clone();
        for c in &req {
            if !f.model.objs.contains_key(&ch(c)) {
                return Ok(());
            }
        }
        let max = req.iter().map(|c| f.model.objs[&ch(c)].samples.len()).max().unwrap();
        let start = ctx.choose(max + 2) as u64;
        let (_, mut file) = open_shape(ctx, &f)?;
        // every combination of buffer lengths
        let opts: Vec<Vec<usize>> = req.iter().map(|c| {
            let left = f.model.objs[&ch(c)].samples.len().saturating_sub(start as usize);
            let mut v: Vec<usize> = if fine { (0..=left + 1).collect() } else { vec![0, 1, left / 2, left.saturating_sub(1), left, left + 2] };
            v.sort();
            v.dedup();
            v
        }).collect();
        let mut at = vec![0usize; req.len()];
        loop {
            let r: Vec<(String, usize)> = req.iter().enumerate().map(|(i, c)| (ch(c), opts[i][at[i]])).collect();
            ctx.step();
            with_ty!(t.natural(), T => check_multi::<T, Dev>(&mut file, &f.model, &r, start)?);
            let mut i = 0;
            while i < at.len() {
                at[i] += 1;
                if at[i] < opts[i].len() {
                    break;
                }
                at[i] = 0;
                i += 1;
            }
            if i == at.len() {
                break;
            }
        }
        Ok(())
    })
}
pub fn c05(t: bool) -> Vec<Scenario> {
    let pairs = vec![vec!["a", "b"], vec!["b", "a"], vec!["a", "c"], vec!["c", "b"], vec!["a"]];
    let triples = vec![vec!["a", "b", "c"], vec!["c", "a", "b"], vec!["b", "c", "a"], vec!["c", "b", "a"]];
    let dups = vec![vec!["a", "a"], vec!["a", "b", "a"], vec!["b", "a", "a"], vec!["b", "b", "b"]];
    let mut v = vec![
        multi("pairs_one", Ty::F64, 1, 1, pairs.clone(), true, true),
        multi("pairs", Ty::I16, 2, if t { 3 } else { 2 }, pairs.clone(), true, false),
        multi("triples", Ty::I32, 1, 2, triples.clone(), true, false),
        multi("duplicates", Ty::U16, 1, 2, dups, t, false),
        multi("extended", Ty::Ext, 1, 2, pairs, t, false),
    ];
    v.push(multi("none", Ty::I32, 1, 2, vec![vec![]], false, false).into_empty());
    v.push(scenario("uneven", "1..3 channels (also repeated ones) requested with 0..4 buffers on every sequence of 1..2 segments: it returns; a buffer that has a channel holds its samples (or is untouched if the call is refused), a buffer without one is untouched; what is read afterwards is right", move |ctx| {
        let ks = kinds_abc(Ty::I32, false);
        let mut f = Foreign::new();
        for _ in 0..ctx.range(1, 2) {
            let s = ctx.pick(&ks);
            push(ctx, &mut f, s);
        }
        let req: Vec<String> = ctx.pick(&[vec!["a"], vec!["a", "b"], vec!["b", "a"], vec!["a", "a"], vec!["c", "a", "b"], vec!["b", "a", "b"]]).iter().map(|c| ch(c)).collect();
        if req.iter().any(|c| !f.model.objs.contains_key(c)) {
            return Ok(());
        }
        let start = *ctx.pick(&[0u64, 1, 3]);
        let (_, mut file) = open_shape(ctx, &f)?;
        let paths = req.iter().map(|c| chan(c)).collect::<R<Vec<_>>>()?;
        for n in 0..=4usize {
            for len in [0usize, 1, 9] {
                ctx.step();
                let exps: Vec<&[S]> = (0..n).map(|i| match req.get(i) {
                    Some(c) => {
                        let all = &f.model.objs[c].samples;
                        let a = (start as usize).min(all.len());
                        &all[a..(a + len).min(all.len())]
                    }
                    None => &[][..],
                }).collect();
                let mut bufs: Vec<Vec<i32>> = exps.iter().map(|e| fresh::<i32>(e, len)).collect();
                let r = {
                    let mut outs: Vec<&mut [i32]> = bufs.iter_mut().map(|b| &mut b[..]).collect();
                    file.read_channels_from(&paths, start, &mut outs)
                };
                ensure!(r.is_ok() || n != req.len(), "read-error", "reading {req:?} from {start} into {n} buffers of {len} fails: {r:?}");
                for (i, (exp, buf)) in exps.iter().zip(&bufs).enumerate() {
                    let what = || format!("reading {req:?} from {start} into {n} buffers of {len}: buffer {i}");
                    if r.is_ok() {
                        judge(&what, exp, buf, &r)?;
                    } else {
                        ensure!(*buf == fresh::<i32>(exp, len), "data", "{}: altered by a refused read", what());
                    }
                }
            }
        }
        check_view(&mut file, &f.model, "afterwards")
    }));
    v.push(scenario("buffers", "two channels of 1000..3000 samples around the stream buffer, both layouts, every pair of boundary buffer lengths and start", move |ctx| {
        let ty = *ctx.pick(&[Ty::F64, Ty::I16]);
        let (be, inter, swap) = (ctx.flag(), ctx.flag(), ctx.flag());
        let per = (8192 / ty.size()) as u64;
        let n = per + 100;
        let mut f = Foreign::new();
        push(ctx, &mut f, &full(be, inter, 2, &[("a", ty, n), ("x", Ty::I8, n), ("b", ty, n)]));
        push(ctx, &mut f, &full(be, !inter, 1, &[("b", ty, per), ("a", ty, per)]));
        let start = *ctx.pick(&[0, 1, per - 1, per, n, n + 1, 2 * n - 1, 2 * n, 2 * n + 1]);
        let lens = [0, 1, (per / 2) as usize, per as usize, n as usize, 2 * n as usize + 1, 4000, 9000];
        let (la, lb) = (*ctx.pick(&lens), *ctx.pick(&lens));
        let (_, mut file) = open_shape(ctx, &f)?;
        let req = if swap { vec![(ch("b"), lb), (ch("a"), la)] } else { vec![(ch("a"), la), (ch("b"), lb)] };
        with_ty!(ty.natural(), T => check_multi::<T, Dev>(&mut file, &f.model, &req, start)?);
        Ok(())
    }));
    v
}
impl Scenario {
    /// A request for no channels at all: only that it returns.
    fn into_empty(self) -> Scenario {
        scenario("no_channels", "a request for no channels on any one segment file returns without touching anything", |ctx| {
            let ks = kinds_abc(Ty::I32, false);
            let mut f = Foreign::new();
            let s = ctx.pick(&ks);
            push(ctx, &mut f, s);
            let start = *ctx.pick(&[0u64, 1, 100]);
            let (_, mut file) = open_shape(ctx, &f)?;
            let none: [ChannelPath; 0] = [];
            let mut outs: Vec<&mut [i32]> = vec![];
            let r = file.read_channels_from(&none, start, &mut outs[..]);
            ensure!(r.is_ok(), "read-error", "reading no channels fails: {r:?}");
            check_view(&mut file, &f.model, "afterwards")
        })
    }
}

// ---------------------------------------------------------------- C06

pub fn c06(t: bool) -> Vec<Scenario> {
    let mut stored: Vec<Ty> = FIXED.to_vec();
    stored.push(Ty::Str);
    let s2 = stored.clone();
    vec![
        scenario("matrix", "every stored type (18 and strings) read as every storage type (15 and strings), contiguous and interleaved, both byte orders, alone, behind or before another channel, single reads at several starts and lengths", move |ctx| {
            let st = *ctx.pick(&stored);
            let rt = *ctx.pick(&NATURAL);
            let (be, inter) = (ctx.flag(), ctx.flag());
            let pos = ctx.choose(3);
            let chans: Vec<(&str, Ty, u64)> = match pos {
                0 => vec![("a", st, 3)],
                1 => vec![("b", Ty::I16, 3), ("a", st, 3)],
                _ => vec![("a", st, 3), ("b", Ty::F64, 3)],
            };
            let mut f = Foreign::new();
            let seg = full(be, inter, if st == Ty::Str { 1 } else { 2 }, &chans);
            if f.after(&seg).is_none() {
                return Ok(());
            }
            push(ctx, &mut f, &seg);
            let all = f.model.objs[&ch("a")].samples.clone();
            let (_, mut file) = open_shape(ctx, &f)?;
            for start in [0u64, 1, 3, 5, 6, 7] {
                for len in [0usize, 1, 3, 7] {
                    ctx.step();
                    with_ty!(rt, T => check_read::<T, Dev>(&mut file, &ch("a"), &all, start, len)?);
                }
            }
            // strings cannot be read as channel data at all
            let mut out = vec!["untouched".to_string(); 3];
            let r = file.read_channel(&chan(&ch("a"))?, &mut out);
            ensure!(r.is_err(), "type", "a {st:?} channel was read as strings: {out:?}");
            ensure!(out.iter().all(|s| s == "untouched"), "data", "a failed read altered the output: {out:?}");
            check_view(&mut file, &f.model, "after mismatched reads")
        }),
        scenario("changing", "a channel of one stored type followed by a block of another: every pair of types, read as every storage type over every range", move |ctx| {
            let t1 = *ctx.pick(&s2);
            let t2 = *ctx.pick(&s2);
            let be = ctx.flag();
            let i1 = ctx.flag() && t1 != Ty::Str;
            let i2 = if t { ctx.flag() && t2 != Ty::Str } else { !i1 && t2 != Ty::Str };
            let mut f = Foreign::new();
            push(ctx, &mut f, &full(be, i1, 1, &[("a", t1, 2), ("b", Ty::I8, 2)]));
            push(ctx, &mut f, &full(!be, i2, if t2 == Ty::Str { 1 } else { 2 }, &[("b", Ty::I8, 1), ("a", t2, 1)]));
            let rt = *ctx.pick(&NATURAL);
            let all = f.model.objs[&ch("a")].samples.clone();
            let (_, mut file) = open_shape(ctx, &f)?;
            for start in 0..=all.len() as u64 {
                for len in 0..=(all.len() - start as usize + 1) {
                    ctx.step();
                    with_ty!(rt, T => check_read::<T, Dev>(&mut file, &ch("a"), &all, start, len)?);
                }
            }
            Ok(())
        }),
        scenario("multi", "two channels of every pair of stored types read together as every storage type, both request orders, layouts and byte orders, from three starts", move |ctx| {
            let t1 = *ctx.pick(&FIXED);
            let t2 = *ctx.pick(&FIXED);
            let (be, inter) = (ctx.flag(), ctx.flag());
            let mut f = Foreign::new();
            push(ctx, &mut f, &full(be, inter, 2, &[("a", t1, 2), ("b", t2, 2)]));
            let rt = *ctx.pick(&NATURAL);
            let (_, mut file) = open_shape(ctx, &f)?;
            for start in [0, 1, 2] {
                for req in [vec![(ch("a"), 3), (ch("b"), 3)], vec![(ch("b"), 1), (ch("a"), 4)]] {
                    ctx.step();
                    with_ty!(rt, T => check_multi::<T, Dev>(&mut file, &f.model, &req, start)?);
                }
            }
            Ok(())
        }),
    ]
}

// ---------------------------------------------------------------- C21

#[derive(Clone, Debug)]
enum ROp {
    Read(&'static str, u64, usize),
    ReadWrong(&'static str),
    Multi(Vec<(&'static str, usize)>, u64),
    Missing,
    List,
    Props,
    Len,
    Writer,
}
fn rop(file: &mut TdmsFile<Dev>, f: &Foreign, op: &ROp) -> R {
    match op {
        ROp::Read(c, s, l) => {
            let all = &f.model.objs[&ch(c)].samples;
            let t = whole_type(all).unwrap();
            with_ty!(t, T => check_read::<T, Dev>(file, &ch(c), all, *s, *l))
        }
        ROp::ReadWrong(c) => {
            let all = &f.model.objs[&ch(c)].samples;
            check_read::<tedium::types::Complex<f64>, Dev>(file, &ch(c), all, 0, 3)
        }
        ROp::Multi(r, s) => {
            let req: Vec<(String, usize)> = r.iter().map(|(c, l)| (ch(c), *l)).collect();
            check_multi::<f64, Dev>(file, &f.model, &req, *s)
        }
        ROp::Missing => {
            let mut b = [1.5f64; 2];
            let r = file.read_channel(&ChannelPath::new("g", "missing"), &mut b);
            ensure!(matches!(r, Err(tedium::TdmsError::MissingObject(_))), "object", "missing channel: {r:?}");
            ensure!(b == [1.5; 2], "data", "a read of a missing channel altered the buffer");
            let good = ChannelPath::new("g", "a");
            let mut b2 = [2.5f64; 2];
            let mut outs: Vec<&mut [f64]> = vec![&mut b[..], &mut b2[..]];
            let r = file.read_channels(&[good, ChannelPath::new("g", "missing")], &mut outs);
            ensure!(r.is_err(), "object", "a multi read with a missing channel succeeded");
            Ok(())
        }
        ROp::List | ROp::Props | ROp::Len => check_meta(file, &f.model, "query"),
        ROp::Writer => {
            drop(file.writer().or_else(|e| fail("writer", format!("{e:?}")))?);
            Ok(())
        }
    }
}
pub fn c21(t: bool) -> Vec<Scenario> {
    let ops = vec![
        ROp::Read("a", 0, 100), ROp::Read("a", 0, 1), ROp::Read("a", 3, 2), ROp::Read("b", 0, 100), ROp::Read("b", 2, 3), ROp::Read("a", 50, 4),
        ROp::ReadWrong("a"), ROp::ReadWrong("b"),
        ROp::Multi(vec![("a", 4), ("b", 6)], 0), ROp::Multi(vec![("b", 2), ("a", 9)], 1),
        ROp::Missing, ROp::List, ROp::Read("w", 1, 2), ROp::Writer,
    ];
    let depth = if t { 5 } else { 4 };
    let b = format!("every sequence of 1..{depth} queries and reads (successful, mismatched, missing) over {} kinds on 8 files; every result compared with the file's content, then the whole view", ops.len());
    vec![scenario("sequences", &b, move |ctx| {
        let (be, inter) = (ctx.flag(), ctx.flag());
        let big = ctx.flag();
        let n = if big { 700 } else { 2 };
        let mut f = Foreign::new();
        push(ctx, &mut f, &full(be, inter, 2, &[("a", Ty::F64, n), ("b", Ty::F64, n)]));
        let mut s = full(be, !inter, 1, &[("b", Ty::F64, 2), ("w", Ty::I16, 2), ("a", Ty::F64, 2)]);
        s.meta.as_mut().unwrap().push(SObj { path: gpath("g"), idx: Idx::None, props: vec![("x".into(), Pv::i(4))] });
        push(ctx, &mut f, &s);
        push(ctx, &mut f, &Seg { be, new_list: false, meta: None, interleaved: false, chunks: 2 });
        let d = ctx.range(1, depth);
        let (_, mut file) = open_shape(ctx, &f)?;
        for _ in 0..d {
            let op = ctx.pick(&ops);
            ctx.note(|| format!("{op:?}"));
            ctx.step();
            rop(&mut file, &f, op)?;
        }
        check_view(&mut file, &f.model, "afterwards")
    }), scenario("position", "a stream handed over at every position of (and behind) 4 files of 1..3 segments: everything shows as from the start, and what is written then follows the file", move |ctx| {
        let (be, inter) = (ctx.flag(), ctx.flag());
        let mut f = Foreign::new();
        for i in 0..ctx.range(1, 3) {
            push(ctx, &mut f, &full(be ^ (i == 1), inter, 2, &[("a", Ty::F64, 2), ("w", Ty::I16, 2)]));
        }
        let dev = Dev::new(f.bytes.clone());
        let mut at = dev.again();
        at.pos = ctx.range(0, f.bytes.len() + 9) as u64;
        ctx.state(&(&f.bytes, at.pos));
        ctx.step();
        let mut file = TdmsFile::new(at).or_else(|e| fail("open", format!("open failed: {e:?}")))?;
        check_view(&mut file, &f.model, "opened from the middle")?;
        if ctx.flag() {
            let op = data(&["a"], Ty::F64, 3, false);
            let r = {
                let mut w = file.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
                exec_cmd!(w, &cmd(&op, f.k + 1))
            };
            ensure!(r.is_ok(), "write-error", "write refused: {r:?}");
            let mut m = f.model.clone();
            effect(&op, &mut m, f.k + 1);
            check_view(&mut file, &m, "after writing")?;
            ensure!(dev.bytes().starts_with(&f.bytes), "append", "writing changed the file");
        }
        Ok(())
    })]
}

// ---------------------------------------------------------------- C22

/// The bytes each device read actually asked for or got.
fn reads(log: &[Op]) -> Vec<(u64, u64)> {
    log.iter().filter_map(|o| if let Op::Read { off, got, .. } = o { (*got > 0).then_some((*off, *off + *got as u64)) } else { None }).collect()
}
const BUF: u64 = 8192;
pub fn c22(t: bool) -> Vec<Scenario> {
    vec![
        scenario("blocks", "six blocks of 1..3 chunks, both layouts, with all, one or neither requested channel; every start and length of a single or multi read; reads must start in blocks that hold wanted samples", move |ctx| {
            let be = ctx.flag();
            let n = *ctx.pick(&[2u64, 1500]);
            let mut f = Foreign::new();
            let mut holds = vec![];
            for i in 0..if t { 5 } else { 4 } {
                let inter = i % 2 == 1;
                let kind = ctx.choose(4);
                let c: Vec<(&str, Ty, u64)> = match kind {
                    0 => vec![("a", Ty::F64, n), ("b", Ty::F64, n)],
                    1 => vec![("x", Ty::F64, n)],
                    2 => vec![("x", Ty::I16, n), ("a", Ty::F64, n)],
                    _ => vec![("b", Ty::F64, n)],
                };
                holds.push(c.clone());
                push(ctx, &mut f, &full(be, inter, if t { 2 } else { 1 }, &c));
            }
            let multi = ctx.flag();
            let req: Vec<&str> = if multi { vec!["b", "a"] } else { vec!["a"] };
            if req.iter().any(|c| !f.model.objs.contains_key(&ch(c))) {
                return Ok(());
            }
            let total = f.model.objs[&ch("a")].samples.len() as u64;
            let per = if t { 2 * n } else { n };
            let mut starts = vec![0, 1, per - 1, per, per + 1, 2 * per, total.saturating_sub(1), total, total + 1];
            starts.sort();
            starts.dedup();
            let start = *ctx.pick(&starts);
            let len = *ctx.pick(&[1usize, per as usize, per as usize + 1, 100000]);
            let (dev, mut file) = open_shape(ctx, &f)?;
            dev.log_start();
            let r: Vec<(String, usize)> = req.iter().map(|c| (ch(c), len)).collect();
            check_multi::<f64, Dev>(&mut file, &f.model, &r, start)?;
            let log = dev.log_take();
            // which blocks hold a wanted sample
            let mut pos: std::collections::BTreeMap<&str, u64> = Default::default();
            let mut needed = vec![];
            for (i, c) in holds.iter().enumerate() {
                let mut want = false;
                for (name, _, _) in c {
                    if req.contains(name) {
                        let p = pos.entry(name).or_insert(0);
                        want |= *p < start + len as u64 && *p + per > start;
                        *p += per;
                    }
                }
                if want {
                    needed.push(i);
                }
            }
            let inside = |off: u64| f.segs.iter().position(|s| off >= s.1 as u64 && off < s.2 as u64);
            // a refill of an 8 KiB buffer may run over the end of a block, but it starts where the data is wanted
            let mut visited: Vec<usize> = vec![];
            for (off, _) in reads(&log) {
                let Some(b) = inside(off) else {
                    // a buffer refill that starts exactly at the end of a needed block is allowed to be elsewhere only if tiny files are buffered
                    bail!("waste", "read at byte {off}, which is not raw data, for {r:?} from {start}");
                };
                ensure!(needed.contains(&b), "waste", "read at byte {off} in block {b}, but only blocks {needed:?} hold wanted samples ({r:?} from {start})");
                if visited.last() != Some(&b) {
                    ensure!(!visited.contains(&b), "twice", "block {b} is visited twice ({r:?} from {start})");
                    visited.push(b);
                }
            }
            // nothing wanted: no reads at all
            ensure!(!needed.is_empty() || reads(&log).is_empty(), "waste", "reads although nothing is wanted");
            Ok(())
        }),
        scenario("skipping", "blocks of 2..400 chunks of 64 B..32 KiB: the number of stream operations and bytes for a short read must not grow with the number of chunks skipped before it or left behind it", move |ctx| {
            let (be, inter) = (ctx.flag(), ctx.flag());
            let n = *ctx.pick(&[4u64, 64, 1024]);
            let order = ctx.flag();
            let multi = ctx.flag();
            let len = *ctx.pick(&[1usize, 3, 70]);
            let off = *ctx.pick(&[0u64, 1, 3]);
            let place = ctx.choose(3); // read near the start, the middle, the end
            let mut costs = vec![];
            for chunks in [3usize, 12, if t { 300 } else { 60 }] {
                let mut f = Foreign::new();
                let c = if order { vec![("b", Ty::F64, n), ("a", Ty::F64, n)] } else { vec![("a", Ty::F64, n), ("b", Ty::F64, n)] };
                push(ctx, &mut f, &full(be, inter, chunks, &c));
                let at = match place {
                    0 => off,
                    1 => (chunks as u64 / 2) * n + off,
                    _ => (chunks as u64 - 1) * n + off,
                };
                let (dev, mut file) = open_shape(ctx, &f)?;
                dev.log_start();
                let mut r = vec![(ch("a"), len)];
                if multi {
                    r.push((ch("b"), 1));
                }
                check_multi::<f64, Dev>(&mut file, &f.model, &r, at)?;
                let log = dev.log_take();
                let bytes: u64 = reads(&log).iter().map(|(a, b)| b - a).sum();
                costs.push((chunks, log.len(), bytes));
            }
            ctx.note(|| format!("{costs:?}"));
            // the first file is small: what a read may cost at most, given samples and buffers
            let values = len as u64 + multi as u64;
            let limit_ops = 12 + 4 * values;
            let limit_bytes = (values * 2 + 4) * BUF;
            for (c, ops, bytes) in &costs {
                ensure!(*ops as u64 <= limit_ops, "growth", "a read of {values} values takes {ops} stream operations in a block of {c} chunks: {costs:?}");
                ensure!(*bytes <= limit_bytes, "growth", "a read of {values} values fetches {bytes} bytes in a block of {c} chunks: {costs:?}");
            }
            let (small, large) = (costs[1], costs[2]);
            ensure!(large.1 <= small.1 + 4, "growth", "stream operations grow with the data skipped or left: {costs:?}");
            Ok(())
        }),
        scenario("many_blocks", "2..200 blocks: reading one sample from the first, the middle or the last takes the same operations", move |ctx| {
            let (be, inter) = (ctx.flag(), ctx.flag());
            let place = ctx.choose(3);
            let multi = ctx.flag();
            let mut costs = vec![];
            for blocks in [4usize, 40, if t { 400 } else { 100 }] {
                let mut f = Foreign::new();
                for _ in 0..blocks {
                    push(ctx, &mut f, &full(be, inter, 1, &[("a", Ty::F64, 3), ("b", Ty::F64, 3)]));
                }
                let at = [0, (blocks as u64 / 2) * 3, (blocks as u64 - 1) * 3][place] + 1;
                let (dev, mut file) = open_shape(ctx, &f)?;
                dev.log_start();
                let mut r = vec![(ch("a"), 1)];
                if multi {
                    r.insert(0, (ch("b"), 2));
                }
                check_multi::<f64, Dev>(&mut file, &f.model, &r, at)?;
                costs.push(dev.log_take().len());
            }
            ensure!(costs[2] <= costs[0] + 2, "growth", "stream operations grow with the number of blocks: {costs:?}");
            Ok(())
        }),
    ]
}
