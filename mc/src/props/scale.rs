//! The same properties where something is repeated: counts around the powers of two, up to 1025
//! (thorough 4097, single lists 65537) of blocks, chunks, channels, properties, calls and sessions.
use super::writing::final_checks as check_final;
use crate::check::*;
use crate::dev::*;
use crate::explore::*;
use crate::generate::*;
use crate::hist::*;
use crate::spec::*;
use crate::types::*;
use crate::{bail, ensure, exec_cmd, session, with_ty};
use tedium::{ChannelPath, DataLayout, TdmsError, TdmsFile};

const COUNTS: [usize; 42] = [
    1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 20, 24, 31, 32, 33, 48, 63, 64, 65, 99, 100, 101, 127, 128, 129, 200, 255, 256, 257, 511, 512, 513, 1024, 1025,
];
pub fn counts(max: usize) -> Vec<usize> {
    let more = [2047, 2048, 2049, 4095, 4096, 4097, 10000, 32767, 32768, 65535, 65536, 65537];
    COUNTS.iter().chain(&more).copied().filter(|n| *n <= max).collect()
}
fn pick_count(ctx: &mut Ctx, max: usize) -> usize {
    *ctx.pick(&counts(max))
}
fn said(max: usize) -> String {
    let c = counts(max);
    format!("{} counts from 1 to {} (every one to 18, then around powers of two)", c.len(), c[c.len() - 1])
}
fn names(n: usize) -> Vec<String> {
    (0..n).map(|i| format!("c{i}")).collect()
}
fn wdata(names: &[String], ty: Ty, n: usize, inter: bool) -> WOp {
    WOp::Data { chans: names.iter().map(|c| ("g".to_string(), c.clone())).collect(), ty, n, inter }
}
fn wprops(path: P, props: Vec<(String, Pv)>) -> WOp {
    WOp::Props { path, props }
}
fn c_of(name: &str) -> P {
    P::Chan("g".into(), name.into())
}

/// How the N writes of a history follow each other.
const PATTERNS: [&str; 10] = ["same", "lengths", "alternating lists", "growing list", "types", "properties between", "layouts", "sessions", "reopened", "odd one last"];
fn history(n: usize, pattern: usize, inter: bool) -> Vec<WOp> {
    let mut ops = vec![];
    for i in 0..n {
        match PATTERNS[pattern] {
            "same" => ops.push(data(&["a", "b"], Ty::I16, 2, inter)),
            "lengths" => ops.push(data(&["a", "b"], Ty::I16, 1 + i % 3, inter)),
            "alternating lists" => ops.push(if i % 2 == 0 { data(&["a", "b"], Ty::I16, 1, inter) } else { data(&["b"], Ty::I16, 1, inter) }),
            "growing list" => ops.push(wdata(&names(1 + i % 40), Ty::U8, 1, inter)),
            "types" => ops.push(data(&["a", "b"], if i % 3 == 2 { Ty::F64 } else { Ty::I16 }, 1, inter)),
            "properties between" => {
                ops.push(data(&["a", "b"], Ty::I16, 1, inter));
                ops.push(wprops([c_of("a"), P::File, c_of("z")][i % 3].clone(), vec![(format!("p{}", i % 5), Pv::i(i as i32))]));
            }
            "layouts" => ops.push(data(&["a", "b"], Ty::I16, 2, (i % 2 == 0) ^ inter)),
            "sessions" | "reopened" => {
                if i > 0 {
                    ops.push(if PATTERNS[pattern] == "sessions" { WOp::Session } else { WOp::Reopen });
                }
                ops.push(data(&["a", "b"], Ty::I16, 1, inter));
            }
            _ => ops.push(if i + 1 == n { data(&["b", "a"], Ty::F64, 2, inter) } else { data(&["a", "b"], Ty::I16, 1, inter) }),
        }
    }
    ops
}
/// N writes. Views at breaks are compared for the small counts only.
pub fn many_writes(view: View, strict: bool, max: usize) -> Scenario {
    scenario("many_writes", &format!("{} of writes following 10 patterns ({PATTERNS:?}), both layouts", said(max)), move |ctx| {
        let n = pick_count(ctx, max);
        let pattern = ctx.choose(PATTERNS.len());
        let inter = ctx.flag();
        let ops = history(n, pattern, inter);
        let breaks = ops.iter().any(|o| matches!(o, WOp::Session | WOp::Reopen));
        if breaks && n > 257 {
            return Ok(());
        }
        let dev = Dev::new(vec![]);
        let m = run(ctx, &dev, &ops, if breaks && n > 65 { no_view } else { view })?;
        check_final(&dev, &m, strict, view)
    })
}
/// N channels in one write and in the next ones.
pub fn many_channels(view: View, strict: bool, max: usize) -> Scenario {
    scenario("many_channels", &format!("writes to {} of channels, followed by one to all, all but the last, all but the first, one more, the reverse, every other, only the last; both layouts, 3 types, same or new session", said(max)), move |ctx| {
        let n = pick_count(ctx, max);
        let all = names(n + 1);
        let ty = *ctx.pick(&[Ty::U8, Ty::F64, Ty::Time]);
        let inter = ctx.flag();
        let next: Vec<String> = match ctx.choose(7) {
            0 => all[..n].to_vec(),
            1 => all[..(n - 1).max(1)].to_vec(),
            2 => all[(n > 1) as usize..n].to_vec(),
            3 => all.clone(),
            4 => all[..n].iter().rev().cloned().collect(),
            5 => all[..n].iter().step_by(2).cloned().collect(),
            _ => all[n - 1..n].to_vec(),
        };
        let mut ops = vec![wdata(&all[..n], ty, 2, inter)];
        match ctx.choose(3) {
            1 => ops.push(WOp::Session),
            2 => ops.push(WOp::Reopen),
            _ => {}
        }
        ops.push(wdata(&next, ty, 2, inter));
        ops.push(wdata(&all[..n], ty, 1, !inter));
        let dev = Dev::new(vec![]);
        let m = run(ctx, &dev, &ops, view)?;
        check_final(&dev, &m, strict, view)
    })
}
/// Block lengths in one channel.
pub fn block_lengths(view: View, strict: bool, max: usize) -> Scenario {
    scenario("block_lengths", &format!("blocks of {} of values in 1..3 channels of 5 types, both layouts, twice and followed by one value", said(max)), move |ctx| {
        let n = pick_count(ctx, max);
        let c = ctx.range(1, 3);
        let ty = *ctx.pick(&[Ty::Bool, Ty::I16, Ty::F32, Ty::Ext, Ty::C64]);
        let inter = ctx.flag();
        let ops = vec![wdata(&names(c), ty, n, inter), wdata(&names(c), ty, n, inter), wdata(&names(1), ty, 1, false)];
        let dev = Dev::new(vec![]);
        let m = run(ctx, &dev, &ops, view)?;
        check_final(&dev, &m, strict, view)
    })
}
/// N properties on one object, N updates, N objects.
pub fn many_properties(view: View, strict: bool, max: usize) -> Scenario {
    scenario("many_properties", &format!("{} of properties: in one call, in one call each, all to one name in one call, to one name one call each, one on each of as many channels or groups; on file, group or channel; then again after a break", said(max)), move |ctx| {
        let n = pick_count(ctx, max);
        let target = ctx.pick(&[P::File, P::Group("g".into()), c_of("a")]).clone();
        let how = ctx.choose(6);
        let data_too = ctx.flag();
        let v = |i: usize| if i % 3 == 0 { Pv::s(&format!("v{i}")) } else { Pv::i(i as i32) };
        let mut ops = vec![];
        if data_too {
            ops.push(data(&["a"], Ty::I16, 2, false));
        }
        match how {
            0 => ops.push(wprops(target.clone(), (0..n).map(|i| (format!("p{i}"), v(i))).collect())),
            1 => ops.extend((0..n).map(|i| wprops(target.clone(), vec![(format!("p{i}"), v(i))]))),
            2 => ops.push(wprops(target.clone(), (0..n).map(|i| ("p".into(), v(i))).collect())),
            3 => ops.extend((0..n).map(|i| wprops(target.clone(), vec![("p".into(), v(i))]))),
            4 => ops.extend((0..n).map(|i| wprops(P::Chan("g".into(), format!("n{i}")), vec![("p".into(), v(i))]))),
            _ => ops.extend((0..n).map(|i| wprops(P::Group(format!("n{i}")), vec![("p".into(), v(i))]))),
        }
        if data_too {
            ops.push(data(&["a"], Ty::I16, 2, false));
        }
        ops.push(WOp::Reopen);
        ops.push(wprops(target, vec![("p".into(), Pv::i(-1)), ("p0".into(), Pv::i(-2)), (format!("p{}", n - 1), Pv::i(-3))]));
        let dev = Dev::new(vec![]);
        let m = run(ctx, &dev, &ops, view)?;
        check_final(&dev, &m, strict, view)
    })
}
/// Lengths of names and texts.
pub fn text_lengths(view: View, strict: bool, t: bool) -> Scenario {
    let mut lens: Vec<usize> = counts(1025);
    lens.extend([4095, 4096, 4097, 65535, 65536, 65537]);
    if !t {
        lens.retain(|n| *n <= 20 || *n >= 63);
    }
    lens.extend(8150..=8200);
    scenario("text_lengths", &format!("{} lengths up to 65537 (all from 8150 to 8200) of a text value, a property name, a channel or a group name, in ASCII or two-byte letters, with data before and after", lens.len()), move |ctx| {
        let n = *ctx.pick(&lens);
        let s = if ctx.flag() { "é".repeat(n.div_ceil(2)) } else { "x".repeat(n) };
        let which = ctx.choose(4);
        let mut ops = vec![data(&["a"], Ty::I16, 3, false)];
        match which {
            0 => ops.push(wprops(c_of("a"), vec![("t".into(), Pv::s(&s)), ("u".into(), Pv::i(3))])),
            1 => ops.push(wprops(P::File, vec![(s, Pv::i(3)), ("u".into(), Pv::s("v"))])),
            2 => ops.push(WOp::Data { chans: vec![("g".into(), s), ("g".into(), "a".into())], ty: Ty::I16, n: 2, inter: false }),
            _ => ops.push(WOp::Data { chans: vec![("g".into(), "a".into()), (s, "b".into())], ty: Ty::I16, n: 2, inter: true }),
        }
        if ctx.flag() {
            ops.push(WOp::Reopen);
        }
        ops.push(data(&["a"], Ty::I16, 1, false));
        let dev = Dev::new(vec![]);
        let m = run(ctx, &dev, &ops, view)?;
        check_final(&dev, &m, strict, view)
    })
}
pub fn both(view: View, strict: bool, t: bool) -> Vec<Scenario> {
    let n = if t { 2049 } else { 513 };
    vec![many_writes(view, strict, n), many_channels(view, strict, if t { 1025 } else { 257 }), block_lengths(view, strict, if t { 65537 } else { 4097 })]
}

const WIDE: [usize; 6] = [32767, 32768, 65535, 65536, 65537, 70000];
/// Counts beyond 16 bits in what the library writes.
pub fn wide(view: View, strict: bool, props: bool) -> Scenario {
    scenario("wide", &format!("{WIDE:?} values in one write of 1..2 channels, equal writes, or properties or updates of one; then a write after reopening"), move |ctx| {
        let n = *ctx.pick(&WIDE);
        let mut ops = vec![];
        match if props { 3 + ctx.choose(2) } else { ctx.choose(3) } {
            0 => ops.push(data(&["a"], *ctx.pick(&[Ty::U8, Ty::F64]), n, false)),
            1 => ops.push(data(&["a", "b"], Ty::I16, n, ctx.flag())),
            2 => ops.extend((0..n).map(|_| data(&["a"], Ty::U8, 1, false))),
            3 => ops.push(wprops(P::File, (0..n).map(|i| (format!("p{i}"), Pv::i(i as i32))).collect())),
            _ => ops.push(wprops(c_of("a"), (0..n).map(|i| ("p".into(), Pv::i(i as i32))).collect())),
        }
        ops.push(WOp::Reopen);
        ops.push(data(&["a"], Ty::I16, 2, false));
        let dev = Dev::new(vec![]);
        let m = run(ctx, &dev, &ops, no_view)?;
        let mut live = must_open(&dev, "written file")?;
        view(&mut live, &m, "wide")?;
        check_final(&dev, &m, strict, view)
    })
}
/// Counts beyond 16 bits in files of other software.
fn wide_foreign() -> Scenario {
    scenario("wide", &format!("{WIDE:?} segments, chunks of 1..3 channels, values, properties of one object, or objects without data around a channel; both layouts and byte orders"), move |ctx| {
        let n = *ctx.pick(&WIDE);
        let (be, inter) = (ctx.flag(), ctx.flag());
        let kind = ctx.choose(8);
        let f = match kind {
            0..=4 => one_large(kind, n, be, inter, Ty::I16),
            5 => many_segments(n, if be { 0 } else { 1 }, inter, Ty::U8),
            _ => {
                let mut f = Foreign::new();
                let mut objs = vec![so(&ch("a"), Idx::Full(Ty::I16, 2))];
                for i in 0..n {
                    if kind == 6 {
                        objs[0].props.push((format!("p{i}"), Pv::i(i as i32)));
                    } else {
                        objs.push(so(&gpath(&format!("g{i}")), Idx::None));
                    }
                }
                objs.push(so(&ch("z"), Idx::Full(Ty::F32, 2)));
                put(&mut f, &Seg { be, new_list: true, meta: Some(objs), interleaved: inter, chunks: 2 });
                put(&mut f, &full(!be, inter, 1, &[("z", Ty::F32, 1)]));
                f
            }
        };
        let (_, mut file) = opened(ctx, &f)?;
        if kind == 7 {
            let groups = file.list_groups().count();
            ensure!(groups == n + 1, "listing", "{groups} groups are listed, expected {}", n + 1);
            return data_view(&mut file, &f.model, "foreign file");
        }
        check_view(&mut file, &f.model, "foreign file")
    })
}

const ROWS: [usize; 6] = [1025, 2049, 4095, 4096, 4097, 5000];
/// A few of many channels, and a few of them together.
fn few_of_many(file: &mut TdmsFile<Dev>, m: &Model, _what: &str) -> R {
    let p = |i: usize| ch(&format!("c{i}"));
    let n = (0..).take_while(|i| m.objs.contains_key(&p(*i))).count();
    if n == 0 {
        return Ok(());
    }
    let (ty, per) = (m.objs[&p(0)].samples[0].0, m.objs[&p(0)].samples.len());
    with_ty!(ty, T => {
        for i in [0, 1, 255, 256, 1024, n / 2, n - 2, n - 1] {
            ensure!(file.channel_length(&chan(&p(i))?) == Some(m.objs[&p(i)].samples.len() as u64), "length", "{} has a length of {:?}", p(i), file.channel_length(&chan(&p(i))?));
            check_read::<T, _>(file, &p(i), &m.objs[&p(i)].samples, 0, per + 3)?;
            check_read::<T, _>(file, &p(i), &m.objs[&p(i)].samples, 1, per)?;
        }
        for start in [0, 1, per as u64] {
            check_multi::<T, _>(file, m, &[(p(n - 1), per + 1), (p(0), 1), (p(n / 2), per)], start)?;
        }
    });
    Ok(())
}
/// Rows and blocks of very many channels.
pub fn wide_rows() -> Vec<Scenario> {
    vec![
        scenario("wide_rows", &format!("{ROWS:?} channels in one foreign block (rows below and above 65536 bytes), 3 types, both layouts and byte orders, 1..3 chunks; 8 of them read alone and 3 together"), |ctx| {
            let n = *ctx.pick(&ROWS);
            let ty = *ctx.pick(&[Ty::U8, Ty::F64, Ty::Time]);
            let (be, inter, chunks) = (ctx.flag(), ctx.flag(), ctx.range(1, 3));
            let mut f = Foreign::new();
            let list: Vec<String> = names(n);
            let chans: Vec<(&str, Ty, u64)> = list.iter().map(|c| (c.as_str(), ty, 2)).collect();
            put(&mut f, &full(be, inter, chunks, &chans));
            let (_, mut file) = opened(ctx, &f)?;
            few_of_many(&mut file, &f.model, "foreign file")
        }),
    ]
}
/// More channels in one write than 16 bits count.
pub fn huge_list() -> Scenario {
    scenario("huge_list", "one write of one value to each of 65537 channels, strictly decoded", |ctx| {
        let dev = Dev::new(vec![]);
        let m = run(ctx, &dev, &[wdata(&names(65537), Ty::U8, 1, true)], no_view)?;
        let d = decode(&dev.bytes()).or_else(|e| fail("format", format!("not a valid file: {e}")))?;
        decoded_matches(&d, &m).or_else(|e| fail("format", e))
    })
}
pub fn wide_written() -> Scenario {
    scenario("wide_rows", &format!("one write of {ROWS:?} channels, 3 types, both layouts, 1..2 values each, live and reopened; 8 of them read alone and 3 together"), |ctx| {
        let n = *ctx.pick(&ROWS);
        let ty = *ctx.pick(&[Ty::U8, Ty::F64, Ty::Time]);
        let (inter, per) = (ctx.flag(), ctx.range(1, 2));
        let dev = Dev::new(vec![]);
        let ops = [wdata(&names(n), ty, per, inter)];
        let m = run(ctx, &dev, &ops, few_of_many)?;
        let mut file = must_open(&dev, "written file")?;
        few_of_many(&mut file, &m, "reopened file")
    })
}

// ---------------------------------------------------------------- files of other software

fn put(f: &mut Foreign, s: &Seg) {
    assert!(f.push(s), "harness: invalid segment {}", show_seg(s));
}
const SHAPES: [&str; 8] = ["no metadata", "repeated index", "new list", "alternating order", "chunks vary", "lists vary", "late channel", "without data"];
/// A file of n segments.
fn many_segments(n: usize, shape: usize, inter: bool, ty: Ty) -> Foreign {
    let mut f = Foreign::new();
    for i in 0..n {
        let first = full(shape == 3 && i % 2 == 1, inter, 1, &[("a", ty, 2), ("b", ty, 2)]);
        let seg = match SHAPES[shape] {
            _ if i == 0 => first,
            "no metadata" => Seg { be: i % 3 == 1, new_list: false, meta: None, interleaved: inter, chunks: 1 },
            "repeated index" => Seg { be: false, new_list: i % 2 == 0, meta: Some(vec![so(&ch("a"), Idx::Same), so(&ch("b"), Idx::Same)]), interleaved: inter, chunks: 1 },
            "new list" | "alternating order" => first,
            "chunks vary" => Seg { be: false, new_list: false, meta: None, interleaved: inter, chunks: 1 + i % 3 },
            "lists vary" => match i % 3 {
                0 => full(false, inter, 1, &[("b", ty, 1), ("a", ty, 1)]),
                1 => full(false, inter, 2, &[("a", ty, 1)]),
                _ => full(false, inter, 1, &[("c", ty, 3)]),
            },
            "late channel" if i + 1 == n => full(false, inter, 1, &[("z", ty, 2), ("a", ty, 2)]),
            "late channel" => first,
            _ if i % 2 == 1 => Seg { be: false, new_list: false, meta: Some(vec![SObj { path: ch("a"), idx: Idx::None, props: vec![("x".into(), Pv::i(i as i32))] }]), interleaved: inter, chunks: 0 },
            _ => first,
        };
        put(&mut f, &seg);
    }
    f
}
/// A file of one segment of many chunks or many channels.
fn one_large(kind: usize, n: usize, be: bool, inter: bool, ty: Ty) -> Foreign {
    let mut f = Foreign::new();
    match kind {
        0 => put(&mut f, &full(be, inter, n, &[("a", ty, 1)])),
        1 => put(&mut f, &full(be, inter, n, &[("b", Ty::I16, 2), ("a", ty, 2)])),
        2 => put(&mut f, &full(be, inter, n, &[("a", ty, 3), ("b", Ty::U8, 3), ("c", ty, 3)])),
        3 => put(&mut f, &full(be, inter, 2, &[("a", ty, n as u64)])),
        _ => put(&mut f, &full(be, inter, 2, &[("b", ty, n as u64), ("a", ty, n as u64)])),
    }
    put(&mut f, &full(!be, !inter, 1, &[("a", ty, 2)]));
    f
}
pub fn opened(ctx: &mut Ctx, f: &Foreign) -> R<(Dev, TdmsFile<Dev>)> {
    ctx.state(&f.bytes);
    ctx.step();
    let dev = Dev::new(f.bytes.clone());
    let file = must_open(&dev, "well-formed file")?;
    Ok((dev, file))
}
pub fn c03(t: bool) -> Vec<Scenario> {
    let (ns, nc, no) = if t { (4097, 65537, 1025) } else { (513, 4097, 257) };
    let mut v = wide_rows();
    v.extend(vec![
        wide_foreign(),
        scenario("many_segments", &format!("{} of segments in 8 shapes ({SHAPES:?}), 3 types, both layouts", said(ns)), move |ctx| {
            let n = pick_count(ctx, ns);
            let (shape, inter) = (ctx.choose(SHAPES.len()), ctx.flag());
            let f = many_segments(n, shape, inter, *ctx.pick(&[Ty::U8, Ty::F64, Ty::Time]));
            let (_, mut file) = opened(ctx, &f)?;
            check_view(&mut file, &f.model, "foreign file")
        }),
        scenario("many_chunks", &format!("{} of chunks of 1..3 channels, or of values per chunk, 3 types, both layouts and byte orders", said(nc)), move |ctx| {
            let n = pick_count(ctx, nc);
            let kind = ctx.choose(5);
            let (be, inter) = (ctx.flag(), ctx.flag());
            let f = one_large(kind, n, be, inter, *ctx.pick(&[Ty::U8, Ty::F64, Ty::Ext]));
            let (_, mut file) = opened(ctx, &f)?;
            check_view(&mut file, &f.model, "foreign file")
        }),
        scenario("many_objects", &format!("{} of channels, of objects without data before, between or behind channels, of groups, of properties on one object; then all of them repeated without or with new indexes", said(no)), move |ctx| {
            let n = pick_count(ctx, no);
            let (be, inter) = (ctx.flag(), ctx.flag());
            let kind = ctx.choose(6);
            let mut objs: Vec<SObj> = vec![];
            let idx = Idx::Full(Ty::I16, 2);
            for i in 0..n {
                match kind {
                    0 => objs.push(so(&ch(&format!("c{i}")), idx.clone())),
                    1 => objs.push(so(&ch(&format!("c{i}")), if i + 1 == n { idx.clone() } else { Idx::None })),
                    2 => objs.push(so(&ch(&format!("c{i}")), if i == 0 { idx.clone() } else { Idx::None })),
                    3 => objs.push(so(&ch(&format!("c{i}")), if i % 2 == 0 { idx.clone() } else { Idx::None })),
                    4 => {
                        objs.push(so(&gpath(&format!("g{i}")), Idx::None));
                        objs.push(so(&cpath(&format!("g{i}"), "c"), idx.clone()));
                    }
                    _ => {
                        if i == 0 {
                            objs.push(so(&ch("a"), idx.clone()));
                        }
                        objs[0].props.push((format!("p{i}"), if i % 2 == 0 { Pv::i(i as i32) } else { Pv::s(&format!("v{i}")) }));
                    }
                }
            }
            let mut f = Foreign::new();
            put(&mut f, &Seg { be, new_list: true, meta: Some(objs.clone()), interleaved: inter, chunks: 2 });
            match ctx.choose(4) {
                0 => put(&mut f, &Seg { be: !be, new_list: false, meta: None, interleaved: inter, chunks: 1 }),
                1 => {
                    for o in &mut objs {
                        o.props.clear();
                        if o.idx != Idx::None {
                            o.idx = Idx::Same;
                        }
                    }
                    objs.reverse();
                    put(&mut f, &Seg { be: !be, new_list: true, meta: Some(objs), interleaved: inter, chunks: 1 });
                }
                2 => {
                    for o in &mut objs {
                        if o.idx != Idx::None {
                            o.idx = Idx::Full(Ty::F64, 1);
                        }
                    }
                    put(&mut f, &Seg { be, new_list: false, meta: Some(objs), interleaved: inter, chunks: 2 });
                }
                _ => {}
            }
            let (_, mut file) = opened(ctx, &f)?;
            check_view(&mut file, &f.model, "foreign file")
        }),
    ]);
    v
}
/// Interesting positions in `total` samples: around powers of two and the ends.
fn points(total: usize) -> Vec<usize> {
    let mut v: Vec<usize> = vec![0, 1, 2, 3, total / 2, total.saturating_sub(2), total.saturating_sub(1), total, total + 1];
    let mut p = 4;
    while p <= total {
        v.extend([p - 1, p, p + 1]);
        p *= 2;
    }
    v.sort();
    v.dedup();
    v
}
pub fn c04(t: bool) -> Vec<Scenario> {
    let (ns, nc) = if t { (1025, 65537) } else { (129, 1025) };
    let reads = |ctx: &mut Ctx, f: &Foreign, ty: Ty| -> R {
        let all = f.model.objs[&ch("a")].samples.clone();
        let (_, mut file) = opened(ctx, f)?;
        let small = all.len() <= 64;
        let starts: Vec<usize> = if small { (0..=all.len() + 1).collect() } else { points(all.len()) };
        for s in &starts {
            let left = all.len().saturating_sub(*s);
            let mut lens = vec![0, 1, 2, left / 2, left.saturating_sub(1), left, left + 1];
            lens.dedup();
            for len in lens {
                ctx.step();
                with_ty!(ty, T => check_read::<T, Dev>(&mut file, &ch("a"), &all, *s as u64, len)?);
            }
        }
        Ok(())
    };
    vec![
        scenario("many_segments", &format!("{} of segments in 8 shapes, both layouts, 2 types: starts around every power of two (all in short channels), 7 lengths each", said(ns)), move |ctx| {
            let n = pick_count(ctx, ns);
            let (shape, inter) = (ctx.choose(SHAPES.len()), ctx.flag());
            let ty = *ctx.pick(&[Ty::F64, Ty::U8]);
            reads(ctx, &many_segments(n, shape, inter, ty), ty)
        }),
        scenario("many_chunks", &format!("{} of chunks of 1..3 channels, or of values per chunk, both layouts and byte orders, 3 types: the same starts and lengths", said(nc)), move |ctx| {
            let n = pick_count(ctx, nc);
            let kind = ctx.choose(5);
            let (be, inter) = (ctx.flag(), ctx.flag());
            let ty = *ctx.pick(&[Ty::F64, Ty::U8, Ty::Ext]);
            reads(ctx, &one_large(kind, n, be, inter, ty), ty)
        }),
        scenario("behind_empty", &format!("{} of segments without the channel, without data or with 0 of its values before, between and behind its blocks", said(if t { 4097 } else { 257 })), move |ctx| {
            let n = pick_count(ctx, if t { 4097 } else { 257 });
            let (kind, at) = (ctx.choose(3), ctx.choose(3));
            let mut f = Foreign::new();
            let block = full(false, false, 2, &[("a", Ty::F64, 2), ("b", Ty::I16, 1)]);
            let empty = match kind {
                0 => full(false, false, 1, &[("b", Ty::I16, 1)]),
                1 => full(false, false, 2, &[("a", Ty::F64, 0), ("b", Ty::I16, 1)]),
                _ => Seg { be: true, new_list: false, meta: Some(vec![so(&ch("b"), Idx::None)]), interleaved: false, chunks: 0 },
            };
            if at != 0 {
                put(&mut f, &block);
            }
            for _ in 0..n {
                put(&mut f, &empty);
            }
            if at != 2 {
                put(&mut f, &block);
            }
            reads(ctx, &f, Ty::F64)
        }),
    ]
}
pub fn c05(t: bool) -> Vec<Scenario> {
    let (nr, ns) = if t { (1025, 513) } else { (129, 129) };
    vec![
        scenario("many_channels", &format!("requests for {} of channels out of as many or more, forward, reversed, rotated, every other, one of them as often; both layouts; buffers all alike, growing, falling or only the last; 4 starts; equal or different blocks", said(nr)), move |ctx| {
            let n = pick_count(ctx, nr);
            let (be, inter) = (ctx.flag(), ctx.flag());
            let extra = ctx.choose(2) * 3;
            let nm = names(n + extra);
            let uneven = !inter && ctx.flag();
            let mut f = Foreign::new();
            put(&mut f, &full(be, inter, 2, &nm.iter().enumerate().map(|(i, s)| (s.as_str(), Ty::F64, if uneven { 1 + i as u64 % 3 } else { 2 })).collect::<Vec<_>>()));
            put(&mut f, &full(!be, !inter, 1, &nm.iter().rev().map(|s| (s.as_str(), Ty::F64, 3)).collect::<Vec<_>>()));
            let mut req: Vec<&String> = nm[extra / 2..extra / 2 + n].iter().collect();
            match ctx.choose(5) {
                0 => {}
                1 => req.reverse(),
                2 => req.rotate_left(n / 2),
                3 => req = req.into_iter().step_by(2).collect(),
                _ => {
                    let c = req[n / 2];
                    req = vec![c; n];
                }
            }
            let lens = ctx.choose(4);
            let (_, mut file) = opened(ctx, &f)?;
            for start in [0, 1, 4, 6] {
                let r: Vec<(String, usize)> = req.iter().enumerate().map(|(i, c)| (ch(c), match lens {
                    0 => 9,
                    1 => i % 9,
                    2 => (req.len() - i) % 7,
                    _ => if i + 1 == req.len() { 5 } else { 0 },
                })).collect();
                ctx.step();
                check_multi::<f64, Dev>(&mut file, &f.model, &r, start)?;
            }
            Ok(())
        }),
        scenario("many_segments", &format!("{} of segments in 8 shapes, both layouts: two channels in either order, or one twice, starts around powers of two, 5 pairs of lengths", said(ns)), move |ctx| {
            let n = pick_count(ctx, ns);
            let (shape, inter) = (ctx.choose(SHAPES.len()), ctx.flag());
            let f = many_segments(n, shape, inter, Ty::F64);
            if n == 1 && SHAPES[shape] == "late channel" {
                return Ok(());
            }
            multi_points(ctx, &f)
        }),
        scenario("many_chunks", &format!("{} of chunks of 2..3 channels, or of values per chunk, both layouts and byte orders: the same requests", said(if t { 4097 } else { 513 })), move |ctx| {
            let n = pick_count(ctx, if t { 4097 } else { 513 });
            let kind = [2, 4][ctx.choose(2)];
            let (be, inter) = (ctx.flag(), ctx.flag());
            let mut f = one_large(kind, n, be, inter, Ty::F64);
            if kind == 2 {
                // channel b must be of the same type
                f = Foreign::new();
                put(&mut f, &full(be, inter, n, &[("a", Ty::F64, 2), ("c", Ty::U8, 2), ("b", Ty::F64, 2)]));
            }
            multi_points(ctx, &f)
        }),
    ]
}
fn multi_points(ctx: &mut Ctx, f: &Foreign) -> R {
    let reqs: [&[&str]; 3] = [&["a", "b"], &["b", "a"], &["a", "b", "a"]];
    let req = *ctx.pick(&reqs);
    let (la, lb) = (f.model.objs[&ch("a")].samples.len(), f.model.objs.get(&ch("b")).map_or(0, |o| o.samples.len()));
    let (_, mut file) = opened(ctx, f)?;
    for s in points(la.max(lb)) {
        let left = la.max(lb).saturating_sub(s);
        for (x, y) in [(left + 1, left + 1), (1, left), (left, 1), (left / 2, left / 3), (0, 2)] {
            let r: Vec<(String, usize)> = req.iter().enumerate().map(|(i, c)| (ch(c), if i % 2 == 0 { x } else { y })).collect();
            ctx.step();
            check_multi::<f64, Dev>(&mut file, &f.model, &r, s as u64)?;
        }
    }
    Ok(())
}
pub fn c06(t: bool) -> Vec<Scenario> {
    let max = if t { 1025 } else { 257 };
    vec![scenario("change_late", &format!("a channel of {} of blocks (or channels of a request) of which one, first, middle or last, is of another type: reads before it succeed, reads that touch it fail, and none gives anything else", said(max)), move |ctx| {
        let n = pick_count(ctx, max);
        let at = [0, n / 2, n - 1][ctx.choose(3)];
        let inter = ctx.flag();
        let (t1, t2) = *ctx.pick(&[(Ty::F64, Ty::I64), (Ty::I32, Ty::F32U), (Ty::U16, Ty::I16), (Ty::Time, Ty::C64)]);
        let in_request = ctx.flag();
        let mut f = Foreign::new();
        if in_request {
            let nm = names(n);
            put(&mut f, &full(false, inter, 2, &nm.iter().enumerate().map(|(i, s)| (s.as_str(), if i == at { t2 } else { t1 }, 2)).collect::<Vec<_>>()));
            let (_, mut file) = opened(ctx, &f)?;
            for keep in [n, at.max(1), (at + 1).min(n), 1] {
                let r: Vec<(String, usize)> = nm[..keep].iter().map(|c| (ch(c), 3)).collect();
                for start in [0, 1, 4] {
                    ctx.step();
                    with_ty!(t1.natural(), T => check_multi::<T, Dev>(&mut file, &f.model, &r, start)?);
                    with_ty!(t2.natural(), T => check_multi::<T, Dev>(&mut file, &f.model, &r, start)?);
                }
            }
            return check_view(&mut file, &f.model, "after mismatched reads");
        }
        for i in 0..n {
            put(&mut f, &full(i % 2 == 1, inter, 1, &[("a", if i == at { t2 } else { t1 }, 2), ("b", Ty::U8, 2)]));
        }
        let all = f.model.objs[&ch("a")].samples.clone();
        let (_, mut file) = opened(ctx, &f)?;
        for start in [0, 2 * at as u64, (2 * at as u64).saturating_sub(1), 2 * at as u64 + 1, 2 * at as u64 + 2] {
            for len in [1, 2, 3, 2 * n, (2 * at).saturating_sub(start as usize)] {
                ctx.step();
                with_ty!(t1.natural(), T => check_read::<T, Dev>(&mut file, &ch("a"), &all, start, len)?);
                with_ty!(t2.natural(), T => check_read::<T, Dev>(&mut file, &ch("a"), &all, start, len)?);
            }
        }
        check_view(&mut file, &f.model, "after mismatched reads")
    })]
}

// ---------------------------------------------------------------- the other properties

pub fn c08(view: View, t: bool) -> Vec<Scenario> {
    let max = if t { 1025 } else { 257 };
    vec![scenario("many_groups", &format!("{} of groups with 1..3 channels each, or one group with as many channels, named by numbers, by one letter repeated, or with a quote, with data or properties, in one segment or one each", said(max)), move |ctx| {
        let n = pick_count(ctx, max);
        let naming = ctx.choose(3);
        let name = |i: usize| match naming {
            0 => format!("{i}"),
            1 => "a".repeat(i + 1),
            _ => format!("it's {i}/"),
        };
        let per = ctx.range(0, 3);
        let props = ctx.flag();
        let each = ctx.flag();
        let mut chans: Vec<(String, String)> = vec![];
        for i in 0..n {
            if per == 0 {
                chans.push(("only".into(), name(i)));
            }
            for c in 0..per {
                chans.push((name(i), format!("c{c}")));
            }
        }
        let mut ops: Vec<WOp> = vec![];
        if props {
            ops.extend(chans.iter().map(|(g, c)| wprops(P::Chan(g.clone(), c.clone()), vec![("p".into(), Pv::i(1))])));
        } else if each {
            ops.extend(chans.iter().map(|c| WOp::Data { chans: vec![c.clone()], ty: Ty::I16, n: 2, inter: false }));
        } else {
            ops.push(WOp::Data { chans: chans.clone(), ty: Ty::I16, n: 2, inter: false });
        }
        if props && each {
            ops.push(WOp::Props { path: P::Group(chans[n / 2].0.clone()), props: vec![("q".into(), Pv::i(2))] });
        }
        let dev = Dev::new(vec![]);
        let m = run(ctx, &dev, &ops, view)?;
        check_final(&dev, &m, false, view)
    })]
}
pub fn c14(t: bool) -> Vec<Scenario> {
    let max = if t { 1025 } else { 129 };
    vec![scenario("counts", &format!("writes of {} of channels and every remainder class (1 less, 1 more, half, one in all, k times and 1) of values, to known or new channels, then an accepted write: refused and without a trace", said(max)), move |ctx| {
        let n = pick_count(ctx, max);
        if n < 2 {
            return Ok(());
        }
        let known = ctx.flag();
        let inter = ctx.flag();
        let v = *ctx.pick(&[n - 1, n + 1, 2 * n - 1, n / 2, 1, 7 * n + 1, 64 * n + n / 2, 0]);
        if v % n == 0 && v > 0 {
            return Ok(());
        }
        let nm = names(n);
        let before = vec![wdata(&nm, Ty::I32, 1, false)];
        let after = vec![wdata(&nm, Ty::I32, 1, false), wdata(&nm[..n - 1], Ty::I32, 2, inter)];
        let clean = Dev::new(vec![]);
        let ops: Vec<WOp> = before.iter().chain(&after).cloned().collect();
        let m = run(ctx, &clean, &ops, no_view)?;
        let dev = Dev::new(vec![]);
        let mut file = must_open(&dev, "empty stream")?;
        {
            let mut wr = file.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
            let mut k = 1;
            let mut mm = Model::default();
            for (i, op) in ops.iter().enumerate() {
                if i == before.len() {
                    let paths: Vec<ChannelPath> = nm.iter().map(|c| ChannelPath::new("g", &if known { c.clone() } else { format!("new {c}") })).collect();
                    let r = wr.write_channels(&paths, &vec![7i32; v], if inter { DataLayout::Interleaved } else { DataLayout::Contigious });
                    ctx.step();
                    match r {
                        Ok(()) => bail!("accepted", "{v} values for {n} channels were accepted"),
                        Err(TdmsError::BadDataBlockLength(a, b)) => ensure!(v > 0 && (a, b) == (v, n), "cause", "{v} values for {n} channels reported as {a} for {b}"),
                        Err(TdmsError::ZeroLengthDataBlock) => ensure!(v == 0, "cause", "{v} values for {n} channels reported as none"),
                        Err(e) => bail!("cause", "{v} values for {n} channels refused with {e:?}"),
                    }
                }
                exec_cmd!(wr, &cmd(op, k)).or_else(|e| fail("write-error", format!("write after a refused one: {e:?}")))?;
                k = effect(op, &mut mm, k);
            }
        }
        ensure!(dev.bytes() == clean.bytes(), "bytes", "a refused write of {v} values for {n} channels left a trace");
        ctx.state(&dev.bytes());
        check_view(&mut file, &m, "live view")
    })]
}
fn write_offs(log: &[Op]) -> Vec<(u64, usize)> {
    log.iter().filter_map(|o| if let Op::Write { off, len } = o { (*len > 0).then_some((*off, *len)) } else { None }).collect()
}
pub fn c17(t: bool) -> Vec<Scenario> {
    let max = if t { 1025 } else { 257 };
    vec![scenario("many_writes", &format!("{} of writes following 10 patterns with the log of every stream operation: whenever a session ends or a sync returns (after each, or each 7th write), nothing below the end of what was there is written again", said(max)), move |ctx| {
        let n = pick_count(ctx, max);
        let pattern = ctx.choose(PATTERNS.len());
        let every = [1, 7][ctx.choose(2)];
        let ops = history(n, pattern, false);
        let dev = Dev::new(vec![]);
        let mut file = must_open(&dev, "empty stream")?;
        let (mut m, mut k, mut i) = (Model::default(), 1, 0);
        let mut done = 0u64;
        while i < ops.len() {
            dev.log_start();
            let mut low = u64::MAX;
            session!(file, w => {
                while i < ops.len() && !matches!(ops[i], WOp::Session | WOp::Reopen) {
                    ctx.step();
                    w(&cmd(&ops[i], k)).or_else(|e| fail("write-error", format!("{:?}: {e:?}", ops[i])))?;
                    k = effect(&ops[i], &mut m, k);
                    i += 1;
                    if i % every == 0 {
                        w(&Cmd::Sync).or_else(|e| fail("write-error", format!("sync: {e:?}")))?;
                        for (off, _) in write_offs(&dev.log_take()) {
                            low = low.min(off);
                        }
                        ensure!(low >= done, "modified", "a write went to byte {low}, but {done} bytes were complete");
                        done = dev.len() as u64;
                        low = u64::MAX;
                        dev.log_start();
                    }
                }
            });
            for (off, _) in write_offs(&dev.log_take()) {
                ensure!(off >= done, "modified", "a write went to byte {off}, but {done} bytes were complete");
            }
            done = dev.len() as u64;
            if i < ops.len() && ops[i] == WOp::Reopen {
                file = must_open(&dev, "reopen")?;
            }
            i += 1;
        }
        dev.log_start();
        check_view(&mut file, &m, "view")?;
        ensure!(write_offs(&dev.log_take()).is_empty(), "read-writes", "reading wrote to the stream");
        ctx.state(&dev.bytes());
        Ok(())
    })]
}
pub fn c18(t: bool) -> Vec<Scenario> {
    let max = if t { 513 } else { 129 };
    vec![scenario("many_writes", &format!("{} of writes following 10 patterns, sync after each or after each 7th: when it returns, what was written so far is on the device and flushed; the same at the end of each session", said(max)), move |ctx| {
        let n = pick_count(ctx, max);
        let pattern = ctx.choose(PATTERNS.len());
        let every = [1, 7][ctx.choose(2)];
        let ops = history(n, pattern, true);
        let dev = Dev::new(vec![]);
        let mut file = must_open(&dev, "empty stream")?;
        let (mut m, mut k, mut i) = (Model::default(), 1, 0);
        let on_device = |m: &Model, what: String, dev: &Dev| -> R { check_strict(dev, m).map(|_| ()).or_else(|e| fail("sync", format!("{what}: {}", e.msg))) };
        while i < ops.len() {
            dev.log_start();
            session!(file, w => {
                while i < ops.len() && !matches!(ops[i], WOp::Session | WOp::Reopen) {
                    ctx.step();
                    w(&cmd(&ops[i], k)).or_else(|e| fail("write-error", format!("{:?}: {e:?}", ops[i])))?;
                    k = effect(&ops[i], &mut m, k);
                    i += 1;
                    if i % every == 0 {
                        w(&Cmd::Sync).or_else(|e| fail("write-error", format!("sync: {e:?}")))?;
                        let log = dev.log_take();
                        let lastw = log.iter().rposition(|o| matches!(o, Op::Write { len, .. } if *len > 0));
                        let lastf = log.iter().rposition(|o| matches!(o, Op::Flush));
                        ensure!(lastw.is_none() || lastf > lastw, "flush", "sync {i} returned without flushing the stream after its last write");
                        if n <= 65 || i % 16 == 0 || i + 2 >= ops.len() {
                            on_device(&m, format!("after sync {i}"), &dev)?;
                        }
                        dev.log_start();
                    }
                }
            });
            let _ = dev.log_take();
            if n <= 65 || i + 2 >= ops.len() {
                on_device(&m, format!("after dropping the writer at {i}"), &dev)?;
            }
            if i < ops.len() && ops[i] == WOp::Reopen {
                file = must_open(&dev, "reopen")?;
            }
            i += 1;
        }
        ctx.state(&dev.bytes());
        Ok(())
    })]
}
pub fn c11(t: bool) -> Vec<Scenario> {
    let max = if t { 513 } else { 129 };
    vec![scenario("many_writes", &format!("{} of writes following 10 patterns, cut at every byte of the first, a middle and the last segment (and around the ends of those next to them)", said(max)), move |ctx| {
        let n = pick_count(ctx, max);
        let pattern = ctx.choose(PATTERNS.len());
        if matches!(PATTERNS[pattern], "sessions" | "reopened") && n > 33 {
            return Ok(());
        }
        let ops = history(n, pattern, pattern % 2 == 0);
        super::crash::cut_scaled(ctx, &ops)
    })]
}
pub fn c12(t: bool) -> Vec<Scenario> {
    let max = if t { 129 } else { 33 };
    vec![scenario("many_blocks", &format!("{} of blocks or chunks: a single or multi read of everything with each of its stream operations failing once; the buffers hold right values or are untouched, and the next read gives everything", said(max)), move |ctx| {
        let n = pick_count(ctx, max);
        let kind = ctx.choose(4);
        let inter = ctx.flag();
        let f = match kind {
            0 => many_segments(n, 0, inter, Ty::F64),
            1 => many_segments(n, 5, inter, Ty::F64),
            2 => one_large(4, 64 * n, false, inter, Ty::F64),
            _ => {
                let mut f = Foreign::new();
                put(&mut f, &full(false, inter, n, &[("b", Ty::F64, 30), ("a", Ty::F64, 30)]));
                f
            }
        };
        let multi = ctx.flag() && f.model.objs.contains_key(&ch("b"));
        let start = [0u64, 3][ctx.choose(2)];
        let class = [Class::Read, Class::Seek][ctx.choose(2)];
        let (dev, mut file) = opened(ctx, &f)?;
        let la = f.model.objs[&ch("a")].samples.len();
        let req: Vec<(String, usize)> = if multi { vec![(ch("b"), la), (ch("a"), la)] } else { vec![(ch("a"), la)] };
        let all = f.model.objs[&ch("a")].samples.clone();
        let go = |file: &mut TdmsFile<Dev>| -> R { if multi { check_multi::<f64, Dev>(file, &f.model, &req, start) } else { check_read::<f64, Dev>(file, &ch("a"), &all, start, la) } };
        dev.reset_counters();
        go(&mut file)?;
        let ops = dev.counts()[class as usize];
        for i in 0..ops {
            ctx.step();
            dev.reset_counters();
            dev.fault(class, i, Fault::Once(std::io::ErrorKind::Other));
            let clean = allowing_io(|| go(&mut file))?;
            dev.heal();
            ensure!(!clean, "swallowed", "{class:?} {i} of {ops} failed but the read reported success");
            go(&mut file).map_err(|e| Fail { key: e.key, msg: format!("after a failed {class:?} {i}: {}", e.msg) })?;
        }
        Ok(())
    })]
}
pub fn c21(t: bool) -> Vec<Scenario> {
    let max = if t { 4097 } else { 1025 };
    vec![scenario("repeated", &format!("{} of repetitions of one of 8 calls (reads, failing reads, queries, taking a writer, opening): afterwards everything shows exactly", said(max)), move |ctx| {
        let n = pick_count(ctx, max);
        let op = ctx.choose(8);
        let inter = ctx.flag();
        let mut f = Foreign::new();
        put(&mut f, &full(false, inter, 3, &[("a", Ty::F64, 2), ("b", Ty::F64, 2)]));
        put(&mut f, &full(true, !inter, 2, &[("b", Ty::F64, 3), ("a", Ty::F64, 3)]));
        let all = f.model.objs[&ch("a")].samples.clone();
        let (dev, mut file) = opened(ctx, &f)?;
        for i in 0..n {
            ctx.step();
            let s = (i % 14) as u64;
            match op {
                0 => check_read::<f64, Dev>(&mut file, &ch("a"), &all, 0, 20)?,
                1 => check_read::<f64, Dev>(&mut file, &ch("a"), &all, s, 3)?,
                2 => check_read::<i16, Dev>(&mut file, &ch("a"), &all, s, 3)?,
                3 => check_multi::<f64, Dev>(&mut file, &f.model, &[(ch("b"), 2 + i % 5), (ch("a"), 1 + i % 7)], s)?,
                4 => ensure!(file.read_channel(&ChannelPath::new("g", "missing"), &mut [0f64; 2]).is_err(), "object", "missing channel read"),
                5 => drop(file.writer().or_else(|e| fail("writer", format!("{e:?}")))?),
                6 => ensure!(file.channel_length(&ChannelPath::new("g", "a")) == Some(12) && file.list_groups().count() == 1, "length", "query {i}"),
                _ => file = must_open(&dev, "again")?,
            }
        }
        check_view(&mut file, &f.model, "afterwards")
    })]
}
pub fn c13(t: bool) -> Vec<Scenario> {
    let max = if t { 257 } else { 33 };
    vec![scenario("many_blocks", &format!("{} of segments in 8 shapes, or chunks, with every read returning at most 1, 2, 3, 7 or 100 bytes, and interruptions: the same view; the same for as many writes", said(max)), move |ctx| {
        let n = pick_count(ctx, max);
        let at_most = *ctx.pick(&[1usize, 2, 3, 7, 100]);
        let intr = ctx.flag();
        let kind = ctx.choose(SHAPES.len() + 2);
        if kind < SHAPES.len() {
            let f = many_segments(n, kind, intr, Ty::F64);
            ctx.state(&(&f.bytes, at_most));
            let dev = Dev::new(f.bytes.clone());
            super::faults::chop(&dev, at_most, 0, intr);
            let mut file = must_open(&dev, "chopped stream")?;
            return check_view(&mut file, &f.model, "chopped stream");
        }
        let ops = history(n, if kind == SHAPES.len() { 5 } else { 1 }, intr);
        let clean = Dev::new(vec![]);
        let m = run(ctx, &clean, &ops, no_view)?;
        let dev = Dev::new(vec![]);
        super::faults::chop(&dev, 0, at_most, intr);
        let m2 = run(ctx, &dev, &ops, no_view)?;
        ensure!(m == m2 && dev.bytes() == clean.bytes(), "bytes", "a stream that accepts at most {at_most} bytes at a time ends up with other bytes");
        Ok(())
    })]
}
