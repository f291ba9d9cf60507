//! C01, C02, C07, C14, C16, C17, C18: what the writer puts into a file.
use crate::check::*;
use crate::dev::*;
use crate::explore::*;
use crate::generate::*;
use crate::hist::*;
use crate::spec::*;
use crate::types::*;
use crate::{bail, ensure, session};

pub fn pick_hist(ctx: &mut Ctx, alpha: &[WOp], lo: usize, hi: usize) -> Vec<WOp> {
    let d = ctx.range(lo, hi);
    (0..d).map(|_| ctx.pick(alpha).clone()).collect()
}
fn p(c: &str, name: &str, v: Pv) -> WOp {
    WOp::Props { path: P::Chan("g".into(), c.into()), props: vec![(name.into(), v)] }
}
fn pf(name: &str, v: Pv) -> WOp {
    WOp::Props { path: P::File, props: vec![(name.into(), v)] }
}
fn pg(g: &str, name: &str, v: Pv) -> WOp {
    WOp::Props { path: P::Group(g.into()), props: vec![(name.into(), v)] }
}
/// Different channel sets, orders, lengths, types and layouts.
pub fn structural() -> Vec<WOp> {
    use Ty::*;
    vec![
        data(&["a"], I32, 1, false),
        data(&["a"], I32, 2, false),
        data(&["a"], F64, 1, false),
        data(&["b"], I32, 1, false),
        data(&["a", "b"], I32, 1, false),
        data(&["b", "a"], I32, 1, false),
        data(&["a", "b"], I32, 2, false),
        data(&["a", "b"], I32, 2, true),
        data(&["a", "b", "c"], I16, 2, true),
        data(&["a", "b", "c"], I32, 1, false),
        p("a", "x", Pv::i(1)),
        pf("x", Pv::s("v")),
        WOp::Session,
        WOp::Reopen,
    ]
}
fn narrow() -> Vec<WOp> {
    use Ty::*;
    vec![
        data(&["a"], I32, 1, false),
        data(&["a"], I32, 2, true),
        data(&["a", "b"], I32, 1, false),
        data(&["a", "b"], F64, 2, true),
        p("a", "x", Pv::i(1)),
    ]
}
pub fn final_checks(dev: &Dev, m: &Model, strict: bool, view: View) -> R {
    if strict {
        check_strict(dev, m)?;
    }
    let mut f = must_open(dev, "reopen")?;
    view(&mut f, m, "reopened view")
}
fn hist_scenario(name: &str, alpha: Vec<WOp>, lo: usize, hi: usize, view: View, strict: bool) -> Scenario {
    let bounds = format!("every sequence of {lo}..{hi} operations over {} operations: {alpha:?}", alpha.len());
    scenario(name, &bounds, move |ctx| {
        let ops = pick_hist(ctx, &alpha, lo, hi);
        let dev = Dev::new(vec![]);
        let m = run(ctx, &dev, &ops, view)?;
        final_checks(&dev, &m, strict, view)
    })
}
const NAMES: [&str; 5] = ["a", "b", "c", "d", "e"];
/// Every type, followed by every type on the same or an overlapping set of channels.
fn types_scenario(view: View, strict: bool, thorough: bool) -> Scenario {
    scenario("types", "two writes: 15x15 types, 1..3 channels each, 1..3 values each, both layouts, with or without a session break", move |ctx| {
        let t1 = *ctx.pick(&NATURAL);
        let t2 = *ctx.pick(&NATURAL);
        let hi = if thorough { 3 } else { 2 };
        let (c1, c2) = (ctx.range(1, hi), ctx.range(1, hi));
        let (n1, n2) = (*ctx.pick(&[1, 3]), *ctx.pick(&[1, 2, 3]));
        let (i1, i2) = (ctx.flag(), ctx.flag());
        let mut ops = vec![data(&NAMES[..c1], t1, n1, i1)];
        match ctx.choose(3) {
            1 => ops.push(WOp::Session),
            2 => ops.push(WOp::Reopen),
            _ => {}
        }
        ops.push(data(&NAMES[..c2], t2, n2, i2));
        let dev = Dev::new(vec![]);
        let m = run(ctx, &dev, &ops, view)?;
        final_checks(&dev, &m, strict, view)
    })
}
/// Sizes around the 8 KiB buffers, many channels, twice.
fn sizes_scenario(view: View, strict: bool, thorough: bool) -> Scenario {
    scenario("sizes", "one or two writes with 1..257 channels and 1..9000 bytes per channel around the stream buffer size, then an extra small write", move |ctx| {
        let t = *ctx.pick(&[Ty::U8, Ty::I16, Ty::F64, Ty::Ext, Ty::C64]);
        let per = 8192 / t.size();
        let shapes: Vec<(usize, usize)> = vec![
            (1, per - 5), (1, per - 3), (1, per - 2), (1, per - 1), (1, per), (1, per + 1), (1, 2 * per), (1, 2 * per + 1),
            (2, per / 2), (2, per), (3, per), (64, 3), (255, 1), (256, 1), (257, 1), (256, 2), (300, 17),
        ];
        let (c, n) = *ctx.pick(&shapes);
        let inter = ctx.flag();
        let again = ctx.choose(if thorough { 4 } else { 3 });
        let names: Vec<String> = (0..c).map(|i| format!("ch{i}")).collect();
        let refs: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
        let mut ops = vec![data(&refs, t, n, inter)];
        match again {
            1 => ops.push(data(&refs, t, n, inter)),
            2 => ops.push(data(&refs[..c - c / 2], t, n, inter)),
            3 => ops.push(data(&refs, t, n + 1, !inter)),
            _ => {}
        }
        ops.push(data(&["ch0"], t, 2, false));
        let dev = Dev::new(vec![]);
        let m = run(ctx, &dev, &ops, view)?;
        final_checks(&dev, &m, strict, view)
    })
}
/// Appending to files written by other software.
fn foreign_scenario(view: View, thorough: bool) -> Scenario {
    let idx = [Idx::None, Idx::Same, Idx::Full(Ty::I32, 1), Idx::Full(Ty::I32, 2), Idx::Full(Ty::F64, 1)];
    let (a, b) = (ch("a"), ch("b"));
    let alpha = alphabet(&[&a, &b], 2, &idx, &[false, true], &[false, true], if thorough { &[0, 1, 2] } else { &[0, 2] });
    let ops = vec![
        data(&["a"], Ty::I32, 1, false),
        data(&["a", "b"], Ty::I32, 2, false),
        data(&["a", "b"], Ty::I32, 2, true),
        data(&["b", "a"], Ty::F64, 1, false),
        p("a", "x", Pv::i(1)),
    ];
    let depth = if thorough { 3 } else { 2 };
    scenario("append_foreign", &format!("1..2 foreign segments over {} kinds, then 1..{depth} writes over {} kinds", alpha.len(), ops.len()), move |ctx| {
        let mut f = Foreign::new();
        for _ in 0..ctx.range(1, if thorough { 2 } else { 1 }) {
            let Some(s) = choose_valid(ctx, 1, &f, &alpha) else { return Ok(()) };
            ctx.note(|| show_seg(s));
            f.push(s);
        }
        let n = ctx.range(1, depth);
        let ops: Vec<WOp> = (0..n).map(|_| ctx.pick(&ops).clone()).collect();
        let dev = Dev::new(f.bytes.clone());
        let m = run_on(ctx, &dev, &ops, view, f.model.clone(), f.k + 1)?;
        final_checks(&dev, &m, true, view)
    })
}
/// Breadth-first exploration of the writer protocol: histories that leave the file with the same
/// object list, formats and properties are explored once.
fn protocol_scenario(name: &str, alpha: Vec<WOp>, max_depth: usize, view: View) -> Scenario {
    let bounds = format!("breadth-first over reachable protocol states (active list, formats, sessions) to depth {max_depth} or fixpoint, {} operations: {alpha:?}", alpha.len());
    scenario(name, &bounds, move |ctx| {
        let first = ctx.choose(alpha.len());
        let mut seen = std::collections::HashSet::new();
        let mut front: Vec<Vec<usize>> = vec![vec![first]];
        for _ in 0..max_depth {
            let mut next = vec![];
            for h in &front {
                let ops: Vec<WOp> = h.iter().map(|i| alpha[*i].clone()).collect();
                let dev = Dev::new(vec![]);
                let m = run(ctx, &dev, &ops, view).or_else(|e| fail(&e.key, format!("history {ops:?}: {}", e.msg)))?;
                final_checks(&dev, &m, true, view).or_else(|e| fail(&e.key, format!("history {ops:?}: {}", e.msg)))?;
                let (d, active) = crate::spec::decode_with_active(&dev.bytes()).or_else(|e| fail("conformance", e))?;
                // the protocol state, and whether the writer has been replaced since the last data
                let tail: Vec<&WOp> = ops.iter().rev().take_while(|o| !matches!(o, WOp::Data { .. })).collect();
                let fmts: Vec<_> = d.objs.iter().map(|(p, o)| (p.clone(), o.format(), o.props.clone())).collect();
                let st = hash(&(active, fmts, tail.iter().any(|o| matches!(o, WOp::Session)), tail.iter().any(|o| matches!(o, WOp::Reopen)), tail.iter().any(|o| matches!(o, WOp::Props { .. }))));
                if seen.insert(st) {
                    ctx.states.push(st);
                    for i in 0..alpha.len() {
                        let mut x = h.clone();
                        x.push(i);
                        next.push(x);
                    }
                }
            }
            if next.is_empty() {
                break;
            }
            front = next;
        }
        Ok(())
    })
}

pub fn c01(t: bool) -> Vec<Scenario> {
    vec![
        hist_scenario("histories", structural(), 1, if t { 6 } else { 5 }, data_view, false),
        hist_scenario("long_histories", narrow(), 6, if t { 9 } else { 7 }, data_view, false),
        types_scenario(data_view, false, t),
        sizes_scenario(data_view, false, t),
        foreign_scenario(data_view, t),
    ]
}
pub fn c02(t: bool) -> Vec<Scenario> {
    let mut alpha = structural();
    alpha.retain(|o| !matches!(o, WOp::Session | WOp::Reopen));
    alpha.push(pg("g", "x", Pv::i(2)));
    alpha.push(p("new", "x", Pv::i(3)));
    let depth = if t { 4 } else { 3 };
    let bounds = format!("every sequence of 1..{depth} operations over {} operations, each followed by nothing, a writer break or a reopen; live and reopened view compared at every break", alpha.len());
    let a2 = alpha.clone();
    vec![
        scenario("breaks", &bounds, move |ctx| {
            let d = ctx.range(1, depth);
            let dev = Dev::new(vec![]);
            let mut ops: Vec<WOp> = vec![];
            for _ in 0..d {
                ops.push(ctx.pick(&a2).clone());
                match ctx.choose(3) {
                    1 => ops.push(WOp::Session),
                    2 => ops.push(WOp::Reopen),
                    _ => {}
                }
            }
            let m = run(ctx, &dev, &ops, both_views)?;
            final_checks(&dev, &m, false, check_view)
        }),
        foreign_scenario(both_views, t),
        types_scenario(both_views, false, false),
        hist_scenario("histories", alpha, 1, if t { 5 } else { 4 }, both_views, false),
    ]
}
/// The live view and a fresh open of the same bytes.
pub fn both_views(f: &mut tedium::TdmsFile<Dev>, m: &Model, what: &str) -> R {
    check_view(f, m, what)?;
    // the file object does not expose its stream, so reopen what the history wrote
    let dev = LAST.with(|l| l.borrow().clone());
    if let Some(dev) = dev {
        let mut g = must_open(&dev, what)?;
        check_view(&mut g, m, &format!("fresh open at: {what}"))?;
    }
    Ok(())
}
thread_local! {
    pub static LAST: std::cell::RefCell<Option<Dev>> = const { std::cell::RefCell::new(None) };
}
pub fn c16(t: bool) -> Vec<Scenario> {
    vec![
        hist_scenario("histories", structural(), 1, if t { 6 } else { 5 }, no_view, true),
        protocol_scenario("protocol", structural(), if t { 12 } else { 4 }, no_view),
        types_scenario(no_view, true, t),
        sizes_scenario(no_view, true, t),
        foreign_scenario(no_view, t),
        props_types("property_types", true),
        names_scenario(true, t),
    ]
}
fn names_scenario(strict: bool, t: bool) -> Scenario {
    const N: [&str; 14] = ["", "a", "a/b", "/", "\"", "é", "日本語", "''", "'", "a'b", "\0", "\n", " a ", "x'/'y"];
    scenario("names", "groups and channels with 14x14 names, data and properties, written in two segments", move |ctx| {
        let g = ctx.pick(&N).to_string();
        let c = ctx.pick(&N).to_string();
        let g2 = if t { ctx.pick(&N).to_string() } else { "a".to_string() };
        let chans = vec![(g.clone(), c.clone()), (g2.clone(), "other".to_string())];
        let ops = vec![
            WOp::Data { chans: chans.clone(), ty: Ty::I32, n: 2, inter: false },
            WOp::Props { path: P::Chan(g.clone(), c.clone()), props: vec![(c.clone(), Pv::s(&g))] },
            WOp::Props { path: P::Group(g.clone()), props: vec![(g.clone(), Pv::s(&c))] },
            WOp::Data { chans: chans[..1].to_vec(), ty: Ty::I32, n: 1, inter: true },
        ];
        let dev = Dev::new(vec![]);
        let m = run(ctx, &dev, &ops, check_view)?;
        final_checks(&dev, &m, strict, check_view)
    })
}

// ---------------------------------------------------------------- properties

fn props_types(name: &str, strict: bool) -> Scenario {
    scenario(name, "every pair of property value types (16x16 plus void) written to one name of the file, a group, a channel with and one without data, several value patterns, strings of 0..70000 bytes", move |ctx| {
        let mut vals: Vec<Pv> = vec![Pv::Void, Pv::s(""), Pv::s("abc"), Pv::s(&"é".repeat(35000)), Pv::s("'/\0")];
        vals.extend(NATURAL.iter().map(|t| Pv::of(*t, 5)));
        vals.extend(NATURAL.iter().map(|t| Pv::Fixed(*t, vec![if *t == Ty::Bool { 1 } else { 0xFF }; t.size()])));
        let v1 = ctx.pick(&vals).clone();
        let v2 = ctx.pick(&vals).clone();
        let obj = ctx.pick(&[P::File, P::Group("g".into()), P::Chan("g".into(), "a".into()), P::Chan("h".into(), "b".into())]).clone();
        let mut ops = vec![
            data(&["a"], Ty::I32, 1, false),
            WOp::Props { path: obj.clone(), props: vec![("x".into(), v1.clone()), ("y".into(), v2.clone())] },
        ];
        match ctx.choose(3) {
            1 => ops.push(WOp::Session),
            2 => ops.push(WOp::Reopen),
            _ => {}
        }
        ops.push(WOp::Props { path: obj, props: vec![("x".into(), v2)] });
        ops.push(data(&["a"], Ty::I32, 1, false));
        let dev = Dev::new(vec![]);
        let m = run(ctx, &dev, &ops, check_view)?;
        final_checks(&dev, &m, strict, check_view)
    })
}
pub fn c07(t: bool) -> Vec<Scenario> {
    let objs = [P::File, P::Group("g".into()), P::Chan("g".into(), "a".into()), P::Chan("g".into(), "z".into())];
    let mut alpha = vec![];
    for o in &objs {
        for (n, v) in [("x", Pv::i(1)), ("x", Pv::i(2)), ("x", Pv::s("t")), ("y", Pv::i(1))] {
            alpha.push(WOp::Props { path: o.clone(), props: vec![(n.into(), v)] });
        }
        alpha.push(WOp::Props { path: o.clone(), props: vec![("y".into(), Pv::i(3)), ("x".into(), Pv::Fixed(Ty::F64, vec![1; 8]))] });
    }
    alpha.push(WOp::Props { path: objs[2].clone(), props: vec![("x".into(), Pv::i(8)), ("x".into(), Pv::i(9))] });
    alpha.push(WOp::Props { path: objs[1].clone(), props: vec![] });
    alpha.push(WOp::Props { path: objs[3].clone(), props: vec![] });
    alpha.push(data(&["a"], Ty::I32, 1, false));
    alpha.push(data(&["a", "z"], Ty::F64, 2, true));
    alpha.push(WOp::Session);
    alpha.push(WOp::Reopen);
    let mut names: Vec<WOp> = vec![];
    for n in ["", "x", "X", "x ", "é", "xx", "'", "\0"] {
        for v in [Pv::i(1), Pv::s("é"), Pv::Void] {
            names.push(p("a", n, v));
        }
    }
    let mut v = vec![
        hist_scenario("histories", alpha, 1, if t { 5 } else { 4 }, check_view, true),
        hist_scenario("names", names, 2, if t { 5 } else { 4 }, check_view, true),
        props_types("types", true),
    ];
    v.push(scenario("foreign", "two to three foreign segments in both byte orders carrying properties of every type on the file, a group and channels, with and without raw data", move |ctx| {
        let mut f = Foreign::new();
        let types: Vec<Ty> = FIXED.iter().copied().chain([Ty::Str]).collect();
        for s in 0..ctx.range(2, if t { 3 } else { 2 }) {
            let be = ctx.flag();
            let ty = if s == 0 { *ctx.pick(&types) } else { *ctx.pick(&[Ty::I32, Ty::Time, Ty::Str, Ty::ExtU, Ty::Bool]) };
            let target = ctx.choose(3);
            let raw = ctx.flag();
            let path = [String::from("/"), gpath("g"), ch("a")][target].clone();
            let mut objs = vec![];
            if path != ch("a") {
                objs.push(SObj { path: path.clone(), idx: Idx::None, props: vec![("x".into(), Pv::of(ty, 3 + s as u32)), (format!("p{s}"), Pv::s("v"))] });
            }
            objs.push(SObj { path: ch("a"), idx: if raw { Idx::Full(Ty::I16, 2) } else { Idx::None }, props: if path == ch("a") { vec![("x".into(), Pv::of(ty, 3 + s as u32))] } else { vec![] } });
            let seg = Seg { be, new_list: raw, meta: Some(objs), interleaved: false, chunks: raw as usize };
            ctx.note(|| show_seg(&seg));
            if !f.push(&seg) {
                panic!("harness: invalid segment");
            }
        }
        ctx.step();
        let dev = Dev::new(f.bytes.clone());
        ctx.state(&f.bytes);
        let mut file = must_open(&dev, "foreign file")?;
        check_view(&mut file, &f.model, "foreign file")
    }));
    v
}

// ---------------------------------------------------------------- rejected writes

pub enum Bad {
    NoChannels(usize),
    Ragged { chans: usize, n: usize },
    Empty(usize),
    Strings(usize, usize),
}
pub const BADS: [Bad; 9] = [
    Bad::NoChannels(0), Bad::NoChannels(2), Bad::Ragged { chans: 2, n: 3 }, Bad::Ragged { chans: 3, n: 4 }, Bad::Ragged { chans: 2, n: 1 },
    Bad::Empty(1), Bad::Empty(2), Bad::Strings(1, 1), Bad::Strings(2, 2),
];
#[macro_export]
macro_rules! exec_bad {
    ($w:expr, $bad:expr, $names:expr, $inter:expr) => {{
        let layout = if $inter { tedium::DataLayout::Interleaved } else { tedium::DataLayout::Contigious };
        let chans = |n: usize| -> Vec<tedium::ChannelPath> { $names[..n].iter().map(|c| tedium::ChannelPath::new("g", c)).collect() };
        match $bad {
            $crate::props::writing::Bad::NoChannels(n) => $w.write_channels(&chans(0)[..], &vec![7i32; *n][..], layout),
            $crate::props::writing::Bad::Ragged { chans: c, n } => $w.write_channels(&chans(*c)[..], &vec![7i32; *n][..], layout),
            $crate::props::writing::Bad::Empty(c) => $w.write_channels(&chans(*c)[..], &Vec::<i32>::new()[..], layout),
            $crate::props::writing::Bad::Strings(c, n) => $w.write_channels(&chans(*c)[..], &vec!["text".to_string(); *n][..], layout),
        }
    }};
}
pub fn c14(t: bool) -> Vec<Scenario> {
    let mut alpha = structural();
    alpha.retain(|o| !matches!(o, WOp::Session | WOp::Reopen));
    let depth = if t { 4 } else { 3 };
    let bounds = format!("every history of 0..{depth} accepted writes over {} kinds with one or two refused writes ({} kinds, known and new channels, both layouts) at every position, writer kept or replaced afterwards; compared byte for byte with the history without them", alpha.len(), BADS.len());
    vec![scenario("refused", &bounds, move |ctx| {
        let d = ctx.range(0, depth);
        let ops: Vec<WOp> = (0..d).map(|_| ctx.pick(&alpha).clone()).collect();
        let at = ctx.range(0, d);
        let bad = ctx.choose(BADS.len());
        let known = ctx.flag();
        let inter = ctx.flag();
        let twice = ctx.flag();
        let brk = ctx.flag();
        let names: [&str; 3] = if known { ["a", "b", "c"] } else { ["n1", "n2", "n3"] };
        // reference
        let clean = Dev::new(vec![]);
        let m = run(ctx, &clean, &ops, no_view)?;
        let dev = Dev::new(vec![]);
        let mut file = must_open(&dev, "empty stream")?;
        let mut k = 1;
        let mut mm = Model::default();
        let mut i = 0;
        let mut done = false;
        loop {
            let mut wr = file.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
            while i <= d {
                if i == at && !done {
                    done = true;
                    let mut reps = if twice { 2 } else { 1 };
                    while reps > 0 {
                        reps -= 1;
                        ctx.step();
                        let r = crate::exec_bad!(wr, &BADS[bad], names, inter);
                        ctx.note(|| format!("refused write #{bad}: {r:?}"));
                        if r.is_ok() {
                            bail!("accepted", "write with bad arguments #{bad} was accepted after {:?}", &ops[..i]);
                        }
                    }
                    if brk {
                        break;
                    }
                    continue;
                }
                if i == d {
                    i += 1;
                    break;
                }
                ctx.note(|| format!("{:?}", ops[i]));
                let r = crate::exec_cmd!(wr, &cmd(&ops[i], k));
                if let Err(e) = r {
                    bail!("write-error", "write {:?} after a refused write failed: {e:?}", ops[i]);
                }
                k = effect(&ops[i], &mut mm, k);
                i += 1;
            }
            drop(wr);
            if brk {
                check_view(&mut file, &mm, "live view after a refused write")?;
            }
            if i > d {
                break;
            }
        }
        check_view(&mut file, &m, "live view")?;
        ensure!(dev.bytes() == clean.bytes(), "bytes", "a refused write changed the file: {:02x?} instead of {:02x?}", dev.bytes(), clean.bytes());
        ctx.state(&dev.bytes());
        check_reopened(&dev, &m)
    })]
}

// ---------------------------------------------------------------- append only

fn writes_of(log: &[Op]) -> Vec<(u64, usize)> {
    log.iter().filter_map(|o| if let Op::Write { off, len } = o { (*len > 0).then_some((*off, *len)) } else { None }).collect()
}
pub fn c17(t: bool) -> Vec<Scenario> {
    let mut alpha = structural();
    alpha.push(data(&["a"], Ty::F64, 1500, false));
    alpha.push(p("a", "long", Pv::s(&"x".repeat(9000))));
    alpha.push(WOp::Sync);
    let depth = if t { 5 } else { 4 };
    let b1 = format!("every history of 1..{depth} operations over {} kinds with the log of every stream operation", alpha.len());
    let mut v = vec![scenario("append_only", &b1, move |ctx| {
        let ops = pick_hist(ctx, &alpha, 1, depth);
        let dev = Dev::new(vec![]);
        let mut file = must_open(&dev, "empty stream")?;
        let (mut m, mut k, mut i) = (Model::default(), 1, 0);
        let mut done = dev.bytes();
        loop {
            dev.log_start();
            session!(file, w => {
                while i < ops.len() && !matches!(ops[i], WOp::Session | WOp::Reopen) {
                    ctx.note(|| format!("{:?}", ops[i]));
                    ctx.step();
                    let c = cmd(&ops[i], k);
                    w(&c).or_else(|e| fail("write-error", format!("{:?}: {e:?}", ops[i])))?;
                    k = effect(&ops[i], &mut m, k);
                    i += 1;
                    if matches!(c, Cmd::Sync) {
                        // everything so far is complete segments now
                        let b = dev.bytes();
                        ensure!(b.starts_with(&done), "modified", "bytes written earlier changed by {:?}", ops);
                        done = b;
                        for (off, len) in writes_of(&dev.log_take()) {
                            ensure!(off as usize + len <= done.len(), "harness", "log");
                        }
                        dev.log_start();
                    }
                }
            });
            let log = dev.log_take();
            for (off, _) in writes_of(&log) {
                ensure!(off as usize >= done.len(), "modified", "a write went to byte {off}, but {} bytes of complete segments were there already", done.len());
            }
            let b = dev.bytes();
            ensure!(b.starts_with(&done), "modified", "bytes written earlier changed");
            done = b;
            dev.log_start();
            if i < ops.len() && ops[i] == WOp::Reopen {
                file = must_open(&dev, "reopen")?;
            }
            check_view(&mut file, &m, "view")?;
            let log = dev.log_take();
            ensure!(writes_of(&log).is_empty(), "read-writes", "reading wrote to the stream");
            ensure!(dev.bytes() == done, "read-writes", "reading changed the stream");
            if i >= ops.len() {
                break;
            }
            i += 1;
        }
        ctx.state(&done);
        Ok(())
    })];
    let idx = [Idx::None, Idx::Same, Idx::Full(Ty::I32, 1), Idx::Full(Ty::F64, 2)];
    let (a, b) = (ch("a"), ch("b"));
    let alpha = alphabet(&[&a, &b], 2, &idx, &[false, true], &[false, true], &[0, 1, 2]);
    v.push(scenario("idle_writer", &format!("files of 0..2 foreign segments over {} kinds, complete or with 1..40 bytes cut off or added: open, look, read, take a writer (with and without sync) and drop it, again after failures", alpha.len()), move |ctx| {
        let mut f = Foreign::new();
        for _ in 0..ctx.range(0, if t { 2 } else { 1 }) {
            let Some(s) = choose_valid(ctx, 2, &f, &alpha) else { return Ok(()) };
            ctx.note(|| show_seg(s));
            f.push(s);
        }
        let mut b = f.bytes.clone();
        match ctx.choose(if t { 8 } else { 4 }) {
            0 => {}
            1 => b.truncate(b.len().saturating_sub(1)),
            2 => b.extend(b"TDSm"),
            3 => b.extend(b"xy"),
            4 => b.truncate(b.len().saturating_sub(9)),
            5 => b.truncate(b.len().saturating_sub(40)),
            6 => b.extend([0; 28]),
            _ => b.extend(&b.clone()[..28.min(b.len())]),
        }
        let dev = Dev::new(b.clone());
        dev.log_start();
        ctx.step();
        if let Ok(mut file) = open(&dev) {
            let _ = check_view(&mut file, &f.model, "x");
            if let Ok(mut w) = file.writer() {
                if ctx.flag() {
                    let _ = w.sync();
                }
            }
            let _ = check_view(&mut file, &f.model, "x");
            drop(file);
        }
        ensure!(writes_of(&dev.log_take()).is_empty(), "read-writes", "an idle writer or a read wrote to the stream");
        ensure!(dev.bytes() == b, "read-writes", "an idle writer or a read changed the stream");
        ctx.state(&b);
        Ok(())
    }));
    v
}

// ---------------------------------------------------------------- sync

pub fn c18(t: bool) -> Vec<Scenario> {
    let mut alpha = structural();
    alpha.retain(|o| !matches!(o, WOp::Reopen));
    alpha.push(data(&["a"], Ty::F64, 1023, false));
    alpha.push(data(&["a"], Ty::F64, 2100, false));
    alpha.push(p("a", "long", Pv::s(&"x".repeat(9000))));
    alpha.push(WOp::Sync);
    let depth = if t { 5 } else { 4 };
    let b = format!("every history of 1..{depth} operations over {} kinds; the process dies (writer leaked) after the last operation; what a sync covered must be on the device, flushed, at every sync", alpha.len());
    let b2 = b.replace("dies (writer leaked) after the last operation", "drops the writer");
    let a2 = alpha.clone();
    let body = move |forget: bool, alpha: Vec<WOp>| {
        move |ctx: &mut Ctx| -> R {
            let ops = pick_hist(ctx, &alpha, 1, depth);
            let dev = Dev::new(vec![]);
            let mut file = must_open(&dev, "empty stream")?;
            let (mut m, mut k, mut i) = (Model::default(), 1, 0);
            loop {
                let mut wr = file.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
                dev.log_start();
                while i < ops.len() && ops[i] != WOp::Session {
                    ctx.note(|| format!("{:?}", ops[i]));
                    ctx.step();
                    let c = cmd(&ops[i], k);
                    let r = crate::exec_cmd!(wr, &c);
                    r.or_else(|e| fail("write-error", format!("{:?}: {e:?}", ops[i])))?;
                    k = effect(&ops[i], &mut m, k);
                    if matches!(c, Cmd::Sync) {
                        let snap = Dev::new(dev.bytes());
                        check_strict(&snap, &m).or_else(|e| fail("sync", format!("after sync returned: {}", e.msg)))?;
                        let log = dev.log_take();
                        let lastw = log.iter().rposition(|o| matches!(o, Op::Write { len, .. } if *len > 0));
                        let lastf = log.iter().rposition(|o| matches!(o, Op::Flush));
                        ensure!(lastw.is_none() || lastf > lastw, "flush", "sync returned without flushing the stream after its last write");
                        // unflushed data of earlier syncs was flushed then
                        dev.log_start();
                        if i + 1 == ops.len() || t {
                            check_reopened(&snap, &m)?;
                        }
                    }
                    i += 1;
                }
                if i >= ops.len() && forget {
                    // what a process dying here leaves behind; the writer is dropped only to free its memory
                    let left = dev.bytes();
                    drop(wr);
                    // every complete state up to here is legal, but what was synced must be there;
                    // that was checked at the sync, and nothing may have damaged it since
                    if let Some(s) = ops.iter().rposition(|o| *o == WOp::Sync || *o == WOp::Session) {
                        let mut mm = Model::default();
                        let mut kk = 1;
                        for o in &ops[..s] {
                            kk = effect(o, &mut mm, kk);
                        }
                        let snap = Dev::new(left);
                        if let Ok(mut f) = open(&snap) {
                            for (p, o) in &mm.objs {
                                if parse_path(p).unwrap().len() == 2 && whole_type(&o.samples).is_some() {
                                    let t = whole_type(&o.samples).unwrap();
                                    crate::with_ty!(t, T => check_read::<T, Dev>(&mut f, p, &o.samples, 0, o.samples.len())?);
                                }
                            }
                        }
                        ctx.state(&snap.bytes());
                    }
                    break;
                }
                drop(wr);
                let snap = Dev::new(dev.bytes());
                check_strict(&snap, &m).or_else(|e| fail("drop", format!("after the writer was dropped: {}", e.msg)))?;
                if i >= ops.len() {
                    check_reopened(&snap, &m)?;
                    ctx.state(&snap.bytes());
                    break;
                }
                i += 1;
            }
            Ok(())
        }
    };
    vec![scenario("leaked_writer", &b, body(true, alpha)), scenario("dropped_writer", &b2, body(false, a2))]
}
