//! Texts with characters that invite special treatment: marks, white space, separators, quotes, case and
//! normalisation pairs, the ends of the code point ranges. And sample data that looks like something else.
use super::crash;
use super::writing::final_checks;
use crate::check::*;
use crate::dev::*;
use crate::explore::*;
use crate::hist::*;
use crate::spec::*;
use crate::types::*;
use tedium::TdmsFile;

pub const CHARS: [&str; 44] = [
    "x", "X", "0", " ", "\t", "\n", "\r", "\0", "\u{1}", "\u{7f}", "\u{80}", "\u{85}", "\u{a0}", "\u{ff}", "é", "e\u{301}", "ß", "İ", "ǅ", "\u{7ff}", "\u{800}", "\u{2028}", "\u{200b}", "\u{202e}",
    "\u{d7ff}", "\u{e000}", "\u{feff}", "\u{fffd}", "\u{ffff}", "\u{10000}", "\u{10ffff}", "'", "\"", "`", "/", "\\", "%", "&", "<", ",", ".", "*", "$", "-",
];
const WORDS: [&str; 16] = ["", "..", "TDSm", "NI_", "name", "wf_increment", "NI_ChannelName", "description", "NaN", "null", "None", "-0", "1e5", "true", "%s{}", "/'g'/'a'"];

/// A text of up to two of the characters, or one of the words.
fn text(ctx: &mut Ctx) -> String {
    let a = ctx.choose(CHARS.len() + WORDS.len());
    if a >= CHARS.len() {
        return WORDS[a - CHARS.len()].to_string();
    }
    match ctx.choose(CHARS.len() + 1) {
        0 => CHARS[a].to_string(),
        b => format!("{}{}", CHARS[a], CHARS[b - 1]),
    }
}
fn word(ctx: &mut Ctx) -> String {
    let a = ctx.choose(CHARS.len() + WORDS.len());
    if a < CHARS.len() { CHARS[a].to_string() } else { WORDS[a - CHARS.len()].to_string() }
}
fn what(of: &str) -> String {
    format!("{of}: every text of 1..2 out of {} characters (marks, white space, controls, quotes, separators, case and normalisation pairs, ends of code point ranges) and {} words", CHARS.len(), WORDS.len())
}
fn props(path: P, props: Vec<(String, Pv)>) -> WOp {
    WOp::Props { path, props }
}
fn written(ctx: &mut Ctx, ops: &[WOp], view: View, strict: bool) -> R {
    let dev = Dev::new(vec![]);
    let m = run(ctx, &dev, ops, view)?;
    final_checks(&dev, &m, strict, view)
}
/// As values and names of properties.
pub fn properties(view: View, strict: bool) -> Vec<Scenario> {
    vec![
        scenario("texts", &what("the value or the name of a property next to others, live and reopened"), move |ctx| {
            let value = ctx.flag();
            let s = text(ctx);
            let target = ctx.pick(&[P::File, P::Chan("g".into(), "a".into())]).clone();
            let list = if value { vec![("t".into(), Pv::s(&s)), ("u".into(), Pv::s("after"))] } else { vec![("a".into(), Pv::s("before")), (s, Pv::i(5))] };
            written(ctx, &[data(&["a"], Ty::I16, 1, false), props(target, list)], view, strict)
        }),
        scenario("text_pairs", &what("two property names, one text each, in one call or two; the first is then written again"), move |ctx| {
            let (s, t) = (word(ctx), word(ctx));
            let one = ctx.flag();
            let c = P::Chan("g".into(), "a".into());
            let (a, b) = ((s.clone(), Pv::i(1)), (t, Pv::s("two")));
            let mut ops = if one { vec![props(c.clone(), vec![a, b])] } else { vec![props(c.clone(), vec![a]), props(c.clone(), vec![b])] };
            ops.push(props(c, vec![(s, Pv::i(3))]));
            written(ctx, &ops, view, strict)
        }),
    ]
}
/// As names of groups and channels.
pub fn names(view: View, strict: bool) -> Vec<Scenario> {
    vec![
        scenario("texts", &what("the name of a group, a channel or both, with data"), move |ctx| {
            let s = text(ctx);
            let (g, c) = [(s.clone(), "a".to_string()), ("g".into(), s.clone()), (s.clone(), s)][ctx.choose(3)].clone();
            let d = |g: &str, c: &str, n| WOp::Data { chans: vec![(g.into(), c.into())], ty: Ty::I16, n, inter: false };
            written(ctx, &[d(&g, &c, 2), d("g", "a", 1), d(&g, &c, 1)], view, strict)
        }),
        scenario("text_pairs", &what("two groups or two channels of one group, one text each"), move |ctx| {
            let (s, t) = (word(ctx), word(ctx));
            let groups = ctx.flag();
            let d = |x: &str, n| WOp::Data { chans: vec![if groups { (x.into(), "a".into()) } else { ("g".into(), x.into()) }], ty: Ty::I16, n, inter: false };
            written(ctx, &[d(&s, 1), d(&t, 2), d(&s, 1)], view, strict)
        }),
    ]
}
/// Both in files of other software, in either byte order.
pub fn foreign() -> Scenario {
    scenario("texts", &what("in a file of another program: a text value, a property name, the name of a group and of a channel, either byte order"), |ctx| {
        let s = text(ctx);
        let be = ctx.flag();
        let q = s.replace('\'', "''");
        let mut objs = match ctx.choose(4) {
            0 => vec![SObj { path: "/".into(), idx: Idx::None, props: vec![("t".into(), Pv::s(&s)), ("u".into(), Pv::i(1))] }],
            1 => vec![SObj { path: gpath("g"), idx: Idx::None, props: vec![(s, Pv::s("v")), ("a".into(), Pv::i(1))] }],
            2 => vec![so(&format!("/'{q}'"), Idx::None), so(&format!("/'{q}'/'c'"), Idx::Full(Ty::I16, 2))],
            _ => vec![so(&format!("/'g'/'{q}'"), Idx::Full(Ty::F32, 1))],
        };
        objs.retain(|o| o.path != cpath("g", "a"));
        objs.push(so(&cpath("g", "a"), Idx::Full(Ty::I16, 2)));
        let mut f = Foreign::new();
        assert!(f.push(&Seg { be, new_list: true, meta: Some(objs), interleaved: false, chunks: 2 }), "harness: invalid segment");
        let (_, mut file) = super::scale::opened(ctx, &f)?;
        let file: &mut TdmsFile<Dev> = &mut file;
        check_view(file, &f.model, "foreign file")
    })
}

/// A channel and another object whose path resembles it.
fn alike() -> Vec<(P, P)> {
    let c = |g: &str, c: &str| P::Chan(g.into(), c.into());
    let mut v = vec![];
    for y in [
        ("g", "A"), ("G", "a"), ("g", "aa"), ("g", "ab"), ("gg", "a"), ("ga", "a"), ("a", "g"), ("a", "a"), ("g", "g"), ("g", ""), ("", "a"), ("", ""), ("g", "a "), ("g", " a"), ("g", "a/"), ("g", "/a"), ("g", "a\""), ("g", "\"a"),
        ("g/a", "a"), ("g", "g/a"), ("g\"/\"a", "a"), ("g", "a\"/\"a"), ("g", "á"), ("g", "b"), ("g", "`"),
    ] {
        v.push((c("g", "a"), c(y.0, y.1)));
    }
    for y in ["a", "g", "", "ga", "g/a", "g\"/\"a", "A"] {
        v.push((c("g", "a"), P::Group(y.into())));
    }
    v.push((c("g", "a"), P::File));
    v.push((c("g", "1"), c("g", "01")));
    v.push((c("g", "1"), c("g", "10")));
    v.push((c("g", "\u{e9}"), c("g", "e\u{301}")));
    v.push((c("\u{e9}", "a"), c("e\u{301}", "a")));
    v.push((c("g", ""), P::Group("g".into())));
    v.push((c("", ""), P::Group("".into())));
    v
}
fn alike_said() -> String {
    format!("{} pairs of a channel and another object with a path like it (case, prefix, suffix, swapped, empty, quotes, separators, normal forms, its group, a group of its name)", alike().len())
}
/// Pairs of such paths, by another program.
pub fn alike_foreign() -> Scenario {
    scenario("alike", &format!("{}: both in one segment, then every two segments that list either, both or none of them in any order with no, the same or a new index, new or continued list, either byte order", alike_said()), |ctx| {
        let all = alike();
        let i = ctx.choose(all.len());
        let (x, y) = (all[i].0.path(), all[i].1.path());
        let chan = matches!(all[i].1, P::Chan(..));
        let be = ctx.flag();
        let entry = |p: &str, idx: Idx| SObj { path: p.to_string(), idx, props: vec![("p".into(), Pv::s(p))] };
        let mut f = Foreign::new();
        let both = vec![entry(&x, Idx::Full(Ty::I16, 2)), entry(&y, if chan { Idx::Full(Ty::I16, 2) } else { Idx::None })];
        assert!(f.push(&Seg { be, new_list: true, meta: Some(both), interleaved: false, chunks: 1 }), "harness: invalid segment");
        for _ in 0..2 {
            let opts = [Idx::None, Idx::Same, Idx::Full(Ty::I32, 1)];
            let mut objs = vec![];
            let order = ctx.choose(5);
            for (k, p) in [(0, &x), (1, &y)] {
                // 0 both, 1 both reversed, 2 first, 3 second, 4 none
                if order < 2 || order - 2 == k {
                    let idx = if k == 1 && !chan { Idx::None } else { ctx.pick(&opts).clone() };
                    objs.push(entry(p, idx));
                }
            }
            if order == 1 {
                objs.reverse();
            }
            let seg = Seg { be, new_list: ctx.flag(), meta: if order == 4 { None } else { Some(objs) }, interleaved: false, chunks: 1 };
            if !f.push(&seg) {
                return Ok(());
            }
            ctx.note(|| crate::generate::show_seg(&seg));
        }
        let (_, mut file) = super::scale::opened(ctx, &f)?;
        check_view(&mut file, &f.model, "foreign file")
    })
}
/// Pairs of such paths, by the library.
pub fn alike_written(view: View, strict: bool) -> Scenario {
    scenario("alike", &format!("{}: every sequence of 3 writes of data to either or both in any order, or of properties, the same or another length, in one session or reopened before the last", alike_said()), move |ctx| {
        let all = alike();
        let i = ctx.choose(all.len());
        let (x, y) = all[i].clone();
        let mut alpha = vec![props(x.clone(), vec![("p".into(), Pv::s("x"))]), props(y.clone(), vec![("p".into(), Pv::s("y"))])];
        let chan = |p: &P| if let P::Chan(g, c) = p { Some((g.clone(), c.clone())) } else { None };
        let mut lists = vec![vec![x.clone()]];
        if chan(&y).is_some() {
            lists.extend([vec![y.clone()], vec![x.clone(), y.clone()], vec![y.clone(), x.clone()]]);
        }
        for l in lists {
            for n in [1, 2] {
                alpha.push(WOp::Data { chans: l.iter().map(|p| chan(p).unwrap()).collect(), ty: Ty::I16, n, inter: false });
            }
        }
        let mut ops: Vec<WOp> = (0..3).map(|_| ctx.pick(&alpha).clone()).collect();
        if ctx.flag() {
            ops.insert(2, WOp::Reopen);
        }
        written(ctx, &ops, view, strict)
    })
}

const PATTERN_SAID: &str = "12 byte patterns in the sample data (zeros, ones, tags, empty and complete segments, sign bits, line ends, mostly zeros, zeros and not by turns)";
const LENS: [usize; 14] = [1, 2, 3, 4, 7, 28, 64, 111, 512, 1024, 4095, 4096, 4097, 9000];
/// Written by the library.
pub fn patterns_written(view: View, strict: bool) -> Scenario {
    scenario("patterns", &format!("{PATTERN_SAID}: {LENS:?} values in 1..2 channels of 9 types, both layouts, then more of it in the same, a new or a reopened session"), move |ctx| {
        let p = ctx.choose(PATTERNS);
        let n = *ctx.pick(&LENS);
        let ty = *ctx.pick(&[Ty::U8, Ty::I16, Ty::I32, Ty::F32, Ty::F64, Ty::Ext, Ty::Time, Ty::C64, Ty::Bool]);
        let first = match ctx.choose(3) {
            0 => data(&["a"], ty, n, false),
            i => data(&["a", "b"], ty, n, i == 2),
        };
        let mut ops = vec![first];
        match ctx.choose(3) {
            1 => ops.push(WOp::Session),
            2 => ops.push(WOp::Reopen),
            _ => {}
        }
        ops.push(data(&["a"], ty, 2, false));
        let dev = Dev::new(vec![]);
        let m = run_on(ctx, &dev, &ops, view, Model::default(), pattern(p))?;
        final_checks(&dev, &m, strict, view)
    })
}
/// Written by another program.
pub fn patterns_foreign() -> Scenario {
    scenario("patterns", &format!("{PATTERN_SAID}: {LENS:?} values in two channels of 18 types, both layouts and byte orders, 1..2 chunks, followed by another segment"), |ctx| {
        let p = ctx.choose(PATTERNS);
        let n = *ctx.pick(&LENS);
        let ty = *ctx.pick(&FIXED);
        let (be, inter, chunks) = (ctx.flag(), ctx.flag(), ctx.range(1, 2));
        let mut f = Foreign::new();
        f.k = pattern(p);
        let seg = |n| crate::generate::full(be, inter, chunks, &[("a", ty, n), ("b", ty, n)]);
        assert!(f.push(&seg(n as u64)) && f.push(&seg(3)), "harness: invalid segment");
        let (_, mut file) = super::scale::opened(ctx, &f)?;
        check_view(&mut file, &f.model, "foreign file")
    })
}
/// Cut short at every byte.
pub fn patterns_cut() -> Scenario {
    scenario("patterns", &format!("{PATTERN_SAID}: 2 writes of 40 bytes to 200 values of 3 types in 2 channels, cut at every byte, then appended to"), |ctx| {
        let p = ctx.choose(PATTERNS);
        let ty = *ctx.pick(&[Ty::U8, Ty::I32, Ty::F64]);
        let n = *ctx.pick(&[40, 111, 200]);
        let ops = [data(&["a", "b"], ty, n, false), data(&["a"], ty, n, false)];
        crash::cut_from(ctx, &ops, pattern(p))
    })
}
