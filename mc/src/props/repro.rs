//! C31: what is written and shown is a function of the calls.
use crate::check::*;
use crate::dev::*;
use crate::explore::*;
use crate::generate::*;
use crate::hist::*;
use crate::spec::*;
use crate::types::*;
use crate::{bail, ensure, exec_cmd};
use std::io::{ErrorKind, Read, Seek};
use tedium::{ChannelPath, DataLayout, PropertyPath, TdmsFile};

/// What may happen between two writes without any effect on them.
const BETWEEN: [&str; 9] = ["nothing", "sync", "new session", "reopened", "reads and queries", "failed reads", "refused calls", "a stream that moves one byte at a time", "another file is written"];

fn refused(w: W) -> R {
    let c = |n: &str| ChannelPath::new("g", n);
    let none = Cmd::Data { paths: vec![], ty: Ty::I32, ks: vec![1, 2], inter: false };
    let uneven = Cmd::Data { paths: vec![c("a"), c("new")], ty: Ty::F64, ks: vec![1, 2, 3], inter: true };
    let empty = Cmd::Data { paths: vec![c("b"), c("new")], ty: Ty::I32, ks: vec![], inter: false };
    for cmd in [none, uneven, empty] {
        ensure!(w(&cmd).is_err(), "accepted", "an invalid call was accepted");
    }
    Ok(())
}
fn look<F: Read + Seek>(f: &mut TdmsFile<F>) {
    let groups: Vec<String> = f.list_groups().map(String::from).collect();
    for g in groups {
        let cs: Vec<ChannelPath> = f.list_channels_in_group(&PropertyPath::group(&g)).collect();
        for c in cs {
            let mut a = [0f64; 3];
            let mut b = [0i32; 2];
            let _ = (f.read_channel(&c, &mut a), f.read_channel_from(&c, 1, &mut b), f.channel_length(&c));
            let _ = f.read_channels(&[&c, &c], &mut [&mut a[..], &mut [0f64; 1]]);
        }
    }
    let _ = f.read_property(&PropertyPath::file(), "p").map(|p| p.cloned());
}
/// Run the writes, each behind its interlude. Gives the bytes.
fn run_with(ctx: &mut Ctx, start: &[u8], ops: &[WOp], between: &[usize]) -> R<Vec<u8>> {
    let dev = Dev::new(start.to_vec());
    let other = Dev::new(vec![]);
    let mut file = must_open(&dev, "open")?;
    let mut i = 0;
    while i < ops.len() {
        // outside of a writer
        match BETWEEN[between[i]] {
            "reopened" => {
                drop(file);
                file = must_open(&dev, "reopen")?;
            }
            "reads and queries" => look(&mut file),
            "failed reads" => {
                dev.reset_counters();
                dev.fault(Class::Read, 1, Fault::Forever(ErrorKind::Other));
                look(&mut file);
                dev.heal();
                dev.reset_counters();
                dev.fault(Class::Seek, 1, Fault::Forever(ErrorKind::Other));
                look(&mut file);
                dev.heal();
            }
            "another file is written" => {
                let mut f = must_open(&other, "open another")?;
                let r = f.writer().and_then(|mut w| w.write_channels(&[ChannelPath::new("g", "b"), ChannelPath::new("g", "a")], &[1i64, 2], DataLayout::Interleaved));
                ensure!(r.is_ok(), "other", "writing another file fails with {r:?}");
            }
            _ => {}
        }
        let mut wr = file.writer().or_else(|e| fail("writer", format!("writer() failed: {e:?}")))?;
        loop {
            match BETWEEN[between[i]] {
                "sync" => ensure!(wr.sync().is_ok(), "sync", "sync failed"),
                "refused calls" => {
                    let mut w = |c: &Cmd| exec_cmd!(wr, c);
                    refused(&mut w)?;
                }
                "a stream that moves one byte at a time" => {
                    let mut s = dev.st.borrow_mut();
                    s.max_write = 1;
                    s.intr = true;
                }
                _ => {}
            }
            ctx.step();
            let r = exec_cmd!(wr, &cmd(&ops[i], 1 + 40 * i as u32));
            ensure!(r.is_ok(), "write-error", "{:?} after {:?} refused: {r:?}", ops[i], BETWEEN[between[i]]);
            i += 1;
            if i == ops.len() || matches!(BETWEEN[between[i]], "new session" | "reopened" | "reads and queries" | "failed reads" | "another file is written") {
                break;
            }
        }
        ensure!(wr.sync().is_ok(), "sync", "sync failed");
        drop(wr);
        dev.heal();
    }
    Ok(Dev::bytes(&dev))
}

/// Everything listed, in the order in which it is listed.
fn listing<F: Read + Seek>(f: &TdmsFile<F>, m: &Model) -> R<Vec<String>> {
    let mut v: Vec<String> = f.list_groups().map(|g| format!("group {g}")).collect();
    for p in m.objs.keys() {
        let path = prop_path(p)?;
        v.extend(f.list_channels_in_group(&path).map(|c| format!("{p} has {}", c.path())));
        for (n, x) in f.read_all_properties(&path).into_iter().flatten() {
            v.push(format!("{p} {n:?} = {x:?}"));
        }
    }
    Ok(v)
}
fn check_order(f: &TdmsFile<Dev>, dev: &Dev, m: &Model) -> R {
    let first = listing(f, m)?;
    let again = listing(f, m)?;
    ensure!(first == again, "order", "listed twice in different orders: {first:?} and {again:?}");
    for _ in 0..2 {
        let other = must_open(dev, "reopen")?;
        let l = listing(&other, m)?;
        ensure!(l == first, "order", "listed as {first:?} by the file that wrote it and as {l:?} by a fresh one");
    }
    Ok(())
}

fn writes() -> Vec<WOp> {
    let many: Vec<(String, Pv)> = (0..9).map(|i| (format!("p{}", (i * 7) % 9), Pv::i(i))).collect();
    let chans: Vec<(String, String)> = (0..6).map(|i| (["g", "h"][i % 2].to_string(), format!("c{}", (i * 5) % 6))).collect();
    vec![
        data(&["a"], Ty::F64, 2, false),
        data(&["a"], Ty::F64, 1, true),
        data(&["a", "b"], Ty::F64, 2, false),
        data(&["a", "b"], Ty::F64, 2, true),
        data(&["b", "a"], Ty::I32, 2, false),
        data(&["b"], Ty::I32, 2, true),
        WOp::Data { chans, ty: Ty::Time, n: 1, inter: false },
        WOp::Props { path: P::File, props: many },
        WOp::Props { path: P::Chan("g".into(), "a".into()), props: vec![("q".into(), Pv::s("text")), ("p".into(), Pv::i(2)), ("p".into(), Pv::i(3))] },
        WOp::Props { path: P::Group("é".into()), props: vec![] },
    ]
}

pub fn c31(t: bool) -> Vec<Scenario> {
    let depth = if t { 4 } else { 3 };
    let pool = writes();
    let n = pool.len();
    let pool2 = pool.clone();
    let mut v = vec![
        scenario("same_bytes", &format!("every sequence of {depth} of {n} writes, before each write one of {BETWEEN:?}: the same bytes as the writes alone"), move |ctx| {
            let ops: Vec<WOp> = (0..depth).map(|_| ctx.pick(&pool).clone()).collect();
            let between: Vec<usize> = (0..depth).map(|_| ctx.choose(BETWEEN.len())).collect();
            ctx.note(|| format!("{ops:?} behind {:?}", between.iter().map(|b| BETWEEN[*b]).collect::<Vec<_>>()));
            let plain = run_with(ctx, &[], &ops, &vec![0; depth])?;
            let got = run_with(ctx, &[], &ops, &between)?;
            ctx.state(&got);
            compare(&plain, &got)
        }),
        scenario("same_bytes_long", &format!("every sequence of {} of {n} writes, the same of {BETWEEN:?} before each", depth + 1), move |ctx| {
            let ops: Vec<WOp> = (0..depth + 1).map(|_| ctx.pick(&pool2).clone()).collect();
            let plain = run_with(ctx, &[], &ops, &vec![0; depth + 1])?;
            for b in 0..BETWEEN.len() {
                ctx.note(|| format!("{ops:?} behind {:?}", BETWEEN[b]));
                let got = run_with(ctx, &[], &ops, &vec![b; depth + 1])?;
                compare(&plain, &got)?;
            }
            ctx.state(&plain);
            Ok(())
        }),
    ];
    let pool = writes();
    let pre = if t { 3 } else { 2 };
    v.push(scenario("after_foreign", &format!("the same behind a file of another writer: 1 or 2 segments in either byte order and layout, 2 writes of {n}, before each one of {BETWEEN:?}"), move |ctx| {
        let be = ctx.flag();
        let mut f = Foreign::new();
        for i in 0..ctx.range(1, pre) {
            f.push(&simple(be, ctx.flag(), i));
        }
        let ops: Vec<WOp> = (0..2).map(|_| ctx.pick(&pool).clone()).collect();
        let between: Vec<usize> = (0..2).map(|_| ctx.choose(BETWEEN.len())).collect();
        let plain = run_with(ctx, &f.bytes, &ops, &[0, 0])?;
        let got = run_with(ctx, &f.bytes, &ops, &between)?;
        ctx.state(&got);
        compare(&plain, &got)
    }));
    let pool = writes();
    v.push(scenario("same_order", &format!("every sequence of {depth} of {n} writes: groups, channels and properties are listed in the same order by repeated calls, by the file object that wrote them and by two fresh ones"), move |ctx| {
        let dev = Dev::new(vec![]);
        let ops: Vec<WOp> = (0..depth).map(|_| ctx.pick(&pool).clone()).collect();
        let mut m = Model::default();
        let mut file = must_open(&dev, "open")?;
        {
            let mut w = file.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
            for op in &ops {
                ctx.note(|| format!("{op:?}"));
                ctx.step();
                let r = exec_cmd!(w, &cmd(op, 1));
                ensure!(r.is_ok(), "write-error", "{op:?} refused: {r:?}");
                effect(op, &mut m, 1);
            }
        }
        ctx.state(&listing(&file, &m)?);
        check_order(&file, &dev, &m)
    }));
    v.push(scenario("order_wide", "2..40 groups of 1..12 channels with 0..12 properties, created in 4 orders: the same", move |ctx| {
        let g = *ctx.pick(&[2usize, 3, 8, 17, 40]);
        let c = *ctx.pick(&[1usize, 2, 5, 12]);
        let p = *ctx.pick(&[0usize, 1, 3, 12]);
        let how = ctx.choose(4);
        let perm = |n: usize, i: usize| match how {
            0 => i,
            1 => n - 1 - i,
            2 => (i + n / 2) % n,
            _ => (i ^ 1).min(n - 1),
        };
        let dev = Dev::new(vec![]);
        let mut m = Model::default();
        let mut file = must_open(&dev, "open")?;
        {
            let mut w = file.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
            for i in 0..g {
                let group = format!("g{}", perm(g, i));
                let chans = (0..c).map(|j| (group.clone(), format!("c{}", perm(c, j)))).collect();
                let props: Vec<(String, Pv)> = (0..p).map(|j| (format!("p{}", perm(p, j)), Pv::i(j as i32))).collect();
                let mut ops = vec![WOp::Data { chans, ty: Ty::U8, n: 1, inter: false }];
                ops.push(WOp::Props { path: P::Chan(group, "c0".into()), props: props.clone() });
                ops.push(WOp::Props { path: P::File, props });
                for op in &ops {
                    ctx.step();
                    let r = exec_cmd!(w, &cmd(op, 1));
                    ensure!(r.is_ok(), "write-error", "{op:?} refused: {r:?}");
                    effect(op, &mut m, 1);
                }
            }
        }
        ctx.state(&listing(&file, &m)?);
        check_order(&file, &dev, &m)
    }));
    v
}
/// What another writer left: formats the following writes may or may not continue.
fn simple(be: bool, inter: bool, i: usize) -> Seg {
    match i {
        0 => full(be, inter, 2, &[("a", Ty::F64, 2), ("b", Ty::F64, 2)]),
        1 => full(be, inter, 1, &[("b", Ty::I32, 2)]),
        _ => full(be, inter, 1, &[("b", Ty::I32, 2), ("a", Ty::F64, 2)]),
    }
}
fn compare(plain: &[u8], got: &[u8]) -> R {
    if plain != got {
        let at = plain.iter().zip(got).position(|(a, b)| a != b).unwrap_or(plain.len().min(got.len()));
        bail!("bytes", "{} bytes are written, {} without what happened between; they differ from byte {at}", got.len(), plain.len());
    }
    Ok(())
}
