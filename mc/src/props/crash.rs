//! C11, C15: crashes and failing devices while writing.
use crate::check::*;
use crate::dev::*;
use crate::explore::*;
use crate::generate::*;
use crate::hist::*;
use crate::spec::*;
use crate::types::*;
use crate::{ensure, exec_cmd, with_ty};
use std::io::ErrorKind;
use tedium::{TdmsError, TdmsFile};

/// What may be seen of a file whose last segment (everything `next` has beyond `base`) is damaged.
///
/// Everything in `base` must be exact. Of the rest anything may be reported missing, but nothing
/// may be delivered that is not right.
pub fn check_torn<F: std::io::Read + std::io::Seek>(f: &mut TdmsFile<F>, base: &Model, next: &Model, what: &str) -> R {
    let groups: Vec<String> = f.list_groups().map(|s| s.to_string()).collect();
    for g in &groups {
        ensure!(next.groups().contains(g), "groups", "{what}: lists group {g:?}, which was never written");
    }
    for g in base.groups() {
        ensure!(groups.contains(&g), "groups", "{what}: group {g:?} is gone");
        let gp = prop_path(&format!("/'{g}'"))?;
        let cs: Vec<String> = f.list_channels_in_group(&gp).map(|c| c.path().to_string()).collect();
        for c in base.channels_of(&g) {
            ensure!(cs.contains(&c), "channels", "{what}: channel {c} is gone");
        }
        for c in cs {
            ensure!(next.objs.contains_key(&c), "channels", "{what}: lists {c}, which was never written");
        }
    }
    for (p, n) in &next.objs {
        let b = base.objs.get(p);
        let pp = prop_path(p)?;
        match f.read_all_properties(&pp) {
            None => ensure!(b.is_none(), "object", "{what}: object {p} is gone"),
            Some(it) => {
                let got: Vec<(String, tedium::PropertyValue)> = it.map(|(a, b)| (a.clone(), b.clone())).collect();
                for (name, v) in &got {
                    let old = b.and_then(|b| b.props.get(name)).is_some_and(|x| x.same(v));
                    let new = n.props.get(name).is_some_and(|x| x.same(v));
                    ensure!(old || new, "props", "{what}: property {name:?} of {p} is {v:?}, which was never written");
                }
                for name in b.iter().flat_map(|b| b.props.keys()) {
                    ensure!(got.iter().any(|x| x.0 == *name), "props", "{what}: property {name:?} of {p} is gone");
                }
            }
        }
        if parse_path(p).unwrap().len() != 2 {
            continue;
        }
        let have = b.map_or(0, |b| b.samples.len());
        let all = &n.samples;
        let len = match f.channel_length(&chan(p)?) {
            None => {
                ensure!(b.is_none(), "length", "{what}: channel {p} is gone");
                continue;
            }
            Some(l) => l as usize,
        };
        ensure!(len >= have && len <= all.len(), "length", "{what}: {p} has length {len}, written {have} complete and {} in all", all.len());
        let Some(t) = whole_type(all) else { continue };
        let mut lens = vec![have, have + 1, all.len(), all.len() + 2, 1];
        let mut starts = vec![0, have.saturating_sub(1), have, have + 1];
        lens.sort();
        lens.dedup();
        starts.sort();
        starts.dedup();
        for &s in &starts {
            for &l in &lens {
                with_ty!(t, T => torn_read::<T, F>(f, p, all, have, len, s, l, what)?);
            }
        }
    }
    Ok(())
}
fn torn_read<T: Sample, F: std::io::Read + std::io::Seek>(f: &mut TdmsFile<F>, p: &str, all: &[S], have: usize, len: usize, start: usize, n: usize, what: &str) -> R {
    let c = chan(p)?;
    let exp = &all[start.min(len)..(start + n).min(len).max(start.min(len))];
    let mut buf = fresh::<T>(exp, n);
    let was = buf.clone();
    let r = f.read_channel_from(&c, start as u64, &mut buf);
    let w = || format!("{what}: read {n} of {p} from {start} ({have} complete, length {len})");
    match &r {
        Ok(()) => judge(&w, exp, &buf, &r),
        Err(e) => {
            ensure!((start + n).min(len) > have, "read-error", "{}: failed with {e:?}", w());
            for (i, v) in buf.iter().enumerate() {
                let right = exp.get(i).map(|(t, k)| value::<T>(*t, *k));
                ensure!(same(v, &was[i]) || right.is_some_and(|x| same(v, &x)), "data", "{}: element {i} altered to {} by a failed read", w(), v.show());
            }
            Ok(())
        }
    }
}

pub fn pr(path: P, name: &str, v: Pv) -> WOp {
    WOp::Props { path, props: vec![(name.into(), v)] }
}
fn ca(c: &str) -> P {
    P::Chan("g".into(), c.into())
}

// ---------------------------------------------------------------- C11

pub fn c11_alphabet(t: bool) -> Vec<WOp> {
    let mut v = vec![
        data(&["a"], Ty::F64, 2, false),
        data(&["a", "b"], Ty::F64, 1, true),
        data(&["a", "b"], Ty::F64, 2, false),
        WOp::Data { chans: vec![("g".into(), "c".into()), ("h".into(), "é".into())], ty: Ty::I16, n: 3, inter: true },
        pr(ca("a"), "x", Pv::s("old")),
        pr(ca("a"), "x", Pv::s("changed")),
        pr(P::File, "y", Pv::i(7)),
    ];
    if t {
        v.push(data(&["b", "a"], Ty::F64, 2, false));
        v.push(pr(P::Group("h".into()), "z", Pv::of(Ty::Time, 3)));
        v.push(data(&["t"], Ty::Time, 2, false));
        v.push(WOp::Reopen);
    }
    v
}
/// Write `ops` and give the bytes, the models after each segment and the segment ends.
pub fn written(dev: &Dev, ops: &[WOp], m0: Model, k0: u32) -> R<(Vec<Model>, Vec<usize>, u32)> {
    let mut m = m0;
    let mut k = k0;
    let mut models = vec![m.clone()];
    let mut ends = vec![dev.len()];
    let mut f = must_open(dev, "first open")?;
    let mut i = 0;
    while i < ops.len() {
        {
            let mut w = f.writer().or_else(|e| fail("writer", format!("writer() failed: {e:?}")))?;
            while i < ops.len() && !matches!(ops[i], WOp::Reopen | WOp::Session) {
                exec_cmd!(w, &cmd(&ops[i], k)).or_else(|e| fail("write-error", format!("{:?} refused: {e:?}", ops[i])))?;
                k = effect(&ops[i], &mut m, k);
                w.sync().or_else(|e| fail("sync", format!("sync failed: {e:?}")))?;
                models.push(m.clone());
                ends.push(dev.len());
                i += 1;
            }
        }
        if i < ops.len() {
            f = must_open(dev, "reopen")?;
            i += 1;
        }
    }
    Ok((models, ends, k))
}
fn crashed(ctx: &mut Ctx, bytes: &[u8], models: &[Model], ends: &[usize], cut: usize, k: u32, deep: bool) -> R {
    let seg = ends.iter().rposition(|e| *e <= cut).unwrap_or(0);
    let base = &models[seg];
    let whole = ends[seg] == cut;
    let next = if whole { base } else { &models[seg + 1] };
    let what = format!("file cut at byte {cut} of {} (segments end at {ends:?})", bytes.len());
    ctx.note(|| what.clone());
    ctx.step();
    let dev = Dev::new(bytes[..cut].to_vec());
    let mut f = match open(&dev) {
        Err(e) => {
            ensure!(!whole, "open", "{what}: no segment is damaged but opening failed: {e:?}");
            ctx.state(&(cut - ends[seg], "refused"));
            return Ok(());
        }
        Ok(f) => f,
    };
    if whole {
        check_view(&mut f, base, &what)?;
    } else {
        check_torn(&mut f, base, next, &what)?;
    }
    // append in the same session or after opening it again
    if deep && ctx.flag() {
        f = must_open(&dev, "second open of the cut file")?;
    }
    let how = if deep { ctx.choose(4) } else { 0 };
    let appended: Vec<WOp> = match how {
        0 => vec![data(&["a"], Ty::F64, 2, false), pr(ca("a"), "x", Pv::s("appended"))],
        1 => vec![pr(P::File, "y", Pv::i(8))],
        2 => vec![data(&["a", "b"], Ty::F64, 1, true)],
        _ => vec![data(&["a", "b"], Ty::F64, 2, false), data(&["n"], Ty::I16, 1, false)],
    };
    let before = dev.bytes();
    let mut m = base.clone();
    let mut k = k;
    let mut refused = None;
    match f.writer() {
        Err(e) => refused = Some(e),
        Ok(mut w) => {
            for op in &appended {
                ctx.step();
                match exec_cmd!(w, &cmd(op, k)) {
                    Ok(()) => k = effect(op, &mut m, k),
                    Err(e) => {
                        refused = Some(e);
                        break;
                    }
                }
            }
            if refused.is_none()
                && let Err(e) = w.sync()
            {
                refused = Some(e);
            }
        }
    }
    ctx.state(&(cut - ends[seg], refused.is_some(), how));
    if let Some(e) = refused {
        ensure!(!whole, "append", "{what}: nothing is damaged but appending was refused: {e:?}");
        ensure!(dev.bytes() == before, "append", "{what}: a refused append changed the file");
        return check_torn(&mut f, base, next, &format!("{what}, after a refused append"));
    }
    // accepted: everything must be there, in the same session and after opening again
    let what = format!("{what}, after appending {appended:?}");
    let d = decode(&dev.bytes()).or_else(|e| fail("append", format!("{what}: the file is not a valid file any more: {e}")))?;
    decoded_matches(&d, &m).or_else(|e| fail("append", format!("{what}: {e}")))?;
    check_view(&mut f, &m, &what)?;
    let mut f = open(&dev).or_else(|e| fail("append", format!("{what}: can not be opened: {e:?}")))?;
    check_view(&mut f, &m, &what)
}
/// Cut at every byte of the first, the middle and the last segment and around the other ends.
pub fn cut_scaled(ctx: &mut Ctx, ops: &[WOp]) -> R {
    let dev = Dev::new(vec![]);
    let (models, ends, k) = written(&dev, ops, Model::default(), 1)?;
    let n = ends.len() - 1;
    let mut cuts: Vec<usize> = vec![];
    for i in [0, n / 2, n - 1] {
        cuts.extend(ends[i]..=ends[i + 1]);
        for j in [i.saturating_sub(1), (i + 2).min(n)] {
            cuts.extend(ends[j].saturating_sub(1)..=(ends[j] + 30).min(ends[n]));
        }
    }
    cuts.sort();
    cuts.dedup();
    let cut = *ctx.pick(&cuts);
    crashed(ctx, &dev.bytes(), &models, &ends, cut, k, false)
}
/// Cut at every byte, the samples numbered from `k`.
pub fn cut_from(ctx: &mut Ctx, ops: &[WOp], k: u32) -> R {
    let dev = Dev::new(vec![]);
    let (models, ends, k) = written(&dev, ops, Model::default(), k)?;
    let cut = ctx.choose(dev.len() + 1);
    crashed(ctx, &dev.bytes(), &models, &ends, cut, k, false)
}
pub fn c11(t: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let alpha = c11_alphabet(t);
    for (name, lo, hi, deep) in [("crash_points", 1, 2, true), ("longer", 3, if t { 4 } else { 3 }, false)] {
        let alpha: Vec<WOp> = if name == "longer" && t { c11_alphabet(false).into_iter().chain([WOp::Reopen]).collect() } else { alpha.clone() };
        let b = format!("every history of {lo}..{hi} operations over {} operations, cut at every byte; then opened, read at every interesting position, and appended to{}: {alpha:?}", alpha.len(), if deep { " in 4 ways, in the same or a new session" } else { "" });
        v.push(scenario(name, &b, move |ctx| {
            let ops = super::writing::pick_hist(ctx, &alpha, lo, hi);
            ctx.note(|| format!("{ops:?}"));
            let dev = Dev::new(vec![]);
            let (models, ends, k) = written(&dev, &ops, Model::default(), 1)?;
            let cut = ctx.choose(dev.len() + 1);
            crashed(ctx, &dev.bytes(), &models, &ends, cut, k, deep)
        }));
    }
    // appending to a file of other software, crash while appending
    v.push(scenario("foreign", "6 files of other software (both byte orders, several chunks), one append each of the alphabet, cut at every byte of the appended part", move |ctx| {
        let mut f = Foreign::new();
        let be = ctx.flag();
        match ctx.choose(3) {
            0 => f.push(&full(be, false, 2, &[("a", Ty::F64, 2)])),
            1 => f.push(&full(be, true, 3, &[("a", Ty::F64, 1), ("b", Ty::F64, 1)])),
            _ => f.push(&full(be, false, 1, &[("b", Ty::F64, 1), ("a", Ty::F64, 2)])),
        };
        let alpha = c11_alphabet(true);
        let op = alpha[ctx.choose(alpha.len() - 1)].clone();
        let dev = Dev::new(f.bytes.clone());
        let (models, ends, k) = written(&dev, &[op], f.model.clone(), f.k)?;
        let cut = f.bytes.len() + ctx.choose(dev.len() + 1 - f.bytes.len());
        crashed(ctx, &dev.bytes(), &models, &ends, cut, k, true)
    }));
    // bigger than the stream buffers, cuts around everything of interest
    v.push(scenario("large", "one small and one large segment (9..20 kB, 1 or 2 channels, both layouts), cut around every structure boundary and every 509 bytes", move |ctx| {
        let (inter, n) = (ctx.flag(), *ctx.pick(&[600usize, 1024, 1100]));
        let two = ctx.flag();
        let chans: &[&str] = if two { &["a", "b"] } else { &["a"] };
        let ops = vec![data(&["a"], Ty::F64, 3, false), data(chans, Ty::F64, n, inter), data(&["b"], Ty::F64, 2, false)];
        let dev = Dev::new(vec![]);
        let (models, ends, k) = written(&dev, &ops, Model::default(), 1)?;
        let len = dev.len();
        let mut cuts: Vec<usize> = (0..len).step_by(509).collect();
        for e in &ends {
            cuts.extend((e.saturating_sub(20)..(e + 130).min(len + 1)).step_by(if t { 1 } else { 3 }));
        }
        cuts.extend(8180..8210);
        cuts.retain(|c| *c <= len);
        cuts.sort();
        cuts.dedup();
        let cut = *ctx.pick(&cuts);
        crashed(ctx, &dev.bytes(), &models, &ends, cut, k, false)
    }));
    v
}

// ---------------------------------------------------------------- C15

pub struct Attempt {
    pub op: WOp,
    pub k: u32,
    pub ok: bool,
    pub must: bool,
}
fn apply(m: &mut Model, a: &Attempt) {
    effect(&a.op, m, a.k);
}
fn model_of<'a>(base: &Model, it: impl Iterator<Item = &'a Attempt>) -> Model {
    let mut m = base.clone();
    for a in it {
        apply(&mut m, a);
    }
    m
}
/// Offset just behind the last complete segment.
fn whole_end(b: &[u8]) -> usize {
    let mut at = 0;
    while b.len() - at >= 28 && &b[at..at + 4] == b"TDSm" {
        let be = b[at + 4] & 64 != 0;
        let x: [u8; 8] = b[at + 12..at + 20].try_into().unwrap();
        let next = if be { u64::from_be_bytes(x) } else { u64::from_le_bytes(x) };
        if next > (b.len() - at - 28) as u64 {
            break;
        }
        at += 28 + next as usize;
    }
    at
}
/// Which of the attempts are in these bytes?
fn included(b: &[u8], at: &[Attempt], what: &str) -> R<Vec<bool>> {
    let d = decode(b).or_else(|e| fail("device-error", format!("{what}: the complete segments do not form a valid file: {e}")))?;
    // every sample of these histories is a different 8 byte value: data tells by itself whether it is there
    let seen: std::collections::HashSet<(&str, &[u8])> = d.objs.iter().flat_map(|(p, o)| o.samples.iter().map(move |s| (p.as_str(), &s.1[..]))).collect();
    let there = |a: &Attempt| match &a.op {
        WOp::Data { chans, ty: Ty::F64, .. } => Some(seen.contains(&(cpath(&chans[0].0, &chans[0].1).as_str(), &canon(Ty::F64, a.k)[..]))),
        _ => None,
    };
    let known: Vec<Option<bool>> = at.iter().map(|a| if a.must { Some(true) } else { there(a) }).collect();
    let free: Vec<usize> = (0..at.len()).filter(|i| known[*i].is_none()).collect();
    // prefer to explain the file with as much as possible
    let mut last = String::new();
    for mask in (0..1u32 << free.len()).rev() {
        let inc: Vec<bool> = (0..at.len()).map(|i| known[i] == Some(true) || free.iter().position(|f| *f == i).is_some_and(|j| mask >> j & 1 == 1)).collect();
        let m = model_of(&Model::default(), at.iter().zip(&inc).filter(|x| *x.1).map(|x| x.0));
        match decoded_matches(&d, &m) {
            Ok(()) => return Ok(inc),
            Err(e) => last = e,
        }
    }
    let acked: Vec<&WOp> = at.iter().filter(|a| a.must).map(|a| &a.op).collect();
    fail("device-error", format!("{what}: the file does not hold exactly what was acknowledged ({acked:?}) and possibly some of the rest: {last}"))
}
pub fn judge_device(ctx: &mut Ctx, dev: &Dev, at: &[Attempt], what: &str) -> R<bool> {
    let b = dev.bytes();
    let end = whole_end(&b);
    let inc = included(&b[..end], at, what)?;
    let base = model_of(&Model::default(), at.iter().zip(&inc).filter(|x| *x.1).map(|x| x.0));
    let torn = end < b.len();
    let open_ends: Vec<usize> = (0..at.len()).filter(|i| !inc[*i]).collect();
    ensure!(!torn || !open_ends.is_empty(), "device-error", "{what}: {} stray bytes although everything was acknowledged", b.len() - end);
    ctx.state(&(&inc, torn, b.len() - end));
    let mut f = match open(dev) {
        Ok(f) => f,
        Err(e) => {
            ensure!(torn, "device-error", "{what}: no segment is damaged but opening fails: {e:?}");
            return Ok(false);
        }
    };
    if !torn {
        check_view(&mut f, &base, what)?;
        return Ok(true);
    }
    let mut last = Ok(());
    for i in open_ends {
        let mut next = base.clone();
        apply(&mut next, &at[i]);
        last = check_torn(&mut f, &base, &next, what);
        if last.is_ok() {
            return Ok(false);
        }
    }
    last.map(|_| false)
}
/// The file object that did the writing.
pub fn judge_live(f: &mut TdmsFile<Dev>, at: &[Attempt], what: &str) -> R {
    let live = model_of(&Model::default(), at.iter().filter(|a| a.ok));
    let must = model_of(&Model::default(), at.iter().filter(|a| a.ok && a.must));
    if must == live {
        return check_view(f, &live, what);
    }
    check_torn(f, &must, &live, what)
}
fn c15_alphabet(t: bool) -> Vec<WOp> {
    let mut v = vec![
        data(&["a"], Ty::F64, 2, false),
        data(&["a", "b"], Ty::F64, 600, true),
        pr(P::File, "y", Pv::i(7)),
        WOp::Sync,
    ];
    if t {
        v.push(data(&["a"], Ty::F64, 2500, false));
        v.push(pr(ca("a"), "s", Pv::s(&"long ".repeat(1900))));
    }
    v
}
pub fn submit(ctx: &mut Ctx, at: &mut Vec<Attempt>, op: &WOp, k: &mut u32, mut w: impl FnMut(&Cmd) -> Result<(), TdmsError>) -> bool {
    ctx.step();
    if *op == WOp::Sync {
        let r = w(&Cmd::Sync);
        if r.is_ok() {
            for a in at.iter_mut().filter(|a| a.ok) {
                a.must = true;
            }
        }
        ctx.note(|| format!("sync -> {r:?}"));
        return r.is_ok();
    }
    // every property write gets its own value so that we can tell them apart
    let op = numbered(op, *k);
    let r = w(&cmd(&op, *k));
    ctx.note(|| format!("{op:?} -> {r:?}"));
    at.push(Attempt { op: op.clone(), k: *k, ok: r.is_ok(), must: false });
    *k = effect(&op, &mut Model::default(), *k) + 1;
    r.is_ok()
}
/// Give properties their numbered value before the call too.
pub fn numbered(op: &WOp, k: u32) -> WOp {
    let mut op = op.clone();
    if let WOp::Props { props, .. } = &mut op {
        for p in props {
            if let Pv::Fixed(Ty::I32, _) = p.1 {
                p.1 = Pv::i(k as i32);
            }
        }
    }
    op
}
fn is_fault_of_interest(kind: usize) -> &'static str {
    ["once", "forever", "zero", "partial then once", "partial then forever"][kind]
}
fn device_fault(ctx: &mut Ctx, ops: &[WOp], react: &[usize], ends: &[usize]) -> R {
    device_faults(ctx, ops, react, ends, false, false)
}
/// `few`: cuts in the first segment concerned only. `brief`: plain errors and a final sync only.
fn device_faults(ctx: &mut Ctx, ops: &[WOp], react: &[usize], ends: &[usize], few: bool, brief: bool) -> R {
    // the clean run tells which stream operations there are
    let clean = Dev::new(vec![]);
    clean.log_start();
    {
        let mut f = must_open(&clean, "first open")?;
        let mut k = 1;
        let mut w = f.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
        for op in ops {
            let op = numbered(op, k);
            exec_cmd!(w, &cmd(&op, k)).or_else(|e| fail("write-error", format!("{op:?} refused: {e:?}")))?;
            k = effect(&op, &mut Model::default(), k) + 1;
        }
    }
    let counts = clean.counts();
    let log = clean.log_take();
    let d = decode(&clean.bytes()).or_else(|e| fail("conformance", e))?;
    let (nw, nf) = (counts[Class::Write as usize], counts[Class::Flush as usize]);
    if nw + nf == 0 {
        return Ok(());
    }
    let which = ctx.choose(nw + nf);
    let (class, idx) = if which < nw { (Class::Write, which) } else { (Class::Flush, which - nw) };
    let mut cuts = vec![];
    if class == Class::Write {
        let (off, len) = log.iter().filter_map(|o| if let Op::Write { off, len } = o { Some((*off as usize, *len)) } else { None }).nth(idx).unwrap();
        // the first segment of the transfer in full detail, of the others only the ends when there are many
        let first = d.segs.iter().position(|s| s.end > off + 1);
        for (i, s) in d.segs.iter().enumerate() {
            if few && Some(i) != first {
                continue;
            }
            for c in [s.start + 1, s.start + 4, s.start + 27, s.start + 28, s.start + 29, s.raw.saturating_sub(1), s.raw, s.raw + 1, s.raw + 8, s.end - 1, s.end] {
                if c > off && c < off + len {
                    cuts.push(c - off);
                }
            }
        }
        cuts.extend([1, len / 2, len - 1]);
        cuts.retain(|c| *c > 0 && *c < len);
        cuts.sort();
        cuts.dedup();
    }
    let kind = ctx.choose(if brief || class == Class::Flush { 2 } else if cuts.is_empty() { 3 } else { 5 });
    let fault = match kind {
        0 => Fault::Once(ErrorKind::Other),
        1 => Fault::Forever(ErrorKind::StorageFull),
        2 => Fault::Zero,
        3 => Fault::PartialThenOnce(*ctx.pick(&cuts)),
        _ => Fault::PartialThenForever(*ctx.pick(&cuts)),
    };
    // 0 go on regardless, 1 repair the device and go on, 2 repair and try again in the same
    // session, 3 repair and try again in a new session, 4 give up, repair while the writer is
    // still there, 5 give up, repair afterwards, 6 as 3 but repair only after the writer is gone
    let react = *ctx.pick(react);
    // 0 nothing, 1 sync at the end
    let last = if ops.last() == Some(&WOp::Sync) { 0 } else if brief { 1 } else { ctx.choose(2) };
    let end = *ctx.pick(ends);
    let mut ops = ops.to_vec();
    if last == 1 {
        ops.push(WOp::Sync);
    }
    let what = format!("{} at {class:?} {idx} ({fault:?}), reaction {react}", is_fault_of_interest(kind));
    ctx.note(|| what.clone());
    let dev = Dev::new(vec![]);
    let mut f = must_open(&dev, "first open")?;
    dev.reset_counters();
    dev.fault(class, idx, fault);
    let mut at: Vec<Attempt> = vec![];
    let mut k = 1;
    let mut i = 0;
    let mut tries = 0;
    let mut gone = false;
    while i < ops.len() && !gone {
        let mut w = match f.writer() {
            Ok(w) => w,
            Err(e) => {
                ctx.note(|| format!("writer() -> {e:?}"));
                break;
            }
        };
        while i < ops.len() {
            if submit(ctx, &mut at, &ops[i], &mut k, |c| exec_cmd!(w, c)) {
                i += 1;
                continue;
            }
            match react {
                0 => i += 1,
                1 => {
                    dev.heal();
                    i += 1;
                }
                2 => {
                    dev.heal();
                    tries += 1;
                    if tries > 2 {
                        i += 1;
                        tries = 0;
                    }
                }
                3 | 6 => {
                    if react == 3 {
                        dev.heal();
                    }
                    tries += 1;
                    if tries > 2 {
                        i = ops.len();
                    }
                    break;
                }
                _ => {
                    gone = true;
                    break;
                }
            }
        }
        if react == 4 {
            dev.heal();
        }
        drop(w);
        dev.heal();
    }
    dev.heal();
    judge_live(&mut f, &at, &format!("live file after {what}"))?;
    let fine = judge_device(ctx, &dev, &at, &format!("file after {what}"))?;
    go_on(ctx, f, &dev, &mut at, k, end, fine, &what)
}
/// Write more: `end` 0 no, 1 through the same file object, 2 after opening again. `fine`: nothing is
/// damaged in the file.
#[allow(clippy::too_many_arguments)]
pub fn go_on(ctx: &mut Ctx, f: TdmsFile<Dev>, dev: &Dev, at: &mut Vec<Attempt>, k: u32, end: usize, fine: bool, what: &str) -> R {
    if end == 0 {
        return Ok(());
    }
    let mut f = if end == 1 {
        f
    } else {
        match open(dev) {
            Ok(f) => f,
            Err(_) => return Ok(()),
        }
    };
    // a live file may have lost what was not synced when the device failed; it may refuse, but
    // a newly opened file with nothing damaged may not
    let before = dev.bytes();
    let more = [data(&["a"], Ty::F64, 1, false), pr(P::File, "y", Pv::i(0)), WOp::Sync];
    let mut accepted = true;
    match f.writer() {
        Err(e) => {
            ensure!(!(fine && end == 2), "device-error", "intact file refuses a writer after {what}: {e:?}");
            ensure!(dev.bytes() == before, "device-error", "a refused writer changed the file after {what}");
            accepted = false;
        }
        Ok(mut w) => {
            if end == 2 {
                // what the new file shows is what is on the device
                let b = dev.bytes();
                let inc = included(&b[..whole_end(&b)], at, what)?;
                for (a, i) in at.iter_mut().zip(inc) {
                    a.ok = i;
                }
            }
            let mut kk = k + 7;
            for op in &more {
                if !submit(ctx, at, op, &mut kk, |c| exec_cmd!(w, c)) {
                    accepted = false;
                    break;
                }
            }
        }
    }
    if accepted {
        judge_live(&mut f, at, &format!("live file after {what} and an accepted append"))?;
    }
    let ok = judge_device(ctx, dev, at, &format!("file after {what} and another append (accepted: {accepted})"))?;
    ensure!(!accepted || ok, "device-error", "after {what} an append was acknowledged but the file can not be read back");
    Ok(())
}
pub fn c15(t: bool) -> Vec<Scenario> {
    let mut v = vec![];
    let small = c15_alphabet(false);
    let big = c15_alphabet(true);
    let alpha = if t { big.clone() } else { small.clone() };
    let (all, ends): (&[usize], &[usize]) = (&[0, 1, 2, 3, 4, 5, 6], &[0, 1, 2]);
    v.push(scenario("faults", &format!("every history of 1..3 calls over {} calls (up to 3 stream buffers of data), every write and flush of the device failing once, for good, with nothing accepted, or after accepting part of it (cut at every structure boundary), 7 reactions of the application, with and without a final sync, three ways to go on: {alpha:?}", alpha.len()), move |ctx| {
        let ops = super::writing::pick_hist(ctx, &alpha, 1, 3);
        device_fault(ctx, &ops, all, ends)
    }));
    let alpha = if t { small.clone() } else { vec![data(&["a"], Ty::F64, 2, false), data(&["a"], Ty::F64, 1100, false), WOp::Sync] };
    v.push(scenario("longer", &format!("histories of {} calls over {alpha:?}", if t { "4" } else { "4" }), move |ctx| {
        let ops = super::writing::pick_hist(ctx, &alpha, 4, 4);
        device_fault(ctx, &ops, &[1, 2, 3], &[1, 2])
    }));
    // single large values
    v.push(scenario("large_values", "a property value larger than the stream buffer between two small writes, every fault", move |ctx| {
        let n = *ctx.pick(&[8150usize, 8192, 9000, 20000]);
        let mut ops = vec![data(&["a"], Ty::F64, 2, false), pr(ca("a"), "s", Pv::s(&"x".repeat(n))), data(&["a"], Ty::F64, 2, false), WOp::Sync];
        if ctx.flag() {
            ops.insert(1, WOp::Sync);
        }
        device_fault(ctx, &ops, all, ends)
    }));
    v.push(scenario("many_writes", &format!("{} writes (2 or 300 values; same list or two taking turns; with a sync after none, each, or each 7th), the device failing at each write or flush in every way (cut at every structure boundary of the first segment concerned), reactions 1 and 3", if t { "5 to 129" } else { "5 to 33" }), move |ctx| {
        let n = *ctx.pick(if t { &[5usize, 8, 9, 16, 17, 32, 33, 64, 65, 128, 129][..] } else { &[5usize, 8, 9, 16, 17, 33][..] });
        let big = *ctx.pick(&[2usize, 300]);
        let turns = ctx.flag();
        let every = *ctx.pick(&[0usize, 1, 7]);
        if n > 33 && every == 1 {
            return Ok(());
        }
        let mut ops = vec![];
        for i in 0..n {
            ops.push(data(if turns && i % 2 == 1 { &["b"] } else { &["a"] }, Ty::F64, big, false));
            if every > 0 && (i + 1) % every == 0 {
                ops.push(WOp::Sync);
            }
        }
        device_faults(ctx, &ops, &[1, 3], &[2], true, false)
    }));
    let types = [Ty::Bool, Ty::I8, Ty::U8, Ty::I16, Ty::U16, Ty::I32, Ty::U32, Ty::I64, Ty::U64, Ty::F32, Ty::F64, Ty::Ext, Ty::Time, Ty::C32, Ty::C64];
    v.push(scenario("types", "20000 bytes of each of 15 types in 1..2 channels between two small writes, the device failing at each write or flush, once or for good, reactions 0, 1 and 3", move |ctx| {
        let ty = *ctx.pick(&types);
        let n = 20000 / ty.size();
        let big = if ctx.flag() { data(&["a"], ty, n, false) } else { data(&["a", "b"], ty, n / 2, true) };
        device_faults(ctx, &[data(&["z"], Ty::I16, 1, false), big, data(&["z"], Ty::I16, 1, false)], &[0, 1, 3], &[2], true, true)
    }));
    // where the buffer of the writer is full
    let span = if t { 420 } else { 300 };
    v.push(scenario("boundaries", &format!("a segment that ends 0..{span} bytes before 8192 bytes (the buffer of the writer) and one with metadata and data or properties of every type behind it, so that the device fails at each byte of it, once or for good, reactions 0 and 3"), move |ctx| {
        let gap = ctx.choose(span);
        // lead in 28, metadata 4 + (4 + 8) + 20 + 4
        let first = data(&["z"], Ty::U8, 8192 - 68 - gap, false);
        let second = if ctx.flag() {
            data(&["a", "b"], Ty::F64, 3, false)
        } else {
            WOp::Props { path: ca("a"), props: FIXED.iter().filter(|t| t.natural() == **t && !matches!(t, Ty::Ext)).map(|t| (format!("{t:?}"), Pv::of(*t, 7))).chain([("s".to_string(), Pv::s("text")), ("v".to_string(), Pv::Void), ("w".to_string(), Pv::Void)]).collect() }
        };
        device_faults(ctx, &[first, second], &[0, 3], &[2], true, true)
    }));
    // every position of a partial write
    v.push(scenario("every_byte", "a write of two small segments, accepted up to every byte, 7 reactions", move |ctx| {
        let synced = ctx.flag();
        let mut ops = vec![data(&["a"], Ty::F64, 1, false)];
        if synced {
            ops.push(WOp::Sync);
        }
        ops.push(data(&["a"], Ty::F64, 2, false));
        ops.push(pr(P::File, "y", Pv::i(1)));
        ops.push(WOp::Sync);
        let clean = Dev::new(vec![]);
        run(&mut Ctx::new(vec![], false), &clean, &ops, no_view)?;
        let total = clean.len();
        let n = 1 + ctx.choose(total - 1);
        let forever = ctx.flag();
        let react = ctx.choose(7);
        let dev = Dev::new(vec![]);
        let mut f = must_open(&dev, "first open")?;
        let mut at = vec![];
        let mut k = 1;
        {
            let first = ctx.flag();
            dev.reset_counters();
            let idx = if synced && first { 1 } else { 0 };
            dev.fault(Class::Write, idx, if forever { Fault::PartialThenForever(n) } else { Fault::PartialThenOnce(n) });
        }
        let what = format!("device accepting {n} bytes");
        let mut w = f.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
        for op in &ops {
            if !submit(ctx, &mut at, op, &mut k, |c| exec_cmd!(w, c)) {
                match react {
                    0 => {}
                    1 => dev.heal(),
                    2 => {
                        dev.heal();
                        submit(ctx, &mut at, &op, &mut k, |c| exec_cmd!(w, c));
                    }
                    3 => {
                        submit(ctx, &mut at, &op, &mut k, |c| exec_cmd!(w, c));
                        dev.heal();
                    }
                    _ => break,
                }
            }
        }
        if react == 4 {
            dev.heal();
        }
        drop(w);
        dev.heal();
        judge_live(&mut f, &at, &format!("live file after {what}"))?;
        judge_device(ctx, &dev, &at, &format!("file after {what}"))?;
        if react == 5 {
            let ok = match f.writer() {
                Ok(mut w) => {
                    let op = data(&["a"], Ty::F64, 3, false);
                    submit(ctx, &mut at, &op, &mut k, |c| exec_cmd!(w, c)) && submit(ctx, &mut at, &WOp::Sync, &mut k, |c| exec_cmd!(w, c))
                }
                Err(_) => false,
            };
            let fine = judge_device(ctx, &dev, &at, &format!("file after {what} and another append"))?;
            ensure!(!ok || fine, "device-error", "after {what} an append was acknowledged but the file can not be read back");
        }
        Ok(())
    }));
    v
}

