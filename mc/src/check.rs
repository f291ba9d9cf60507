//! Comparing what the library shows with the reference model.
use crate::dev::Dev;
use crate::explore::*;
use crate::spec::*;
use crate::types::*;
use crate::{bail, ensure, with_ty};
use std::io::{Read, Seek};
use tedium::{ChannelPath, PropertyPath, TdmsError, TdmsFile};

pub fn open(dev: &Dev) -> Result<TdmsFile<Dev>, TdmsError> {
    TdmsFile::new(dev.again())
}
pub fn must_open(dev: &Dev, what: &str) -> R<TdmsFile<Dev>> {
    open(dev).or_else(|e| fail("open", format!("{what}: open failed: {e:?}")))
}
/// The channel path of a model object (goes through the library's own parser and constructor).
pub fn chan(p: &str) -> R<ChannelPath> {
    ChannelPath::try_from(p).or_else(|e| fail("path", format!("channel path {p} not accepted: {e:?}")))
}
pub fn prop_path(p: &str) -> R<PropertyPath> {
    PropertyPath::try_from(p).or_else(|e| fail("path", format!("object path {p} not accepted: {e:?}")))
}

/// A buffer that differs from the expected data everywhere, and a description of its tail.
pub fn fresh<T: Sample>(exp: &[S], len: usize) -> Vec<T> {
    (0..len).map(|i| match exp.get(i) {
        Some((t, k)) if supports(T::TY, *t) => poisoned::<T>(*t, *k),
        _ => tail::<T>(i),
    }).collect()
}
pub fn tail<T: Sample>(i: usize) -> T {
    value::<T>(T::TY, 0x00DE_AD00 + i as u32)
}
fn slice(all: &[S], start: u64, len: usize) -> &[S] {
    let a = (start.min(all.len() as u64)) as usize;
    let b = (a + len).min(all.len());
    &all[a..b]
}
pub fn readable<T: Sample>(exp: &[S]) -> bool {
    exp.iter().all(|(t, _)| supports(T::TY, *t))
}

thread_local! {
    static IO: std::cell::Cell<Option<u32>> = const { std::cell::Cell::new(None) };
}
/// Run checks in which a read may also fail because the stream does: the buffers are still judged.
/// Gives true if every read succeeded.
pub fn allowing_io(f: impl FnOnce() -> R) -> R<bool> {
    // also when a panic passes through
    struct Reset;
    impl Drop for Reset {
        fn drop(&mut self) {
            IO.with(|x| x.take());
        }
    }
    let _reset = Reset;
    IO.with(|x| x.set(Some(0)));
    let r = f();
    let n = IO.with(|x| x.take());
    r.map(|_| n == Some(0))
}
fn io_failure() -> bool {
    IO.with(|x| match x.get() {
        Some(n) => {
            x.set(Some(n + 1));
            true
        }
        None => false,
    })
}

/// Judge one filled buffer. `r` is the result of the call.
pub fn judge<T: Sample>(what: &dyn Fn() -> String, exp: &[S], buf: &[T], r: &Result<(), TdmsError>) -> R {
    let ok = readable::<T>(exp);
    match r {
        Ok(()) => {
            if !ok {
                bail!("type", "{}: succeeded although the stored type {:?} is not readable as {:?}", what(), exp.iter().find(|s| !supports(T::TY, s.0)).unwrap().0, T::TY);
            }
            for (i, (t, k)) in exp.iter().enumerate() {
                let e = value::<T>(*t, *k);
                ensure!(same(&buf[i], &e), "data", "{}: element {i} is {}, expected {} (sample #{k})", what(), buf[i].show(), e.show());
            }
        }
        Err(e) => {
            if ok && !io_failure() {
                bail!("read-error", "{}: failed with {e:?}", what());
            }
            // what is there must be the value that belongs there, or untouched
            for (i, (t, k)) in exp.iter().enumerate() {
                if supports(T::TY, *t) {
                    ensure!(same(&buf[i], &value::<T>(*t, *k)) || same(&buf[i], &poisoned::<T>(*t, *k)), "data", "{}: element {i} altered to {} by a failed read", what(), buf[i].show());
                } else {
                    ensure!(same(&buf[i], &tail::<T>(i)), "data", "{}: element {i} altered by a failed read", what());
                }
            }
        }
    }
    for (i, v) in buf.iter().enumerate().skip(exp.len()) {
        ensure!(same(v, &tail::<T>(i)), "tail", "{}: element {i} behind the last available sample was altered to {}", what(), v.show());
    }
    Ok(())
}
pub fn same<T: Sample>(a: &T, b: &T) -> bool {
    a.eq(b)
}

/// One single-channel read, compared with the model's samples of the channel.
pub fn check_read<T: Sample, F: Read + Seek>(f: &mut TdmsFile<F>, p: &str, all: &[S], start: u64, len: usize) -> R {
    let exp = slice(all, start, len);
    let mut buf = fresh::<T>(exp, len);
    let c = chan(p)?;
    let r = if start == 0 { f.read_channel(&c, &mut buf) } else { f.read_channel_from(&c, start, &mut buf) };
    if exp.is_empty() && r.is_err() && !readable::<T>(all) {
        // nothing to deliver, but the channel is not of this type: refusing is as good as doing nothing
        for (i, v) in buf.iter().enumerate() {
            ensure!(same(v, &tail::<T>(i)), "tail", "read {len} of {p} from {start}: element {i} altered by a refused read");
        }
        return Ok(());
    }
    judge(&|| format!("read {len} of {p} as {:?} from {start} (channel has {})", T::TY, all.len()), exp, &buf, &r)
}

/// One multi-channel read. `req`: (path, buffer length).
pub fn check_multi<T: Sample, F: Read + Seek>(f: &mut TdmsFile<F>, m: &Model, req: &[(String, usize)], start: u64) -> R {
    let mut exps = vec![];
    let mut bufs: Vec<Vec<T>> = vec![];
    let mut paths = vec![];
    for (p, len) in req {
        let exp = slice(&m.objs[p].samples, start, *len);
        bufs.push(fresh::<T>(exp, *len));
        exps.push(exp);
        paths.push(chan(p)?);
    }
    let r = {
        let mut outs: Vec<&mut [T]> = bufs.iter_mut().map(|b| &mut b[..]).collect();
        if start == 0 { f.read_channels(&paths, &mut outs) } else { f.read_channels_from(&paths, start, &mut outs) }
    };
    let ok = exps.iter().all(|e| readable::<T>(e));
    match &r {
        Ok(()) => ensure!(ok, "type", "multi read {req:?} from {start} as {:?} succeeded on an unsupported stored type", T::TY),
        Err(e) => ensure!(!ok || io_failure(), "read-error", "multi read {req:?} from {start}: failed with {e:?}"),
    }
    for (i, (exp, buf)) in exps.iter().zip(&bufs).enumerate() {
        let what = || format!("multi read {req:?} from {start} as {:?}, buffer {i} ({})", T::TY, req[i].0);
        if r.is_ok() {
            judge(&what, exp, buf, &r)?;
        } else {
            let before = fresh::<T>(exp, buf.len());
            for (j, v) in buf.iter().enumerate() {
                let was = before[j].clone();
                let right = exp.get(j).filter(|s| supports(T::TY, s.0)).map(|(t, k)| value::<T>(*t, *k));
                ensure!(same(v, &was) || right.is_some_and(|x| same(v, &x)), "data", "{}: element {j} altered by a failed read", what());
            }
        }
    }
    Ok(())
}

/// The storage type that can read the whole channel, if there is one.
pub fn whole_type(samples: &[S]) -> Option<Ty> {
    let t = samples.first()?.0;
    if t == Ty::Str {
        return None;
    }
    let mut cands = vec![t.natural()];
    cands.push(Ty::Bool);
    cands.into_iter().find(|c| samples.iter().all(|s| supports(*c, s.0)))
}

/// Everything observable through an open file except sample data.
pub fn check_meta<F: Read + Seek>(f: &TdmsFile<F>, m: &Model, what: &str) -> R {
    let groups: Vec<String> = f.list_groups().map(|s| s.to_string()).collect();
    let mut sorted = groups.clone();
    sorted.sort();
    ensure!(sorted == m.groups(), "groups", "{what}: groups listed {groups:?}, expected {:?}", m.groups());
    for g in m.groups() {
        let gp = prop_path(&format!("/'{g}'"))?;
        let mut got: Vec<String> = f.list_channels_in_group(&gp).map(|c| c.path().to_string()).collect();
        got.sort();
        let mut want = m.channels_of(&g);
        want.sort();
        ensure!(got == want, "channels", "{what}: channels of {g} listed {got:?}, expected {want:?}");
    }
    let mut others: Vec<&str> = vec!["no such property"];
    for n in m.objs.values().flat_map(|o| o.props.keys()) {
        if others.len() > 6 {
            break;
        }
        if !others.contains(&n.as_str()) {
            others.push(n);
        }
    }
    others.retain(|n| *n != "no such property" || !m.objs.values().any(|o| o.props.contains_key(*n)));
    for (p, o) in &m.objs {
        let pp = prop_path(p)?;
        let Some(it) = f.read_all_properties(&pp) else { bail!("object", "{what}: object {p} is missing") };
        let got: Vec<(String, tedium::PropertyValue)> = it.map(|(a, b)| (a.clone(), b.clone())).collect();
        let mut names: Vec<&String> = got.iter().map(|x| &x.0).collect();
        names.sort();
        let want: Vec<&String> = o.props.keys().collect();
        ensure!(names == want, "props", "{what}: {p} lists properties {names:?}, expected {want:?}");
        for (n, v) in &got {
            ensure!(o.props[n].same(v), "props", "{what}: property {n:?} of {p} is {v:?}, expected {:?}", o.props[n]);
        }
        for (n, v) in &o.props {
            match f.read_property(&pp, n) {
                Ok(Some(x)) => ensure!(v.same(x), "props", "{what}: property {n:?} of {p} reads as {x:?}, expected {v:?}"),
                r => bail!("props", "{what}: property {n:?} of {p} reads as {r:?}, expected {v:?}"),
            }
        }
        // names that other objects have, and one that none has
        for n in others.iter().filter(|n| !o.props.contains_key(**n)) {
            match f.read_property(&pp, n) {
                Ok(None) => {}
                r => bail!("props", "{what}: {p} has no property {n:?} but asking for it gives {r:?}"),
            }
        }
        if parse_path(p).unwrap().len() == 2 {
            let got = f.channel_length(&chan(p)?);
            ensure!(got == Some(o.samples.len() as u64), "length", "{what}: length of {p} is {got:?}, expected {}", o.samples.len());
        }
    }
    let nope = PropertyPath::channel("no such group", "x");
    ensure!(f.read_all_properties(&nope).is_none() || m.objs.contains_key(nope.path()), "object", "{what}: an unknown object has properties");
    ensure!(matches!(f.read_property(&nope, "x"), Err(TdmsError::MissingObject(_))), "object", "{what}: property of an unknown object is not reported missing");
    ensure!(f.channel_length(&ChannelPath::new("no such group", "x")).is_none(), "length", "{what}: an unknown channel has a length");
    ensure!(f.list_channels_in_group(&PropertyPath::group("no such group")).count() == 0, "channels", "{what}: an unknown group has channels");
    Ok(())
}

/// All sample data: one full read per channel with room to spare.
pub fn check_data<F: Read + Seek>(f: &mut TdmsFile<F>, m: &Model, what: &str) -> R {
    let ctx = |e: Fail| Fail { key: e.key, msg: format!("{what}: {}", e.msg) };
    for (p, o) in &m.objs {
        if parse_path(p).unwrap().len() != 2 {
            continue;
        }
        let n = o.samples.len();
        if o.samples.iter().any(|s| s.0 == Ty::Str) {
            continue;
        }
        match whole_type(&o.samples) {
            Some(t) => with_ty!(t, T => check_read::<T, F>(f, p, &o.samples, 0, n + 2).map_err(ctx)?),
            None => {
                check_read::<f64, F>(f, p, &o.samples, 0, n + 2).map_err(ctx)?;
                // mixed types: read the runs one by one
                let mut i = 0;
                while i < n {
                    let t = o.samples[i].0;
                    let j = (i..n).find(|j| o.samples[*j].0 != t).unwrap_or(n);
                    with_ty!(t, T => check_read::<T, F>(f, p, &o.samples, i as u64, j - i).map_err(ctx)?);
                    i = j;
                }
            }
        }
    }
    let mut b = [0f64; 1];
    ensure!(f.read_channel(&ChannelPath::new("no such group", "x"), &mut b).is_err(), "object", "{what}: reading an unknown channel succeeded");
    Ok(())
}
pub fn check_view<F: Read + Seek>(f: &mut TdmsFile<F>, m: &Model, what: &str) -> R {
    check_meta(f, m, what)?;
    check_data(f, m, what)
}
