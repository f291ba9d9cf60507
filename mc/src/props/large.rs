//! C23: positions, lengths and counts beyond 32 bits.
use crate::check::*;
use crate::explore::*;
use crate::sparse::*;
use crate::spec::*;
use crate::types::*;
use crate::{bail, ensure, with_ty};
use tedium::{ChannelPath, DataLayout, PropertyPath, PropertyValue, TdmsFile};

const G2: u64 = 1 << 31;
const G4: u64 = 1 << 32;

#[derive(Clone, Debug)]
struct BSeg {
    be: bool,
    inter: bool,
    chunks: u64,
    chans: Vec<(&'static str, Ty, u64)>,
    raw: u64,
}
impl BSeg {
    fn chunk(&self) -> u64 {
        self.chans.iter().map(|(_, t, n)| t.size() as u64 * n).sum()
    }
}
/// A file of large segments, and the samples written behind it since.
#[derive(Default)]
struct Big {
    segs: Vec<BSeg>,
    tail: Vec<(&'static str, Ty, u32)>,
}
fn bseg(be: bool, inter: bool, chunks: u64, chans: &[(&'static str, Ty, u64)]) -> BSeg {
    BSeg { be, inter, chunks, chans: chans.to_vec(), raw: 0 }
}
impl Big {
    /// Lays down the segment; `meta` off continues the last one without metadata.
    fn push(&mut self, dev: &Sparse, mut s: BSeg, meta: bool) {
        let objs: Vec<SObj> = s.chans.iter().map(|(c, t, n)| SObj { path: ch(c), idx: Idx::Full(*t, *n), props: vec![("at".into(), Pv::i(self.segs.len() as i32))] }).collect();
        let m = if meta { encode_meta(&objs, s.be) } else { vec![] };
        let toc = (meta as u32) << 1 | (meta as u32) << 2 | 1 << 3 | (s.inter as u32) << 5 | (s.be as u32) << 6;
        let bytes = s.chunk() * s.chunks;
        dev.put(&lead_in(s.be, toc, 4713, m.len() as u64 + bytes, m.len() as u64));
        dev.put(&m);
        s.raw = dev.len();
        dev.skip(bytes);
        self.segs.push(s);
    }
    fn len(&self, c: &str) -> u64 {
        self.segs.iter().flat_map(|s| s.chans.iter().filter(|x| x.0 == c).map(|x| x.2 * s.chunks)).sum::<u64>() + self.tail.iter().filter(|x| x.0 == c).count() as u64
    }
    /// Canonical bytes of sample i.
    fn sample(&self, c: &str, mut i: u64) -> Option<(Ty, Vec<u8>)> {
        for s in &self.segs {
            let Some(k) = s.chans.iter().position(|x| x.0 == c) else { continue };
            let (_, t, n) = s.chans[k];
            if i >= n * s.chunks {
                i -= n * s.chunks;
                continue;
            }
            let (chunk, j) = (i / n, i % n);
            let base = s.raw + chunk * s.chunk();
            let at = if s.inter {
                let row: u64 = s.chans.iter().map(|x| x.1.size() as u64).sum();
                base + j * row + s.chans[..k].iter().map(|x| x.1.size() as u64).sum::<u64>()
            } else {
                base + s.chans[..k].iter().map(|x| x.1.size() as u64 * x.2).sum::<u64>() + j * t.size() as u64
            };
            return Some((t, sample_at(t, at, s.be)));
        }
        self.tail.iter().filter(|x| x.0 == c).nth(i as usize).map(|(_, t, k)| (*t, canon(*t, *k)))
    }
    /// Sample numbers of a channel worth reading around.
    fn points(&self, c: &str) -> Vec<u64> {
        let mut v = vec![0, G2, G4, self.len(c)];
        let mut base = 0;
        for s in &self.segs {
            let Some(k) = s.chans.iter().position(|x| x.0 == c) else { continue };
            let (_, t, n) = s.chans[k];
            let mut near = |x: u64| v.push(base + x.min(n * s.chunks));
            near(0);
            near(n);
            near(n * (s.chunks / 2));
            near(n * s.chunks / 2);
            // where the byte position (absolute, or inside the block) passes 2^31, 2^32
            for limit in [G2, G4] {
                for origin in [0, s.raw] {
                    let off = (origin + limit).saturating_sub(s.raw);
                    let per = if s.inter { s.chans.iter().map(|x| x.1.size() as u64).sum() } else { t.size() as u64 };
                    let skip: u64 = if s.inter { 0 } else { s.chans[..k].iter().map(|x| x.1.size() as u64 * x.2).sum() };
                    let (chunk, rest) = (off / s.chunk(), off % s.chunk());
                    near(chunk.min(s.chunks) * n + (rest.saturating_sub(skip) / per).min(n));
                }
            }
            near(n * s.chunks);
            base += n * s.chunks;
        }
        let mut w: Vec<u64> = v.iter().flat_map(|x| [x.saturating_sub(2), x.saturating_sub(1), *x, x + 1]).filter(|x| *x <= self.len(c) + 1).collect();
        w.sort();
        w.dedup();
        w
    }
}
fn ch(c: &str) -> String {
    cpath("g", c)
}
fn spoil<T: Sample>(b: &[u8]) -> T {
    let x: Vec<u8> = b.iter().enumerate().map(|(i, v)| v ^ 0xA5u8.wrapping_add(i as u8)).collect();
    T::from_canon(&x)
}
fn buffer<T: Sample>(b: &Big, c: &str, start: u64, len: usize) -> Vec<T> {
    (0..len).map(|i| match b.sample(c, start.saturating_add(i as u64)) {
        Some((t, x)) if t.natural() == T::TY => spoil::<T>(&x),
        _ => tail::<T>(i),
    }).collect()
}
fn judge_big<T: Sample>(b: &Big, c: &str, start: u64, buf: &[T], what: &str) -> R {
    for (i, v) in buf.iter().enumerate() {
        match b.sample(c, start.saturating_add(i as u64)) {
            Some((_, x)) => ensure!(same(v, &T::from_canon(&x)), "data", "{what}: element {i} of {c} from {start} is {}, expected {x:x?}", v.show()),
            None => ensure!(same(v, &tail::<T>(i)), "tail", "{what}: element {i} of {c} from {start} (behind the end) was altered to {}", v.show()),
        }
    }
    Ok(())
}
fn read_big<T: Sample>(f: &mut TdmsFile<Sparse>, b: &Big, c: &str, start: u64, len: usize, what: &str) -> R {
    let mut buf = buffer::<T>(b, c, start, len);
    let r = f.read_channel_from(&ChannelPath::new("g", c), start, &mut buf);
    if let Err(e) = r {
        bail!("read-error", "{what}: reading {len} of {c} from {start} failed: {e:?}");
    }
    judge_big(b, c, start, &buf, what)
}
fn multi_big<T: Sample>(f: &mut TdmsFile<Sparse>, b: &Big, req: &[(&'static str, usize)], start: u64, what: &str) -> R {
    let paths: Vec<ChannelPath> = req.iter().map(|x| ChannelPath::new("g", x.0)).collect();
    let mut bufs: Vec<Vec<T>> = req.iter().map(|(c, n)| buffer::<T>(b, c, start, *n)).collect();
    let r = {
        let mut outs: Vec<&mut [T]> = bufs.iter_mut().map(|x| &mut x[..]).collect();
        f.read_channels_from(&paths, start, &mut outs)
    };
    if let Err(e) = r {
        bail!("read-error", "{what}: reading {req:?} from {start} failed: {e:?}");
    }
    for ((c, _), buf) in req.iter().zip(&bufs) {
        judge_big(b, c, start, buf, what)?;
    }
    Ok(())
}
fn open_big(ctx: &mut Ctx, dev: &Sparse, b: &Big) -> R<TdmsFile<Sparse>> {
    ctx.state(&dev.digest());
    ctx.step();
    let f = TdmsFile::new(dev.again()).or_else(|e| fail("open", format!("open failed: {e:?}")))?;
    lengths(&f, b)?;
    Ok(f)
}
fn lengths(f: &TdmsFile<Sparse>, b: &Big) -> R {
    for c in ["a", "b", "c"] {
        let known = b.segs.iter().any(|s| s.chans.iter().any(|x| x.0 == c)) || b.tail.iter().any(|x| x.0 == c);
        let got = f.channel_length(&ChannelPath::new("g", c));
        let want = known.then(|| b.len(c));
        ensure!(got == want, "length", "length of {c} is {got:?}, expected {want:?}");
        // properties come from the last segment that has metadata for the object
        if let Some(i) = b.segs.iter().rposition(|s| s.chans.iter().any(|x| x.0 == c)) {
            let got = f.read_property(&PropertyPath::channel("g", c), "at").ok().flatten().cloned();
            ensure!(got == Some(PropertyValue::I32(i as i32)), "props", "property of {c} is {got:?}, expected {i}");
        }
    }
    Ok(())
}

/// (values per chunk, chunks) of a channel of this sample size, around the places where 32 bits end.
fn sizes(t: Ty, tier: bool) -> Vec<(u64, u64)> {
    let z = t.size() as u64;
    let mut v = vec![];
    for lim in [G2, G4] {
        for d in [-1i64, 0, 1] {
            let x = lim.wrapping_add(d as u64);
            v.push((x, 1)); // sample count
            v.push((1, x)); // chunk count
            v.push((lim / z + (d + 1) as u64, 1)); // bytes
            v.push((3, lim / z / 3 + (d + 1) as u64));
        }
        v.push((lim - 1, 3));
        v.push((lim + 1, 2));
        v.push((3, lim + 1));
    }
    v.push(((1 << 16) + 1, 1 << 16));
    v.push((1 << 40, 1));
    v.push((7, 1 << 40));
    if tier {
        for d in 1..8 {
            v.push(((1 << 33) / z - 4 + d, 1));
            v.push((5, (1 << 33) / z / 5 - 4 + d));
            v.push((G4 - 4 + d, 1));
            v.push((2, G4 - 4 + d));
        }
        v.push((1 << 55, 1));
        v.push((1 << 10, 1 << 45));
    }
    v
}

fn pattern(ctx: &mut Ctx, t: Ty, o: Ty, n: u64) -> (bool, Vec<(&'static str, Ty, u64)>) {
    match ctx.choose(6) {
        0 => (false, vec![("a", t, n)]),
        1 => (false, vec![("a", t, n), ("b", o, 2)]),
        2 => (false, vec![("b", o, n), ("a", t, n)]),
        3 => (true, vec![("a", t, n)]),
        4 => (true, vec![("a", t, n), ("b", o, n)]),
        _ => (true, vec![("b", o, n), ("a", t, n)]),
    }
}

pub fn c23(thorough: bool) -> Vec<Scenario> {
    let mut v = vec![];
    v.push(scenario("one_segment", "one segment whose channel has a sample count, chunk count or byte size just below, at or above 2^31 and 2^32 (also 2^40; thorough also 2^33, 2^55), alone, before or behind another channel, both layouts and byte orders, 4 element sizes; reads of 0, 1, 2 and 5 samples at every point of interest and its neighbours", move |ctx| {
        let t = *ctx.pick(&[Ty::U8, Ty::I16, Ty::F64, Ty::Ext]);
        let o = if thorough { *ctx.pick(&[Ty::I32, Ty::Time]) } else { Ty::I32 };
        let be = ctx.flag();
        let (n, chunks) = *ctx.pick(&sizes(t, thorough));
        let (inter, chans) = pattern(ctx, t, o, n);
        ctx.note(|| format!("{chans:?} x {chunks} chunks, interleaved {inter}, big endian {be}"));
        let dev = Sparse::new();
        let mut b = Big::default();
        b.push(&dev, bseg(be, inter, chunks, &chans), true);
        let mut f = open_big(ctx, &dev, &b)?;
        for (c, ty, _) in &chans {
            for start in b.points(c) {
                for len in [0, 1, 2, 5] {
                    ctx.step();
                    with_ty!(*ty, T => read_big::<T>(&mut f, &b, c, start, len, "one segment")?);
                }
            }
            with_ty!(*ty, T => read_big::<T>(&mut f, &b, c, u64::MAX, 2, "far behind the end")?);
        }
        Ok(())
    }));
    v.push(scenario("arrangements", "every sequence of 2..3 segments of a small, a large (2^31 samples) and a very large (2^32+1 samples) kind, contiguous or interleaved, with and without repeated metadata: single and two-channel reads around every boundary", move |ctx| {
        let t = *ctx.pick(&[Ty::U8, Ty::F64]);
        let be = ctx.flag();
        let dev = Sparse::new();
        let mut b = Big::default();
        for i in 0..ctx.range(2, 3) {
            let (n, chunks) = *ctx.pick(&[(3, 2), (G2, 1), (2, G2 + 1), (G4 + 1, 1)]);
            let chans = match ctx.choose(4) {
                0 => vec![("a", t, n)],
                1 => vec![("b", t, 2), ("a", t, n)],
                2 => vec![("a", t, n), ("b", t, n)],
                _ => {
                    if i == 0 {
                        vec![("b", t, n)]
                    } else {
                        // the same again, without metadata
                        let l = b.segs.last().unwrap().clone();
                        // a file has fewer than 2^63 bytes
                        if l.chunk() as u128 * chunks as u128 > 1 << 61 {
                            return Ok(());
                        }
                        b.push(&dev, bseg(l.be, l.inter, chunks, &l.chans), false);
                        continue;
                    }
                }
            };
            let inter = chans.len() == 2 && chans[1].2 == chans[0].2 && ctx.flag();
            b.push(&dev, bseg(be, inter, chunks, &chans), true);
        }
        ctx.note(|| format!("{:?}", b.segs));
        ctx.state(&dev.digest());
        ctx.step();
        let mut f = TdmsFile::new(dev.again()).or_else(|e| fail("open", format!("open failed: {e:?}")))?;
        let names: Vec<&'static str> = ["a", "b"].into_iter().filter(|c| b.segs.iter().any(|s| s.chans.iter().any(|x| x.0 == *c))).collect();
        let mut starts = vec![];
        for c in &names {
            let got = f.channel_length(&ChannelPath::new("g", c));
            ensure!(got == Some(b.len(c)), "length", "length of {c} is {got:?}, expected {}", b.len(c));
            for start in b.points(c) {
                starts.push(start);
                for len in [1, 4] {
                    ctx.step();
                    with_ty!(t, T => read_big::<T>(&mut f, &b, c, start, len, "arrangement")?);
                }
            }
        }
        starts.sort();
        starts.dedup();
        for s in starts {
            ctx.step();
            let req: Vec<(&'static str, usize)> = names.iter().map(|c| (*c, if *c == "a" { 4 } else { 3 })).collect();
            with_ty!(t, T => multi_big::<T>(&mut f, &b, &req, s, "arrangement")?);
        }
        Ok(())
    }));
    v.push(scenario("append", "a file whose end lies around 2^31, 2^32, 2^33 or 2^62 bytes, then every sequence of 1..3 writes (data in two layouts, properties, new session), live view and reopen; nothing written before the old end", move |ctx| {
        let t = *ctx.pick(&[Ty::U8, Ty::F64]);
        let z = t.size() as u64;
        let be = ctx.flag();
        let bytes = *ctx.pick(&[G2 - 256, G2 - 128, G2 - 96, G2, G4 - 256, G4 - 128, G4 - 96, G4 - 64, G4, (1 << 33) - 128, 1 << 33, 1 << 62]);
        let inter = ctx.flag();
        let dev = Sparse::new();
        let mut b = Big::default();
        let (n, chunks) = if ctx.flag() { (bytes / z, 1) } else { (4, bytes / z / 4) };
        b.push(&dev, bseg(be, inter, chunks, &[("a", t, n)]), true);
        let old = dev.len();
        dev.watch();
        let mut f = open_big(ctx, &dev, &b)?;
        let mut k = 0;
        let mut prop = None;
        for _ in 0..ctx.range(1, 3) {
            let op = ctx.choose(4);
            ctx.step();
            ctx.note(|| format!("operation {op}"));
            let mut w = f.writer().or_else(|e| fail("writer", format!("writer: {e:?}")))?;
            let r = match op {
                0 | 1 => {
                    let names: &[&'static str] = if op == 0 { &["a"] } else { &["c", "a"] };
                    let paths: Vec<ChannelPath> = names.iter().map(|c| ChannelPath::new("g", c)).collect();
                    let r = with_ty!(t, T => {
                        let vals: Vec<T> = (0..3 * names.len() as u32).map(|i| T::from_canon(&canon(t, k + i))).collect();
                        w.write_channels(&paths, &vals, DataLayout::Contigious)
                    });
                    for c in names {
                        for _ in 0..3 {
                            b.tail.push((c, t, k));
                            k += 1;
                        }
                    }
                    r
                }
                2 => {
                    prop = Some(k as i32 + 1);
                    w.write_properties(&PropertyPath::channel("g", "a"), &[("new", PropertyValue::I32(k as i32 + 1))])
                }
                _ => {
                    // a block large enough to be written through the buffer
                    let r = with_ty!(t, T => {
                        let vals: Vec<T> = (0..3000).map(|i| T::from_canon(&canon(t, k + i))).collect();
                        w.write_channels(&[ChannelPath::new("g", "a")], &vals, DataLayout::Interleaved)
                    });
                    for _ in 0..3000 {
                        b.tail.push(("a", t, k));
                        k += 1;
                    }
                    r
                }
            };
            if let Err(e) = r.and_then(|_| w.sync()) {
                bail!("write", "write at {} failed: {e:?}", dev.len());
            }
        }
        ensure!(dev.lowest_write() >= old, "append", "byte {} was written although the file ended at {old}", dev.lowest_write());
        for round in ["live", "reopened"] {
            if round == "reopened" {
                ctx.state(&dev.digest());
                f = TdmsFile::new(dev.again()).or_else(|e| fail("open", format!("reopen failed: {e:?}")))?;
            }
            lengths(&f, &b)?;
            let got = f.read_property(&PropertyPath::channel("g", "a"), "new").ok().flatten().cloned();
            ensure!(got == prop.map(PropertyValue::I32), "props", "{round}: new property {got:?}, expected {prop:?}");
            let first = b.segs[0].chans[0].2 * b.segs[0].chunks;
            for start in [0, first - 2, first, first + 1] {
                with_ty!(t, T => read_big::<T>(&mut f, &b, "a", start, 5, round)?);
            }
            if b.tail.iter().any(|x| x.0 == "c") {
                with_ty!(t, T => read_big::<T>(&mut f, &b, "c", 0, 5, round)?);
                with_ty!(t, T => multi_big::<T>(&mut f, &b, &[("c", 4), ("a", 4)], 1, round)?);
            }
        }
        Ok(())
    }));
    v.push(slow(scenario("large_write", "one write of more than 2^32 bytes (thorough: also of more than 2^32 values, and a read of as many), followed by a small one; lengths, first and last values and the small one read back", move |ctx| {
        // 0: 2^29+1 f64 (more than 2^32 bytes), 1: the same over two channels interleaved
        // 2 (thorough): 2^32+8 u8
        let kind = ctx.choose(if thorough { 4 } else { 2 });
        let mut dev = Sparse::new();
        dev.budget = 1 << 40;
        let mut f = TdmsFile::new(dev.again()).or_else(|e| fail("open", format!("{e:?}")))?;
        let (names, n, z): (Vec<&'static str>, usize, usize) = match kind {
            0 => (vec!["a"], (1 << 29) + 2, 8),
            1 => (vec!["a", "b"], (1 << 29) + 2, 8),
            2 => (vec!["a"], (1 << 32) + 8, 1),
            _ => (vec!["a", "b"], (1 << 32) + 8, 1),
        };
        let paths: Vec<ChannelPath> = names.iter().map(|c| ChannelPath::new("g", c)).collect();
        let layout = if kind % 2 == 1 { DataLayout::Interleaved } else { DataLayout::Contigious };
        ctx.step();
        {
            let mut m = Zeroed::new(n * z);
            let mut w = f.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
            let r = if z == 8 {
                let s = unsafe { m.slice::<f64>() };
                s[0] = 1.5;
                s[n - 1] = 2.5;
                w.write_channels(&paths, s, layout)
            } else {
                let s = unsafe { m.slice::<u8>() };
                s[0] = 15;
                s[n - 1] = 25;
                w.write_channels(&paths, s, layout)
            };
            let r = r.and_then(|_| if z == 8 { w.write_channels(&paths[..1], &[3.5f64], layout) } else { w.write_channels(&paths[..1], &[35u8], layout) }).and_then(|_| w.sync());
            if let Err(e) = r {
                bail!("write", "large write failed: {e:?}");
            }
        }
        let per = (n / names.len()) as u64;
        for round in ["live", "reopened"] {
            if round == "reopened" {
                ctx.state(&dev.digest());
                f = TdmsFile::new(dev.again()).or_else(|e| fail("open", format!("reopen failed: {e:?}")))?;
            }
            for (i, p) in paths.iter().enumerate() {
                let want = per + (i == 0) as u64;
                ensure!(f.channel_length(p) == Some(want), "length", "{round}: length {:?}, expected {want}", f.channel_length(p));
            }
            // expected: first value of the first channel, last value of the last channel, the rest zero, then the small write
            for (i, p) in paths.iter().enumerate() {
                for start in [0, per - 2] {
                    let exp: Vec<f64> = (start..start + 4).map(|j| if j == 0 && i == 0 { 1.5 } else if j == per - 1 && i == paths.len() - 1 { 2.5 } else if j == per && i == 0 { 3.5 } else if j < per { 0.0 } else { 9.0 }).collect();
                    let got: Vec<f64> = if z == 8 {
                        let mut b = [9f64; 4];
                        f.read_channel_from(p, start, &mut b).or_else(|e| fail("read-error", format!("{e:?}")))?;
                        b.to_vec()
                    } else {
                        let mut b = [90u8; 4];
                        f.read_channel_from(p, start, &mut b).or_else(|e| fail("read-error", format!("{e:?}")))?;
                        b.iter().map(|x| *x as f64 / 10.0).collect()
                    };
                    ensure!(got == exp, "data", "{round}: channel {i} from {start}: {got:?}, expected {exp:?}");
                }
            }
        }
        Ok(())
    })));
    if thorough {
        v.push(slow(scenario("large_read", "one read of 2^32+3 samples of one byte, from a channel of 1 or 2^32+4 chunks, in both layouts", move |ctx| {
            let kind = ctx.choose(2);
            let dev = {
                let mut d = Sparse::new();
                d.budget = 1 << 40;
                d
            };
            let mut b = Big::default();
            let n = G4 + 4;
            b.push(&dev, bseg(false, kind == 1, 1, &[("a", Ty::U8, n)]), true);
            let mut f = TdmsFile::new(dev.again()).or_else(|e| fail("open", format!("{e:?}")))?;
            ctx.step();
            ctx.state(&dev.digest());
            let mut m = Zeroed::new((G4 + 3) as usize);
            let s = unsafe { m.slice::<u8>() };
            f.read_channel_from(&ChannelPath::new("g", "a"), 1, s).or_else(|e| fail("read-error", format!("{e:?}")))?;
            let mut x = vec![0u8; 1 << 16];
            let mut at = 0usize;
            while at < s.len() {
                let l = x.len().min(s.len() - at);
                fill(b.segs[0].raw + 1 + at as u64, &mut x[..l]);
                ensure!(x[..l] == s[at..at + l], "data", "bytes differ near sample {at}");
                at += l;
            }
            Ok(())
        })));
    }
    v
}
