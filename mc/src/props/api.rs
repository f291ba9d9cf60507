//! C08, C09, C19, C20: names, paths, codecs and conversions.
use crate::check::*;
use crate::dev::*;
use crate::explore::*;
use crate::generate::*;
use crate::hist::*;
use crate::spec::*;
use crate::types::*;
use crate::{bail, ensure, with_ty};
use labview_interop::types::LVTime;
use std::io::{Read, Seek};
use tedium::types::{Complex, DataType};
use tedium::{ChannelPath, PropertyPath, PropertyValue, TdmsError, TdmsFile, TdmsStorageType};

// ---------------------------------------------------------------- C08

/// Listings, and that what is listed addresses what it was listed for.
fn listings<F: Read + Seek>(f: &TdmsFile<F>, m: &Model, what: &str) -> R {
    check_meta(f, m, what)?;
    for g in m.groups() {
        // names as the application knows them (no doubled quotes inside)
        let gp = if g.contains('\'') { prop_path(&format!("/'{g}'"))? } else { PropertyPath::group(&g) };
        ensure!(gp.path() == format!("/'{g}'"), "path", "{what}: group {g} built as {gp}");
        for c in f.list_channels_in_group(&gp) {
            let Some(o) = m.objs.get(c.path()) else { bail!("channels", "{what}: listed {c} which does not exist") };
            ensure!(c.group_name() == g, "names", "{what}: {c} listed for group {g} says its group is {}", c.group_name());
            ensure!(Some(c.channel_name()) == parse_path(c.path()).as_ref().map(|x| x[1].as_str()), "names", "{what}: {c} says its name is {}", c.channel_name());
            ensure!(f.channel_length(&c) == Some(o.samples.len() as u64), "length", "{what}: listed {c} has length {:?}", f.channel_length(&c));
            let n = f.read_all_properties(AsRef::<PropertyPath>::as_ref(&c)).map(|x| x.count());
            ensure!(n == Some(o.props.len()), "props", "{what}: listed {c} has {n:?} properties");
        }
    }
    Ok(())
}
pub fn listings_view(f: &mut TdmsFile<Dev>, m: &Model, what: &str) -> R {
    listings(f, m, what)?;
    check_data(f, m, what)
}
pub fn c08(t: bool) -> Vec<Scenario> {
    let groups: &[&str] = &["a", "ab", "", "a/b", "a'", "/", "é", "a'/'b", "A"];
    let chans: &[&str] = &["a", "", "a/b", "'", "b'/'c"];
    let mut pool: Vec<WOp> = vec![];
    for g in groups {
        pool.push(WOp::Props { path: P::Group(g.to_string()), props: vec![("p".into(), Pv::s(g))] });
        for c in &chans[..if t { 5 } else { 4 }] {
            pool.push(WOp::Data { chans: vec![(g.to_string(), c.to_string())], ty: Ty::I16, n: 2, inter: false });
        }
        pool.push(WOp::Props { path: P::Chan(g.to_string(), "a".into()), props: vec![("q".into(), Pv::s(g))] });
    }
    pool.push(WOp::Props { path: P::File, props: vec![("r".into(), Pv::i(1))] });
    let small: Vec<WOp> = pool.iter().enumerate().filter(|(i, _)| i % 5 != 3).map(|x| x.1.clone()).collect();
    let mut v = vec![];
    for (name, pool, lo, hi) in [("written", pool.clone(), 1, 3), ("written_more", if t { pool } else { small.iter().step_by(3).cloned().collect() }, 4, 4)] {
        let hi = if t && name == "written" { 3 } else { hi };
        v.push(scenario(name, &format!("every ordered selection of {lo}..{hi} distinct objects from a pool of {} (groups {groups:?}, channels {chans:?}, with data or properties only), live view and reopened", pool.len()), move |ctx| {
            let mut left: Vec<usize> = (0..pool.len()).collect();
            let n = ctx.range(lo, hi);
            let mut ops = vec![];
            for _ in 0..n {
                let i = ctx.choose(left.len());
                ops.push(pool[left.remove(i)].clone());
            }
            let dev = Dev::new(vec![]);
            let m = run(ctx, &dev, &ops, listings_view)?;
            let mut f = must_open(&dev, "reopen")?;
            listings_view(&mut f, &m, "reopened view")
        }));
    }
    // names only another program writes: doubled quotes
    let raw: &[&str] = &["a", "a''b", "''", "a''/''b", "", "é''", "a''''", "/"];
    let mut objs: Vec<(String, bool)> = vec![("/".into(), false)];
    for g in raw {
        objs.push((format!("/'{g}'"), false));
        for c in &raw[..if t { 8 } else { 5 }] {
            objs.push((format!("/'{g}'/'{c}'"), true));
        }
    }
    // ordered selections, and (deeper) sets listed in path order or reverse
    for (name, lo, hi, sets) in [("foreign", 1, if t { 4 } else { 3 }, false), ("foreign_sets", 4, if t { 5 } else { 4 }, true)] {
        let objs: Vec<(String, bool)> = if t && !sets { objs.iter().step_by(2).cloned().collect() } else { objs.clone() };
        v.push(scenario(name, &format!("every {} of {lo}..{hi} objects from a pool of {} with doubled quotes and slashes in their names, channels with and without data, in one segment or one each", if sets { "set" } else { "ordered selection" }, objs.len()), move |ctx| {
            let n = ctx.range(lo, hi);
            let with_data = ctx.flag();
            let split = !sets && ctx.flag();
            let mut left: Vec<usize> = (0..objs.len()).collect();
            let mut meta = vec![];
            let mut from = 0;
            for k in 0..n {
                let i = if sets {
                    let i = from + ctx.choose(objs.len() - (n - 1 - k) - from);
                    from = i + 1;
                    i
                } else {
                    let i = ctx.choose(left.len());
                    left.remove(i)
                };
                let (p, is_chan) = &objs[i];
                let idx = if *is_chan && with_data { Idx::Full(Ty::I16, 1) } else { Idx::None };
                meta.push(SObj { path: p.clone(), idx, props: vec![("k".into(), Pv::i(k as i32))] });
            }
            let mut f = Foreign::new();
            let parts: Vec<Vec<SObj>> = if split { meta.into_iter().map(|o| vec![o]).collect() } else { vec![meta] };
            for meta in parts {
                let has = meta.iter().any(|o| o.idx != Idx::None);
                let s = Seg { be: false, new_list: true, meta: Some(meta), interleaved: false, chunks: has as usize };
                ctx.note(|| show_seg(&s));
                assert!(f.push(&s), "harness: segment");
                ctx.step();
            }
            ctx.state(&f.bytes);
            let dev = Dev::new(f.bytes.clone());
            let mut file = must_open(&dev, "open")?;
            listings_view(&mut file, &f.model, "foreign file")
        }));
    }
    v
}

// ---------------------------------------------------------------- C09

fn name_from(ctx: &mut Ctx, alpha: &[char], max: usize) -> String {
    let n = ctx.range(0, max);
    (0..n).map(|_| *ctx.pick(alpha)).collect()
}
fn check_names(g: &str, c: &str) -> R {
    let (eg, ec) = (esc(g), esc(c));
    let p = PropertyPath::channel(g, c);
    ensure!(parse_path(p.path()).is_some_and(|x| x == [eg.clone(), ec.clone()]), "path", "channel({g:?}, {c:?}) is {p}, which does not name that object");
    ensure!(p.path() == cpath(g, c), "path", "channel({g:?}, {c:?}) is {p}");
    ensure!(p.group_name() == Some(&eg), "names", "{p}: group name {:?}, built from {g:?}", p.group_name());
    ensure!(p.channel_name() == Some(&ec), "names", "{p}: channel name {:?}, built from {c:?}", p.channel_name());
    match PropertyPath::try_from(p.path()) {
        Ok(q) => ensure!(q == p && q.path() == p.path() && q.channel_name() == Some(&ec) && q.group_name() == Some(&eg), "parse", "{p} parses to {q}"),
        Err(e) => bail!("parse", "{p} does not parse: {e:?}"),
    }
    let cp = ChannelPath::new(g, c);
    ensure!(cp.path() == p.path() && cp.group_name() == eg && cp.channel_name() == ec, "names", "ChannelPath {cp}: {:?} {:?}", cp.group_name(), cp.channel_name());
    match ChannelPath::try_from(p.path()) {
        Ok(q) => ensure!(q == cp && q.group_name() == eg && q.channel_name() == ec, "parse", "{p} parses to {q}"),
        Err(e) => bail!("parse", "{p} does not parse as a channel: {e:?}"),
    }
    match ChannelPath::try_from(p.clone()) {
        Ok(q) => ensure!(q == cp, "parse", "{p} becomes {q}"),
        Err(e) => bail!("parse", "{p} is not taken as a channel: {e:?}"),
    }
    ensure!(format!("{cp}") == p.path() && format!("{p}") == p.path(), "display", "{cp} displays differently");
    let gp = PropertyPath::group(g);
    ensure!(gp.path() == gpath(g) && gp.group_name() == Some(&eg) && gp.channel_name().is_none(), "names", "group({g:?}) is {gp}: {:?} {:?}", gp.group_name(), gp.channel_name());
    match PropertyPath::try_from(gp.path()) {
        Ok(q) => ensure!(q == gp && q.channel_name().is_none(), "parse", "{gp} parses to {q}"),
        Err(e) => bail!("parse", "{gp} does not parse: {e:?}"),
    }
    ensure!(ChannelPath::try_from(gp.clone()).is_err(), "kind", "group {gp} accepted as a channel");
    ensure!(ChannelPath::try_from(gp.path()).is_err(), "kind", "group path {gp} accepted as a channel");
    ensure!(gp != p && gp != PropertyPath::file() && p != PropertyPath::file(), "kind", "{gp} and {p} are equal to something else");
    Ok(())
}
fn check_raw(s: &str, f: &TdmsFile<Dev>) -> R {
    match PropertyPath::try_from(s) {
        Err(_) => ensure!(ChannelPath::try_from(s).is_err(), "kind", "{s:?} is a channel but not an object"),
        Ok(p) => {
            ensure!(p.path() == s, "render", "{s:?} parses to {p}");
            let (g, c) = (p.group_name(), p.channel_name());
            let cp = ChannelPath::try_from(s);
            ensure!(cp.is_ok() == c.is_some(), "kind", "{s:?}: channel name {c:?}, as a channel {cp:?}");
            ensure!(ChannelPath::try_from(p.clone()).is_ok() == c.is_some(), "kind", "{s:?}: kind differs");
            ensure!(g.is_some() || c.is_none(), "names", "{s:?}: channel without group");
            let want = match (g, c) {
                (None, _) => "/".to_string(),
                (Some(g), None) => format!("/'{g}'"),
                (Some(g), Some(c)) => format!("/'{g}'/'{c}'"),
            };
            ensure!(want == s, "names", "{s:?}: reports names {g:?} {c:?}");
            if let Ok(cp) = &cp {
                ensure!(cp.path() == s && Some(cp.group_name()) == g && Some(cp.channel_name()) == c, "names", "{s:?}: {cp} {:?} {:?}", cp.group_name(), cp.channel_name());
                let _ = f.channel_length(cp);
            }
            let known = ["/'a'/'a'", "/'\"'/'é'"].contains(&s);
            let is_chan_known = known && f.channel_length(cp.as_ref().unwrap()) == Some(1);
            ensure!(known == is_chan_known, "object", "{s:?}: not found");
            let n = f.list_channels_in_group(&p).count();
            if g.is_some() && c.is_none() {
                ensure!(n == (["/'a'", "/'\"'"].contains(&s)) as usize, "channels", "{s:?} lists {n} channels");
            }
            ensure!(f.read_all_properties(&p).is_some() == known, "object", "{s:?}: exists is not {known}");
        }
    }
    if parse_path(s).is_some() {
        // every well-formed path addresses something
        ensure!(PropertyPath::try_from(s).is_ok(), "parse", "the well-formed path {s:?} is rejected");
    }
    Ok(())
}
pub fn c09(t: bool) -> Vec<Scenario> {
    let alpha = ['/', '\'', '"', 'a', ' ', 'é', '\0'];
    let max = if t { 4 } else { 3 };
    let rest = if t { 6 } else { 5 };
    vec![
        scenario("names", &format!("every pair of names of up to {max} characters over {alpha:?}"), move |ctx| {
            let g = name_from(ctx, &alpha, max);
            let c = name_from(ctx, &alpha, max);
            ctx.note(|| format!("{g:?} {c:?}"));
            ctx.step();
            ctx.state(&(&g, &c));
            check_names(&g, &c)
        }),
        scenario("long_names", "names of 1..70000 characters with a special character at either end", move |ctx| {
            let n = *ctx.pick(&[1usize, 2, 3, 127, 128, 255, 256, 4095, 8192, 65535, 65536, 70000]);
            let special = *ctx.pick(&alpha);
            let fill = *ctx.pick(&['a', '/', '\'', 'é']);
            let mut g: Vec<char> = vec![fill; n];
            let at = *ctx.pick(&[0, n / 2, n - 1]);
            g[at] = special;
            let g: String = g.into_iter().collect();
            ctx.step();
            ctx.state(&g);
            check_names(&g, "c")?;
            check_names("g", &g)?;
            check_names(&g, &g)
        }),
        scenario("strings", &format!("every string of up to {} characters over slash, both quotes, a letter and a two-byte letter, as a path", rest + 4), move |ctx| {
            const A: [char; 5] = ['/', '\'', '"', 'a', 'é'];
            let mut f = Foreign::new();
            f.push(&Seg { be: false, new_list: true, meta: Some(vec![so("/'a'/'a'", Idx::Full(Ty::I8, 1)), so("/'\"'/'é'", Idx::Full(Ty::I8, 1))]), interleaved: false, chunks: 1 });
            let file = must_open(&Dev::new(f.bytes), "open")?;
            let head = name_from(ctx, &A, 4);
            ctx.note(|| format!("strings starting with {head:?}"));
            ctx.state(&head);
            if head.chars().count() < 4 {
                ctx.step();
                return check_raw(&head, &file);
            }
            // all strings of up to `rest` more characters
            let mut s = head.clone();
            fn go(s: &mut String, left: usize, f: &TdmsFile<Dev>, steps: &mut u64) -> R {
                *steps += 1;
                check_raw(s, f)?;
                if left > 0 {
                    for c in A {
                        s.push(c);
                        go(s, left - 1, f, steps)?;
                        s.pop();
                    }
                }
                Ok(())
            }
            let mut n = 0;
            let r = go(&mut s, rest, &file, &mut n);
            ctx.steps += n;
            r
        }),
    ]
}

// ---------------------------------------------------------------- C19

struct Counted<'a> {
    b: &'a [u8],
    n: usize,
}
impl Read for Counted<'_> {
    fn read(&mut self, out: &mut [u8]) -> std::io::Result<usize> {
        let k = out.len().min(self.b.len() - self.n);
        out[..k].copy_from_slice(&self.b[self.n..self.n + k]);
        self.n += k;
        Ok(k)
    }
}
fn codec_one<T: Sample>(canon: &[u8], deep: bool) -> R {
    let size = T::TY.size();
    let v = T::from_canon(canon);
    ensure!(v.size() == size && T::SIZE_BYTES == size, "size", "{:?}: size() {} SIZE_BYTES {}, expected {size}", T::TY, v.size(), T::SIZE_BYTES);
    for be in [false, true] {
        let want = to_order(T::TY, canon.to_vec(), be);
        let mut buf = [0u8; 16];
        let left = {
            let mut w: &mut [u8] = &mut buf[..];
            let r = if be { v.write_be(&mut w) } else { v.write_le(&mut w) };
            ensure!(r.is_ok(), "write", "{:?} {}: write failed {r:?}", T::TY, v.show());
            w.len()
        };
        ensure!(16 - left == size, "size", "{:?} {}: wrote {} bytes, expected {size}", T::TY, v.show(), 16 - left);
        ensure!(buf[..size] == want[..], "encode", "{:?} {} be={be}: encoded as {:x?}, expected {want:x?}", T::TY, v.show(), &buf[..size]);
        let mut with_tail = [0xEEu8; 20];
        with_tail[..size].copy_from_slice(&want);
        let mut r = Counted { b: &with_tail, n: 0 };
        let got = if be { T::read_be(&mut r) } else { T::read_le(&mut r) };
        match got {
            Ok(x) => ensure!(x.same(canon), "decode", "{:?} be={be}: {want:x?} decodes to {}", T::TY, x.show()),
            Err(e) => bail!("decode", "{:?} be={be}: {want:x?} fails to decode: {e:?}", T::TY),
        }
        ensure!(r.n == size, "consumed", "{:?} be={be}: decoding took {} bytes, expected {size}", T::TY, r.n);
        if deep {
            for cut in 0..size {
                let mut r = Counted { b: &want[..cut], n: 0 };
                let got = if be { T::read_be(&mut r) } else { T::read_le(&mut r) };
                ensure!(got.is_err(), "truncated", "{:?} be={be}: decoded from {cut} of {size} bytes", T::TY);
                let mut small = vec![0u8; cut];
                let mut w: &mut [u8] = &mut small[..];
                let r = if be { v.write_be(&mut w) } else { v.write_le(&mut w) };
                ensure!(r.is_err(), "write", "{:?} be={be}: writing into {cut} bytes succeeded", T::TY);
            }
        }
    }
    Ok(())
}
pub fn c19(t: bool) -> Vec<Scenario> {
    let mut v = vec![
        scenario("small", "every value of the 8- and 16-bit types and both booleans, with every truncation", |ctx| {
            let ty = *ctx.pick(&[Ty::I8, Ty::U8, Ty::Bool, Ty::I16, Ty::U16]);
            let hi = ctx.choose(if ty.size() == 2 { 256 } else { 1 }) as u8;
            let n = if ty == Ty::Bool { 2 } else { 256 };
            ctx.state(&(ty, hi));
            for lo in 0..n {
                ctx.step();
                let b = [lo as u8, hi];
                with_ty!(ty, T => codec_one::<T>(&b[..ty.size()], true)?);
            }
            Ok(())
        }),
        scenario("boolean", "every byte read as a boolean in both byte orders: directly, as a sample of a boolean or byte channel, as a property", |ctx| {
            let byte = ctx.choose(256) as u8;
            let be = ctx.flag();
            let want = byte != 0;
            ctx.state(&(byte, be));
            ctx.step();
            let mut r = Counted { b: &[byte, 0, 1], n: 0 };
            let got = if be { <bool as TdmsStorageType>::read_be(&mut r) } else { <bool as TdmsStorageType>::read_le(&mut r) };
            ensure!(got.as_ref().is_ok_and(|x| *x == want) && r.n == 1, "decode", "byte {byte:#x} be={be} decodes to {got:?} after {} bytes", r.n);
            for code in [0x21u32, 5] {
                let u = |v: u32| if be { v.to_be_bytes() } else { v.to_le_bytes() };
                let mut meta = u(1).to_vec();
                meta.extend(u(8));
                meta.extend(b"/'g'/'a'");
                for x in [20, code, 1] {
                    meta.extend(u(x));
                }
                meta.extend(if be { 3u64.to_be_bytes() } else { 3u64.to_le_bytes() });
                meta.extend(u(1));
                meta.extend(u(1));
                meta.extend(b"p");
                meta.extend(u(0x21));
                meta.push(byte);
                let mut b = b"TDSm".to_vec();
                b.extend((2u32 | 4 | 8 | if be { 64 } else { 0 }).to_le_bytes());
                b.extend(u(4713));
                for x in [meta.len() as u64 + 3, meta.len() as u64] {
                    b.extend(if be { x.to_be_bytes() } else { x.to_le_bytes() });
                }
                b.extend(&meta);
                b.extend([1, byte, 0]);
                ctx.step();
                let mut f = match TdmsFile::new(std::io::Cursor::new(b)) {
                    Ok(f) => f,
                    Err(e) => bail!("open", "boolean file with byte {byte:#x} be={be} is refused: {e:?}"),
                };
                let mut out = [byte == 0; 3];
                let r = f.read_channel(&ChannelPath::new("g", "a"), &mut out);
                ensure!(r.is_ok() && out == [true, want, false], "decode", "bytes 1, {byte:#x}, 0 of type {code:#x} be={be} read as booleans {out:?} {r:?}");
                let v = f.read_property(&PropertyPath::channel("g", "a"), "p");
                ensure!(matches!(&v, Ok(Some(PropertyValue::Boolean(x))) if *x == want), "decode", "boolean property of byte {byte:#x} be={be} is {v:?}");
            }
            Ok(())
        }),
        scenario("two_bytes", "wider types: every value that differs from all-zero or all-one bytes in at most two bytes (all positions, all 256x256 values)", |ctx| {
            let ty = *ctx.pick(&[Ty::I32, Ty::U32, Ty::F32, Ty::I64, Ty::U64, Ty::F64, Ty::Ext, Ty::Time, Ty::C32, Ty::C64]);
            let base = *ctx.pick(&[0u8, 0xFF, 0x5A]);
            let n = ty.size();
            let i = ctx.choose(n - 1);
            let j = i + 1 + ctx.choose(n - 1 - i);
            ctx.state(&(ty, base, i, j));
            let mut b = vec![base; n];
            for x in 0..=255u8 {
                for y in 0..=255u8 {
                    b[i] = x;
                    b[j] = y;
                    ctx.step();
                    with_ty!(ty, T => codec_one::<T>(&b, x == y)?);
                }
            }
            Ok(())
        }),
        scenario("patterns", "4096 distinct byte patterns per type with every truncation", |ctx| {
            let ty = *ctx.pick(&NATURAL);
            let hi = ctx.choose(16) as u32;
            ctx.state(&(ty, hi));
            for k in 0..256 {
                ctx.step();
                with_ty!(ty, T => codec_one::<T>(&canon(ty, hi * 256 + k), true)?);
            }
            Ok(())
        }),
        scenario("strings", "every string of up to 4 characters over 1- to 4-byte characters, lengths around 2^8 and 2^16, every truncation, invalid UTF-8", |ctx| {
            const A: [char; 6] = ['a', '\0', '\'', 'é', '日', '😀'];
            let s: String = match ctx.choose(2) {
                0 => name_from(ctx, &A, 4),
                _ => {
                    let n = *ctx.pick(&[127usize, 128, 255, 256, 257, 8191, 8192, 65535, 65536, 70001]);
                    ctx.pick(&A).to_string().repeat(n)
                }
            };
            ctx.step();
            ctx.state(&s);
            ensure!(s.size() == s.len() + 4, "size", "size() of {} bytes is {}", s.len(), s.size());
            for be in [false, true] {
                let mut want = u32b(s.len() as u32, be);
                want.extend(s.as_bytes());
                let mut w = vec![];
                let r = if be { s.write_be(&mut w) } else { s.write_le(&mut w) };
                ensure!(r.is_ok() && w == want, "encode", "{:?}... encodes differently", s.chars().take(8).collect::<String>());
                let mut with_tail = want.clone();
                with_tail.extend([0xEE; 4]);
                let mut r = Counted { b: &with_tail, n: 0 };
                let got = if be { String::read_be(&mut r) } else { String::read_le(&mut r) };
                ensure!(got.as_ref().is_ok_and(|x| *x == s) && r.n == want.len(), "decode", "string of {} bytes decodes to {got:?}", s.len());
                let cuts: Vec<usize> = if want.len() < 64 { (0..want.len()).collect() } else { vec![0, 3, 4, 5, want.len() / 2, want.len() - 1] };
                for cut in cuts {
                    let mut r = Counted { b: &want[..cut], n: 0 };
                    let got = if be { String::read_be(&mut r) } else { String::read_le(&mut r) };
                    ensure!(got.is_err(), "truncated", "string of {} bytes decoded from {cut} bytes", s.len());
                }
                for bad in [0x80u8, 0xFF, 0xC0] {
                    let mut x = want.clone();
                    if x.len() > 4 {
                        *x.last_mut().unwrap() = bad;
                        let mut r = Counted { b: &x, n: 0 };
                        let got = if be { String::read_be(&mut r) } else { String::read_le(&mut r) };
                        let valid = std::str::from_utf8(&x[4..]).is_ok();
                        ensure!(got.is_ok() == valid, "utf8", "bytes {:x?} decode to {got:?}", &x[4..x.len().min(40)]);
                    }
                }
            }
            Ok(())
        }),
    ];
    if t {
        v.push(scenario("all_32_bit", "every value of the 32-bit types", |ctx| {
            let ty = *ctx.pick(&[Ty::I32, Ty::U32, Ty::F32]);
            let hi = ctx.choose(65536) as u16;
            ctx.state(&(ty, hi));
            for lo in 0..=u16::MAX {
                ctx.step();
                let b = ((hi as u32) << 16 | lo as u32).to_le_bytes();
                with_ty!(ty, T => codec_one::<T>(&b, false)?);
            }
            Ok(())
        }));
        v.push(scenario("three_bytes", "64-bit types: every value that differs from all-zero bytes in at most three adjacent bytes", |ctx| {
            let ty = *ctx.pick(&[Ty::I64, Ty::U64, Ty::F64, Ty::Ext, Ty::Time, Ty::C64, Ty::C32]);
            let i = ctx.choose(ty.size() - 2);
            let x = ctx.choose(256) as u8;
            ctx.state(&(ty, i, x));
            let mut b = vec![0; ty.size()];
            for y in 0..=255u8 {
                for z in 0..=255u8 {
                    b[i..i + 3].copy_from_slice(&[x, y, z]);
                    ctx.step();
                    with_ty!(ty, T => codec_one::<T>(&b, false)?);
                }
            }
            Ok(())
        }));
    }
    v
}

// ---------------------------------------------------------------- C20

/// Model value -> target type, by value and by reference.
fn to<T>(v: &PropertyValue, m: &Pv, want: DataType, same: impl Fn(&T, &[u8]) -> bool, is: Ty, back: bool) -> R
where
    T: TryFrom<PropertyValue, Error = TdmsError> + for<'a> TryFrom<&'a PropertyValue, Error = TdmsError> + Into<PropertyValue> + Clone,
{
    let own = matches!(m, Pv::Fixed(t, _) if *t == is);
    for by_ref in [false, true] {
        let r: Result<T, TdmsError> = if by_ref { v.try_into() } else { v.clone().try_into() };
        match r {
            Ok(x) => {
                ensure!(own, "widened", "{v:?} converts to {want:?} (by reference: {by_ref})");
                let Pv::Fixed(_, b) = m else { unreachable!() };
                ensure!(same(&x, b), "value", "{v:?} changes when converted to its own type");
                if back {
                    let again: PropertyValue = x.into();
                    ensure!(m.same(&again) && again.datatype() == want, "value", "{v:?} comes back as {again:?}");
                }
            }
            Err(TdmsError::DataTypeMismatch(actual, asked)) => {
                ensure!(!own, "refused", "{v:?} does not convert to its own type");
                ensure!(actual == v.datatype(), "error", "{v:?} to {want:?}: error names {actual:?} as the actual type");
                ensure!(asked == want, "error", "{v:?} to {want:?}: error names {asked:?} as the requested type");
            }
            Err(e) => bail!("error", "{v:?} to {want:?}: unexpected error {e:?}"),
        }
    }
    Ok(())
}
fn own_type(t: Ty) -> DataType {
    use Ty::*;
    match t {
        I8 => DataType::I8, I16 => DataType::I16, I32 => DataType::I32, I64 => DataType::I64, U8 => DataType::U8, U16 => DataType::U16,
        U32 => DataType::U32, U64 => DataType::U64, F32 => DataType::SingleFloat, F64 => DataType::DoubleFloat, Ext => DataType::ExtendedFloat,
        Str => DataType::TdmsString, Bool => DataType::Boolean, Time => DataType::Timestamp, C32 => DataType::ComplexSingleFloat, C64 => DataType::ComplexDoubleFloat,
        F32U => DataType::SingleFloatWithUnit, F64U => DataType::DoubleFloatWithUnit, ExtU => DataType::ExtendedFloatWithUnit,
    }
}
fn matrix_row(m: &Pv) -> R {
    let v = m.lib();
    let want = match m {
        Pv::Void => DataType::Void,
        Pv::Str(_) => DataType::TdmsString,
        Pv::Fixed(t, _) => own_type(*t),
    };
    ensure!(v.datatype() == want, "datatype", "{v:?} says it is {:?}", v.datatype());
    macro_rules! all {
        ($($t:ty => $ty:ident);*) => {$( to::<$t>(&v, m, own_type(Ty::$ty), |x, b| x.same(b), Ty::$ty, true)?; )*};
    }
    all!(i8 => I8; i16 => I16; i32 => I32; i64 => I64; u8 => U8; u16 => U16; u32 => U32; u64 => U64; f32 => F32; f64 => F64; bool => Bool;
         LVTime => Time; Complex<f32> => C32; Complex<f64> => C64);
    // text
    let s: Result<String, TdmsError> = v.clone().try_into();
    let r: Result<&str, TdmsError> = (&v).try_into();
    match m {
        Pv::Str(x) => {
            ensure!(s.as_ref().is_ok_and(|y| y == x), "value", "string {x:?} converts to {s:?}");
            ensure!(r.as_ref().is_ok_and(|y| y == x), "value", "string {x:?} converts to {r:?}");
            ensure!(m.same(&PropertyValue::from(x.clone())) && m.same(&PropertyValue::from(x.as_str())), "value", "string {x:?} is changed");
        }
        _ => {
            let ok = |e: &TdmsError| matches!(e, TdmsError::DataTypeMismatch(a, DataType::TdmsString) if *a == v.datatype());
            ensure!(s.as_ref().is_err_and(|e| ok(e)), "widened", "{v:?} as String: {s:?}");
            ensure!(r.as_ref().is_err_and(|e| ok(e)), "widened", "{v:?} as &str: {r:?}");
        }
    }
    if !matches!(m, Pv::Fixed(Ty::Time, _)) {
        let d: Result<chrono::DateTime<chrono::Utc>, TdmsError> = v.clone().try_into();
        let e: Result<chrono::DateTime<chrono::Utc>, TdmsError> = (&v).try_into();
        for x in [d, e] {
            ensure!(matches!(&x, Err(TdmsError::DataTypeMismatch(a, DataType::Timestamp)) if *a == v.datatype()), "widened", "{v:?} as a date: {x:?}");
        }
    }
    Ok(())
}
pub fn c20(t: bool) -> Vec<Scenario> {
    let mut types: Vec<Ty> = NATURAL.to_vec();
    types.push(Ty::Str);
    let (types2, types3) = (types.clone(), types.clone());
    vec![
        scenario("values", "every property value variant with all 65536 values of two bytes at either end (0x00 and 0xFF elsewhere), every text of up to 3 characters: full conversion matrix", move |ctx| {
            let i = ctx.choose(types.len() + 1);
            ctx.state(&i);
            if i == types.len() {
                ctx.step();
                return matrix_row(&Pv::Void);
            }
            let ty = types[i];
            if ty == Ty::Str {
                let s = name_from(ctx, &['a', '1', '\'', 'é', '\0', '-', '.'], if t { 5 } else { 4 });
                ctx.state(&s);
                ctx.step();
                return matrix_row(&Pv::Str(s));
            }
            let base = *ctx.pick(&[0u8, 0xFF, 0x7F]);
            let top = ctx.flag();
            let hi = ctx.choose(256) as u8;
            ctx.state(&(ty, base, top, hi));
            let n = ty.size();
            for lo in 0..=255u8 {
                ctx.step();
                let mut b = vec![base; n];
                if ty == Ty::Bool {
                    b[0] = lo & 1;
                } else if n == 1 {
                    b[0] = lo;
                } else {
                    let at = if top { n - 2 } else { 0 };
                    b[at] = lo;
                    b[at + 1] = hi;
                }
                matrix_row(&Pv::Fixed(ty, b))?;
            }
            Ok(())
        }),
        scenario("messages", "every pair of property type and requested type: the message names the actual and the requested type", move |ctx| {
            let ty = *ctx.pick(&types3);
            let v = if ty == Ty::Str && ctx.flag() { PropertyValue::Void } else { Pv::of(ty, 3).lib() };
            ctx.state(&format!("{v:?}"));
            macro_rules! all {
                ($($t:ty),*) => {$(
                    ctx.step();
                    let errors: [Option<TdmsError>; 2] = [<$t>::try_from(v.clone()).err(), <$t>::try_from(&v).err()];
                    for e in errors.iter().flatten() {
                        super::extra::told(e)?;
                        let names = e.to_string().to_lowercase().contains(&format!("{:?}", v.datatype()).to_lowercase());
                        ensure!(names || !matches!(e, TdmsError::DataTypeMismatch(..)), "message", "{v:?} as another type: {e}");
                    }
                )*};
            }
            all!(i8, i16, i32, i64, u8, u16, u32, u64, f32, f64, bool, LVTime, Complex<f32>, Complex<f64>, chrono::DateTime<chrono::Utc>);
            let texts: [Option<TdmsError>; 2] = [String::try_from(v.clone()).err(), <&str>::try_from(&v).err()];
            for e in texts.iter().flatten() {
                super::extra::told(e)?;
            }
            Ok(())
        }),
        scenario("patterns", "4096 distinct values of every variant: full conversion matrix", move |ctx| {
            let ty = *ctx.pick(&types2);
            let hi = ctx.choose(64) as u32;
            ctx.state(&(ty, hi));
            for k in 0..64 {
                ctx.step();
                matrix_row(&Pv::of(ty, hi * 64 + k))?;
            }
            Ok(())
        }),
        scenario("dates", "dates from year -4000 to 8000, the second before and after 1904 and 1970 and both ends of what chrono can hold, 14 fractions: back to the nanosecond", |ctx| {
            use chrono::{DateTime, Utc};
            const LV: i64 = -2_082_844_800;
            let day = ctx.choose(1000 + 5) as i64;
            ctx.state(&day);
            let base = match day {
                1000 => LV - 1,
                1001 => -1,
                1002 => DateTime::<Utc>::MIN_UTC.timestamp(),
                1003 => DateTime::<Utc>::MAX_UTC.timestamp() - 86_399,
                1004 => LV,
                d if d < 400 => LV + d * 23_400_000,
                d => -188_395_804_800 + (d - 400) * 631_152_011,
            };
            for s in [0i64, 1, 58, 59, 3600, 43_200, 86_399] {
                for ns in [0u32, 1, 2, 999, 1_000_000, 250_000_000, 333_333_333, 499_999_999, 500_000_000, 500_000_001, 666_666_667, 999_000_000, 999_999_998, 999_999_999] {
                    ctx.step();
                    let d: DateTime<Utc> = DateTime::from_timestamp(base + s, ns).expect("harness: date");
                    let v: PropertyValue = d.into();
                    let a: Result<DateTime<Utc>, TdmsError> = (&v).try_into();
                    let b: Result<DateTime<Utc>, TdmsError> = v.clone().try_into();
                    for x in [a, b] {
                        match x {
                            Ok(x) => ensure!(x == d, "date", "{d:?} comes back as {x:?}"),
                            Err(e) => bail!("date", "{d:?} does not come back: {e:?}"),
                        }
                    }
                    // The value stored is the one the NI format has for that time: seconds since 1904 and 2^-64 fractions.
                    match &v {
                        PropertyValue::Timestamp(t) => {
                            let (sec, frac) = t.to_parts();
                            let exact = (ns as u128) << 64;
                            let off = (frac as u128 * 1_000_000_000).abs_diff(exact) >> 64;
                            ensure!(sec == base + s - LV && off == 0, "stored", "{d:?} is stored as {sec} s and {frac} / 2^64");
                        }
                        o => bail!("stored", "{d:?} is stored as {o:?}"),
                    };
                }
            }
            // A leap second is the second after 23:59:59.
            if let Some(d) = DateTime::from_timestamp(base + 59, 1_500_000_000) {
                ctx.step();
                let v: PropertyValue = d.into();
                let x: Result<DateTime<Utc>, TdmsError> = v.try_into();
                match (x, DateTime::from_timestamp(base + 60, 500_000_000)) {
                    (Ok(x), Some(want)) => ensure!(x == want, "leap", "{d:?} comes back as {x:?}"),
                    (x, want) => bail!("leap", "{d:?} comes back as {x:?}, not {want:?}"),
                }
            }
            Ok(())
        }),
        scenario("timestamps", "timestamps a file can hold: seconds at and around 0, every power of two, the epochs and the ends of the calendar, both signs, with 68 fractions: the exact date or an error", |ctx| {
            use chrono::{DateTime, Utc};
            const LV: i64 = -2_082_844_800;
            let k = ctx.choose(64 + 4);
            let near = ctx.choose(7) as i64 - 3;
            let neg = ctx.flag();
            ctx.state(&(k, near, neg));
            let base = match k {
                64 => -LV,
                65 => DateTime::<Utc>::MAX_UTC.timestamp() - LV,
                66 => DateTime::<Utc>::MIN_UTC.timestamp() - LV,
                67 => i64::MAX,
                k => (1u64 << k) as i64,
            };
            let sec = if neg { base.wrapping_neg() } else { base }.wrapping_add(near);
            for f in 0..68u32 {
                ctx.step();
                let frac = match f {
                    64 => 0,
                    65 => u64::MAX,
                    66 => u64::MAX - 1024,
                    67 => u64::MAX << 20,
                    k => 1u64 << k,
                };
                let v = PropertyValue::Timestamp(LVTime::from_parts(sec, frac));
                let ns = ((frac as u128 * 1_000_000_000) >> 64) as u32;
                let want = sec.checked_add(LV).and_then(|s| DateTime::from_timestamp(s, ns));
                let a: Result<DateTime<Utc>, TdmsError> = (&v).try_into();
                let b: Result<DateTime<Utc>, TdmsError> = v.clone().try_into();
                for x in [a, b] {
                    match (x, want) {
                        // The fraction may be rounded to the nearest nanosecond or below it.
                        (Ok(x), Some(w)) => ensure!((x - w).num_nanoseconds().is_some_and(|d| d == 0 || d == 1), "date", "{sec} s and {frac} / 2^64 is {w:?}, not {x:?}"),
                        (Err(TdmsError::ChronoDateTimeConversionFailed(_)), None) => (),
                        (x, w) => bail!("date", "{sec} s and {frac} / 2^64 is {w:?}, not {x:?}"),
                    }
                }
            }
            Ok(())
        }),
    ]
}
