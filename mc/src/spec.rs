//! The reference: what the TDMS format says, written without looking at the library.
//!
//! * `Model` - a file as a user sees it: objects, properties, samples.
//! * `Foreign` - an independent encoder of abstract segments that tracks the `Model` they mean.
//! * `decode` - an independent strict decoder, used on what the library writes.
use crate::types::*;
use std::collections::BTreeMap;

/// A sample is identified by its stored type and its number; `types::canon` gives its bytes.
pub type S = (Ty, u32);

#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
pub struct MObj {
    pub props: BTreeMap<String, Pv>,
    pub samples: Vec<S>,
}
#[derive(Clone, Default, PartialEq, Eq, Hash, Debug)]
pub struct Model {
    pub objs: BTreeMap<String, MObj>,
}

/// `'` cannot appear in a name; the library documents that it is replaced by `"`.
pub fn esc(name: &str) -> String {
    name.chars().map(|c| if c == '\'' { '"' } else { c }).collect()
}
pub fn gpath(g: &str) -> String {
    format!("/'{}'", esc(g))
}
pub fn cpath(g: &str, c: &str) -> String {
    format!("/'{}'/'{}'", esc(g), esc(c))
}
/// Names of an object path (quotes doubled inside a name stay doubled). None: not a path.
pub fn parse_path(p: &str) -> Option<Vec<String>> {
    if p == "/" {
        return Some(vec![]);
    }
    let b: Vec<char> = p.chars().collect();
    let mut i = 0;
    let mut out = vec![];
    while i < b.len() {
        if b[i] != '/' || b.get(i + 1) != Some(&'\'') {
            return None;
        }
        i += 2;
        let mut name = String::new();
        loop {
            match b.get(i) {
                None => return None,
                Some('\'') if b.get(i + 1) == Some(&'\'') => {
                    name.push_str("''");
                    i += 2;
                }
                Some('\'') => {
                    i += 1;
                    break;
                }
                Some(c) => {
                    name.push(*c);
                    i += 1;
                }
            }
        }
        out.push(name);
    }
    if out.is_empty() || out.len() > 2 { None } else { Some(out) }
}

impl Model {
    pub fn obj(&mut self, path: &str) -> &mut MObj {
        self.objs.entry(path.to_string()).or_default()
    }
    pub fn groups(&self) -> Vec<String> {
        let mut v: Vec<String> = self.objs.keys().filter_map(|p| parse_path(p)?.first().cloned()).collect();
        v.sort();
        v.dedup();
        v
    }
    pub fn channels(&self) -> Vec<String> {
        self.objs.keys().filter(|p| parse_path(p).is_some_and(|x| x.len() == 2)).cloned().collect()
    }
    pub fn channels_of(&self, g: &str) -> Vec<String> {
        self.objs.keys().filter(|p| parse_path(p).is_some_and(|x| x.len() == 2 && x[0] == g)).cloned().collect()
    }
}

// ---------------------------------------------------------------- encoder

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum Idx {
    /// 0xFFFFFFFF: no raw data in this segment.
    None,
    /// 0: same index as the last one of this object.
    Same,
    /// Explicit index: type and number of values per chunk.
    Full(Ty, u64),
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct SObj {
    pub path: String,
    pub idx: Idx,
    pub props: Vec<(String, Pv)>,
}
pub fn so(path: &str, idx: Idx) -> SObj {
    SObj { path: path.to_string(), idx, props: vec![] }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub struct Seg {
    pub be: bool,
    pub new_list: bool,
    pub meta: Option<Vec<SObj>>,
    pub interleaved: bool,
    /// Number of raw data chunks; 0 means no raw data.
    pub chunks: usize,
}

#[derive(Clone, Default, Debug)]
pub struct Foreign {
    pub bytes: Vec<u8>,
    pub model: Model,
    pub active: Vec<String>,
    pub fmt: BTreeMap<String, (Ty, u64)>,
    /// Objects taken off the list that continues; where they would come back is not defined.
    pub removed: std::collections::BTreeSet<String>,
    pub k: u32,
    /// (start, raw start, end) of every segment.
    pub segs: Vec<(usize, usize, usize)>,
    pub version: u32,
}

/// The text of string sample k, the i-th of its chunk (lengths repeat per chunk).
pub fn sample_string(i: u64, k: u32) -> Vec<u8> {
    let c = b'a' + (k % 26) as u8;
    match i % 3 {
        0 => vec![c, c],
        1 => vec![],
        _ => "é".bytes().chain([c]).collect(),
    }
}
fn str_total(n: u64) -> u64 {
    (0..n).map(|i| 4 + sample_string(i, 0).len() as u64).sum()
}
fn string(s: &str, be: bool) -> Vec<u8> {
    let mut v = u32b(s.len() as u32, be);
    v.extend(s.as_bytes());
    v
}
pub fn encode_meta(objs: &[SObj], be: bool) -> Vec<u8> {
    let mut m = u32b(objs.len() as u32, be);
    for o in objs {
        m.extend(string(&o.path, be));
        match &o.idx {
            Idx::None => m.extend(u32b(0xFFFF_FFFF, be)),
            Idx::Same => m.extend(u32b(0, be)),
            Idx::Full(ty, n) => {
                m.extend(u32b(if *ty == Ty::Str { 28 } else { 20 }, be));
                m.extend(u32b(ty.code(), be));
                m.extend(u32b(1, be));
                m.extend(u64b(*n, be));
                if *ty == Ty::Str {
                    m.extend(u64b(str_total(*n), be));
                }
            }
        }
        m.extend(u32b(o.props.len() as u32, be));
        for (n, v) in &o.props {
            m.extend(string(n, be));
            m.extend(u32b(v.code(), be));
            m.extend(v.bytes(be));
        }
    }
    m
}
pub fn lead_in(be: bool, toc: u32, version: u32, next: u64, raw: u64) -> Vec<u8> {
    let mut v = b"TDSm".to_vec();
    v.extend(toc.to_le_bytes());
    v.extend(u32b(version, be));
    v.extend(u64b(next, be));
    v.extend(u64b(raw, be));
    v
}
pub fn toc(seg: &Seg) -> u32 {
    (seg.meta.is_some() as u32) << 1
        | (seg.new_list as u32) << 2
        | ((seg.chunks > 0) as u32) << 3
        | (seg.interleaved as u32) << 5
        | (seg.be as u32) << 6
}

impl Foreign {
    pub fn new() -> Self {
        Foreign { version: 4713, ..Default::default() }
    }
    /// The active list and formats if this segment came next; None if it would not be well-formed.
    pub fn after(&self, seg: &Seg) -> Option<(Vec<String>, BTreeMap<String, (Ty, u64)>, std::collections::BTreeSet<String>)> {
        let mut active = if seg.new_list { vec![] } else { self.active.clone() };
        let mut removed = if seg.new_list { Default::default() } else { self.removed.clone() };
        let mut fmt = self.fmt.clone();
        if seg.new_list && seg.meta.is_none() {
            return None;
        }
        let mut seen = std::collections::BTreeSet::new();
        for o in seg.meta.iter().flatten() {
            if !seen.insert(&o.path) {
                return None;
            }
            match &o.idx {
                Idx::None => {
                    if seg.chunks > 0 && active.contains(&o.path) {
                        active.retain(|p| *p != o.path);
                        removed.insert(o.path.clone());
                    }
                    continue;
                }
                Idx::Same => {
                    fmt.get(&o.path)?;
                }
                Idx::Full(t, n) => {
                    fmt.insert(o.path.clone(), (*t, *n));
                }
            }
            if !active.contains(&o.path) {
                if removed.contains(&o.path) {
                    return None;
                }
                active.push(o.path.clone());
            }
        }
        if seg.chunks > 0 {
            if active.is_empty() {
                return None;
            }
            let size: u64 = active.iter().map(|p| {
                let (t, n) = fmt[p];
                if t == Ty::Str { str_total(n) } else { n * t.size() as u64 }
            }).sum();
            if size == 0 {
                return None;
            }
            // a string chunk is never repeated under one index (its size is that of its text)
            if seg.chunks > 1 && active.iter().any(|p| fmt[p].0 == Ty::Str) {
                return None;
            }
            if seg.interleaved {
                let n = fmt[&active[0]].1;
                if active.iter().any(|p| fmt[p].1 != n || fmt[p].0 == Ty::Str) {
                    return None;
                }
            }
        }
        Some((active, fmt, removed))
    }
    pub fn push(&mut self, seg: &Seg) -> bool {
        let Some((active, fmt, removed)) = self.after(seg) else { return false };
        self.active = active;
        self.removed = removed;
        self.fmt = fmt;
        for o in seg.meta.iter().flatten() {
            let m = self.model.obj(&o.path);
            for (n, v) in &o.props {
                m.props.insert(n.clone(), v.natural());
            }
        }
        let meta = seg.meta.as_ref().map(|m| encode_meta(m, seg.be)).unwrap_or_default();
        let mut raw = vec![];
        for _ in 0..seg.chunks {
            // allocate sample numbers channel by channel
            let cols: Vec<(Ty, Vec<u32>)> = self.active.iter().map(|p| {
                let (t, n) = self.fmt[p];
                let ks: Vec<u32> = (0..n as u32).map(|i| self.k + i).collect();
                self.k += n as u32;
                self.model.objs.get_mut(p).unwrap().samples.extend(ks.iter().map(|k| (t, *k)));
                (t, ks)
            }).collect();
            if seg.interleaved {
                for i in 0..cols[0].1.len() {
                    for (t, ks) in &cols {
                        raw.extend(enc(*t, ks[i], seg.be));
                    }
                }
            } else {
                for (t, ks) in &cols {
                    if *t == Ty::Str {
                        let mut off = 0u32;
                        let texts: Vec<Vec<u8>> = ks.iter().enumerate().map(|(i, k)| sample_string(i as u64, *k)).collect();
                        for x in &texts {
                            off += x.len() as u32;
                            raw.extend(u32b(off, seg.be));
                        }
                        for x in &texts {
                            raw.extend(x);
                        }
                    } else {
                        for k in ks {
                            raw.extend(enc(*t, *k, seg.be));
                        }
                    }
                }
            }
        }
        let start = self.bytes.len();
        self.bytes.extend(lead_in(seg.be, toc(seg), self.version, (meta.len() + raw.len()) as u64, meta.len() as u64));
        self.bytes.extend(&meta);
        let rs = self.bytes.len();
        self.bytes.extend(&raw);
        self.segs.push((start, rs, self.bytes.len()));
        true
    }
}

// ---------------------------------------------------------------- strict decoder

#[derive(Clone, Debug, Default)]
pub struct DObj {
    pub props: BTreeMap<String, Pv>,
    /// Stored type and canonical bytes of every sample (text bytes for strings).
    pub samples: Vec<(Ty, Vec<u8>)>,
    fmt: Option<(Ty, u64, u64)>,
}
#[derive(Clone, Debug)]
pub struct DSeg {
    pub start: usize,
    pub raw: usize,
    pub end: usize,
    pub toc: u32,
}
#[derive(Clone, Debug, Default)]
pub struct Decoded {
    pub objs: BTreeMap<String, DObj>,
    pub segs: Vec<DSeg>,
}

struct Cur<'a> {
    b: &'a [u8],
    p: usize,
    be: bool,
}
impl<'a> Cur<'a> {
    fn take(&mut self, n: usize) -> Result<&'a [u8], String> {
        if n > self.b.len() - self.p {
            return Err(format!("metadata runs past its declared end at byte {}", self.p));
        }
        self.p += n;
        Ok(&self.b[self.p - n..self.p])
    }
    fn u32(&mut self) -> Result<u32, String> {
        let b: [u8; 4] = self.take(4)?.try_into().unwrap();
        Ok(if self.be { u32::from_be_bytes(b) } else { u32::from_le_bytes(b) })
    }
    fn u64(&mut self) -> Result<u64, String> {
        let b: [u8; 8] = self.take(8)?.try_into().unwrap();
        Ok(if self.be { u64::from_be_bytes(b) } else { u64::from_le_bytes(b) })
    }
    fn string(&mut self) -> Result<String, String> {
        let n = self.u32()? as usize;
        String::from_utf8(self.take(n)?.to_vec()).map_err(|_| "string is not UTF-8".to_string())
    }
}

impl DObj {
    pub fn format(&self) -> Option<(Ty, u64, u64)> {
        self.fmt
    }
}
pub fn decode(b: &[u8]) -> Result<Decoded, String> {
    decode_with_active(b).map(|x| x.0)
}
/// Decode a complete file, insisting on everything the NI format document demands.
/// Also gives the object list a following segment would continue.
pub fn decode_with_active(b: &[u8]) -> Result<(Decoded, Vec<String>), String> {
    let mut d = Decoded::default();
    let mut active: Vec<String> = vec![];
    let mut at = 0usize;
    while at < b.len() {
        let e = |m: String| format!("segment at byte {at}: {m}");
        if b.len() - at < 28 {
            return Err(e(format!("{} stray bytes at the end of the file", b.len() - at)));
        }
        if &b[at..at + 4] != b"TDSm" {
            return Err(e(format!("bad tag {:x?}", &b[at..at + 4])));
        }
        let toc = u32::from_le_bytes(b[at + 4..at + 8].try_into().unwrap());
        if toc & !0b0110_1110 != 0 {
            return Err(e(format!("unknown or unsupported ToC bits {toc:#x}")));
        }
        let be = toc >> 6 & 1 == 1;
        let mut c = Cur { b, p: at + 8, be };
        let version = c.u32()?;
        if version != 4712 && version != 4713 {
            return Err(e(format!("version {version}")));
        }
        let next = c.u64()?;
        let raw_off = c.u64()?;
        if next > (b.len() - at - 28) as u64 {
            return Err(e(format!("declared size {next} runs past the end of the file ({} bytes left)", b.len() - at - 28)));
        }
        if raw_off > next {
            return Err(e("raw data offset beyond next segment offset".into()));
        }
        let (raw_at, end) = (at + 28 + raw_off as usize, at + 28 + next as usize);
        let (has_meta, new_list, has_raw, inter) = (toc >> 1 & 1 == 1, toc >> 2 & 1 == 1, toc >> 3 & 1 == 1, toc >> 5 & 1 == 1);
        if has_meta != (raw_off > 0) {
            return Err(e(format!("metadata flag {has_meta} but {raw_off} metadata bytes")));
        }
        if has_raw != (end > raw_at) {
            return Err(e(format!("raw data flag {has_raw} but {} raw data bytes", end - raw_at)));
        }
        if new_list {
            if !has_meta {
                return Err(e("new object list without metadata".into()));
            }
            active.clear();
        }
        if has_meta {
            let mut c = Cur { b: &b[..raw_at], p: at + 28, be };
            let n = c.u32().map_err(&e)?;
            let mut seen = std::collections::BTreeSet::new();
            for _ in 0..n {
                let path = c.string().map_err(&e)?;
                let names = parse_path(&path).ok_or_else(|| e(format!("invalid object path {path:?}")))?;
                if !seen.insert(path.clone()) {
                    return Err(e(format!("object {path} listed twice")));
                }
                let o = d.objs.entry(path.clone()).or_default();
                let ri = c.u32().map_err(&e)?;
                let mut activates = true;
                match ri {
                    0xFFFF_FFFF => {
                        activates = false;
                        if has_raw {
                            active.retain(|p| *p != path);
                        }
                    }
                    0 => {
                        if o.fmt.is_none() {
                            return Err(e(format!("{path}: same index as before, but there is none")));
                        }
                    }
                    20 | 28 => {
                        let code = c.u32().map_err(&e)?;
                        let ty = Ty::from_code(code).ok_or_else(|| e(format!("{path}: raw data type {code:#x}")))?;
                        if (ty == Ty::Str) != (ri == 28) {
                            return Err(e(format!("{path}: raw index length {ri} for {ty:?}")));
                        }
                        if c.u32().map_err(&e)? != 1 {
                            return Err(e(format!("{path}: array dimension is not 1")));
                        }
                        let n = c.u64().map_err(&e)?;
                        let total = if ty == Ty::Str { c.u64().map_err(&e)? } else { n.checked_mul(ty.size() as u64).ok_or("overflow")? };
                        o.fmt = Some((ty, n, total));
                    }
                    x => return Err(e(format!("{path}: raw index length {x:#x}"))),
                }
                if activates {
                    if names.len() != 2 {
                        return Err(e(format!("{path} is not a channel but has raw data")));
                    }
                    if !active.contains(&path) {
                        active.push(path.clone());
                    }
                }
                let np = c.u32().map_err(&e)?;
                for _ in 0..np {
                    let name = c.string().map_err(&e)?;
                    let code = c.u32().map_err(&e)?;
                    let v = if code == 0 {
                        Pv::Void
                    } else {
                        match Ty::from_code(code) {
                            Some(Ty::Str) => Pv::Str(c.string().map_err(&e)?),
                            Some(t) => {
                                let raw = c.take(t.size()).map_err(&e)?.to_vec();
                                if t == Ty::Bool && raw[0] > 1 {
                                    return Err(e(format!("{path}: boolean property byte {}", raw[0])));
                                }
                                Pv::Fixed(t, to_order(t, raw, be))
                            }
                            None => return Err(e(format!("{path}: property {name:?} has type {code:#x}"))),
                        }
                    };
                    d.objs.get_mut(&path).unwrap().props.insert(name, v);
                }
            }
            if c.p != raw_at {
                return Err(e(format!("metadata is {} bytes but the lead-in declares {raw_off}", c.p - at - 28)));
            }
        }
        if has_raw {
            if active.is_empty() {
                return Err(e("raw data without channels".into()));
            }
            let mut chunk = 0u64;
            for p in &active {
                chunk = chunk.checked_add(d.objs[p].fmt.unwrap().2).ok_or("overflow")?;
            }
            let len = (end - raw_at) as u64;
            if chunk == 0 || len % chunk != 0 {
                return Err(e(format!("{len} raw data bytes, but the object list needs a multiple of {chunk}")));
            }
            let mut p = raw_at;
            for _ in 0..len / chunk {
                if inter {
                    let n = d.objs[&active[0]].fmt.unwrap().1;
                    if active.iter().any(|a| d.objs[a].fmt.unwrap().1 != n || d.objs[a].fmt.unwrap().0 == Ty::Str) {
                        return Err(e("interleaved channels differ in length".into()));
                    }
                    for _ in 0..n {
                        for a in &active {
                            let o = d.objs.get_mut(a).unwrap();
                            let t = o.fmt.unwrap().0;
                            o.samples.push((t, to_order(t, b[p..p + t.size()].to_vec(), be)));
                            p += t.size();
                        }
                    }
                } else {
                    for a in &active {
                        let o = d.objs.get_mut(a).unwrap();
                        let (t, n, total) = o.fmt.unwrap();
                        if t == Ty::Str {
                            let base = p + 4 * n as usize;
                            let mut prev = 0usize;
                            for i in 0..n as usize {
                                let mut c = Cur { b, p: p + 4 * i, be };
                                let x = c.u32().map_err(&e)? as usize;
                                if x < prev || base + x > p + total as usize {
                                    return Err(e(format!("{a}: string offset {x}")));
                                }
                                o.samples.push((t, b[base + prev..base + x].to_vec()));
                                prev = x;
                            }
                            p += total as usize;
                        } else {
                            for _ in 0..n {
                                let raw = b[p..p + t.size()].to_vec();
                                if t == Ty::Bool && raw[0] > 1 {
                                    return Err(e(format!("{a}: boolean sample byte {}", raw[0])));
                                }
                                o.samples.push((t, to_order(t, raw, be)));
                                p += t.size();
                            }
                        }
                    }
                }
            }
            assert_eq!(p, end, "harness: raw data accounting");
        }
        d.segs.push(DSeg { start: at, raw: raw_at, end, toc });
        at = end;
    }
    Ok((d, active))
}

/// Does the decoded file show exactly this model?
pub fn decoded_matches(d: &Decoded, m: &Model) -> Result<(), String> {
    let a: Vec<_> = d.objs.keys().collect();
    let b: Vec<_> = m.objs.keys().collect();
    if a != b {
        return Err(format!("objects in the file {a:?}, expected {b:?}"));
    }
    for (p, o) in &m.objs {
        let x = &d.objs[p];
        let xp: BTreeMap<String, Pv> = x.props.iter().map(|(k, v)| (k.clone(), v.natural())).collect();
        if xp != o.props {
            return Err(format!("{p}: properties in the file {:?}, expected {:?}", x.props, o.props));
        }
        if x.samples.len() != o.samples.len() {
            return Err(format!("{p}: {} samples in the file, expected {}", x.samples.len(), o.samples.len()));
        }
        for (i, ((t, raw), (et, k))) in x.samples.iter().zip(&o.samples).enumerate() {
            if t != et {
                return Err(format!("{p}: sample {i} stored as {t:?}, expected {et:?}"));
            }
            if *t != Ty::Str && *raw != canon(*et, *k) {
                return Err(format!("{p}: sample {i} is {raw:x?}, expected {:x?}", canon(*et, *k)));
            }
        }
    }
    Ok(())
}
