//! C30: memory in use while reading and writing.
use super::extra::{Part, lay};
use crate::explore::*;
use crate::generate::ch;
use crate::hist::*;
use crate::types::*;
use crate::{alloc, check, ensure, exec_cmd, with_ty};
use std::io::{Read, Result as IoResult, Seek, SeekFrom, Write};
use tedium::{ChannelPath, DataLayout, TdmsError, TdmsFile};

/// A fixed buffer, and a little for every block and channel.
const FIXED: usize = 64 << 10;
fn allowed(blocks: usize, channels: usize) -> usize {
    FIXED + 1024 * (blocks + 1) * (channels + 1)
}
/// A device that only counts what is written to it.
#[derive(Default)]
struct Sink {
    len: u64,
    pos: u64,
}
impl Read for Sink {
    fn read(&mut self, b: &mut [u8]) -> IoResult<usize> {
        let n = (self.len - self.pos.min(self.len)).min(b.len() as u64) as usize;
        b[..n].fill(0);
        self.pos += n as u64;
        Ok(n)
    }
}
impl Write for Sink {
    fn write(&mut self, b: &[u8]) -> IoResult<usize> {
        self.pos += b.len() as u64;
        self.len = self.len.max(self.pos);
        Ok(b.len())
    }
    fn flush(&mut self) -> IoResult<()> {
        Ok(())
    }
}
impl Seek for Sink {
    fn seek(&mut self, p: SeekFrom) -> IoResult<u64> {
        self.pos = match p {
            SeekFrom::Start(x) => x,
            SeekFrom::End(d) => self.len.saturating_add_signed(d),
            SeekFrom::Current(d) => self.pos.saturating_add_signed(d),
        };
        Ok(self.pos)
    }
}
/// The most memory in use during a call and what is left of it afterwards.
fn used<T>(f: impl FnOnce() -> T) -> (T, usize, isize) {
    alloc::peak_start();
    let r = f();
    (r, alloc::peak_take(), alloc::net())
}

pub fn c30(t: bool) -> Vec<Scenario> {
    let sizes: Vec<u64> = if t { vec![64, 1 << 12, 1 << 17, 1 << 20] } else { vec![64, 1 << 12, 1 << 17] };
    let sizes2: Vec<usize> = sizes.iter().map(|s| *s as usize).collect();
    vec![
        scenario("reading", &format!("1 or 3 channels in 1 or 3 blocks of {sizes:?} samples each, as one chunk, chunks of 16 and chunks of 1, both layouts and byte orders, 3 types; 6 kinds of read, each done 40 times (3 times if long): memory in use beyond twice the caller's buffers is bounded whatever the size, and none is kept"), move |ctx| {
            let (be, inter) = (ctx.flag(), ctx.flag());
            let ty = *ctx.pick(&[Ty::F64, Ty::I8, Ty::Time]);
            let c = *ctx.pick(&[1usize, 3]);
            let blocks = *ctx.pick(&[1usize, 3]);
            let shape = ctx.choose(3);
            let request = ctx.choose(6);
            let names = ["a", "b", "c"];
            for size in &sizes {
                ctx.step();
                let (n, chunks) = match shape {
                    0 => (*size, 1),
                    1 => (16, size / 16),
                    _ => (1, *size),
                };
                let part = |i: usize| Part { new_list: i == 0, meta: Some(names[..c].iter().map(|x| (*x, ty)).collect()), props: 0, inter, raw: true };
                let (dev, _, _) = lay(&(0..blocks).map(part).collect::<Vec<_>>(), be, n, chunks);
                let mut f = TdmsFile::new(dev.again()).or_else(|e| fail("open", format!("{e:?}")))?;
                let total = size * blocks as u64;
                let paths: Vec<ChannelPath> = names[..c].iter().map(|x| check::chan(&ch(x))).collect::<R<_>>()?;
                with_ty!(ty, T => {
                    let len = match request { 0 | 2 => total as usize, 1 | 3 => 4, 4 => 9, _ => 16 };
                    let start = match request { 1 | 3 => total - 4, 4 => size / 2, 5 => total + 1, _ => 0 };
                    let mut bufs: Vec<Vec<T>> = (0..c).map(|i| vec![check::tail::<T>(0); len + i]).collect();
                    let multi = matches!(request, 2..=4);
                    let turns = if *size <= 4096 || len <= 16 { 40 } else { 3 };
                    let mut kept = 0;
                    for turn in 0..turns {
                        let mut slices: Vec<&mut [T]> = bufs.iter_mut().map(|b| &mut b[..]).collect();
                        let (r, peak, left) = used(|| -> Result<(), TdmsError> {
                            if multi {
                                f.read_channels_from(&paths, start, &mut slices)
                            } else {
                                f.read_channel_from(&paths[c - 1], start, slices[0])
                            }
                        });
                        ensure!(r.is_ok(), "read", "a read of {len} from {start} failed: {r:?}");
                        // a copy or two of what is asked for is fair, one of what is stored is not
                        let max = allowed(blocks, c) + 2 * c * (len + c) * std::mem::size_of::<T>();
                        ensure!(peak <= max, "memory", "reading {len} samples of {c} channels from {start} of {total} ({blocks} blocks of {chunks} chunks of {n}) used {peak} bytes, {max} are enough");
                        ensure!(left <= FIXED as isize, "kept", "a read of {len} samples keeps {left} bytes");
                        kept += if turn < 2 { 0 } else { left };
                        ensure!(kept <= 512, "kept", "repeating a read of {len} samples {turn} times keeps {kept} bytes more");
                    }
                });
            }
            ctx.state(&(be, inter, ty, c, blocks, shape, request));
            Ok(())
        }),
        scenario("writing", &format!("1, 3 or 20 channels of {sizes2:?} values in all, both layouts, 3 types, written 1 to 5 times with and without property writes and syncs between: memory in use beyond twice the caller's values is bounded whatever the size and none of it is kept"), move |ctx| {
            let inter = ctx.flag();
            let ty = *ctx.pick(&[Ty::F64, Ty::I8, Ty::Time]);
            let c = *ctx.pick(&[1usize, 3, 20]);
            let times = ctx.range(1, 5);
            let between = ctx.choose(3);
            let names: Vec<String> = (0..c).map(|i| format!("c{i}")).collect();
            let chans: Vec<&str> = names.iter().map(|s| s.as_str()).collect();
            for size in &sizes2 {
                ctx.step();
                let n = size.div_ceil(c);
                let paths: Vec<ChannelPath> = chans.iter().map(|x| ChannelPath::new("g", x)).collect();
                let mut f = TdmsFile::new(Sink::default()).or_else(|e| fail("open", format!("{e:?}")))?;
                let layout = if inter { DataLayout::Interleaved } else { DataLayout::Contigious };
                with_ty!(ty, T => {
                    let values: Vec<T> = vec![check::tail::<T>(1); n * c];
                    let mut w = f.writer().or_else(|e| fail("writer", format!("{e:?}")))?;
                    for i in 0..times {
                        let (r, peak, left) = used(|| w.write_channels(&paths, &values, layout));
                        ensure!(r.is_ok(), "write-error", "{r:?}");
                        let max = allowed(i, c) + 2 * n * c * std::mem::size_of::<T>();
                        ensure!(peak <= max, "memory", "writing {n} values of {c} channels used {peak} bytes, {max} are enough");
                        ensure!(left <= (4096 + 512 * c) as isize, "kept", "a write of {n} values of {c} channels keeps {left} bytes");
                        let more = match between {
                            1 => cmd(&WOp::Props { path: P::File, props: vec![("i".into(), Pv::i(i as i32))] }, 1),
                            2 => cmd(&WOp::Sync, 1),
                            _ => continue,
                        };
                        let (r, peak, _) = used(|| exec_cmd!(w, &more));
                        ensure!(r.is_ok() && peak <= allowed(i, c), "memory", "{r:?}, {peak} bytes");
                    }
                    let (_, peak, _) = used(|| drop(w));
                    ensure!(peak <= FIXED, "memory", "closing the writer used {peak} bytes");
                });
            }
            ctx.state(&(inter, ty, c, times, between));
            Ok(())
        }),
    ]
}
