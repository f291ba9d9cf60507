//! Histories of writer operations, run on the real library and on the reference model.
use crate::check::*;
use crate::dev::Dev;
use crate::explore::*;
use crate::spec::*;
use crate::types::*;
use crate::{bail, ensure};
use tedium::{ChannelPath, PropertyPath, PropertyValue, TdmsError};

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum P {
    File,
    Group(String),
    Chan(String, String),
}
impl P {
    pub fn lib(&self) -> PropertyPath {
        match self {
            P::File => PropertyPath::file(),
            P::Group(g) => PropertyPath::group(g),
            P::Chan(g, c) => PropertyPath::channel(g, c),
        }
    }
    pub fn path(&self) -> String {
        match self {
            P::File => "/".into(),
            P::Group(g) => gpath(g),
            P::Chan(g, c) => cpath(g, c),
        }
    }
}
#[derive(Clone, Debug, PartialEq, Eq, Hash)]
pub enum WOp {
    Data { chans: Vec<(String, String)>, ty: Ty, n: usize, inter: bool },
    Props { path: P, props: Vec<(String, Pv)> },
    Sync,
    /// Drop the writer, look at everything through the same file object, get a new writer.
    Session,
    /// Drop the writer and the file, open the bytes again.
    Reopen,
}
pub fn data(chans: &[&str], ty: Ty, n: usize, inter: bool) -> WOp {
    WOp::Data { chans: chans.iter().map(|c| ("g".to_string(), c.to_string())).collect(), ty, n, inter }
}

/// One call on the library's writer.
pub enum Cmd {
    Data { paths: Vec<ChannelPath>, ty: Ty, ks: Vec<u32>, inter: bool },
    Props { path: PropertyPath, props: Vec<(String, PropertyValue)> },
    Sync,
}
#[macro_export]
macro_rules! exec_cmd {
    ($w:expr, $cmd:expr) => {
        match $cmd {
            $crate::hist::Cmd::Data { paths, ty, ks, inter } => {
                let layout = if *inter { tedium::DataLayout::Interleaved } else { tedium::DataLayout::Contigious };
                $crate::with_ty!(*ty, T => {
                    let v: Vec<T> = ks.iter().map(|k| <T as $crate::types::Sample>::from_canon(&$crate::types::canon(<T as $crate::types::Sample>::TY, *k))).collect();
                    $w.write_channels(&paths[..], &v[..], layout)
                })
            }
            $crate::hist::Cmd::Props { path, props } => {
                let p: Vec<(&str, tedium::PropertyValue)> = props.iter().map(|(n, v)| (n.as_str(), v.clone())).collect();
                $w.write_properties(path, &p)
            }
            $crate::hist::Cmd::Sync => $w.sync(),
        }
    };
}
pub type W<'a> = &'a mut dyn FnMut(&Cmd) -> Result<(), TdmsError>;

/// Build the library call for an operation, numbering its samples from `k`.
pub fn cmd(op: &WOp, k: u32) -> Cmd {
    match op {
        WOp::Data { chans, ty, n, inter } => {
            let c = chans.len();
            let ks = (0..c * n).map(|i| {
                let (ch, j) = if *inter { (i % c, i / c) } else { (i / n, i % n) };
                k + (ch * n + j) as u32
            }).collect();
            Cmd::Data { paths: chans.iter().map(|(g, c)| ChannelPath::new(g, c)).collect(), ty: *ty, ks, inter: *inter }
        }
        WOp::Props { path, props } => Cmd::Props { path: path.lib(), props: props.iter().map(|(n, v)| (n.clone(), v.lib())).collect() },
        WOp::Sync => Cmd::Sync,
        WOp::Session | WOp::Reopen => panic!("harness: not a writer call"),
    }
}
/// The effect of an accepted operation on the model; returns the next free sample number.
pub fn effect(op: &WOp, m: &mut Model, k: u32) -> u32 {
    match op {
        WOp::Data { chans, ty, n, .. } => {
            for (i, (g, c)) in chans.iter().enumerate() {
                let o = m.obj(&cpath(g, c));
                o.samples.extend((0..*n as u32).map(|j| (*ty, k + i as u32 * *n as u32 + j)));
            }
            k + (chans.len() * n) as u32
        }
        WOp::Props { path, props } => {
            let o = m.obj(&path.path());
            for (n, v) in props {
                o.props.insert(n.clone(), v.natural());
            }
            k
        }
        _ => k,
    }
}

#[macro_export]
macro_rules! session {
    ($file:expr, $w:ident => $body:block) => {{
        let mut wr = $file.writer().or_else(|e| $crate::explore::fail("writer", format!("writer() failed: {e:?}")))?;
        #[allow(unused_mut)]
        let mut $w = |c: &$crate::hist::Cmd| -> Result<(), tedium::TdmsError> { $crate::exec_cmd!(wr, c) };
        $body
    }};
}

pub type View = fn(&mut tedium::TdmsFile<Dev>, &Model, &str) -> R;
pub fn no_view(_: &mut tedium::TdmsFile<Dev>, _: &Model, _: &str) -> R {
    Ok(())
}
/// Lengths and samples only.
pub fn data_view(f: &mut tedium::TdmsFile<Dev>, m: &Model, what: &str) -> R {
    for (p, o) in &m.objs {
        if parse_path(p).unwrap().len() == 2 {
            let got = f.channel_length(&chan(p)?);
            ensure!(got == Some(o.samples.len() as u64), "length", "{what}: length of {p} is {got:?}, expected {}", o.samples.len());
        }
    }
    check_data(f, m, what)
}

/// Run a history of accepted operations. Every call must succeed.
pub fn run(ctx: &mut Ctx, dev: &Dev, ops: &[WOp], view: View) -> R<Model> {
    run_on(ctx, dev, ops, view, Model::default(), 1)
}
/// The same on a stream that already holds `m`.
pub fn run_on(ctx: &mut Ctx, dev: &Dev, ops: &[WOp], view: View, mut m: Model, mut k: u32) -> R<Model> {
    crate::props::writing::LAST.with(|l| *l.borrow_mut() = Some(dev.clone()));
    let mut file = must_open(dev, "first open")?;
    let mut i = 0;
    loop {
        session!(file, w => {
            while i < ops.len() {
                let op = &ops[i];
                if matches!(op, WOp::Session | WOp::Reopen) {
                    break;
                }
                ctx.note(|| format!("{op:?}"));
                ctx.step();
                if let Err(e) = w(&cmd(op, k)) {
                    bail!("write-error", "valid write {op:?} refused: {e:?}");
                }
                k = effect(op, &mut m, k);
                i += 1;
            }
        });
        if i == ops.len() {
            break;
        }
        ctx.note(|| format!("{:?}", ops[i]));
        ctx.step();
        match ops[i] {
            WOp::Session => view(&mut file, &m, "live view between writer sessions")?,
            WOp::Reopen => {
                file = must_open(dev, "reopen between sessions")?;
                view(&mut file, &m, "view after reopening between sessions")?;
            }
            _ => {}
        }
        i += 1;
    }
    view(&mut file, &m, "live view")?;
    drop(file);
    ctx.state(&dev.bytes());
    Ok(m)
}
/// Strictly decode what was written and compare with the model.
pub fn check_strict(dev: &Dev, m: &Model) -> R<Decoded> {
    let b = dev.bytes();
    let d = decode(&b).or_else(|e| fail("conformance", format!("written file does not conform: {e}; bytes {b:02x?}")))?;
    if let Err(e) = decoded_matches(&d, m) {
        bail!("conformance", "written file decodes to something else: {e}; bytes {b:02x?}");
    }
    Ok(d)
}
pub fn check_reopened(dev: &Dev, m: &Model) -> R {
    let mut f = must_open(dev, "reopen")?;
    check_view(&mut f, m, "reopened view")?;
    Ok(())
}
