//! C24: files on a real file system (in a scratch directory of each execution).
use crate::check::*;
use crate::explore::*;
use crate::generate::*;
use crate::hist::*;
use crate::spec::*;
use crate::types::*;
use crate::{bail, ensure, session};
use std::collections::BTreeMap;
use std::fs::{self, File};
use std::path::PathBuf;
use std::sync::atomic::{AtomicU64, Ordering};
use tedium::TdmsFile;

static COUNT: AtomicU64 = AtomicU64::new(0);
const NAMES: [&str; 3] = ["x.tdms", "é x", "x.tdms_index"];

pub struct Scratch(PathBuf);
impl Scratch {
    pub fn new() -> Scratch {
        // in memory where there is such a file system: these checks are about files, not about disks
        let name = format!("mc-c24-{}-{}", std::process::id(), COUNT.fetch_add(1, Ordering::SeqCst));
        let own = std::env::var_os("MC_SCRATCH").map(PathBuf::from);
        for base in own.into_iter().chain(["/dev/shm".into(), std::env::temp_dir()]) {
            let d = base.join(&name);
            if fs::create_dir(&d).is_ok() {
                return Scratch(d);
            }
        }
        panic!("harness: no scratch directory");
    }
    pub fn path(&self, i: usize) -> PathBuf {
        self.0.join(NAMES[i])
    }
    /// Every entry of the directory: a file's bytes, or None for a directory.
    fn list(&self) -> BTreeMap<String, Option<Vec<u8>>> {
        fs::read_dir(&self.0).expect("harness: list").map(|e| {
            let e = e.unwrap();
            (e.file_name().to_string_lossy().to_string(), if e.path().is_dir() { None } else { Some(fs::read(e.path()).unwrap()) })
        }).collect()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = fs::remove_dir_all(&self.0);
    }
}

/// What is at a path.
#[derive(Clone, Debug, PartialEq)]
enum At {
    Nothing,
    Dir,
    /// Bytes that are not a TDMS file.
    Garbage(Vec<u8>),
    Tdms(Model),
}
fn start_states(which: usize) -> (At, Option<Vec<u8>>) {
    match which {
        0 => (At::Nothing, None),
        1 => (At::Garbage(b"this is not a TDMS file, but it is longer than a lead-in".to_vec()), None),
        2 => {
            let mut f = Foreign::new();
            let mut s = full(true, true, 2, &[("p", Ty::I32, 2), ("a", Ty::I32, 2)]);
            s.meta.as_mut().unwrap()[0].props.push(("old".into(), Pv::s("value")));
            f.k = 5000;
            assert!(f.push(&s));
            (At::Tdms(f.model), Some(f.bytes))
        }
        3 => (At::Tdms(Model::default()), Some(vec![])),
        _ => (At::Dir, None),
    }
}
struct World {
    dir: Scratch,
    at: Vec<At>,
    open: Vec<Option<TdmsFile<File>>>,
    k: u32,
}
impl World {
    fn new(kinds: &[usize]) -> World {
        let dir = Scratch::new();
        let mut at = vec![];
        for (i, k) in kinds.iter().enumerate() {
            let (a, b) = start_states(*k);
            match &a {
                At::Nothing => {}
                At::Dir => fs::create_dir(dir.path(i)).unwrap(),
                At::Garbage(g) => fs::write(dir.path(i), g).unwrap(),
                At::Tdms(_) => fs::write(dir.path(i), b.unwrap()).unwrap(),
            }
            at.push(a);
        }
        let open = kinds.iter().map(|_| None).collect();
        World { dir, at, open, k: 1 }
    }
    fn create(&mut self, i: usize) -> R {
        let p = self.dir.path(i);
        match (TdmsFile::<File>::create(&p), &self.at[i]) {
            (Ok(_), At::Dir) => bail!("create", "creating a file over a directory succeeded"),
            (Err(_), At::Dir) => Ok(()),
            (Err(e), a) => bail!("create", "create failed with {e:?} where there was {a:?}"),
            (Ok(f), _) => {
                self.at[i] = At::Tdms(Model::default());
                self.open[i] = Some(f);
                let b = fs::read(&p).or_else(|e| fail("create", format!("no file after create: {e}")))?;
                ensure!(b.is_empty(), "create", "the created file has {} bytes", b.len());
                self.look(i, "after create")
            }
        }
    }
    fn load(&mut self, i: usize) -> R {
        let p = self.dir.path(i);
        match (TdmsFile::<File>::load(&p), &self.at[i]) {
            (Ok(f), At::Tdms(_)) => {
                self.open[i] = Some(f);
                self.look(i, "after load")
            }
            (Err(e), At::Tdms(m)) => bail!("load", "load failed with {e:?}; the file holds {m:?}"),
            (Ok(_), a) => bail!("load", "load succeeded where there was {a:?}"),
            (Err(_), _) => Ok(()),
        }
    }
    fn look(&mut self, i: usize, what: &str) -> R {
        let At::Tdms(m) = &self.at[i] else { return Ok(()) };
        check_view(self.open[i].as_mut().unwrap(), m, what)
    }
    /// One writer session with these operations.
    fn write(&mut self, i: usize, ops: &[WOp]) -> R {
        let At::Tdms(m) = &mut self.at[i] else { panic!("harness: open file without a model") };
        let f = self.open[i].as_mut().unwrap();
        session!(f, w => {
            for op in ops {
                if let Err(e) = w(&cmd(op, self.k)) {
                    bail!("write-error", "valid write {op:?} refused: {e:?}");
                }
                self.k = effect(op, m, self.k);
            }
        });
        self.look(i, "after writing")
    }
    /// The directory holds exactly what it should.
    fn audit(&self, before: &BTreeMap<String, Option<Vec<u8>>>, touched: Option<usize>) -> R {
        let now = self.dir.list();
        let want: Vec<&str> = {
            let mut v: Vec<&str> = self.at.iter().enumerate().filter(|(_, a)| **a != At::Nothing).map(|(i, _)| NAMES[i]).collect();
            v.sort();
            v
        };
        let have: Vec<&str> = now.keys().map(|s| s.as_str()).collect();
        ensure!(have == want, "files", "the directory holds {have:?}, expected {want:?}");
        for (n, b) in &now {
            let Some(i) = NAMES.iter().position(|x| x == n) else { continue };
            if touched != Some(i) {
                ensure!(before.get(n) == Some(b), "others", "{n:?} changed although nothing was done to it");
            }
            match (&self.at[i], b) {
                (At::Tdms(m), Some(b)) => {
                    let d = decode(b).or_else(|e| fail("conformance", format!("{n:?}: {e}")))?;
                    if let Err(e) = decoded_matches(&d, m) {
                        bail!("conformance", "{n:?} holds something else: {e}");
                    }
                }
                (At::Garbage(g), Some(b)) => ensure!(g == b, "files", "{n:?}: content changed"),
                (At::Dir, None) => {}
                (a, _) => bail!("files", "{n:?} is not {a:?} any more"),
            }
        }
        Ok(())
    }
}

fn sequences(name: &str, paths: usize, depth: usize) -> Scenario {
    scenario(name, &format!("{paths} paths, each at first missing, garbage, an existing big-endian TDMS file, empty{}; every sequence of {depth} operations (create, load, write data, write properties, close) with at most one handle per path; directory contents and views after every operation", if paths == 1 { " or a directory" } else { "" }), move |ctx| {
        let kinds: Vec<usize> = (0..paths).map(|_| ctx.choose(if paths == 1 { 5 } else { 4 })).collect();
        let mut w = World::new(&kinds);
        for _ in 0..depth {
            // the operations possible now
            let mut ops = vec![];
            for i in 0..paths {
                match w.open[i] {
                    None => ops.extend([(i, 0), (i, 1)]),
                    Some(_) => ops.extend([(i, 2), (i, 3), (i, 4), (i, 5)]),
                }
            }
            let (i, op) = *ctx.pick(&ops);
            ctx.step();
            ctx.note(|| format!("{} path {i}", ["create", "load", "write data", "write properties", "write both in two sessions", "close"][op]));
            let before = w.dir.list();
            let mut touched = Some(i);
            match op {
                0 => w.create(i)?,
                1 => {
                    touched = None;
                    w.load(i)?
                }
                2 => w.write(i, &[data(&["a", "p"], Ty::I32, 2, true)])?,
                3 => w.write(i, &[WOp::Props { path: P::Chan("g".into(), "a".into()), props: vec![("n".into(), Pv::i(w.k as i32))] }])?,
                4 => {
                    let n = w.k as i32;
                    w.k += 1;
                    w.write(i, &[data(&["a"], Ty::I32, 3, false)])?;
                    w.write(i, &[WOp::Props { path: P::File, props: vec![("old".into(), Pv::i(n))] }, data(&["a"], Ty::I32, 1, false), WOp::Sync])?
                }
                _ => {
                    touched = None;
                    w.look(i, "before close")?;
                    w.open[i] = None
                }
            }
            w.audit(&before, touched)?;
            let l = w.dir.list();
            ctx.state(&l);
        }
        // whatever is still open still shows its file, and so does a fresh load of every file
        for i in 0..paths {
            if w.open[i].is_some() {
                w.look(i, "at the end")?;
                w.open[i] = None;
            }
            let before = w.dir.list();
            w.load(i)?;
            w.open[i] = None;
            w.audit(&before, None)?;
        }
        Ok(())
    })
}

pub fn c24(t: bool) -> Vec<Scenario> {
    vec![
        sequences("one_path", 1, if t { 9 } else { 7 }),
        sequences("two_paths", 2, if t { 6 } else { 5 }),
        scenario("lengths", "create over an existing file longer or shorter than what is written next (0, 1 or 3 blocks over 0..5 blocks), several times over, with a load between", move |ctx| {
            let mut w = World::new(&[0]);
            for _ in 0..3 {
                let n = *ctx.pick(&[0, 1, 2, 5]);
                ctx.step();
                let before = w.dir.list();
                if ctx.flag() {
                    w.create(0)?;
                } else {
                    w.load(0)?;
                }
                if w.open[0].is_some() {
                    let ty = if n > 0 { *ctx.pick(&[Ty::F64, Ty::I16]) } else { Ty::F64 };
                    for j in 0..n {
                        w.write(0, &[data(&["a", "b"], ty, 700 + j, j % 2 == 0)])?;
                    }
                }
                w.open[0] = None;
                w.audit(&before, Some(0))?;
                ctx.state(&w.dir.list());
            }
            Ok(())
        }),
        scenario("many_handles", &format!("{} of rounds of load (or create once) and write, keeping 1, 2 or 40 handles to other files open meanwhile; then everything is there and no descriptor is left", if t { "1 to 1100" } else { "1 to 300" }), move |ctx| {
            let n = *ctx.pick(if t { &[1usize, 2, 3, 15, 16, 17, 100, 257, 1023, 1024, 1025, 1100][..] } else { &[1usize, 2, 3, 9, 17, 33, 65, 129, 257, 300][..] });
            let keep = *ctx.pick(&[0usize, 1, 40]);
            let dir = Scratch::new();
            let fds = || fs::read_dir("/proc/self/fd").map(|d| d.filter_map(|e| fs::read_link(e.ok()?.path()).ok()).filter(|p| p.starts_with(&dir.0)).count()).unwrap_or(0);
            let mut others = vec![];
            for i in 0..keep {
                others.push(TdmsFile::<File>::create(&dir.0.join(format!("other{i}.tdms"))).or_else(|e| fail("create", format!("{e:?}")))?);
            }
            let p = dir.0.join("f.tdms");
            let (mut m, mut k) = (Model::default(), 1);
            for i in 0..n {
                ctx.step();
                let mut file = if i == 0 { TdmsFile::<File>::create(&p) } else { TdmsFile::<File>::load(&p) }.or_else(|e| fail("create", format!("round {i}: {e:?}")))?;
                let op = data(&["a", "b"], Ty::I16, 1 + i % 2, i % 3 == 0);
                session!(file, w => {
                    w(&cmd(&op, k)).or_else(|e| fail("write-error", format!("round {i}: {e:?}")))?;
                });
                k = effect(&op, &mut m, k);
                if i % 50 == 0 || i + 1 == n {
                    check_view(&mut file, &m, "round")?;
                }
            }
            ensure!(fds() == keep, "handles", "{} descriptors are open instead of {keep} after {n} rounds", fds());
            for (i, mut o) in others.into_iter().enumerate() {
                let op = data(&["x"], Ty::I32, 2, false);
                session!(o, w => {
                    w(&cmd(&op, 1 + i as u32)).or_else(|e| fail("write-error", format!("other {i}: {e:?}")))?;
                });
                let mut m = Model::default();
                effect(&op, &mut m, 1 + i as u32);
                check_view(&mut o, &m, "other file")?;
            }
            ensure!(fds() == 0, "handles", "{} descriptors are still open", fds());
            ctx.state(&fs::read(&p).unwrap());
            let mut f = TdmsFile::<File>::load(&p).or_else(|e| fail("load", format!("{e:?}")))?;
            check_view(&mut f, &m, "afterwards")
        }),
        scenario("bad_paths", "create and load in a missing directory, at a path below a file, and at the empty path: always an error, nothing appears", move |ctx| {
            let w = World::new(&[2]);
            let before = w.dir.list();
            let p = match ctx.choose(4) {
                0 => w.dir.0.join("missing").join("f.tdms"),
                1 => w.dir.path(0).join("f.tdms"),
                2 => PathBuf::new(),
                _ => w.dir.0.clone(),
            };
            ctx.step();
            let ok = if ctx.flag() { TdmsFile::<File>::create(&p).is_ok() } else { TdmsFile::<File>::load(&p).is_ok() };
            ensure!(!ok, "create", "opening an impossible path succeeded");
            ctx.state(&w.dir.list());
            w.audit(&before, None)
        }),
    ]
}
