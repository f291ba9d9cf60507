//! Spaces of files to explore.
use crate::explore::Ctx;
use crate::spec::*;
use crate::types::*;
use std::cell::RefCell;
use std::collections::HashMap;

pub fn ch(c: &str) -> String {
    cpath("g", c)
}
/// A self-contained segment: new object list, every index given.
pub fn full(be: bool, inter: bool, chunks: usize, chans: &[(&str, Ty, u64)]) -> Seg {
    Seg { be, new_list: true, meta: Some(chans.iter().map(|(c, t, n)| so(&ch(c), Idx::Full(*t, *n))).collect()), interleaved: inter, chunks }
}
/// All ordered lists of at most `max` distinct entries.
pub fn ordered_lists<T: Clone>(names: usize, max: usize, opts: &[T]) -> Vec<Vec<(usize, T)>> {
    let mut out = vec![vec![]];
    let mut last: Vec<Vec<(usize, T)>> = vec![vec![]];
    for _ in 0..max {
        let mut next = vec![];
        for l in &last {
            for n in 0..names {
                if l.iter().any(|x| x.0 == n) {
                    continue;
                }
                for o in opts {
                    let mut x = l.clone();
                    x.push((n, o.clone()));
                    next.push(x);
                }
            }
        }
        out.extend(next.clone());
        last = next;
    }
    out
}

/// Every segment over these objects and options.
pub fn alphabet(names: &[&str], max_objs: usize, idx: &[Idx], bes: &[bool], inters: &[bool], chunks: &[usize]) -> Vec<Seg> {
    let mut out = vec![];
    for l in ordered_lists(names.len(), max_objs, idx) {
        for new_list in [false, true] {
            for &be in bes {
                for &inter in inters {
                    for &c in chunks {
                        let meta: Vec<SObj> = l.iter().map(|(i, x)| so(names[*i], x.clone())).collect();
                        out.push(Seg { be, new_list, meta: Some(meta), interleaved: inter, chunks: c });
                    }
                }
            }
        }
    }
    for &be in bes {
        for &inter in inters {
            for &c in chunks {
                if c > 0 {
                    out.push(Seg { be, new_list: false, meta: None, interleaved: inter, chunks: c });
                }
            }
        }
    }
    out
}

thread_local! {
    static VALID: RefCell<HashMap<(u64, u64), std::rc::Rc<Vec<usize>>>> = RefCell::new(HashMap::new());
}
/// Choose one of the segments that may come next.
pub fn choose_valid<'a>(ctx: &mut Ctx, id: u64, f: &Foreign, alpha: &'a [Seg]) -> Option<&'a Seg> {
    let key = (id, crate::explore::hash(&(&f.active, &f.fmt, &f.removed)));
    let v = VALID.with(|m| {
        m.borrow_mut().entry(key).or_insert_with(|| {
            std::rc::Rc::new((0..alpha.len()).filter(|i| f.after(&alpha[*i]).is_some()).collect())
        }).clone()
    });
    if v.is_empty() {
        return None;
    }
    Some(&alpha[v[ctx.choose(v.len())]])
}
pub fn show_seg(s: &Seg) -> String {
    let objs: Vec<String> = s.meta.iter().flatten().map(|o| format!("{}:{:?}{}", o.path, o.idx, if o.props.is_empty() { String::new() } else { format!(" {:?}", o.props) })).collect();
    format!("segment {}{}{}{} x{} [{}]", if s.be { "BE " } else { "LE " }, if s.new_list { "new-list " } else { "continue " }, if s.meta.is_some() { "meta " } else { "no-meta " }, if s.interleaved { "interleaved" } else { "contiguous" }, s.chunks, objs.join(", "))
}
