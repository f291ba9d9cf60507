use crate::explore::Scenario;
use crate::{check, hist};
pub mod api;
pub mod app;
pub mod crash;
pub mod disk;
pub mod extra;
pub mod faults;
pub mod handles;
pub mod large;
pub mod memory;
pub mod reading;
pub mod repro;
pub mod scale;
pub mod texts;
pub mod threads;
pub mod writing;

pub const IDS: [&str; 33] = [
    "C01", "C02", "C03", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C11", "C12", "C13", "C14", "C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C23", "C24", "C25", "C26", "C27", "C28", "C29", "C30", "C31", "C32", "C33",
];

pub fn scenarios(id: &str, t: bool) -> Vec<Scenario> {
    let mut v = base(id, t);
    v.extend(match id {
        "C01" => {
            let mut x = scale::both(hist::data_view, false, t);
            x.push(scale::wide(hist::data_view, false, false));
            x.push(scale::wide_written());
            x.push(texts::patterns_written(hist::data_view, false));
            x.push(texts::alike_written(hist::data_view, false));
            x
        }
        "C02" => {
            let mut x = scale::both(writing::both_views, false, t);
            x.push(texts::alike_written(writing::both_views, false));
            x
        }
        "C16" => {
            let mut x = scale::both(hist::no_view, true, t);
            x.push(scale::many_properties(hist::no_view, true, if t { 1025 } else { 257 }));
            if t {
                x.push(scale::huge_list());
            }
            x.push(scale::wide(hist::no_view, true, false));
            x.push(scale::text_lengths(hist::no_view, true, t));
            x.extend(texts::names(hist::no_view, true));
            x.push(texts::patterns_written(hist::no_view, true));
            x.push(texts::alike_written(hist::no_view, true));
            x
        }
        "C03" => {
            let mut x = scale::c03(t);
            x.push(texts::foreign());
            x.push(texts::patterns_foreign());
            x.push(texts::alike_foreign());
            x
        }
        "C04" => scale::c04(t),
        "C05" => scale::c05(t),
        "C06" => scale::c06(t),
        "C07" => {
            let mut x = vec![scale::wide(check::check_view, true, true), scale::many_properties(check::check_view, true, if t { 1025 } else { 257 }), scale::text_lengths(check::check_view, true, t)];
            x.extend(texts::properties(check::check_view, true));
            x.push(texts::alike_written(check::check_view, true));
            x
        }
        "C08" => {
            let mut x = scale::c08(api::listings_view, t);
            x.extend(texts::names(api::listings_view, false));
            x.push(texts::alike_written(api::listings_view, false));
            x
        }
        "C11" => {
            let mut x = scale::c11(t);
            x.push(texts::patterns_cut());
            x
        }
        "C12" => scale::c12(t),
        "C13" => scale::c13(t),
        "C14" => scale::c14(t),
        "C17" => scale::c17(t),
        "C18" => scale::c18(t),
        "C21" => scale::c21(t),
        _ => vec![],
    });
    v
}
fn base(id: &str, thorough: bool) -> Vec<Scenario> {
    match id {
        "C01" => writing::c01(thorough),
        "C02" => writing::c02(thorough),
        "C03" => reading::c03(thorough),
        "C04" => reading::c04(thorough),
        "C05" => reading::c05(thorough),
        "C06" => reading::c06(thorough),
        "C21" => reading::c21(thorough),
        "C22" => reading::c22(thorough),
        "C07" => writing::c07(thorough),
        "C14" => writing::c14(thorough),
        "C16" => writing::c16(thorough),
        "C17" => writing::c17(thorough),
        "C18" => writing::c18(thorough),
        "C08" => api::c08(thorough),
        "C09" => api::c09(thorough),
        "C19" => api::c19(thorough),
        "C20" => api::c20(thorough),
        "C10" => faults::c10(thorough),
        "C12" => faults::c12(thorough),
        "C13" => faults::c13(thorough),
        "C23" => large::c23(thorough),
        "C24" => disk::c24(thorough),
        "C25" => extra::c25(thorough),
        "C26" => extra::c26(thorough),
        "C27" => extra::c27(thorough),
        "C28" => extra::c28(thorough),
        "C29" => handles::c29(thorough),
        "C30" => memory::c30(thorough),
        "C31" => repro::c31(thorough),
        "C32" => app::c32(thorough),
        "C33" => threads::c33(thorough),
        "C11" => crash::c11(thorough),
        "C15" => crash::c15(thorough),
        _ => vec![],
    }
}
pub fn assumptions(id: &str) -> Vec<String> {
    let stream = "the stream behaves as std::io::Read/Write/Seek document (faults are injected only where the property speaks of them)";
    let reference = "the reference encoder/decoder (mc/src/spec.rs) says what the NI format document means";
    let mut v = vec![stream];
    v.extend(match id {
        "C01" | "C02" | "C14" | "C17" => vec!["values, names and lengths outside the enumerated pools are treated like those inside"],
        "C03" | "C04" | "C05" | "C06" | "C16" | "C22" | "C26" => vec![reference],
        "C07" | "C08" => vec![reference, "names outside the pool hold no further special characters"],
        "C10" => vec!["an operation budget proportional to the file stands for bounded time"],
        "C11" => vec!["a crash leaves a prefix of what was written (append-only device, no reordering)"],
        "C12" | "C13" | "C15" => vec!["faults come one or two at a time; errors of kind UnexpectedEof are not injected (streams report their end that way)"],
        "C18" => vec!["what the stream accepted before flush returned survives the process"],
        "C19" | "C20" => vec!["wide types: byte pairs at either end and patterns stand for all values"],
        "C21" => vec!["calls come from one thread (the interface takes &mut self)"],
        "C23" => vec![reference, "content of sparse regions is a function of the position"],
        "C24" => vec!["a file system with POSIX semantics under the scratch directory"],
        "C25" => vec!["a read-ahead of up to 64 KiB behind metadata is not reading sample data"],
        "C27" => vec!["when several reasons apply any of them may be named"],
        "C33" => vec!["threads are preempted at operations of their streams, at values of an application's type and at items of listings, where alone the library gives control away"],
        "C32" => vec!["one thing goes wrong at a time; what the application's code declares about itself is true"],
        "C31" => vec!["the calls themselves (values, names, their order) are the same"],
        "C30" => vec!["memory is that held through the Rust allocator by the calling thread"],
        "C29" => vec!["at most one writer is open on a file at any time", "handles that share one position are not used while one of them writes"],
        "C28" => vec!["an object entry of the NI format is path, index and properties, nothing shorter"],
        _ => vec![],
    });
    v.into_iter().map(String::from).collect()
}
