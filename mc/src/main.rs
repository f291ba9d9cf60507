mod alloc;
mod check;
mod dev;
mod explore;
mod generate;
mod hist;
mod props;
mod sparse;
mod spec;
mod types;

use explore::*;
use serde_json::{Value, json};
use std::collections::HashSet;
use std::process::{Command, exit};
use std::time::{Duration, Instant};

#[global_allocator]
static A: alloc::Capped = alloc::Capped;

fn home() -> String {
    std::env::var("MC_HOME").unwrap_or_else(|_| "/verif".into())
}
fn threads() -> usize {
    std::env::var("MC_THREADS").ok().and_then(|x| x.parse().ok()).unwrap_or_else(|| std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16))
}
fn scenarios(id: &str, tier: &str) -> Vec<Scenario> {
    let mut v = props::scenarios(id, tier == "thorough");
    if let Ok(only) = std::env::var("MC_ONLY") {
        v.retain(|s| s.name.contains(&only));
    }
    v
}
fn known_cases(id: &str) -> Vec<(String, String)> {
    let Ok(t) = std::fs::read_to_string(format!("{}/known_findings.jsonl", home())) else { return vec![] };
    t.lines().filter_map(|l| serde_json::from_str::<Value>(l).ok()).filter(|v| v["status"] == "known" && v["property"] == id)
        .filter_map(|v| Some((v["case"].as_str()?.to_string(), v["what"].as_str()?.to_string()))).collect()
}

fn worker(id: &str, tier: &str, slotfile: &str, result: &str) -> ! {
    install_hook();
    let secs: u64 = std::env::var("MC_SECS").ok().and_then(|x| x.parse().ok()).unwrap_or(if tier == "thorough" { 7200 } else { 700 });
    let lim = Limits { threads: threads(), deadline: Instant::now() + Duration::from_secs(secs), hang: Duration::from_secs(40) };
    let slots = Slots::open(slotfile, lim.threads, false).expect("slots");
    let known: HashSet<String> = known_cases(id).into_iter().map(|x| x.0).collect();
    let mut out = vec![];
    let mut code = 0;
    let only: Option<usize> = std::env::var("MC_INDEX").ok().and_then(|x| x.parse().ok());
    for (i, sc) in scenarios(id, tier).iter().enumerate() {
        if only.is_some_and(|o| o != i) {
            continue;
        }
        let r = explore(i as u32, sc, &lim, &slots, &known);
        let st_json = |st: &Stats| json!({"scenario": sc.name, "bounds": sc.bounds, "executions": st.executions, "transitions": st.transitions,
            "states": st.states, "distinct_final_states": st.outcomes, "max_choices": st.max_choices, "complete": st.complete, "wall_s": st.wall,
            "known": st.known, "samples": st.samples.iter().map(|(c, t)| json!({"scenario": sc.name, "choices": c, "trace": t})).collect::<Vec<_>>()});
        match r {
            Outcome::Done(st) => {
                eprintln!("  {:<34} {:>9} executions {:>9} states {:>8} transitions {:.1}s{}", sc.name, st.executions, st.states, st.transitions, st.wall, if st.complete { "" } else { " CAPPED" });
                out.push(st_json(&st));
            }
            Outcome::Violation(f, st) => {
                let mut v = st_json(&st);
                v["violation"] = json!({"key": f.fail.key, "message": f.fail.msg, "choices": f.choices, "index": i});
                out.push(v);
                code = 1;
                break;
            }
            Outcome::Engine(e) => {
                out.push(json!({"scenario": sc.name, "engine": e}));
                code = 3;
                break;
            }
        }
    }
    std::fs::write(result, serde_json::to_string(&json!({"scenarios": out})).unwrap()).expect("result file");
    exit(if code == 3 { 3 } else { 0 });
}

/// Exit: 0 held, 1 failed (message on stdout), 3 engine error; may die of a signal or print HANG and exit 88.
fn one(id: &str, tier: &str, idx: usize, choices: Vec<u32>) -> ! {
    install_hook();
    let sc = scenarios(id, tier).into_iter().nth(idx).expect("scenario");
    alloc::LIMIT.store(2 << 30, std::sync::atomic::Ordering::Relaxed);
    let slow = sc.slow;
    let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    {
        let done = done.clone();
        std::thread::spawn(move || {
            for _ in 0..if slow { 24_000 } else { 1200 } {
                std::thread::sleep(Duration::from_millis(50));
                if done.load(std::sync::atomic::Ordering::SeqCst) {
                    return;
                }
            }
            unsafe { libc::_exit(88) };
        });
    }
    // run on a thread with the same stack as the engine's workers
    let h = std::thread::Builder::new().stack_size(16 << 20).spawn(move || {
        let mut ctx = Ctx::new(choices, true);
        let r = execute(&sc.body, &mut ctx);
        (r, ctx)
    }).unwrap();
    let (r, ctx) = h.join().expect("execution thread");
    done.store(true, std::sync::atomic::Ordering::SeqCst);
    for t in &ctx.trace {
        println!("  {t}");
    }
    match r {
        Ran::Ok => exit(0),
        Ran::Fail(f) => {
            println!("FAIL[{}] {}", f.key, f.msg);
            println!("CHOICES {}", fmt_choices(&ctx.choices));
            exit(1)
        }
        Ran::Engine(e) => {
            println!("ENGINE {e}");
            exit(3)
        }
    }
}

struct Confirm {
    failed: bool,
    how: String,
    out: String,
}
fn confirm(id: &str, tier: &str, idx: usize, choices: &[u32]) -> Result<Confirm, String> {
    let exe = std::env::current_exe().unwrap();
    let o = Command::new(exe).args(["one", id, tier, &idx.to_string(), &fmt_choices(choices)]).output().map_err(|e| e.to_string())?;
    let out = String::from_utf8_lossy(&o.stdout).to_string();
    use std::os::unix::process::ExitStatusExt;
    Ok(match (o.status.code(), o.status.signal()) {
        (Some(0), _) => Confirm { failed: false, how: "held".into(), out },
        (Some(1), _) => Confirm { failed: true, how: "failed".into(), out },
        (Some(88), _) => Confirm { failed: true, how: "did not return within 60 s".into(), out },
        (Some(c), _) => return Err(format!("confirmation run exited with {c}: {out}")),
        (None, s) => Confirm { failed: true, how: format!("killed the process with signal {s:?}; stderr: {}", String::from_utf8_lossy(&o.stderr).chars().take(400).collect::<String>()), out },
    })
}

/// Explore scenario `idx` again in fresh processes, for a failure that its answer vector alone does not
/// reproduce: first on one thread (the executions then come in a fixed order), then on all.
/// Gives what failed and how.
fn again(id: &str, tier: &str, idx: usize) -> Option<(String, Vec<u32>, String)> {
    let exe = std::env::current_exe().unwrap();
    let tmp = std::env::temp_dir().join(format!("mc-again-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&tmp).expect("temp dir");
    let slotfile = tmp.join("slots").to_string_lossy().to_string();
    let result = tmp.join("result.json").to_string_lossy().to_string();
    let mut found = None;
    for n in [1, threads()] {
        let slots = Slots::open(&slotfile, n, true).expect("slots");
        std::fs::remove_file(&result).ok();
        let status = Command::new(&exe).args(["worker", id, tier, &slotfile, &result])
            .env("MC_THREADS", n.to_string()).env("MC_INDEX", idx.to_string()).env("MC_SECS", "60").status().expect("worker");
        let text = std::fs::read_to_string(&result).unwrap_or_default();
        let v: Value = serde_json::from_str(&text).unwrap_or(json!({}));
        use std::os::unix::process::ExitStatusExt;
        for s in v["scenarios"].as_array().into_iter().flatten() {
            if let Some(vi) = s.get("violation") {
                let choices = vi["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
                found = Some((vi["message"].as_str().unwrap_or("").to_string(), choices, format!("recurs when the scenario is explored again on {n} thread(s); it depends on what was executed before or on chance")));
            }
        }
        // Being killed from outside says nothing.
        if let (None, Some(signal)) = (&found, status.signal().filter(|s| *s != 9 && *s != 15)) {
            found = Some((format!("the library killed the process with signal {signal} again"), slots.get(0).map(|x| x.1).unwrap_or_default(), format!("when the scenario is explored on {n} thread(s)")));
        }
        if found.is_some() {
            break;
        }
    }
    std::fs::remove_dir_all(&tmp).ok();
    found
}

fn report(id: &str, tier: &str, sc: &Scenario, idx: usize, choices: &[u32], msg: &str, trace: &str) -> String {
    let dir = format!("{}/evidence/replay", home());
    std::fs::create_dir_all(&dir).ok();
    let path = format!("{dir}/{id}.json");
    let v = json!({"property": id, "tier": tier, "scenario": sc.name, "index": idx, "choices": choices, "message": msg, "trace": trace.lines().collect::<Vec<_>>(),
        "case": format!("{}:{}", sc.name, fmt_choices(choices)), "how_to_replay": format!("./check.sh replay {path}")});
    std::fs::write(&path, serde_json::to_string_pretty(&v).unwrap()).expect("replay file");
    path
}

fn parent(id: &str, tier: &str) -> ! {
    let t0 = Instant::now();
    let scs = scenarios(id, tier);
    if scs.is_empty() {
        eprintln!("no scenarios for {id}");
        exit(2);
    }
    let tmp = std::env::temp_dir().join(format!("mc-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&tmp).expect("temp dir");
    let slotfile = tmp.join("slots").to_string_lossy().to_string();
    let result = tmp.join("result.json").to_string_lossy().to_string();
    let n = threads();
    let slots = Slots::open(&slotfile, n, true).expect("slots");
    let exe = std::env::current_exe().unwrap();
    let status = Command::new(&exe).args(["worker", id, tier, &slotfile, &result]).status().expect("worker");
    let text = std::fs::read_to_string(&result).unwrap_or_default();
    let mut violation: Option<String> = None;
    let mut engine: Option<String> = None;
    let v: Value = serde_json::from_str(&text).unwrap_or(json!({"scenarios": []}));
    let list = v["scenarios"].as_array().cloned().unwrap_or_default();
    use std::os::unix::process::ExitStatusExt;
    if status.signal().is_some() || status.code() == Some(88) {
        eprintln!("worker ended abnormally ({status:?}); looking for the execution that did it");
        let mut tried = 0;
        let mut running = vec![];
        for i in 0..n {
            if let Some((s, c)) = slots.get(i) {
                tried += 1;
                running.push(s as usize);
                match confirm(id, tier, s as usize, &c) {
                    Ok(cf) if cf.failed => {
                        let sc = &scs[s as usize];
                        let path = report(id, tier, sc, s as usize, &c, &format!("the library {}", cf.how), &cf.out);
                        println!("{}: {} [{}]\n{}", sc.name, cf.how, fmt_choices(&c), cf.out);
                        violation = Some(path);
                        break;
                    }
                    Ok(_) => {}
                    Err(e) => engine = Some(e),
                }
            }
        }
        if let (None, None, Some(idx)) = (&violation, &engine, running.first()) {
            if let Some((msg, c, how)) = again(id, tier, *idx) {
                println!("{}: {msg} ({how})", scs[*idx].name);
                violation = Some(report(id, tier, &scs[*idx], *idx, &c, &msg, &how));
            }
        }
        if violation.is_none() && engine.is_none() {
            engine = Some(format!("worker died ({status:?}) and none of {tried} running executions reproduces it"));
        }
    } else if status.code() != Some(0) && list.is_empty() {
        engine = Some(format!("worker failed: {status:?}"));
    }
    let mut samples = vec![];
    let mut tot = [0u64; 4];
    let mut complete = true;
    let mut known_hit: Vec<String> = vec![];
    let mut details = vec![];
    for s in &list {
        if let Some(e) = s["engine"].as_str() {
            engine = Some(e.to_string());
            continue;
        }
        tot[0] += s["executions"].as_u64().unwrap_or(0);
        tot[1] += s["transitions"].as_u64().unwrap_or(0);
        tot[2] += s["states"].as_u64().unwrap_or(0);
        tot[3] += s["distinct_final_states"].as_u64().unwrap_or(0);
        complete &= s["complete"].as_bool().unwrap_or(false);
        for k in s["known"].as_array().into_iter().flatten() {
            known_hit.push(k[0].as_str().unwrap_or("").to_string());
        }
        samples.extend(s["samples"].as_array().cloned().unwrap_or_default().into_iter().take(2));
        let mut d = s.clone();
        d.as_object_mut().unwrap().remove("samples");
        details.push(d);
        if let Some(vi) = s.get("violation") {
            let idx = vi["index"].as_u64().unwrap() as usize;
            let choices: Vec<u32> = vi["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            let mut first = confirm(id, tier, idx, &choices);
            for _ in 0..2 {
                if matches!(&first, Ok(cf) if !cf.failed) {
                    first = confirm(id, tier, idx, &choices);
                }
            }
            match first {
                Ok(cf) if cf.failed => {
                    let msg = vi["message"].as_str().unwrap();
                    let path = report(id, tier, &scs[idx], idx, &choices, msg, &cf.out);
                    println!("{}: {}\ntrace:\n{}", scs[idx].name, msg, cf.out);
                    violation = Some(path);
                }
                Ok(_) => match again(id, tier, idx) {
                    Some((msg, c, how)) => {
                        println!("{}: {msg} ({how})", scs[idx].name);
                        violation = Some(report(id, tier, &scs[idx], idx, &c, &msg, &how));
                    }
                    None => engine = Some(format!("violation of {} not reproducible: {}", scs[idx].name, vi["message"])),
                },
                Err(e) => engine = Some(e),
            }
        }
    }
    std::fs::remove_dir_all(&tmp).ok();
    if samples.is_empty() {
        samples.push(json!("no execution completed"));
    }
    samples.truncate(8);
    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let ev = json!({
        "property": id, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": tot[2], "transitions": tot[1], "traces_validated_against_impl": tot[0],
            "evaluations": tot[0], "distinct_nontrivial": tot[3],
            "rule": "one evaluation is one complete execution of the real library under one answer vector of the scenario's choice tree (every vector within the bounds is executed exactly once); states are distinct hashed observations (stream contents, views, results), distinct_nontrivial counts distinct final observations",
            "exhaustive": complete && violation.is_none() && engine.is_none(),
            "samples": samples, "scenarios": details,
        },
        "assumptions": props::assumptions(id),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": violation.is_some() as u32,
    });
    let evp = format!("{}/evidence/{id}.json", home());
    std::fs::create_dir_all(format!("{}/evidence", home())).ok();
    std::fs::write(&evp, serde_json::to_string_pretty(&ev).unwrap()).expect("evidence");
    for (case, what) in known_cases(id) {
        if known_hit.contains(&case) {
            println!("KNOWN-FINDING: property={id} {what}");
        }
    }
    if let Some(p) = violation {
        println!("VIOLATION property={id} replay={p}");
        exit(1);
    }
    if let Some(e) = engine {
        eprintln!("ENGINE ERROR: {e}");
        exit(2);
    }
    println!("{id} {tier}: held on {} executions, {} states, {} transitions in {} scenarios, {:.1}s{}", tot[0], tot[2], tot[1], details.len(), t0.elapsed().as_secs_f64(), if complete { "" } else { " (time cap hit, see evidence)" });
    exit(0);
}

fn parse(c: &str) -> Vec<u32> {
    c.split(',').filter(|x| !x.is_empty()).map(|x| x.parse().unwrap()).collect()
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    match a.get(1).map(|s| s.as_str()) {
        Some("run") => parent(&a[2], &a[3]),
        Some("worker") => worker(&a[2], &a[3], &a[4], &a[5]),
        Some("one") => one(&a[2], &a[3], a[4].parse().unwrap(), parse(&a[5])),
        Some("replay") => {
            let v: Value = serde_json::from_str(&std::fs::read_to_string(&a[2]).expect("replay file")).expect("json");
            let c: Vec<u32> = v["choices"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect();
            if v["trace"][0].as_str().is_some_and(|t| t.contains("scenario is explored")) {
                let found = again(v["property"].as_str().unwrap(), v["tier"].as_str().unwrap(), v["index"].as_u64().unwrap() as usize);
                match found {
                    Some((msg, c, how)) => println!("FAIL {msg}\nCHOICES {} ({how})", fmt_choices(&c)),
                    None => println!("held"),
                }
                exit(0);
            }
            one(v["property"].as_str().unwrap(), v["tier"].as_str().unwrap(), v["index"].as_u64().unwrap() as usize, c)
        }
        Some("list") => {
            for id in props::IDS {
                for s in scenarios(id, a.get(2).map(|s| s.as_str()).unwrap_or("quick")) {
                    println!("{id} {} - {}", s.name, s.bounds);
                }
            }
        }
        _ => {
            eprintln!("usage: mc run|replay|list ...");
            exit(2)
        }
    }
}
