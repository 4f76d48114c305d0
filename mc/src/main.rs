//! Bounded exhaustive model checking of ftml.  See /verif/DESIGN.md.
mod checks;
mod corpus;
mod doc;
mod engine;
mod html;
mod dates;
mod refparse;
mod refrender;
mod walk;
mod templates;

use engine::*;
use serde_json::{json, Value};
use std::collections::HashSet;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::time::Instant;

fn verif() -> PathBuf {
    PathBuf::from(std::env::var("MC_VERIF").unwrap_or_else(|_| "/verif".into()))
}

const MAX_VIOLATIONS: usize = 400;
const MAX_CRASHES: usize = 12;

struct Known {
    property: String,
    input: Option<String>,
    message: Option<String>,
    what: String,
}

fn known_findings() -> Vec<Known> {
    let path = verif().join("known_findings.json");
    let Ok(text) = std::fs::read_to_string(path) else { return vec![] };
    let v: Value = serde_json::from_str(&text).expect("known_findings.json");
    v["findings"]
        .as_array()
        .expect("findings array")
        .iter()
        .map(|f| Known {
            property: f["property"].as_str().unwrap().into(),
            input: f["input"].as_str().map(String::from),
            message: f["message"].as_str().map(String::from),
            what: f["what"].as_str().unwrap().into(),
        })
        .collect()
}

fn find_known<'a>(known: &'a [Known], prop: &str, v: &Violation) -> Option<&'a Known> {
    known.iter().find(|k| {
        k.property == prop
            && (k.input.is_some() || k.message.is_some())
            && k.input.as_ref().map_or(true, |i| *i == v.input)
            && k.message.as_ref().map_or(true, |m| *m == v.msg)
    })
}

fn parse_skip(s: &str) -> HashSet<(usize, u64)> {
    s.split(',')
        .filter(|x| !x.is_empty())
        .map(|x| {
            let (a, b) = x.split_once(':').unwrap();
            (a.parse().unwrap(), b.parse().unwrap())
        })
        .collect()
}

fn limit_memory() {
    // A runaway allocation in the subject must end this worker, not the machine.
    let lim = libc::rlimit { rlim_cur: 24 << 30, rlim_max: 24 << 30 };
    unsafe {
        libc::setrlimit(libc::RLIMIT_AS, &lim);
        let core = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
        libc::setrlimit(libc::RLIMIT_CORE, &core);
    }
}

fn get(id: &str, tier: &str) -> checks::Check {
    match checks::get(id, tier == "thorough") {
        Some(c) => c,
        None => {
            eprintln!("unknown property {id}");
            std::process::exit(2)
        }
    }
}

fn worker(id: &str, tier: &str, slots: &str, out: &str, skip: &str) -> i32 {
    limit_memory();
    install_panic_hook();
    let check = get(id, tier);
    let slots = Slots::open(slots);
    let skip = parse_skip(skip);
    let r = explore(&check.families, Some(&slots), &skip, MAX_VIOLATIONS);
    let viol: Vec<Value> = r
        .violations
        .iter()
        .map(|v| json!({"family": v.family, "index": v.index, "input": v.input, "msg": v.msg}))
        .collect();
    let res = json!({
        "states": r.cx.states.len(), "nontrivial": r.cx.nontrivial.len(),
        "transitions": r.cx.transitions, "runs": r.cx.runs,
        "counters": r.cx.counters, "maxima": r.cx.maxima,
        "evaluated": r.evaluated, "total": r.total, "truncated": r.truncated,
        "per_family": r.per_family.iter().map(|(n, c, b)| json!({"family": n, "cases": c, "bound": b})).collect::<Vec<_>>(),
        "samples": r.samples, "violations": viol,
        "assumptions": check.assumptions, "rule": check.rule, "vacuity": check.vacuity(&r.cx),
    });
    std::fs::write(out, res.to_string()).expect("write result");
    0
}

fn worker_one(id: &str, tier: &str, family: usize, index: u64) -> i32 {
    limit_memory();
    install_panic_hook();
    let check = get(id, tier);
    let fam = &check.families[family];
    let res = std::thread::scope(|s| {
        std::thread::Builder::new()
            .stack_size(STACK)
            .spawn_scoped(s, || {
                let mut cx = Cx::default();
                match guard(|| (fam.run)(index, &mut cx)) {
                    Ok(r) => r,
                    Err(p) => Err(p),
                }
            })
            .unwrap()
            .join()
            .unwrap()
    });
    match res {
        Ok(()) => 0,
        Err(m) => {
            println!("{m}");
            1
        }
    }
}

/// Runs a command with a wall-clock limit; None = timed out.
fn run_limited(cmd: &mut Command, secs: u64) -> Option<std::process::ExitStatus> {
    let mut child = cmd.spawn().expect("spawn");
    let t = Instant::now();
    loop {
        if let Some(s) = child.try_wait().expect("wait") {
            return Some(s);
        }
        if t.elapsed().as_secs() > secs {
            let _ = child.kill();
            let _ = child.wait();
            return None;
        }
        std::thread::sleep(std::time::Duration::from_millis(20));
    }
}

fn describe(st: Option<std::process::ExitStatus>) -> String {
    use std::os::unix::process::ExitStatusExt;
    match st {
        None => "did not finish (hang)".into(),
        Some(s) => match s.signal() {
            Some(6) => "process aborted (SIGABRT: stack overflow or out of memory)".into(),
            Some(11) => "process died with SIGSEGV".into(),
            Some(n) => format!("process killed by signal {n}"),
            None => format!("process exited with code {:?}", s.code()),
        },
    }
}

fn check(id: &str, tier: &str) -> i32 {
    let t0 = Instant::now();
    let exe = std::env::current_exe().unwrap();
    let scratch = std::env::temp_dir().join(format!("ftml-mc-{}-{}", id, std::process::id()));
    std::fs::create_dir_all(&scratch).unwrap();
    let r = check_inner(id, tier, &exe, &scratch, t0);
    let _ = std::fs::remove_dir_all(&scratch);
    r
}

fn check_inner(id: &str, tier: &str, exe: &Path, scratch: &Path, t0: Instant) -> i32 {
    let meta = get(id, tier);
    let slots = scratch.join("slots");
    let out = scratch.join("out.json");
    let mut skip: Vec<(usize, u64)> = Vec::new();
    let mut crashes: Vec<Violation> = Vec::new();
    let result: Option<Value> = loop {
        let _ = std::fs::remove_file(&slots);
        let _ = std::fs::remove_file(&out);
        let skip_s = skip.iter().map(|(a, b)| format!("{a}:{b}")).collect::<Vec<_>>().join(",");
        let st = Command::new(exe)
            .args(["worker", id, tier])
            .arg(&slots)
            .arg(&out)
            .arg(&skip_s)
            .status()
            .expect("worker");
        if st.success() && out.exists() {
            break Some(serde_json::from_str(&std::fs::read_to_string(&out).unwrap()).unwrap());
        }
        // The worker died: replay every case that was in flight, each in its own process.
        let active = Slots::open(slots.to_str().unwrap()).active();
        println!("worker ended abnormally ({}), replaying {} in-flight cases", describe(Some(st)), active.len());
        let mut found = false;
        let results: Vec<_> = std::thread::scope(|sc| {
            let hs: Vec<_> = active
                .into_iter()
                .map(|(f, i, _)| {
                    sc.spawn(move || {
                        let mut c = Command::new(exe);
                        (f, i, run_limited(c.args(["worker-one", id, tier, &f.to_string(), &i.to_string()]), 60))
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        for (f, i, st) in results {
            if st.map_or(true, |s| s.code().map_or(true, |c| c != 0 && c != 1)) {
                found = true;
                skip.push((f, i));
                crashes.push(Violation {
                    family: meta.families[f].name.clone(),
                    index: i,
                    input: (meta.families[f].show)(i),
                    msg: format!("the implementation did not return: {}", describe(st)),
                });
            }
        }
        if !found {
            eprintln!("ERROR: worker ended abnormally and no in-flight case reproduces it: no verdict");
            return 2;
        }
        let known = known_findings();
        if crashes.len() >= MAX_CRASHES || crashes.iter().any(|v| find_known(&known, id, v).is_none()) {
            break None;
        }
    };

    let known = known_findings();
    let mut violations = crashes;
    let mut cov = json!({});
    if let Some(r) = &result {
        for v in r["violations"].as_array().unwrap() {
            violations.push(Violation {
                family: v["family"].as_str().unwrap().into(),
                index: v["index"].as_u64().unwrap(),
                input: v["input"].as_str().unwrap().into(),
                msg: v["msg"].as_str().unwrap().into(),
            });
        }
        cov = r.clone();
    }
    let mut reported: Vec<&str> = Vec::new();
    let mut real: Vec<&Violation> = Vec::new();
    for v in &violations {
        if let Some(k) = find_known(&known, id, v) {
            if !reported.contains(&k.what.as_str()) {
                println!("KNOWN-FINDING: property={id} {}", k.what);
                reported.push(&k.what);
            }
        } else {
            real.push(v);
        }
    }
    real.sort_by_key(|v| v.input.len());

    let seed: i64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(0);
    let complete = result.is_some() && cov["truncated"] == json!(false) && skip.is_empty();
    let evidence = json!({
        "property": id, "tier": tier, "seed": seed, "level": "model_checking",
        "coverage": {
            "states": cov["states"].as_u64().unwrap_or(0),
            "transitions": cov["transitions"].as_u64().unwrap_or(0),
            "traces_validated_against_impl": cov["runs"].as_u64().unwrap_or(0),
            "distinct_nontrivial": cov["nontrivial"].as_u64().unwrap_or(0),
            "exhaustive": complete,
            "rule": cov["rule"], "samples": cov["samples"],
            "families": cov["per_family"], "counters": cov["counters"], "maxima": cov["maxima"],
        },
        "assumptions": cov["assumptions"].as_array().cloned().unwrap_or_default(),
        "wall_s": t0.elapsed().as_secs_f64(),
        "violations": real.len(),
    });
    let evdir = verif().join("evidence");
    let _ = std::fs::create_dir_all(&evdir);
    std::fs::write(evdir.join(format!("{id}.json")), serde_json::to_string_pretty(&evidence).unwrap() + "\n").unwrap();

    println!(
        "{id} {tier}: states={} transitions={} runs={} cases={}/{} exhaustive={} wall={:.1}s counters={} maxima={}",
        cov["states"], cov["transitions"], cov["runs"], cov["evaluated"], cov["total"], complete,
        t0.elapsed().as_secs_f64(), cov["counters"], cov["maxima"]
    );
    if real.is_empty() {
        if let Some(why) = cov["vacuity"].as_str() {
            eprintln!("ERROR: vacuous run: {why}");
            return 2;
        }
        if !complete && result.is_some() && skip.is_empty() {
            eprintln!("ERROR: exploration stopped early");
            return 2;
        }
        return 0;
    }
    let dir = verif().join("replays");
    let _ = std::fs::create_dir_all(&dir);
    let v = real[0];
    let path = dir.join(format!("{id}.json"));
    let others: Vec<Value> = real
        .iter()
        .skip(1)
        .take(39)
        .map(|v| json!({"family": v.family, "index": v.index, "input": v.input, "message": v.msg}))
        .collect();
    std::fs::write(
        &path,
        serde_json::to_string_pretty(&json!({
            "property": id, "tier": tier, "family": v.family, "index": v.index,
            "input": v.input, "message": v.msg, "others": others,
            "how_to_replay": format!("/verif/check.sh replay {}", path.display()),
        }))
        .unwrap(),
    )
    .unwrap();
    for v in real.iter().take(8) {
        println!("  [{} #{}] input={:?}\n    {}", v.family, v.index, v.input, v.msg.replace('\n', "\n    "));
    }
    println!("VIOLATION property={id} replay={}", path.display());
    1
}

fn replay(path: &str) -> i32 {
    let v: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("json");
    let (id, tier) = (v["property"].as_str().unwrap(), v["tier"].as_str().unwrap());
    let c = get(id, tier);
    let f = c.families.iter().position(|f| f.name == v["family"].as_str().unwrap()).expect("family");
    let i = v["index"].as_u64().unwrap();
    println!("{id} family {} case {i}: {:?}", c.families[f].name, (c.families[f].show)(i));
    drop(c);
    let st = run_limited(
        Command::new(std::env::current_exe().unwrap()).args(["worker-one", id, tier, &f.to_string(), &i.to_string()]),
        130,
    );
    println!("{}", describe(st));
    if st.map_or(false, |s| s.success()) {
        0
    } else {
        1
    }
}

#[global_allocator]
static COUNTING: checks::Counting = checks::Counting;

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let s = |i: usize| a.get(i).map(|s| s.as_str()).unwrap_or("");
    let code = match s(1) {
        "check" => check(s(2), if s(3).is_empty() { "quick" } else { s(3) }),
        "worker" => worker(s(2), s(3), s(4), s(5), s(6)),
        "worker-one" => worker_one(s(2), s(3), s(4).parse().unwrap(), s(5).parse().unwrap()),
        "replay" => replay(s(2)),
        "show" => {
            doc::show_stdin();
            0
        }
        "ref" => {
            let mut t = std::io::read_to_string(std::io::stdin()).unwrap();
            ftml::preprocess(&mut t);
            println!("{:#?}", refparse::parse_in(&t, true));
            0
        }
        "c16-ops" => {
            install_panic_hook();
            checks::c16::subprocess(s(2));
            0
        }
        "list" => {
            for id in checks::ids() {
                println!("{id}");
            }
            0
        }
        _ => {
            eprintln!("usage: mc check ID [quick|thorough] | replay FILE | show");
            2
        }
    };
    std::process::exit(code);
}
