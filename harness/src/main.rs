//! Property-based checks of simmons/cbm.
//!
//!   harness check ID      search for a violation of property ID (VERIF_SEED, VERIF_TIER)
//!   harness replay FILE   run one saved case
//!   harness list          list the property ids

mod foreign;
mod geom;
mod hist;
mod props;
mod raw;
mod refalloc;
mod runner;
mod sut;
mod util;

use std::path::{Path, PathBuf};
use std::process::{exit, Command};
use std::time::{Duration, Instant};

use runner::{Ctx, Mode};
use serde_json::{json, Value};

const WATCHDOG: Duration = Duration::from_secs(840);
const WATCHDOG_THOROUGH: Duration = Duration::from_secs(6 * 3600);

fn main() {
    let args: Vec<String> = std::env::args().collect();
    match args.get(1).map(|s| s.as_str()) {
        Some("check") if args.len() == 3 => supervise(&args[2]),
        Some("worker") if args.len() == 3 => worker(&args[2]),
        Some("replay") if args.len() == 3 => replay(Path::new(&args[2])),
        Some("list") => {
            for p in props::ALL {
                println!("{}", p.id);
            }
        }
        _ => {
            eprintln!("usage: harness check ID | replay FILE | list");
            exit(2);
        }
    }
}

fn seed() -> u64 {
    std::env::var("VERIF_SEED")
        .ok()
        .and_then(|s| s.trim().parse::<i64>().ok())
        .unwrap_or(1) as u64
}

fn thorough() -> bool {
    std::env::var("VERIF_TIER").map_or(false, |t| t == "thorough")
}

fn replay_dir() -> PathBuf {
    let p = runner::root().join("replays");
    let _ = std::fs::create_dir_all(&p);
    p
}

/// Run the search in a child process, so that a crash of the code under test (abort, stack
/// overflow, memory fault) can be attributed to a case and reported.
fn supervise(id: &str) -> ! {
    if props::find(id).is_none() {
        eprintln!("unknown property {}", id);
        exit(2);
    }
    let scratch = sut::make_scratch();
    let limit = if thorough() { WATCHDOG_THOROUGH } else { WATCHDOG };
    let (status, err) = run_child(&["worker", id], &scratch, None, limit);
    let code = match status {
        Some(code @ 0) | Some(code @ 1) => code,
        Some(code) => {
            eprintln!("worker failed with exit code {}", code);
            code
        }
        None if err.contains("watchdog") => {
            eprintln!("inconclusive: {}", err.lines().last().unwrap_or(""));
            3
        }
        None => find_crash(id, &scratch),
    };
    let _ = std::fs::remove_dir_all(&scratch);
    exit(code);
}

/// Returns the exit code (None when ended by a signal) and standard error.
fn run_child(args: &[&str], scratch: &Path, journal: Option<&Path>, limit: Duration) -> (Option<i32>, String) {
    let errfile = scratch.join("stderr.txt");
    let f = std::fs::File::create(&errfile).expect("scratch file");
    let mut cmd = Command::new(std::env::current_exe().unwrap());
    cmd.args(args)
        .env("HARNESS_SCRATCH", scratch)
        .stderr(f);
    if let Some(j) = journal {
        cmd.env("HARNESS_JOURNAL", j);
    }
    let mut child = cmd.spawn().expect("spawn worker");
    let start = Instant::now();
    let status = loop {
        match child.try_wait().expect("wait") {
            Some(s) => break s,
            None => {
                if start.elapsed() > limit {
                    let _ = child.kill();
                    let _ = child.wait();
                    return (None, "watchdog: time limit reached".to_string());
                }
                std::thread::sleep(Duration::from_millis(20));
            }
        }
    };
    let err = String::from_utf8_lossy(&std::fs::read(&errfile).unwrap_or_default()).to_string();
    eprint!("{}", err);
    (status.code(), err)
}

/// The worker died by a signal: run it again, noting each case before it is run, and replay the
/// last case of each thread in a child process.
fn find_crash(id: &str, scratch: &Path) -> i32 {
    let journal = scratch.join("journal");
    let _ = std::fs::create_dir_all(&journal);
    eprintln!("worker was ended by a signal; looking for the case");
    let (status, _) = run_child(&["worker", id], scratch, Some(&journal), WATCHDOG / 2);
    if let Some(code) = status {
        eprintln!("the crash did not reproduce (exit code {})", code);
        return if code == 1 { 1 } else { 3 };
    }
    let mut files: Vec<PathBuf> = std::fs::read_dir(&journal)
        .map(|d| d.filter_map(|e| e.ok()).map(|e| e.path()).collect())
        .unwrap_or_default();
    files.sort();
    for f in files {
        // Cases take milliseconds and little memory, so one that, run alone, is ended for
        // want of memory or does not come to an end is a failure as well.
        let (status, err) = run_child(&["replay", f.to_str().unwrap()], scratch, None, WATCHDOG / 4);
        if status.is_none() {
            let why = if err.contains("watchdog") {
                "the case does not come to an end"
            } else {
                "the process was ended by a signal"
            };
            let out = replay_dir().join(format!("{}-crash.json", id));
            let _ = std::fs::copy(&f, &out);
            let rewritten = std::fs::read(&out)
                .ok()
                .and_then(|b| serde_json::from_slice::<Value>(&b).ok())
                .map(|mut v| {
                    v["message"] = json!(why);
                    v
                });
            if let Some(v) = rewritten {
                let _ = std::fs::write(&out, serde_json::to_vec_pretty(&v).unwrap());
            }
            println!("{}", why);
            println!("VIOLATION property={} replay={}", id, out.display());
            write_evidence(&Ctx::new(id, seed(), thorough(), Mode::Check), 0.0, 1);
            return 1;
        }
    }
    eprintln!("the crash could not be attributed to a case");
    3
}

fn write_evidence(ctx: &Ctx, wall: f64, violations: u64) {
    let p = props::find(&ctx.id).unwrap();
    let mut coverage = json!({
        "evaluations": ctx.evaluations,
        "distinct_nontrivial": ctx.distinct_nontrivial,
        "rule": ctx.rules.join(" "),
        "samples": ctx.samples,
        "classes": ctx.classes,
        "regression_cases": ctx.corpus_cases,
    });
    if !ctx.exhaustive.is_empty() {
        coverage["enumerated_completely"] = json!(ctx.exhaustive);
    }
    let v = json!({
        "property": ctx.id,
        "tier": if ctx.thorough {"thorough"} else {"quick"},
        "seed": ctx.seed as i64,
        "level": p.level,
        "coverage": coverage,
        "assumptions": p.assumptions,
        "wall_s": (wall * 100.0).round() / 100.0,
        "violations": violations,
    });
    let dir = &runner::root().join("evidence");
    let _ = std::fs::create_dir_all(dir);
    if let Err(e) = std::fs::write(
        dir.join(format!("{}.json", ctx.id)),
        serde_json::to_vec_pretty(&v).unwrap(),
    ) {
        eprintln!("cannot write evidence: {}", e);
        exit(3);
    }
}

/// A case does not come to an end: report it and give up.
pub fn report_hang(id: &str, seed: u64, thorough: bool, sub: &str, case: &Value, limit: Duration) -> ! {
    let message = format!("the case did not finish within {} s", limit.as_secs());
    let path = replay_dir().join(format!("{}-{}-hang.json", id, sub));
    if let Err(e) = runner::write_replay(&path, id, sub, &message, case) {
        eprintln!("cannot write replay: {}", e);
        exit(3);
    }
    write_evidence(&Ctx::new(id, seed, thorough, Mode::Check), 0.0, 1);
    println!("{} [{}]", message, sub);
    println!("VIOLATION property={} replay={}", id, path.display());
    exit(1);
}

fn worker(id: &str) -> ! {
    runner::install_panic_hook();
    let start = Instant::now();
    let p = match props::find(id) {
        Some(p) => p,
        None => exit(2),
    };
    let mut ctx = Ctx::new(id, seed(), thorough(), Mode::Check);
    (p.run)(&mut ctx);
    let wall = start.elapsed().as_secs_f64();
    let violations = u64::from(ctx.failure.is_some());
    write_evidence(&ctx, wall, violations);
    match ctx.failure {
        Some(ref f) => {
            let path = replay_dir().join(format!("{}-{}-{}.json", id, f.sub, runner::file_tag(f)));
            if let Err(e) = runner::write_replay(&path, id, &f.sub, &f.message, &f.case) {
                eprintln!("cannot write replay: {}", e);
                exit(3);
            }
            println!("{} [{}] ({})", f.message, f.sub, f.origin);
            println!("VIOLATION property={} replay={}", id, path.display());
            exit(1);
        }
        None => {
            println!(
                "{}: held on {} cases ({} distinct non-trivial) in {:.1}s",
                id, ctx.evaluations, ctx.distinct_nontrivial, wall
            );
            exit(0);
        }
    }
}

fn replay(path: &Path) -> ! {
    runner::install_panic_hook();
    let v: Value = match std::fs::read(path)
        .ok()
        .and_then(|b| serde_json::from_slice(&b).ok())
    {
        Some(v) => v,
        None => {
            eprintln!("cannot read {}", path.display());
            exit(2);
        }
    };
    let id = v["property"].as_str().unwrap_or("").to_string();
    let p = match props::find(&id) {
        Some(p) => p,
        None => {
            eprintln!("unknown property {:?}", id);
            exit(2);
        }
    };
    let own_scratch = if std::env::var("HARNESS_SCRATCH").is_err() {
        let s = sut::make_scratch();
        std::env::set_var("HARNESS_SCRATCH", &s);
        Some(s)
    } else {
        None
    };
    let mut ctx = Ctx::new(
        &id,
        1,
        false,
        Mode::Replay {
            sub: v["sub"].as_str().unwrap_or("").to_string(),
            case: v["case"].clone(),
        },
    );
    (p.run)(&mut ctx);
    if let Some(s) = own_scratch {
        let _ = std::fs::remove_dir_all(&s);
    }
    match ctx.replayed {
        Some(Ok(())) => {
            println!("{}: the case passes", path.display());
            exit(0);
        }
        Some(Err(m)) => {
            println!("{}", m);
            println!("VIOLATION property={} replay={}", id, path.display());
            exit(1);
        }
        None => {
            eprintln!("no sub-check {:?} in {}", v["sub"], id);
            exit(2);
        }
    }
}
