//! Supervisor, workers, minimiser, replay and evidence.

use crate::profiles::{self, ACCOUNT};
use crate::seam::real_ms;
use crate::tape::Tape;
use crate::world::{Stats, Violation};
use serde_json::{json, Value};
use std::cell::RefCell;
use std::collections::{BTreeMap, HashSet};
use std::io::Read;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::process::{Command, Stdio};
use std::sync::atomic::{AtomicU64, Ordering};

const WORKERS: u64 = 8;
/// Processor seconds one simulated run may take before it counts as hung.
const HANG_CPU_MS: u64 = 20_000;
const HANG_WALL_MS: u64 = 180_000;
const WORKER_BYTES: u64 = 3 << 30;
const SELF_TEST_EVERY: u64 = 61;

thread_local! {
    static PANIC: RefCell<Option<String>> = const { RefCell::new(None) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|i| {
        let at = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = i.payload().downcast_ref::<String>().cloned().or_else(|| i.payload().downcast_ref::<&str>().map(|s| s.to_string())).unwrap_or_default();
        if std::env::var_os("SIM_BT").is_some() {
            eprintln!("{at}: {msg}\n{}", std::backtrace::Backtrace::force_capture());
        }
        PANIC.with(|p| *p.borrow_mut() = Some(format!("at {at}: {msg}")));
    }));
}

pub fn take_panic() -> String {
    PANIC.with(|p| p.borrow_mut().take()).unwrap_or_default()
}

fn cpu_ms() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_PROCESS_CPUTIME_ID as libc::c_long, &mut ts as *mut libc::timespec) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

/// One simulated run.  Panics of the code under test become violations.
pub fn run_once(prop: &str, t: &mut Tape, stats: &mut Stats) -> Result<(), Violation> {
    ACCOUNT.with(|a| a.borrow_mut().clear());
    let r = catch_unwind(AssertUnwindSafe(|| profiles::run(prop, t, stats)));
    match r {
        Ok(r) => r,
        Err(_) => Err(Violation { oracle: "panic".into(), detail: format!("panicked {}", take_panic()) }),
    }
}

// ----------------------------------------------------------------- workers

static CURRENT: AtomicU64 = AtomicU64::new(u64::MAX);

fn watchdog(progress: std::fs::File) {
    std::thread::spawn(move || {
        let (mut last, mut cpu, mut wall) = (u64::MAX, cpu_ms(), real_ms());
        loop {
            std::thread::sleep(std::time::Duration::from_millis(200));
            let cur = CURRENT.load(Ordering::Relaxed);
            if cur != last {
                (last, cpu, wall) = (cur, cpu_ms(), real_ms());
            } else if cur != u64::MAX && (cpu_ms() - cpu > HANG_CPU_MS || real_ms() - wall > HANG_WALL_MS) {
                let _ = progress.write_at(&[1], 8);
                unsafe { libc::_exit(77) };
            }
        }
    });
}

fn limit_memory() {
    let l = libc::rlimit { rlim_cur: WORKER_BYTES, rlim_max: WORKER_BYTES };
    unsafe { libc::setrlimit(libc::RLIMIT_AS, &l) };
    let l = libc::rlimit { rlim_cur: 0, rlim_max: 0 };
    unsafe { libc::setrlimit(libc::RLIMIT_CORE, &l) };
}

/// `work PROP SEED FROM STEP UPTO PROGRESS`
pub fn work(a: &[String]) {
    let (prop, seed, from, step, upto) = (&a[0], a[1].parse::<u64>().unwrap(), a[2].parse::<u64>().unwrap(), a[3].parse::<u64>().unwrap(), a[4].parse::<u64>().unwrap());
    limit_memory();
    let progress = std::fs::OpenOptions::new().write(true).create(true).truncate(false).open(&a[5]).unwrap();
    watchdog(progress.try_clone().unwrap());
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut shapes: HashSet<u64> = HashSet::new();
    let (mut runs, mut nontrivial, mut sim_secs, mut selftests) = (0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<String> = Vec::new();
    let mut found: Option<Value> = None;
    let mut run = from;
    while run < upto {
        CURRENT.store(run, Ordering::Relaxed);
        let _ = progress.write_at(&run.to_le_bytes(), 0);
        let mut stats = Stats::default();
        let began = real_ms();
        let mut t = Tape::fresh(seed, prop, run);
        let mut r = run_once(prop, &mut t, &mut stats);
        if real_ms() - began > 300 && std::env::var_os("SIM_SLOW").is_some() {
            eprintln!("run {run} took {} ms", real_ms() - began);
        }
        if run % SELF_TEST_EVERY == 0 {
            // One seed is one exactly repeatable execution.
            selftests += 1;
            let mut again = Stats::default();
            let mut t2 = Tape::replay(t.rec.clone());
            let r2 = run_once(prop, &mut t2, &mut again);
            if r.is_ok() && (r2.is_err() || t2.rec != t.rec || again.shape != stats.shape) {
                r = Err(Violation { oracle: "repeatability".into(), detail: format!("running the same seed again took another course: {}", r2.err().map(|v| v.detail).unwrap_or_default()) });
            }
        }
        runs += 1;
        for (k, v) in &stats.counts {
            *counts.entry(k.to_string()).or_default() += v;
        }
        sim_secs += stats.sim_secs;
        if stats.nontrivial {
            nontrivial += 1;
            shapes.insert(stats.shape);
            if samples.len() < 1 && run >= 16 {
                samples.push(ACCOUNT.with(|a| a.borrow().chars().take(2500).collect()));
            }
        }
        if let Err(v) = r {
            found = Some(json!({"run": run, "oracle": v.oracle, "detail": v.detail, "tape": t.rec}));
            break;
        }
        run += step;
    }
    CURRENT.store(u64::MAX, Ordering::Relaxed);
    println!(
        "{}",
        json!({"runs": runs, "nontrivial": nontrivial, "shapes": shapes.iter().map(|s| s.to_string()).collect::<Vec<_>>(), "counts": counts, "sim_secs": sim_secs, "selftests": selftests, "samples": samples, "found": found})
    );
}

// -------------------------------------------------------------- minimising

pub fn key(v: &Violation) -> String {
    // Same oracle, and the same place for panics.
    if v.oracle == "panic" {
        format!("panic {}", v.detail.split(": ").next().unwrap_or(""))
    } else {
        v.oracle.clone()
    }
}

fn attempt(prop: &str, tape: &[u32]) -> (Option<Violation>, Vec<u32>) {
    let mut t = Tape::replay(tape.to_vec());
    let mut s = Stats::default();
    let r = run_once(prop, &mut t, &mut s);
    let mut rec = t.rec;
    while rec.last() == Some(&0) {
        rec.pop();
    }
    (r.err(), rec)
}

/// Shrinks a failing tape: drop blocks, zero blocks, lower values.
pub fn minimise(prop: &str, tape: Vec<u32>, want: &str, budget_ms: u64) -> (Vec<u32>, Option<Violation>, u64) {
    let t0 = real_ms();
    let (v, mut best) = attempt(prop, &tape);
    let mut best_v = match v {
        Some(v) if key(&v) == want => v,
        _ => return (tape, None, 1),
    };
    let mut n = 1;
    let over = |n: u64| real_ms() - t0 > budget_ms || n > 40_000;
    let mut improved = true;
    while improved && !over(n) {
        improved = false;
        let mut size = (best.len() / 2).max(1);
        loop {
            let mut i = 0;
            while i < best.len() && !over(n) {
                let end = (i + size).min(best.len());
                let mut tried = vec![];
                let mut c = best[..i].to_vec();
                c.extend_from_slice(&best[end..]);
                tried.push(c);
                if best[i..end].iter().any(|x| *x != 0) {
                    let mut c = best.clone();
                    c[i..end].iter_mut().for_each(|x| *x = 0);
                    tried.push(c);
                    if size == 1 {
                        let mut c = best.clone();
                        c[i] /= 2;
                        tried.push(c);
                        let mut c = best.clone();
                        c[i] -= 1;
                        tried.push(c);
                    }
                }
                let mut hit = false;
                for c in tried {
                    n += 1;
                    let (v, rec) = attempt(prop, &c);
                    if let Some(v) = v {
                        if key(&v) == want && (rec.len(), rec.iter().map(|x| *x as u64).sum::<u64>()) < (best.len(), best.iter().map(|x| *x as u64).sum::<u64>()) {
                            best = rec;
                            best_v = v;
                            improved = true;
                            hit = true;
                            break;
                        }
                    }
                }
                if !hit {
                    i += size;
                }
            }
            if size == 1 {
                break;
            }
            size /= 2;
        }
    }
    // Leave the account of the minimal run behind.
    let _ = attempt(prop, &best);
    (best, Some(best_v), n)
}

// ------------------------------------------------------------------ replay

fn replay_file(dir: &str, prop: &str, seed: u64, run: u64) -> String {
    let _ = std::fs::create_dir_all(format!("{dir}/replays"));
    format!("{dir}/replays/{prop}-{seed}-{run}.json")
}

/// `replay FILE`: exit status 1 when the recorded violation appears again.
pub fn replay(path: &str) -> i32 {
    let f: Value = serde_json::from_str(&std::fs::read_to_string(path).expect("replay file")).expect("replay file is not JSON");
    let prop = f["property"].as_str().unwrap().to_string();
    let mut t = match f["tape"].as_array() {
        Some(a) => Tape::replay(a.iter().map(|x| x.as_u64().unwrap() as u32).collect()),
        None => Tape::fresh(f["seed"].as_u64().unwrap(), &prop, f["run"].as_u64().unwrap()),
    };
    limit_memory();
    if f["violation"]["oracle"] == "crash" || f["violation"]["oracle"] == "hang" {
        let p = std::env::temp_dir().join(format!("sieve-sim-replay-{}", std::process::id()));
        CURRENT.store(0, Ordering::Relaxed);
        watchdog(std::fs::File::create(&p).unwrap());
        let _ = std::fs::remove_file(&p);
        println!("replaying a run that crashed or hung: this process is expected to end abnormally");
    }
    let mut s = Stats::default();
    let r = run_once(&prop, &mut t, &mut s);
    println!("{}", ACCOUNT.with(|a| a.borrow().clone()));
    match r {
        Ok(()) => {
            println!("no violation on this tree");
            0
        }
        Err(v) => {
            println!("violated: {}\n{}", v.oracle, v.detail);
            println!("VIOLATION property={prop} replay={path}");
            1
        }
    }
}

// -------------------------------------------------------------- supervisor

struct Worker {
    child: std::process::Child,
    progress: std::path::PathBuf,
}

/// Reference crash runner: one run in a process of its own.
fn in_child(prop: &str, seed: u64, run: u64) -> (bool, String) {
    let p = std::env::temp_dir().join(format!("sieve-sim-{}-c", std::process::id()));
    let out = Command::new(std::env::current_exe().unwrap())
        .args(["work", prop, &seed.to_string(), &run.to_string(), "1", &(run + 1).to_string(), p.to_str().unwrap()])
        .stderr(Stdio::null())
        .output()
        .unwrap();
    let _ = std::fs::remove_file(&p);
    (out.status.success(), format!("{:?}", out.status))
}

pub fn check(prop: &str, tier: &str, dir: &str) -> i32 {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
    let spec = match profiles::spec(prop) {
        Some(s) => s,
        None => {
            eprintln!("unknown property {prop}");
            return 1;
        }
    };
    let runs = std::env::var("SIM_RUNS").ok().and_then(|s| s.parse().ok()).unwrap_or(if tier == "thorough" { spec.quick * spec.factor } else { spec.quick });
    let t0 = real_ms();
    let mut known_hits: Vec<String> = Vec::new();
    for k in known(dir, prop) {
        if crate::known::still_fails(&k.0) {
            println!("KNOWN-FINDING: property={prop} {}", k.1);
            known_hits.push(k.1);
        }
    }
    let exe = std::env::current_exe().unwrap();
    let mut ws: Vec<Worker> = (0..WORKERS)
        .map(|w| {
            let progress = std::env::temp_dir().join(format!("sieve-sim-{}-{w}", std::process::id()));
            let _ = std::fs::remove_file(&progress);
            let child = Command::new(&exe)
                .args(["work", prop, &seed.to_string(), &w.to_string(), &WORKERS.to_string(), &runs.to_string(), progress.to_str().unwrap()])
                .stdout(Stdio::piped())
                .stderr(if std::env::var_os("SIM_BT").is_some() { Stdio::inherit() } else { Stdio::null() })
                .spawn()
                .unwrap();
            Worker { child, progress }
        })
        .collect();
    let outs: Vec<_> = ws
        .iter_mut()
        .map(|w| {
            let mut o = w.child.stdout.take().unwrap();
            std::thread::spawn(move || {
                let mut s = String::new();
                let _ = o.read_to_string(&mut s);
                s
            })
        })
        .collect();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut shapes: HashSet<String> = HashSet::new();
    let (mut total, mut nontrivial, mut sim_secs, mut selftests) = (0u64, 0u64, 0u64, 0u64);
    let mut samples: Vec<Value> = Vec::new();
    let mut found: Vec<(u64, Violation, Option<Vec<u32>>)> = Vec::new();
    for (w, o) in ws.iter_mut().zip(outs) {
        let status = w.child.wait().unwrap();
        let text = o.join().unwrap();
        let mut cur = [0u8; 9];
        let have = std::fs::File::open(&w.progress).ok().and_then(|f| f.read_at(&mut cur, 0).ok()).unwrap_or(0);
        let _ = std::fs::remove_file(&w.progress);
        match serde_json::from_str::<Value>(text.trim()) {
            Ok(v) if status.success() => {
                total += v["runs"].as_u64().unwrap();
                nontrivial += v["nontrivial"].as_u64().unwrap();
                sim_secs = sim_secs.saturating_add(v["sim_secs"].as_u64().unwrap());
                selftests += v["selftests"].as_u64().unwrap();
                for s in v["shapes"].as_array().unwrap() {
                    shapes.insert(s.as_str().unwrap().to_string());
                }
                for (k, c) in v["counts"].as_object().unwrap() {
                    *counts.entry(k.clone()).or_default() += c.as_u64().unwrap();
                }
                samples.extend(v["samples"].as_array().unwrap().iter().cloned());
                if !v["found"].is_null() {
                    let f = &v["found"];
                    found.push((
                        f["run"].as_u64().unwrap(),
                        Violation { oracle: f["oracle"].as_str().unwrap().into(), detail: f["detail"].as_str().unwrap().into() },
                        Some(f["tape"].as_array().unwrap().iter().map(|x| x.as_u64().unwrap() as u32).collect()),
                    ));
                }
            }
            _ => {
                let run = if have >= 8 { u64::from_le_bytes(cur[..8].try_into().unwrap()) } else { 0 };
                let hang = have == 9 && cur[8] == 1;
                let (oracle, detail) = if hang {
                    ("hang", format!("run {run} did not finish within {} s of processor time", HANG_CPU_MS / 1000))
                } else {
                    // Not the fault of one run if it passes alone (a killed worker).
                    let (ok, st) = in_child(prop, seed, run);
                    if ok {
                        eprintln!("worker ended with {status:?} (signal {:?}) but run {run} passes alone", status.signal());
                    }
                    ("crash", format!("the process ended abnormally ({status:?}, signal {:?}) in run {run}; alone: {st}", status.signal()))
                };
                found.push((run, Violation { oracle: oracle.into(), detail }, None));
            }
        }
    }
    let searched_ms = (real_ms() - t0).max(1);
    found.sort_by_key(|f| f.0);
    let violations = found.len();
    let mut code = 0;
    if let Some((run, v, tape)) = found.into_iter().next() {
        code = 1;
        let path = replay_file(dir, prop, seed, run);
        let (mut tape, mut v, mut tried) = (tape, v, 0);
        if let Some(full) = &tape {
            let want = key(&v);
            let (small, sv, n) = minimise(prop, full.clone(), &want, 25_000);
            tried = n;
            if let Some(sv) = sv {
                tape = Some(small);
                v = sv;
            }
        }
        let account = match &tape {
            Some(t) => {
                let _ = attempt(prop, t);
                ACCOUNT.with(|a| a.borrow().clone())
            }
            None => String::new(),
        };
        let body = json!({"property": prop, "seed": seed, "run": run, "tape": tape, "violation": {"oracle": v.oracle, "detail": v.detail}, "account": account.lines().collect::<Vec<_>>(), "minimiser_attempts": tried, "how": "verif/sim/target/release/sieve-sim replay FILE"});
        let _ = std::fs::write(&path, serde_json::to_string_pretty(&body).unwrap());
        println!("{} (run {run}, seed {seed}): {}", v.oracle, v.detail.chars().take(2000).collect::<String>());
        println!("VIOLATION property={prop} replay={path}");
    }
    let wall = (real_ms() - t0) as f64 / 1000.0;
    let per_hour = total as f64 * 3_600_000.0 / searched_ms as f64;
    let split = |p: &str| counts.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k[p.len()..].to_string(), json!(v))).collect::<serde_json::Map<_, _>>();
    let events = counts.iter().filter(|(k, _)| !k.contains("fault:") && !k.contains("model:") && !k.contains("scenario:")).map(|(k, v)| (k.clone(), json!(v))).collect::<serde_json::Map<_, _>>();
    samples.truncate(3);
    let ev = json!({
        "property": prop,
        "tier": if tier == "thorough" { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": total,
            "distinct_nontrivial": shapes.len(),
            "nontrivial": nontrivial,
            "rule": spec.rule,
            "samples": samples,
            "runs_per_hour": per_hour as u64,
            "seeds_per_hour": per_hour as u64,
            "simulated_seconds": sim_secs,
            "faults_injected": split("fault:"),
            "scenarios": split("scenario:"),
            "events_seen": events,
            "reference_model": split("model:"),
            "distinct_measure": "distinct sequences of (delivery, event kind, kind of answer, scenario step) over a whole run, by hash",
            "repeatability_self_tests": selftests,
            "real_components": "compiler, serialiser, runtime and mail-builder as built from /repo, mail-parser (dependency) parsing every message",
            "stub_components": spec.stubs,
            "known_findings_seen": known_hits,
        },
        "assumptions": spec.assumptions,
        "wall_s": wall,
        "violations": violations,
    });
    let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
    std::fs::write(format!("{dir}/evidence/{prop}.json"), serde_json::to_string_pretty(&ev).unwrap()).expect("cannot write evidence");
    println!("{prop} {tier}: {total} runs, {} distinct, {violations} failing, {wall:.1} s", shapes.len());
    code
}

/// Entries `known: property=ID key=KEY text` of the known-findings file.
fn known(dir: &str, prop: &str) -> Vec<(String, String)> {
    let text = std::fs::read_to_string(format!("{dir}/known-findings.txt")).unwrap_or_default();
    text.lines()
        .filter_map(|l| l.strip_prefix(&format!("known: property={prop} key=")))
        .filter_map(|l| l.split_once(' ').map(|(k, t)| (k.to_string(), t.to_string())))
        .collect()
}
