#![allow(deprecated, dead_code)]
//! vnative: drives the real crates of /repo against independent reference
//! semantics. `search` looks for a failing input of a property, `replay` re-runs
//! one stored case. It decides nothing that is claimed as proved: it supplies
//! failing inputs for violated obligations and the bounded stand-ins.
mod jmt_props;
mod jmt_ref;
mod pmt_props;
mod pmt_ref;
mod tape;

use std::io::Write;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering::SeqCst};
use std::sync::{Arc, Mutex};
use std::time::{Duration, Instant};
use tape::*;

pub type Check = fn(&mut Tape) -> Result<(), String>;
pub struct Prop {
    pub id: &'static str,
    /// randomised cases
    pub check: Check,
    pub rule: &'static str,
    pub max_len: usize,
    /// deterministic cases, always run first
    pub fixed: &'static [(&'static str, fn() -> Result<(), String>)],
    /// histories of recorded findings: expected to fail
    pub known: &'static [(&'static str, fn() -> Result<(), String>)],
}

fn props() -> Vec<Prop> {
    let mut v = pmt_props::props();
    v.extend(jmt_props::props());
    v
}

static PANIC_MSG: Mutex<String> = Mutex::new(String::new());

fn guard<T>(f: impl FnOnce() -> Result<T, String>) -> Result<T, String> {
    match catch_unwind(AssertUnwindSafe(f)) {
        Ok(r) => r,
        Err(_) => Err(format!("panic: {}", PANIC_MSG.lock().unwrap())),
    }
}

fn run_case(p: &Prop, b: &[u8]) -> (Result<(), String>, Vec<String>, bool) {
    let mut t = Tape::new(b);
    let r = guard(|| (p.check)(&mut t));
    (r, t.trace, t.nontrivial)
}

fn shrink(p: &Prop, b: Vec<u8>, budget: Duration) -> Vec<u8> {
    let t0 = Instant::now();
    let mut best = b;
    let fails = |c: &[u8]| run_case(p, c).0.is_err();
    'outer: loop {
        let mut improved = false;
        let mut size = best.len().max(1);
        while size >= 1 {
            let mut i = 0;
            while i < best.len() {
                if t0.elapsed() > budget {
                    break 'outer;
                }
                let mut c = best.clone();
                c.drain(i..(i + size).min(best.len()));
                if fails(&c) {
                    best = c;
                    improved = true;
                } else {
                    i += size;
                }
            }
            size /= 2;
        }
        for i in 0..best.len() {
            if t0.elapsed() > budget {
                break 'outer;
            }
            for v in [0u8, best[i] / 2] {
                if v < best[i] {
                    let mut c = best.clone();
                    c[i] = v;
                    if fails(&c) {
                        best = c;
                        improved = true;
                        break;
                    }
                }
            }
        }
        if !improved {
            break;
        }
    }
    best
}

fn js(s: &str) -> String {
    serde_json::to_string(s).unwrap()
}

fn write_replay(path: &str, prop: &str, kind: &str, case: &str, err: &str, trace: &[String]) {
    let mut s = String::new();
    s.push_str("{\n");
    s.push_str(&format!(" \"property\": {},\n \"kind\": {},\n \"case\": {},\n", js(prop), js(kind), js(case)));
    s.push_str(&format!(" \"failure\": {},\n \"trace\": [\n", js(err)));
    for (i, l) in trace.iter().enumerate() {
        s.push_str(&format!("  {}{}\n", js(l), if i + 1 < trace.len() { "," } else { "" }));
    }
    s.push_str(" ]\n}\n");
    std::fs::write(path, s).unwrap();
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    std::panic::set_hook(Box::new(|i| {
        *PANIC_MSG.lock().unwrap_or_else(|e| e.into_inner()) = format!("{}", i);
    }));
    let get = |k: &str, d: &str| -> String {
        args.iter().position(|a| a == k).map(|i| args[i + 1].clone()).unwrap_or(d.to_string())
    };
    let all = props();
    let id = args.get(2).cloned().unwrap_or_default();
    let p = all.iter().find(|p| p.id == id).expect("unknown property");
    match args[1].as_str() {
        "search" => search(p, &get),
        "replay" => {
            let f: serde_json::Value = serde_json::from_str(&std::fs::read_to_string(&args[3]).unwrap()).unwrap();
            let case = f["case"].as_str().unwrap().to_string();
            let r = std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
                let all = props();
                let p = all.iter().find(|p| p.id == id).unwrap();
                match f["kind"].as_str().unwrap() {
                    "tape" => {
                        let (r, tr, _) = run_case(p, &unhex(&case));
                        for l in tr {
                            println!("  {}", l);
                        }
                        r
                    }
                    _ => {
                        let c = p.fixed.iter().chain(p.known.iter()).find(|c| c.0 == case).expect("case");
                        guard(|| c.1())
                    }
                }
            }).unwrap().join().unwrap();
            match r {
                Ok(()) => println!("PASS"),
                Err(e) => {
                    println!("FAIL {}", e);
                    std::process::exit(1)
                }
            }
        }
        _ => panic!("usage"),
    }
}

/// Exit codes: 0 nothing found, 1 failing input found (replay written).
fn search(p: &Prop, get: &dyn Fn(&str, &str) -> String) {
    let seed: u64 = get("--seed", "1").parse().unwrap();
    let secs: f64 = get("--secs", "10").parse().unwrap();
    let threads: usize = get("--threads", "4").parse().unwrap();
    let maxc: u64 = get("--cases", "1000000000").parse().unwrap();
    let out = get("--replay", "/tmp/vnative.replay.json");
    let stats = get("--stats", "");
    let curdir = get("--cur", "");
    let id = p.id.to_string();
    let found: Arc<Mutex<Option<(String, String, String, Vec<String>)>>> = Arc::new(Mutex::new(None));
    let evals = Arc::new(AtomicU64::new(0));
    let nontriv = Arc::new(Mutex::new(std::collections::HashSet::<u64>::new()));
    let samples = Arc::new(Mutex::new(Vec::<String>::new()));
    let known = Arc::new(Mutex::new(Vec::<(String, String)>::new()));
    let fixed_n = Arc::new(AtomicU64::new(0));
    let t0 = Instant::now();
    let mut hs = vec![];
    // heartbeat per thread: (start-of-case millis, 0 = idle)
    let beats: Arc<Vec<AtomicU64>> = Arc::new((0..threads + 1).map(|_| AtomicU64::new(0)).collect());
    let curs: Arc<Vec<Mutex<(String, String)>>> = Arc::new((0..threads + 1).map(|_| Mutex::new((String::new(), String::new()))).collect());
    for th in 0..threads {
        let (id, found, evals, nontriv, samples, beats, curs, out, known, curdir, fixed_n) = (
            id.clone(), found.clone(), evals.clone(), nontriv.clone(), samples.clone(), beats.clone(), curs.clone(), out.clone(), known.clone(), curdir.clone(), fixed_n.clone());
        hs.push(std::thread::Builder::new().stack_size(8 << 20).spawn(move || {
            let all = props();
            let p = all.iter().find(|p| p.id == id).unwrap();
            let note = |kind: &str, case: &str| {
                *curs[th].lock().unwrap() = (kind.to_string(), case.to_string());
                if !curdir.is_empty() {
                    let _ = std::fs::write(format!("{}/cur{}", curdir, th), format!("{}\n{}\n", kind, case));
                }
                beats[th].store(t0.elapsed().as_millis() as u64 + 1, SeqCst);
            };
            if th == 0 {
                for c in p.fixed {
                    note("fixed", c.0);
                    fixed_n.fetch_add(1, SeqCst);
                    if let Err(e) = guard(|| c.1()) {
                        let mut f = found.lock().unwrap();
                        if f.is_none() {
                            *f = Some(("fixed".into(), c.0.into(), e, vec![]));
                        }
                    }
                }
                for c in p.known {
                    note("known", c.0);
                    if let Err(e) = guard(|| c.1()) {
                        known.lock().unwrap().push((c.0.to_string(), e));
                    }
                }
            }
            let mut rng = Rng(seed.wrapping_mul(0x2545F4914F6CDD1D) ^ (th as u64) << 40 ^ 77);
            loop {
                if t0.elapsed().as_secs_f64() > secs || found.lock().unwrap().is_some() || evals.load(SeqCst) >= maxc {
                    break;
                }
                let cap = match rng.below(4) { 0 => p.max_len / 8 + 8, 1 => p.max_len / 3 + 8, _ => p.max_len };
                let len = 1 + rng.below(cap as u64) as usize;
                let mut b = rng.bytes(len);
                if rng.below(3) == 0 {
                    // bias to simple choices
                    for x in b.iter_mut() { if rng.below(2) == 0 { *x &= 0x1f; } }
                }
                note("tape", &hex(&b));
                let (r, tr, nt) = run_case(p, &b);
                beats[th].store(0, SeqCst);
                let n = evals.fetch_add(1, SeqCst);
                if nt {
                    use std::hash::{Hash, Hasher};
                    let mut h = std::collections::hash_map::DefaultHasher::new();
                    tr.hash(&mut h);
                    let mut s = nontriv.lock().unwrap();
                    if s.len() < 2_000_000 { s.insert(h.finish()); }
                    drop(s);
                    if n < 40 || n % 5003 == 0 {
                        let mut s = samples.lock().unwrap();
                        if s.len() < 3 { s.push(tr.iter().take(12).cloned().collect::<Vec<_>>().join("; ")); }
                    }
                }
                if r.is_err() {
                    let mut f = found.lock().unwrap();
                    if f.is_none() {
                        beats[th].store(0, SeqCst);
                        let b = shrink(p, b, Duration::from_secs(10));
                        let (r, tr, _) = run_case(p, &b);
                        *f = Some(("tape".into(), hex(&b), r.err().unwrap_or("flaky".into()), tr));
                    }
                }
            }
            beats[th].store(0, SeqCst);
            let _ = out;
        }).unwrap());
    }
    // watchdog
    let hang = Duration::from_secs(40).as_millis() as u64;
    let done = Arc::new(AtomicU64::new(0));
    {
        let (beats, curs, done, id, out) = (beats.clone(), curs.clone(), done.clone(), id.clone(), out.clone());
        std::thread::spawn(move || loop {
            std::thread::sleep(Duration::from_millis(500));
            if done.load(SeqCst) == 1 { return; }
            let now = t0.elapsed().as_millis() as u64 + 1;
            for (i, b) in beats.iter().enumerate() {
                let s = b.load(SeqCst);
                if s != 0 && now > s + hang {
                    let c = curs[i].lock().unwrap().clone();
                    write_replay(&out, &id, &c.0, &c.1, "a case did not terminate within 40 s", &[]);
                    println!("FAIL did not terminate");
                    std::process::exit(1);
                }
            }
        });
    }
    for h in hs { let _ = h.join(); }
    done.store(1, SeqCst);
    let f = found.lock().unwrap().clone();
    for (k, e) in known.lock().unwrap().iter() {
        println!("KNOWN {} :: {}", k, e.replace('\n', " "));
    }
    if !stats.is_empty() {
        let s = serde_json::json!({
            "evaluations": evals.load(SeqCst), "fixed_cases": fixed_n.load(SeqCst),
            "distinct_nontrivial": nontriv.lock().unwrap().len(),
            "rule": p.rule, "samples": *samples.lock().unwrap(), "wall_s": t0.elapsed().as_secs_f64(),
        });
        std::fs::File::create(&stats).unwrap().write_all(s.to_string().as_bytes()).unwrap();
    }
    match f {
        Some((k, c, e, tr)) => {
            write_replay(&out, p.id, &k, &c, &e, &tr);
            println!("FAIL {}", e.replace('\n', " "));
            std::process::exit(1);
        }
        None => println!("OK {} cases", evals.load(SeqCst)),
    }
}
