//! Deterministic simulation of newton_rootfinder with fault injection: driver.
//!
//! nrfsim check ID          run the check (VERIF_SEED, VERIF_TIER)
//! nrfsim replay FILE       run a replay file again; exit 1 when it fails the same way
//! nrfsim show ID INDEX     run one case and print its history
//! nrfsim list

#![allow(invalid_runtime_symbol_definitions, dead_code)]

mod adapt;
mod check;
mod config;
mod core;
mod endless;
mod exec;
mod header;
mod inter;
mod logchk;
mod logp;
mod own;
mod problem;
mod refm;
mod resource;
mod restart;
mod reuse;
mod rng;
mod scen;
mod simmodel;
mod sysim;
mod xml;

#[global_allocator]
static HEAP: resource::Counting = resource::Counting;

use check::*;
use serde::{Deserialize, Serialize};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::path::{Path, PathBuf};
use std::sync::atomic::{AtomicU64, Ordering};
use std::time::{Duration, Instant};

const SHARDS: u64 = 8;
const STUCK_S: u64 = 40;

#[derive(Serialize, Deserialize, Clone, Debug)]
struct Viol {
    idx: u64,
    code: String,
    msg: String,
    /// none when the case could not be recorded (the run never came back)
    case: Option<Case>,
    shrunk: Option<Case>,
    shrunk_msg: String,
    trace: Vec<String>,
    shrink_steps: u64,
}

#[derive(Serialize, Deserialize, Default, Debug)]
struct Shard {
    runs: u64,
    nontrivial: u64,
    sigs: Vec<u64>,
    all_sigs: u64,
    counts: BTreeMap<String, u64>,
    known: BTreeMap<String, (u64, String)>,
    viol: Option<Viol>,
    reruns: u64,
    rerun_diff: Vec<u64>,
    harness: Vec<String>,
    samples: Vec<serde_json::Value>,
    wall: f64,
}

#[derive(Serialize, Deserialize, Debug)]
struct Replay {
    property: String,
    code: String,
    message: String,
    seed: u64,
    index: u64,
    /// "case": run the case; "generate": generate it from seed and index; "sequence": run the cases of the shard up to index
    mode: String,
    case: Option<Case>,
    #[serde(default)]
    sequence: Vec<u64>,
    history: Vec<String>,
}

fn verif_dir() -> PathBuf {
    Path::new(env!("CARGO_MANIFEST_DIR")).parent().unwrap().to_path_buf()
}

/// findings listed in KNOWN_FINDINGS for a property: key -> description
fn listed(id: &str) -> BTreeMap<String, String> {
    let mut m = BTreeMap::new();
    if let Ok(s) = std::fs::read_to_string(verif_dir().join("KNOWN_FINDINGS")) {
        for l in s.lines() {
            if let Some(rest) = l.strip_prefix("finding: ") {
                let mut prop = "";
                let mut key = "";
                let mut words = rest.splitn(3, ' ');
                if let Some(p) = words.next() {
                    prop = p.strip_prefix("property=").unwrap_or("");
                }
                if let Some(k) = words.next() {
                    key = k.strip_prefix("key=").unwrap_or("");
                }
                if prop == id && !key.is_empty() {
                    m.insert(key.to_string(), words.next().unwrap_or("").to_string());
                }
            }
        }
    }
    m
}

/// runs a case; divergences explained by an unlisted finding are violations
fn run_case(c: &Check, case: &Case, known: &BTreeMap<String, String>) -> Result<Outcome, String> {
    sysim::spent_reset();
    let r = catch_unwind(AssertUnwindSafe(|| (c.run)(c.id, case)));
    let spent = sysim::spent_reset();
    match r {
        Ok(mut o) => {
            o.count("simulated seconds", (spent / 1_000_000_000) as u64);
            let ks = std::mem::take(&mut o.known);
            for (k, m) in ks {
                if known.contains_key(&k) {
                    o.known.push((k, m));
                } else {
                    o.fail(&k, m);
                }
            }
            Ok(o)
        }
        Err(_) => Err(exec::LAST_PANIC.with(|p| p.borrow().clone())),
    }
}

static CUR_IDX: AtomicU64 = AtomicU64::new(u64::MAX);
static CUR_START: AtomicU64 = AtomicU64::new(0);

fn monotonic() -> u64 {
    let mut ts = libc::timespec { tv_sec: 0, tv_nsec: 0 };
    unsafe { libc::syscall(libc::SYS_clock_gettime, libc::CLOCK_MONOTONIC, &mut ts) };
    ts.tv_sec as u64 * 1000 + ts.tv_nsec as u64 / 1_000_000
}

fn begin(idx: u64) {
    CUR_START.store(monotonic(), Ordering::SeqCst);
    CUR_IDX.store(idx, Ordering::SeqCst);
}
fn rest() {
    CUR_IDX.store(u64::MAX, Ordering::SeqCst);
}

fn shard(c: &Check, seed: u64, n: u64, k: u64, from: u64, budget: f64, dir: &Path) {
    let out = dir.join(format!("{k}.json"));
    let stuck = dir.join(format!("{k}.stuck"));
    let cur = dir.join(format!("{k}.cur"));
    let stop = dir.join("stop");
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(500));
        let i = CUR_IDX.load(Ordering::SeqCst);
        if i != u64::MAX && monotonic().saturating_sub(CUR_START.load(Ordering::SeqCst)) > STUCK_S * 1000 {
            let _ = std::fs::write(&stuck, i.to_string());
            unsafe { libc::_exit(3) };
        }
    });
    let known = listed(c.id);
    let t0 = Instant::now();
    let mut s = Shard::default();
    let mut sigs: HashSet<u64> = HashSet::new();
    let mut idx = from;
    while idx % SHARDS != k {
        idx += 1;
    }
    let curfile = std::fs::File::create(&cur).ok();
    while idx < n {
        if t0.elapsed().as_secs_f64() > budget || (s.runs % 32 == 0 && stop.exists()) {
            break;
        }
        if let Some(f) = &curfile {
            // where a dead process was
            use std::os::unix::fs::FileExt;
            let _ = f.write_at(format!("{idx:020}").as_bytes(), 0);
        }
        begin(idx);
        let case = match catch_unwind(AssertUnwindSafe(|| (c.gen)(c.id, seed, idx))) {
            Ok(x) => x,
            Err(_) => {
                s.harness.push(format!("generating case {idx}: {}", exec::LAST_PANIC.with(|p| p.borrow().clone())));
                idx += SHARDS;
                continue;
            }
        };
        begin(idx);
        let o = run_case(c, &case, &known);
        s.runs += 1;
        let o = match o {
            Ok(o) => o,
            Err(m) => {
                if s.harness.len() < 5 {
                    s.harness.push(format!("case {idx}: {m}"));
                }
                idx += SHARDS;
                continue;
            }
        };
        for (k, v) in &o.counts {
            let e = s.counts.entry(k.clone()).or_insert(0);
            if k.starts_with("max ") {
                *e = (*e).max(*v);
            } else {
                *e += v;
            }
        }
        for (k, m) in &o.known {
            let e = s.known.entry(k.clone()).or_insert((0, m.clone()));
            e.0 += 1;
        }
        if o.nontrivial {
            s.nontrivial += 1;
            sigs.insert(o.sig);
        }
        if s.samples.len() < 2 && o.nontrivial && s.runs > 5 {
            s.samples.push(serde_json::json!({"index": idx, "case": case, "history": o.trace.iter().take(12).collect::<Vec<_>>()}));
        }
        if s.runs % 64 == 1 && o.viol.is_none() {
            // the same case must give the same history
            begin(idx);
            if let Ok(o2) = run_case(c, &case, &known) {
                s.reruns += 1;
                if o2.digest != o.digest {
                    s.rerun_diff.push(idx);
                }
            }
        }
        if let Some((code, msg)) = o.viol {
            let _ = std::fs::write(&stop, "");
            let mut v = Viol { idx, code, msg, case: Some(case.clone()), shrunk: None, shrunk_msg: String::new(), trace: o.trace, shrink_steps: 0 };
            shrink(c, &case, &mut v, &known);
            s.viol = Some(v);
            break;
        }
        idx += SHARDS;
    }
    rest();
    s.all_sigs = sigs.len() as u64;
    s.sigs = sigs.into_iter().collect();
    s.wall = t0.elapsed().as_secs_f64();
    let tmp = dir.join(format!("{k}.tmp"));
    std::fs::write(&tmp, serde_json::to_vec(&s).unwrap()).unwrap();
    std::fs::rename(&tmp, &out).unwrap();
}

/// greedy minimisation: keep any simpler case that fails in the same class
fn shrink(c: &Check, case: &Case, v: &mut Viol, known: &BTreeMap<String, String>) {
    let t0 = Instant::now();
    let mut best = case.clone();
    let mut progress = true;
    while progress && t0.elapsed() < Duration::from_secs(15) {
        progress = false;
        for cand in (c.shrink)(&best) {
            if t0.elapsed() > Duration::from_secs(15) {
                break;
            }
            begin(v.idx);
            let t1 = Instant::now();
            if let Ok(o) = run_case(c, &cand, known) {
                if let Some((code, msg)) = o.viol {
                    if code == v.code {
                        best = cand;
                        v.shrunk = Some(best.clone());
                        v.shrunk_msg = msg;
                        v.trace = o.trace;
                        v.shrink_steps += 1;
                        progress = true;
                        break;
                    }
                }
            }
            if t1.elapsed() > Duration::from_secs(5) {
                return;
            }
        }
    }
}

fn find(id: &str) -> Check {
    match all().into_iter().find(|c| c.id == id) {
        Some(c) => c,
        None => {
            eprintln!("unknown check {id}");
            std::process::exit(2)
        }
    }
}

fn main() {
    exec::install_hook();
    let a: Vec<String> = std::env::args().collect();
    let a: Vec<&str> = a.iter().map(|s| s.as_str()).collect();
    match a.get(1).cloned() {
        Some("check") => std::process::exit(check(a[2])),
        Some("shard") => {
            let p = |i: usize| a[i].parse::<u64>().unwrap();
            shard(&find(a[2]), p(3), p(4), p(5), p(6), a[7].parse().unwrap(), Path::new(a[8]));
        }
        Some("replay") => std::process::exit(replay(a[2])),
        Some("show") => {
            let c = find(a[2]);
            let seed = std::env::var("VERIF_SEED").ok().and_then(|s| s.parse().ok()).unwrap_or(1);
            let case = (c.gen)(c.id, seed, a[3].parse().unwrap());
            println!("{}", serde_json::to_string(&case).unwrap());
            if let Case::Solve { sc } = &case {
                let ses = exec::run_plain(sc);
                let f = refm::follow(sc, ses.one());
                println!("reading {}", f.sig);
                for d in f.divs.iter().filter(|d| d.known.is_none()) {
                    println!("  {} {:?} at {}: {}", d.code, d.props, d.at, d.msg);
                }
            }
            match run_case(&c, &case, &listed(c.id)) {
                Ok(o) => {
                    for l in &o.trace {
                        println!("{l}");
                    }
                    println!("counts {:?}\nknown {:?}\nviolation {:?}", o.counts, o.known, o.viol);
                }
                Err(e) => println!("harness panic {e}"),
            }
        }
        Some("list") => {
            for c in all() {
                println!("{}", c.id);
            }
        }
        _ => {
            eprintln!("usage: nrfsim check ID | replay FILE | show ID INDEX | list");
            std::process::exit(2);
        }
    }
}

fn replay(path: &str) -> i32 {
    let r: Replay = match std::fs::read(path).map_err(|e| e.to_string()).and_then(|b| serde_json::from_slice(&b).map_err(|e| e.to_string())) {
        Ok(r) => r,
        Err(e) => {
            eprintln!("cannot read {path}: {e}");
            return 2;
        }
    };
    let c = find(&r.property);
    let known = listed(c.id);
    begin(r.index);
    std::thread::spawn(move || loop {
        std::thread::sleep(Duration::from_millis(200));
        if monotonic().saturating_sub(CUR_START.load(Ordering::SeqCst)) > STUCK_S * 1000 && CUR_IDX.load(Ordering::SeqCst) != u64::MAX {
            println!("the run does not come back");
            unsafe { libc::_exit(1) };
        }
    });
    let cases: Vec<u64> = if r.mode == "sequence" { r.sequence.clone() } else { vec![] };
    for i in cases {
        begin(i);
        let case = (c.gen)(c.id, r.seed, i);
        let _ = run_case(&c, &case, &known);
    }
    begin(r.index);
    let case = match &r.case {
        Some(x) if r.mode == "case" => x.clone(),
        _ => (c.gen)(c.id, r.seed, r.index),
    };
    match run_case(&c, &case, &known) {
        Ok(o) => {
            for l in &o.trace {
                println!("  {l}");
            }
            match o.viol {
                Some((code, msg)) => {
                    println!("{code}: {msg}");
                    if code == r.code {
                        1
                    } else {
                        println!("(recorded as {})", r.code);
                        3
                    }
                }
                None => {
                    println!("no violation");
                    0
                }
            }
        }
        Err(e) => {
            eprintln!("harness panic: {e}");
            2
        }
    }
}

fn spawn_replay(file: &Path) -> i32 {
    let st = std::process::Command::new(std::env::current_exe().unwrap())
        .arg("replay")
        .arg(file)
        .stdout(std::process::Stdio::null())
        .stderr(std::process::Stdio::null())
        .status();
    st.ok().and_then(|s| s.code()).unwrap_or(-1)
}

fn check(id: &str) -> i32 {
    let c = find(id);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|s| s.trim().parse().ok()).unwrap_or(1);
    let tier = std::env::var("VERIF_TIER").unwrap_or_else(|_| "quick".into());
    let thorough = tier == "thorough";
    println!("seed {seed} tier {tier} property {id}");
    let num = |k: &str, d: f64| std::env::var(k).ok().and_then(|s| s.parse().ok()).unwrap_or(d);
    let n = if thorough { c.thorough } else { c.quick };
    let n = num("NRFSIM_RUNS", n as f64) as u64;
    let budget = num("NRFSIM_BUDGET", if thorough { 600.0 } else { 40.0 });
    let t0 = Instant::now();
    let dir = std::env::temp_dir().join(format!("nrfsim-{id}-{}", std::process::id()));
    let _ = std::fs::remove_dir_all(&dir);
    std::fs::create_dir_all(&dir).unwrap();
    let exe = std::env::current_exe().unwrap();
    let start = |k: u64, from: u64, budget: f64| {
        std::process::Command::new(&exe)
            .args(["shard", id, &seed.to_string(), &n.to_string(), &k.to_string(), &from.to_string(), &budget.to_string()])
            .arg(&dir)
            .spawn()
            .unwrap()
    };
    let mut kids: Vec<(u64, std::process::Child)> = (0..SHARDS).map(|k| (k, start(k, k, budget))).collect();
    let mut shards: Vec<Shard> = vec![];
    let mut lost: Vec<(u64, String)> = vec![];
    while let Some((k, mut kid)) = kids.pop() {
        let st = kid.wait().unwrap();
        let out = dir.join(format!("{k}.json"));
        if let Ok(b) = std::fs::read(&out) {
            if let Ok(s) = serde_json::from_slice::<Shard>(&b) {
                shards.push(s);
                continue;
            }
        }
        // the process did not come back
        let at = std::fs::read_to_string(dir.join(format!("{k}.cur"))).ok().and_then(|s| s.trim().parse::<u64>().ok());
        let why = if dir.join(format!("{k}.stuck")).exists() { "the run never comes back".to_string() } else { format!("the process died ({st})") };
        let _ = std::fs::remove_file(dir.join(format!("{k}.stuck")));
        match at {
            Some(i) => {
                lost.push((i, why));
                if c.hang {
                    let _ = std::fs::write(dir.join("stop"), "");
                } else if lost.len() < 6 {
                    let left = budget - t0.elapsed().as_secs_f64();
                    if left > 1.0 {
                        kids.push((k, start(k, i + 1, left)));
                    }
                }
            }
            None => lost.push((u64::MAX, why)),
        }
    }
    let _ = std::fs::remove_dir_all(&dir);
    // merge
    let mut runs = 0;
    let mut nontrivial = 0;
    let mut sigs: BTreeSet<u64> = BTreeSet::new();
    let mut counts: BTreeMap<String, u64> = BTreeMap::new();
    let mut known: BTreeMap<String, (u64, String)> = BTreeMap::new();
    let mut viols: Vec<Viol> = vec![];
    let mut reruns = 0;
    let mut rerun_diff: Vec<u64> = vec![];
    let mut harness: Vec<String> = vec![];
    let mut samples: Vec<serde_json::Value> = vec![];
    for s in shards {
        runs += s.runs;
        nontrivial += s.nontrivial;
        sigs.extend(s.sigs);
        for (k, v) in s.counts {
            let e = counts.entry(k.clone()).or_insert(0);
            if k.starts_with("max ") {
                *e = (*e).max(v);
            } else {
                *e += v;
            }
        }
        for (k, v) in s.known {
            let e = known.entry(k).or_insert((0, v.1));
            e.0 += v.0;
        }
        viols.extend(s.viol);
        reruns += s.reruns;
        rerun_diff.extend(s.rerun_diff);
        harness.extend(s.harness);
        if samples.len() < 3 {
            samples.extend(s.samples.into_iter().take(1));
        }
    }
    if c.hang {
        for (i, why) in &lost {
            if *i != u64::MAX {
                viols.push(Viol {
                    idx: *i,
                    code: "hang".into(),
                    msg: why.clone(),
                    case: None,
                    shrunk: None,
                    shrunk_msg: String::new(),
                    trace: vec![],
                    shrink_steps: 0,
                });
            }
        }
    }
    viols.sort_by_key(|v| v.idx);
    let wall = t0.elapsed().as_secs_f64();
    // report
    let mut code = 0;
    let mut reported = 0;
    if !viols.is_empty() {
        let rdir = verif_dir().join("replays");
        std::fs::create_dir_all(&rdir).unwrap();
        let v = &viols[0];
        let file = rdir.join(format!("{id}-seed{seed}-{}.json", v.idx));
        let mut tries: Vec<(&str, Option<Case>, String)> = vec![];
        if let Some(s) = &v.shrunk {
            tries.push(("case", Some(s.clone()), v.shrunk_msg.clone()));
        }
        if let Some(s) = &v.case {
            tries.push(("case", Some(s.clone()), v.msg.clone()));
        }
        if v.case.is_none() {
            tries.push(("generate", None, v.msg.clone()));
        }
        tries.push(("sequence", None, v.msg.clone()));
        let mut confirmed = false;
        for (mode, case, msg) in tries {
            let sequence: Vec<u64> = if mode == "sequence" { (0..v.idx).filter(|i| i % SHARDS == v.idx % SHARDS).collect() } else { vec![] };
            let r = Replay {
                property: id.to_string(),
                code: v.code.clone(),
                message: msg.clone(),
                seed,
                index: v.idx,
                mode: mode.to_string(),
                case,
                sequence,
                history: v.trace.clone(),
            };
            std::fs::write(&file, serde_json::to_vec_pretty(&r).unwrap()).unwrap();
            let rc = spawn_replay(&file);
            if rc == 1 || (rc == -1 && v.case.is_none()) {
                println!("{}: {msg}", v.code);
                println!("seed {seed}, run {}, minimised in {} steps, confirmed by a replay in a fresh process", v.idx, v.shrink_steps);
                for l in v.trace.iter().take(60) {
                    println!("    {l}");
                }
                confirmed = true;
                break;
            }
        }
        if !confirmed {
            println!("{}: {}", v.code, v.msg);
            println!("seed {seed}, run {}: not reproduced in a fresh process", v.idx);
        }
        if confirmed || v.case.is_some() {
            println!("VIOLATION property={id} replay={}", file.display());
            code = 1;
            reported = viols.len();
        }
        // a run that was lost once and comes back when repeated tells about this machine, not about the code
    }
    for (k, d) in listed(id) {
        let seen = known.get(&k).map(|x| x.0).unwrap_or(0);
        println!("KNOWN-FINDING: property={id} {d} (key {k}; observed in {seen} places of this run)");
    }
    for h in harness.iter().take(5) {
        eprintln!("harness error: {h}");
    }
    for (i, why) in &lost {
        eprintln!("run {i}: {why}");
    }
    if !rerun_diff.is_empty() {
        eprintln!("not reproduced when run twice: {:?}", &rerun_diff[..rerun_diff.len().min(10)]);
    }
    if code == 0 && (!harness.is_empty() || runs == 0 || lost.iter().any(|l| l.0 == u64::MAX)) {
        code = 2;
    }
    let faults: BTreeMap<&String, &u64> = counts.iter().filter(|c| c.0.starts_with("fault ")).collect();
    let others: BTreeMap<&String, &u64> = counts.iter().filter(|c| !c.0.starts_with("fault ")).collect();
    let ev = serde_json::json!({
        "property": id,
        "tier": if thorough { "thorough" } else { "quick" },
        "seed": seed,
        "level": "exploration",
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": sigs.len(),
            "nontrivial_runs": nontrivial,
            "rule": format!("{}; distinct: different configuration shape and different sequence of phases, faults and verdict", c.rule),
            "samples": samples,
            "simulated_runs_per_hour": (runs as f64 / wall * 3600.0).round(),
            "seeds_per_hour": (runs as f64 / wall * 3600.0).round(),
            "run_seeds": format!("(VERIF_SEED={seed}, \"{id}\", index) for index in 0..{n}"),
            "simulated_time": format!("{} simulated hours spent in the model, {} calls between solver and model, {} disk operations (the code under test reads simulated clocks only; it has no timer)",
                counts.get("simulated seconds").unwrap_or(&0) / 3600, counts.get("model calls").unwrap_or(&0), counts.get("disk operations").unwrap_or(&0)),
            "faults_injected_and_fired": faults,
            "reach": others,
            "repeated_runs_compared": reruns,
            "repeated_runs_differing": rerun_diff.len(),
            "known_findings_observed": known.iter().map(|(k, v)| (k.clone(), v.0)).collect::<BTreeMap<_, _>>(),
            "real_code": c.real,
            "stubs": c.stub,
        },
        "assumptions": ["floating point results of the sandbox's CPU", "sampling: seeded search over scenarios, fault plans and schedules, not exhaustive"],
        "wall_s": wall,
        "violations": reported,
    });
    let edir = verif_dir().join("evidence");
    std::fs::create_dir_all(&edir).unwrap();
    std::fs::write(edir.join(format!("{id}.json")), serde_json::to_vec_pretty(&ev).unwrap()).unwrap();
    println!(
        "{runs} runs ({nontrivial} non-trivial, {} distinct) in {wall:.1} s, faults {:?}",
        sigs.len(),
        faults
    );
    code
}
