//! C24: activating the log begins a new one. Programs run one after the other on one simulated disk: the
//! earlier ones end as they may (their model dies, the disk fails or fills up, what was not on the disk is
//! lost), the last one activates its log where theirs was.

use crate::check::*;
use crate::core::res_name;
use crate::exec::*;
use crate::rng::*;
use crate::scen::*;
use crate::simmodel::*;
use crate::sysim::*;
use serde::{Deserialize, Serialize};

const PATHS: [&str; 8] =
    ["/sim/log.txt", "/sim/log", "/sim/ log .txt ", "/sim/r\u{e9}solution.log", "/sim/log.txt.txt", "/sim/a/b/c.LOG", "/sim/.log", "/sim/%7B{}log~"];

/// what a crash leaves of a file
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Lost {
    /// bytes kept
    pub keep: usize,
    /// bytes that read as zeros after them
    pub zeros: usize,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Earlier {
    pub sc: Scenario,
    pub plan: DiskPlan,
    pub path: usize,
    pub lost: Option<Lost>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct RestartCase {
    pub sc: Scenario,
    /// a file that is no log, where the log is to be
    pub junk: Option<(usize, Vec<u8>)>,
    pub before: Vec<Earlier>,
    /// the faults of each resolution of the last program
    pub solves: Vec<Vec<Fault>>,
    /// (before this resolution, path)
    pub active: Vec<(usize, usize)>,
    pub plan: DiskPlan,
}

fn fault(r: &mut Rng, n: usize) -> FaultKind {
    use FaultKind::*;
    let i = r.below(n);
    [Inaccurate, Unusable, NanAt(i), Panic][r.weighted(&[1.5, 1.0, 0.5, 3.0])].clone()
}

fn gen(_: &str, seed: u64, idx: u64) -> Case {
    let mut r = Rng::from_parts(seed, "C24", idx);
    let m = Mix { max_iter: (0, 10), damping: 0.5, ..Mix::default() };
    let sc = gen_scenario(&mut r, &m);
    let faulty = |r: &mut Rng, sc: &Scenario, p: f64| {
        let mut v = vec![];
        if r.chance(p) {
            let jac = sc.provided_jac && r.chance(0.3);
            let at = r.below(if jac { 3 } else { 8 + 2 * sc.n() });
            v.push(Fault { at, jac, kind: fault(r, sc.n()) });
        }
        v
    };
    let home = if r.chance(0.6) { 0 } else { r.below(PATHS.len()) };
    let near = |r: &mut Rng| if r.chance(0.75) { home } else { r.below(PATHS.len()) };
    let junk = if r.chance(0.2) {
        let n = *r.pick(&[0usize, 1, 40, 300, 20_000, 200_000]);
        let b = r.below(256) as u8;
        let text = r.chance(0.5);
        Some((near(&mut r), (0..n).map(|i| if text { b"Iteration: 1\n"[i % 13] } else { b.wrapping_add(i as u8) }).collect()))
    } else {
        None
    };
    let mut before = vec![];
    for _ in 0..r.weighted(&[1.0, 5.0, 2.0, 1.0]) {
        let mut s = if r.chance(0.5) { sc.clone() } else { gen_scenario(&mut r, &Mix { max_iter: (0, 25), ..Mix::default() }) };
        s.faults = faulty(&mut r, &s, 0.5);
        let mut plan = DiskPlan::default();
        match r.below(5) {
            0 => {
                let at = 1 + r.below(60);
                plan.faults.push(DiskFault { class: OpClass::Write, at, kind: DiskFaultKind::Short(1 + r.below(200)) });
                plan.faults.push(DiskFault { class: OpClass::Write, at: at + 1, kind: DiskFaultKind::ErrForever(libc::EIO) });
            }
            1 => plan.capacity = Some(100 + r.below(12_000)),
            2 => plan.faults.push(DiskFault { class: OpClass::Open, at: r.below(40), kind: DiskFaultKind::Err(libc::EMFILE) }),
            _ => (),
        }
        let lost = if r.chance(0.3) { Some(Lost { keep: r.below(8000), zeros: if r.chance(0.5) { r.below(4096) } else { 0 } }) } else { None };
        before.push(Earlier { sc: s, plan, path: near(&mut r), lost });
    }
    let count = r.weighted(&[0.3, 6.0, 3.0, 1.0]);
    let solves: Vec<Vec<Fault>> = (0..count).map(|_| faulty(&mut r, &sc, 0.3)).collect();
    let mut active = vec![];
    for _ in 0..1 + r.weighted(&[5.0, 4.0, 1.0]) {
        let at = if active.is_empty() && r.chance(0.7) { 0 } else { r.below(count + 1) };
        active.push((at, near(&mut r)));
    }
    active.sort_by_key(|a| a.0);
    let mut plan = DiskPlan::default();
    for _ in 0..r.weighted(&[3.0, 2.0, 1.0]) {
        let (class, kind) = match r.below(3) {
            0 => (OpClass::Write, DiskFaultKind::Short(1 + r.below(100))),
            1 => (OpClass::Write, DiskFaultKind::Eintr(1 + r.below(3) as u32)),
            _ => (OpClass::Open, DiskFaultKind::Eintr(1 + r.below(3) as u32)),
        };
        let at = if r.chance(0.4) { 0 } else { r.below(40) };
        plan.faults.push(DiskFault { class, at, kind });
    }
    Case::Restart(RestartCase { sc, junk, before, solves, active, plan })
}

fn quiet(w: &Handle) {
    let mut g = lock(w);
    g.set_clock(ClockPlan { start_ns: 1_700_000_000_000_000_000, step_ns: 0, jumps: vec![] });
    g.set_env("TZ", Some(""));
}

fn run(_: &str, c: &Case) -> Outcome {
    let c = match c {
        Case::Restart(c) => c,
        _ => unreachable!(),
    };
    let mut o = Outcome::default();
    let sc = &c.sc;
    let w = new_world(DiskPlan::default(), None);
    quiet(&w);
    if let Some((p, b)) = &c.junk {
        lock(&w).put(PATHS[*p], b);
        o.count("another file where the log is to be", 1);
    }
    let mut kinds = String::new();
    for e in &c.before {
        lock(&w).set_plan(e.plan.clone());
        let path = PATHS[e.path];
        let ses = run_session(
            &e.sc,
            &Opts { faults: vec![&e.sc.faults], world: Some(w.clone()), log: true, log_path: Some(path.into()), ..Default::default() },
        );
        count_disk(&mut o, &ses);
        match (&ses.setup, ses.solves.first()) {
            (_, Some(s)) => {
                count_fired(&mut o, &e.sc.faults, &s.fired);
                o.count(&format!("earlier program ended {}", res_name(&s.res)), 1);
                o.digest = digest_solve(o.digest, s);
                kinds.push_str(&format!("{}.{} ", s.res.kind(), ses.log.len() / 1000));
            }
            _ => o.count("earlier program ended when its log was activated", 1),
        }
        if let Some(l) = &e.lost {
            let mut g = lock(&w);
            if let Some(d) = g.get(path) {
                let mut d = d.to_vec();
                if l.keep < d.len() {
                    d.truncate(l.keep);
                    d.resize(l.keep + l.zeros, 0);
                    g.put(path, &d);
                    o.count("fault disk:tail of a log lost in a crash", 1);
                }
            }
        }
    }
    let old: Vec<(&str, Option<Vec<u8>>)> = PATHS.iter().map(|p| (*p, lock(&w).get(p).map(|d| d.to_vec()))).collect();
    lock(&w).set_plan(c.plan.clone());
    quiet(&w);
    let faults: Vec<&[Fault]> = c.solves.iter().map(|f| &f[..]).collect();
    let again: Vec<(usize, String)> = c.active.iter().map(|(k, p)| (*k, PATHS[*p].to_string())).collect();
    let ses = run_session(sc, &Opts { faults: faults.clone(), world: Some(w.clone()), again, ..Default::default() });
    count_disk(&mut o, &ses);
    for (i, s) in ses.solves.iter().enumerate() {
        o.digest = digest_solve(o.digest, s);
        count_fired(&mut o, &c.solves[i], &s.fired);
        o.count(&format!("ended {}", res_name(&s.res)), 1);
        o.count("model calls", calls(&s.hist).len() as u64);
        kinds.push_str(&format!("{} ", s.res.kind()));
        o.trace.extend(trace_of(s));
    }
    if let Some(e) = &ses.setup {
        o.fail("activation", format!("the log could not be activated: {}", e.short()));
        return o;
    }
    o.sig = hash_bytes(
        hash_bytes(24, scenario_sig(sc).as_bytes()),
        format!("{kinds}{:?}{}{}", c.active, c.junk.is_some(), c.plan.faults.len()).as_bytes(),
    );
    // what each log holds: the one of a program that does the same on an empty disk
    for (pi, path) in PATHS.iter().enumerate() {
        let last = match c.active.iter().rposition(|a| a.1 == pi) {
            Some(j) => j,
            None => continue,
        };
        let from = c.active[last].0;
        let to = c.active.get(last + 1).map(|a| a.0).unwrap_or(c.solves.len());
        let q = new_world(DiskPlan::default(), None);
        quiet(&q);
        let one = vec![(from, LOG.to_string())];
        run_session(sc, &Opts { faults: faults[..to].to_vec(), world: Some(q.clone()), again: one, ..Default::default() });
        let (g, h) = (lock(&w), lock(&q));
        let want = h.get(LOG).unwrap_or(&[]);
        let got = g.get(path);
        let was = old.iter().find(|x| x.0 == *path).and_then(|x| x.1.as_ref());
        if let Some(b) = was {
            o.count("activated over an existing file", 1);
            o.count("activated over a longer file", (b.len() > want.len()) as u64);
            o.nontrivial = true;
        }
        if c.active[..last].iter().any(|a| a.1 == pi) {
            o.count("activated again at the same path", 1);
            o.nontrivial = true;
        }
        if last + 1 < c.active.len() {
            o.count("log left for another", 1);
            o.nontrivial = true;
        }
        if want.is_empty() {
            o.fail("no-log", format!("nothing at {LOG} after an activation on an empty disk"));
        } else if got != Some(want) {
            let got = got.unwrap_or(&[]);
            let i = got.iter().zip(want).take_while(|(a, b)| a == b).count();
            let show = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(20).min(v.len())..(i + 60).min(v.len())]).into_owned();
            o.fail(
                "not-new",
                format!(
                    "the log at {path:?} has {} bytes, on an empty disk {}; from byte {i}: {:?} instead of {:?}",
                    got.len(),
                    want.len(),
                    show(got),
                    show(want)
                ),
            );
        }
    }
    // files that are not the program's
    for (path, b) in &old {
        if !c.active.iter().any(|a| PATHS[a.1] == *path) && lock(&w).get(path) != b.as_deref() {
            o.fail("other-file", format!("the file {path:?}, where no log was activated, was changed"));
        }
    }
    o
}

fn shrink(c: &Case) -> Vec<Case> {
    let c = match c {
        Case::Restart(c) => c,
        _ => return vec![],
    };
    let mut v = vec![];
    let mut push = |c: RestartCase| v.push(Case::Restart(c));
    for i in 0..c.before.len() {
        let mut d = c.clone();
        d.before.remove(i);
        push(d);
    }
    if c.junk.is_some() {
        push(RestartCase { junk: None, ..c.clone() });
    }
    for i in 0..c.plan.faults.len() {
        let mut d = c.clone();
        d.plan.faults.remove(i);
        push(d);
    }
    if c.active.len() > 1 {
        for i in 0..c.active.len() {
            let mut d = c.clone();
            d.active.remove(i);
            push(d);
        }
    }
    if let Some(n) = c.solves.len().checked_sub(1) {
        let mut d = c.clone();
        d.solves.pop();
        for a in &mut d.active {
            a.0 = a.0.min(n);
        }
        push(d);
    }
    for i in 0..c.solves.len() {
        if !c.solves[i].is_empty() {
            let mut d = c.clone();
            d.solves[i].clear();
            push(d);
        }
    }
    for i in 0..c.before.len() {
        let e = &c.before[i];
        let mut put = |e: Earlier| {
            let mut d = c.clone();
            d.before[i] = e;
            push(d);
        };
        if e.lost.is_some() {
            put(Earlier { lost: None, ..e.clone() });
        }
        if e.plan != DiskPlan::default() {
            put(Earlier { plan: DiskPlan::default(), ..e.clone() });
        }
        if e.sc != c.sc {
            put(Earlier { sc: c.sc.clone(), ..e.clone() });
        }
        if !e.sc.faults.is_empty() {
            let mut e = e.clone();
            e.sc.faults.clear();
            put(e);
        }
    }
    for sc in shrink_scenario(&c.sc) {
        push(RestartCase { sc, ..c.clone() });
    }
    v
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C24",
        quick: 60_000,
        thorough: 1_500_000,
        hang: true,
        rule: "0-3 earlier programs on the same disk (ended by their model's death, by a failing or full disk, or well; the tail of their log lost), other files where the log is to be, then a program with 0-3 resolutions whose log is activated 1-3 times; non-trivial: a log is activated where there was a file, or one is left for another",
        real: "RootFinder, SolverLog, std::fs and std::io, Iteratives, ResidualsConfig, nalgebra",
        stub: "the kernel's file system and clock (in-memory disk with a fault plan, fixed clock); the user's models",
        gen,
        run,
        shrink,
    }]
}
