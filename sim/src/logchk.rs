//! Checks on the log: C11 (it changes nothing), C12 (complete at a crash), C13 (never lost silently), C20 (it tells what
//! happened).

use crate::check::*;
use crate::core::{pick_target, place_faults, res_name};
use crate::exec::*;
use crate::logp::*;
use crate::problem::*;
use crate::refm::*;
use crate::rng::*;
use crate::scen::*;
use crate::simmodel::*;
use crate::sysim::*;

const REAL: &str = "RootFinder, SolverLog, Display of the configurations, std::fs up to the libc calls, nalgebra";
const STUB: &str = "the user's model (generated equations, fault plan by call number); the disk behind open/write/read/lseek/close (in memory, with faults)";

fn mix(r: &mut Rng, id: &str) -> Mix {
    let mut m = Mix { max_iter: (0, 14), ..Mix::default() };
    m.damping = 0.6;
    m.unbounded = 0.003;
    m.classes = vec![
        (Class::Mild, 3.0),
        (Class::General, 3.0),
        (Class::Singular, 0.7),
        (Class::Steep, 4.0),
        (Class::Domain, 1.0),
        (Class::NoRoot, 0.7),
        (Class::Solved, 0.5),
        (Class::Scaled, 0.7),
    ];
    if id == "C20" {
        m.out_of_range = if r.chance(0.1) { 0.2 } else { 0.0 };
    }
    m
}

fn model_fault(r: &mut Rng, n: usize, jac: bool) -> FaultKind {
    use FaultKind::*;
    let i = r.below(n);
    let j = r.below(n);
    let off = F(r.log10(-6.0, 1.0));
    if jac {
        return [Inaccurate, Unusable, Off(off), JacNan(i, j), JacZeroRow(i), Panic][r.weighted(&[1.0, 1.0, 2.0, 0.5, 1.0, 0.7])].clone();
    }
    [Inaccurate, InaccurateBy(off), Off(off), Unusable, UnusableNan, NanAt(i), InfAt(i), HugeAt(i), Stale, Panic, Members(i, r.below(PAIRS))]
        [r.weighted(&[2.0, 1.0, 3.0, 1.0, 0.7, 0.6, 0.4, 0.4, 0.5, 0.7, 0.7])]
    .clone()
}

fn session(sc: &Scenario, before: &[Vec<Fault>], plan: &DiskPlan, log: bool) -> Session {
    let w = new_world(plan.clone(), None);
    let mut faults: Vec<&[Fault]> = before.iter().map(|f| &f[..]).collect();
    faults.push(&sc.faults);
    run_session(sc, &Opts { faults, world: Some(w), log, own: true, ..Default::default() })
}

fn transient(r: &mut Rng, class: OpClass, at: usize) -> DiskFault {
    let kind = if class == OpClass::Open || r.chance(0.4) {
        DiskFaultKind::Eintr(1 + r.below(3) as u32)
    } else {
        DiskFaultKind::Short(*r.pick(&[1, 1, 2, 3, 7, 20, 64, 100]))
    };
    DiskFault { class, at, kind }
}

fn gen(id: &str, seed: u64, idx: u64) -> Case {
    let mut r = Rng::from_parts(seed, id, idx);
    let m = mix(&mut r, id);
    let mut sc = gen_scenario(&mut r, &m);
    let count = r.weighted(&[3.0, 4.0, 2.0]);
    let mut r2 = Rng::new(r.next());
    place_faults(id, &mut r2, &mut sc, count, &|r, n, j| model_fault(r, n, j));
    let mut plan = DiskPlan::default();
    let mut before = vec![];
    match id {
        "C11" => {
            // a dry run tells how many operations there are
            if r.chance(0.7) {
                let ses = session(&sc, &[], &plan, true);
                for _ in 0..1 + r.below(6) {
                    let class = if r.chance(0.3) { OpClass::Open } else { OpClass::Write };
                    let total = if class == OpClass::Open { ses.fs.opens } else { ses.fs.writes };
                    let f = transient(&mut r, class, r_at(&mut r2, total));
                    plan.faults.push(f);
                }
                if r.chance(0.1) {
                    // every write is short
                    for at in 0..ses.fs.writes * 3 {
                        plan.faults.push(DiskFault { class: OpClass::Write, at, kind: DiskFaultKind::Short(40 + at % 60) });
                    }
                }
            }
            if r.chance(0.2) {
                before = vec![vec![]];
            }
        }
        "C12" => {
            if r.chance(0.75) {
                // the process dies at a chosen point
                let ses = run_plain(&sc);
                if let Some(s) = ses.solves.first() {
                    let f = follow(&sc, s);
                    if let Some((at, jac)) = pick_target("C01", &mut r, s, &f) {
                        sc.faults.retain(|f| f.at != at || f.jac != jac);
                        sc.faults.push(Fault { at, jac, kind: FaultKind::Panic });
                    }
                }
            }
            if r.chance(0.2) {
                before = vec![if r.chance(0.5) { vec![Fault { at: r.below(8), jac: false, kind: FaultKind::Panic }] } else { vec![] }];
            }
        }
        "C13" => {
            let ses = session(&sc, &[], &plan, true);
            let (no, nw) = (ses.fs.opens, ses.fs.writes);
            if r.chance(0.25) {
                plan.capacity = Some(r.below(ses.log.len() + 1));
                if r.chance(0.5) {
                    let at = r.below(nw.max(1));
                    plan.faults.push(transient(&mut r, OpClass::Write, at));
                }
            } else if r.chance(0.8) {
                let class = if r.chance(0.35) { OpClass::Open } else { OpClass::Write };
                let total = if class == OpClass::Open { no } else { nw };
                let at = r_at(&mut r, total);
                let e = if class == OpClass::Open {
                    *r.pick(&[libc::EACCES, libc::EMFILE, libc::ENOSPC, libc::EIO, libc::EROFS])
                } else {
                    *r.pick(&[libc::ENOSPC, libc::EIO, libc::EDQUOT, libc::EFBIG])
                };
                let kind = if r.chance(0.5) { DiskFaultKind::Err(e) } else { DiskFaultKind::ErrForever(e) };
                plan.faults.push(DiskFault { class, at, kind });
                if r.chance(0.3) {
                    // a short write just before
                    let at = at.saturating_sub(r.below(3));
                    plan.faults.push(DiskFault { class: OpClass::Write, at, kind: DiskFaultKind::Short(1 + r.below(30)) });
                }
            } else {
                for _ in 0..1 + r.below(5) {
                    let class = if r.chance(0.3) { OpClass::Open } else { OpClass::Write };
                    let at = r.below(if class == OpClass::Open { no } else { nw }.max(1));
                    plan.faults.push(transient(&mut r, class, at));
                }
            }
        }
        _ => {
            if r.chance(0.15) {
                before = vec![if r.chance(0.5) { vec![Fault { at: r.below(8), jac: false, kind: FaultKind::Unusable }] } else { vec![] }];
            }
            if r.chance(0.2) {
                for _ in 0..1 + r.below(4) {
                    let at = r.below(60);
                    plan.faults.push(transient(&mut r, OpClass::Write, at));
                }
            }
        }
    }
    Case::Log { sc, plan, before }
}
fn r_at(r: &mut Rng, total: usize) -> usize {
    let t = total.max(1);
    match r.below(4) {
        0 => r.below(t.min(4)),
        1 => t - 1 - r.below(t.min(4)),
        _ => r.below(t),
    }
}

fn run(id: &str, c: &Case) -> Outcome {
    let (sc, plan, before) = match c {
        Case::Log { sc, plan, before } => (sc, plan, before),
        _ => unreachable!(),
    };
    let mut o = Outcome::default();
    let ses = session(sc, before, plan, true);
    count_disk(&mut o, &ses);
    if ses.shrunk.is_some() && id != "C12" {
        o.count("runs diverging for another property", 1);
    }
    if id == "C13" {
        disk(&mut o, sc, before, plan, &ses);
    } else if ses.setup.is_some() || ses.solves.len() != before.len() + 1 {
        if plan.faults.is_empty() || id == "C11" {
            o.fail("setup", format!("building the solver or activating its log: {:?}", ses.setup));
        }
        return o;
    }
    if let Some(s) = ses.solves.last() {
        o.digest = hash_bytes(digest_solve(0, s), &ses.log);
        count_fired(&mut o, &sc.faults, &s.fired);
        o.trace = trace_of(s);
        o.count("model calls", calls(&s.hist).len() as u64);
        o.count("log bytes", ses.log.len() as u64);
        o.count(&format!("ended {}", res_name(&s.res)), 1);
        o.nontrivial = calls(&s.hist).len() > 2;
        let f = follow(sc, s);
        o.sig = hash_bytes(
            hash_bytes(7, scenario_sig(sc).as_bytes()),
            format!("{}{}{:?}", f.sig, s.res.kind(), plan.faults.iter().map(|f| (f.class, f.at.min(40), kind_no(&f.kind))).collect::<Vec<_>>()).as_bytes(),
        );
        match id {
            "C11" => same_without(&mut o, sc, before, s, &ses),
            "C12" => durable(&mut o, sc, s, &f, &ses),
            "C20" => faithful(&mut o, sc, s, &f, &ses),
            _ => (),
        }
        if o.viol.is_some() && (id == "C12" || id == "C20") {
            // the history may be readable in another way, which the log confirms
            for g in other_readings(sc, s) {
                let mut p = Outcome::default();
                if id == "C12" {
                    durable(&mut p, sc, s, &g, &ses);
                } else {
                    faithful(&mut p, sc, s, &g, &ses);
                }
                if p.viol.is_none() {
                    o.viol = None;
                    o.count("logs that settle how the history is to be read", 1);
                    break;
                }
            }
        }
    } else {
        o.digest = hash_bytes(1, &ses.log);
        o.nontrivial = true;
        o.sig = hash_bytes(8, format!("{:?}", plan.faults).as_bytes());
    }
    o
}
fn kind_no(k: &DiskFaultKind) -> u8 {
    match k {
        DiskFaultKind::Err(_) => 0,
        DiskFaultKind::ErrForever(_) => 1,
        DiskFaultKind::Eintr(_) => 2,
        DiskFaultKind::Short(_) => 3,
    }
}

fn same_without(o: &mut Outcome, sc: &Scenario, before: &[Vec<Fault>], s: &Solve, ses: &Session) {
    let off = session(sc, before, &DiskPlan::default(), false);
    let s2 = match off.solves.last() {
        Some(s) => s,
        None => return o.fail("setup", format!("building the solver without log: {:?}", off.setup)),
    };
    o.count("resolutions compared with and without log", 1);
    if let Some(d) = first_diff(&s.hist, &s2.hist) {
        return o.fail("log-changes-course", format!("with log / without: {d}"));
    }
    let same_res = match (&s.res, &s2.res) {
        (Res::Panic(_), Res::Panic(_)) => true,
        (a, b) => a == b,
    };
    if !same_res {
        return o.fail("log-changes-result", format!("{} with log, {} without", s.res.short(), s2.res.short()));
    }
    if !same(&s.x, &s2.x) || !same(&s.l, &s2.l) || !same(&s.r, &s2.r) || !same1(s.mem, s2.mem) {
        return o.fail("log-changes-state", format!("the model is left at {:?} with log, at {:?} without", s.x, s2.x));
    }
    if off.log.len() > 0 {
        o.fail("log-uninvited", "a log is written although it was not activated".into());
    }
    let _ = ses;
}

fn disk(o: &mut Outcome, sc: &Scenario, before: &[Vec<Fault>], plan: &DiskPlan, ses: &Session) {
    let full = session(sc, before, &DiskPlan::default(), true);
    let hard = plan.capacity.is_some() || plan.faults.iter().any(|f| matches!(f.kind, DiskFaultKind::Err(_) | DiskFaultKind::ErrForever(_)));
    let fired = ses.fs.errors > 0 || ses.fs.enospc > 0;
    let returned = ses.setup.is_none() && ses.solves.iter().all(|s| !matches!(s.res, Res::Panic(_)));
    let hung = ses.solves.iter().any(|s| s.res == Res::Hang) && !full.solves.iter().any(|s| s.res == Res::Hang);
    if hung {
        return o.fail("log-retry-forever", "the resolution hangs on a storage error".into());
    }
    if !full.log.starts_with(&ses.log) {
        let k = full.log.iter().zip(&ses.log).take_while(|(a, b)| a == b).count();
        let show = |v: &[u8]| String::from_utf8_lossy(&v[k.saturating_sub(30).min(v.len())..(k + 50).min(v.len())]).into_owned();
        return o.fail(
            "not-a-prefix",
            format!("from byte {k} the log on disk is not the fault-free one: {:?} instead of {:?}", show(&ses.log), show(&full.log)),
        );
    }
    if fired {
        o.count("runs with a storage error", 1);
        if returned && ses.log.len() < full.log.len() {
            return o.fail(
                "silent-loss",
                format!(
                    "{} of {} bytes of the log are stored, yet the resolution returns {}",
                    ses.log.len(),
                    full.log.len(),
                    ses.solves.last().map(|s| s.res.short()).unwrap_or_default()
                ),
            );
        }
    } else {
        if hard {
            o.count("storage errors not reached", 1);
        }
        if ses.log != full.log {
            return o.fail("transient-loss", format!("{} of {} bytes of the log are stored after transient faults only", ses.log.len(), full.log.len()));
        }
        if let (Some(a), Some(b)) = (ses.solves.last(), full.solves.last()) {
            if a.res != b.res && !matches!((&a.res, &b.res), (Res::Panic(_), Res::Panic(_))) {
                o.fail("transient-result", format!("{} with transient storage faults, {} without", a.res.short(), b.res.short()));
            }
        } else if ses.setup != full.setup {
            o.fail("transient-setup", format!("activation fails on transient faults: {:?}", ses.setup));
        }
    }
}

/// start of the part of the last resolution in the log
fn part_start(ses: &Session) -> usize {
    let n = ses.solves.len();
    if n > 1 {
        ses.solves[n - 2].log_end
    } else {
        ses.log_start
    }
}

fn usable(s: &Solve, hi: usize) -> bool {
    matches!(&s.hist[hi], Ev::Eval { st: St::Ok | St::Inacc(_), .. })
}

fn durable(o: &mut Outcome, sc: &Scenario, s: &Solve, f: &Follow, ses: &Session) {
    if let Some(w) = &ses.shrunk {
        return o.fail("log-rewritten", format!("what was written in the log is changed during the resolution: {w}"));
    }
    if f.divs.iter().any(|d| d.known.is_none() && d.code != "panic") {
        o.count("runs diverging for another property", 1);
        return;
    }
    let a = part_start(ses);
    let part = match parse(&ses.log[a..s.log_end.max(a)], a) {
        Ok(p) => p,
        Err(e) => return o.fail("log-unreadable", e),
    };
    // entries expected, in order, with the place in the history from which they have to be on disk
    let want: Vec<usize> = f
        .labels
        .iter()
        .filter(|l| matches!(l.1, Lab::Initial | Lab::Update(_) | Lab::Damped(_)) && usable(s, l.0))
        .map(|l| l.0)
        .collect();
    let n = sc.n();
    let check = |upto: usize, len: usize, what: &str| -> Option<(String, String)> {
        let need = want.iter().filter(|h| **h < upto).count();
        if need > 0 && !(part.config_end > 0 && part.config_end <= len) {
            return Some(("config-late".into(), format!("{what}: the log does not hold the configuration yet")));
        }
        let have = part.entries.iter().take_while(|e| e.rows.len() == n && e.end <= len).count();
        if have < need {
            return Some(("entry-missing".into(), format!("{what}: {need} iterates were evaluated before, the log on disk ({len} bytes) holds {have} of their entries")));
        }
        None
    };
    let mut looked = 0;
    for (hi, e) in s.hist.iter().enumerate() {
        let (len, what) = match e {
            Ev::Eval { log, k, .. } => (*log, format!("a crash during evaluation {k}")),
            Ev::Jac { log, k, .. } => (*log, format!("a crash during jacobian {k}")),
            _ => continue,
        };
        if f.gave_up && f.labels.last().map_or(true, |l| l.0 < hi) {
            break;
        }
        looked += 1;
        if let Some((c, m)) = check(hi, len, &what) {
            return o.fail(&c, m);
        }
    }
    if !f.gave_up {
        if let Some((c, m)) = check(usize::MAX, s.log_end, "at the end of the resolution") {
            return o.fail(&c, m);
        }
    }
    // a refusal is part of what happened before the next call
    for it in &f.iters {
        if it.refused != Some(true) {
            continue;
        }
        if let Some(hi) = it.update {
            let ei = want.iter().position(|h| *h == hi);
            let next = s.hist[hi + 1..].iter().find_map(|e| match e {
                Ev::Eval { log, .. } | Ev::Jac { log, .. } => Some(*log),
                _ => None,
            });
            if let (Some(ei), Some(len)) = (ei, next) {
                if let Some(e) = part.entries.get(ei) {
                    if e.refused > 0 && e.refused_end > len {
                        return o.fail("refusal-late", format!("the refusal of iteration {} is not on disk when the model is called next", it.n));
                    }
                }
            }
        }
    }
    o.count("crash points examined", looked + 1);
}

fn cell_num(s: &str, v: f64) -> bool {
    s.parse::<f64>().map_or(false, |p| p == v || (p.is_nan() && v.is_nan()))
}

fn config(sc: &Scenario, p: &Part) -> Option<String> {
    let row = |t: &Vec<Vec<String>>, head: &str| -> Vec<Vec<String>> { t.iter().filter(|r| !r[0].starts_with(head)).cloned().collect() };
    let s = row(&p.solver, "Problem");
    if s.len() != 1 || s[0].len() != 5 {
        return Some(format!("solver table {s:?}"));
    }
    let s = &s[0];
    let method = match sc.method {
        0 => "Newton-Raphson",
        1 => "Frozen",
        2 | 3 => "Broyden",
        4 | 5 => "Broyden",
        _ => "Greenstadt",
    };
    let rank = match sc.method {
        2 | 3 | 6 | 7 => "irst",
        4 | 5 | 8 | 9 => "econd",
        _ => "",
    };
    if !(cell_num(&s[0], sc.n() as f64) && cell_num(&s[1], sc.max_iter as f64) && cell_num(&s[2], sc.tol.0) && s[3] == sc.damping.to_string()) {
        return Some(format!("solver table {s:?}"));
    }
    if !(s[4].contains(method) && s[4].contains(rank)) {
        return Some(format!("method {:?} for {}", s[4], METHODS[sc.method]));
    }
    let it = row(&p.iteratives, "Iterative");
    if it.len() != sc.n() {
        return Some(format!("{} rows in the table of iteratives", it.len()));
    }
    let fd = sc.fd_params || !sc.provided_jac;
    for (i, (row, q)) in it.iter().zip(&sc.iters).enumerate() {
        let mut ok = row.len() == if fd { 8 } else { 5 };
        ok = ok && cell_num(&row[0], i as f64) && cell_num(&row[1], q.step_abs.0) && cell_num(&row[2], q.step_rel.0);
        ok = ok && cell_num(&row[3], q.min.0) && cell_num(&row[4], q.max.0);
        if ok && fd {
            ok = row[5].to_lowercase() == if q.sum { "sum" } else { "max" } && cell_num(&row[6], q.dx_abs.0) && cell_num(&row[7], q.dx_rel.0);
        }
        if !ok {
            return Some(format!("iterative {i}: {row:?} for {q:?}"));
        }
    }
    let rs = row(&p.residuals, "Residual");
    if rs.len() != sc.n() {
        return Some(format!("{} rows in the table of residuals", rs.len()));
    }
    let name = |n: Norm| match n {
        Norm::Abs => "absolute",
        Norm::Rel => "relative",
        Norm::Adapt => "adapt",
    };
    for (i, row) in rs.iter().enumerate() {
        let ok = row.len() == 3
            && cell_num(&row[0], i as f64)
            && row[1].to_lowercase().starts_with(name(sc.stop[i]))
            && row[2].to_lowercase().starts_with(name(sc.upd[i]));
        if !ok {
            return Some(format!("residual {i}: {row:?} for {:?} {:?}", sc.stop[i], sc.upd[i]));
        }
    }
    None
}

fn entry_ok(sc: &Scenario, e: &Entry, x: &[f64], l: &[f64], r: &[f64]) -> Option<String> {
    let n = sc.n();
    if e.rows.len() != n {
        return Some(format!("{} rows for {n} variables", e.rows.len()));
    }
    let errs = stop_res(sc, l, r);
    for (i, row) in e.rows.iter().enumerate() {
        if row.id != i {
            return Some(format!("row {i} is numbered {}", row.id));
        }
        if !same1(row.x, x[i]) {
            return Some(format!("iterate {i} is {:?}, evaluated at {:?}", row.x, x[i]));
        }
        if !same1(row.l, l[i]) || !same1(row.r, r[i]) {
            return Some(format!("equation {i} reads {:?} = {:?}, evaluated to {:?} = {:?}", row.l, row.r, l[i], r[i]));
        }
        let ok = same1(row.err, errs[i]) || (row.err - errs[i]).abs() <= 1e-12 * errs[i].abs() || !errs[i].is_finite();
        if !ok {
            return Some(format!("stopping residual {i} is {:?} for {:?}", row.err, errs[i]));
        }
    }
    let m = amax(&e.rows.iter().map(|r| r.err).collect::<Vec<_>>());
    if !m.is_nan() && e.max != m {
        return Some(format!("the maximum is {:?} for {m:?}", e.max));
    }
    None
}

fn faithful(o: &mut Outcome, sc: &Scenario, s: &Solve, f: &Follow, ses: &Session) {
    let a = part_start(ses);
    let part = match parse(&ses.log[a..s.log_end.max(a)], a) {
        Ok(p) => p,
        Err(e) => return o.fail("log-unreadable", e),
    };
    if !part.other.is_empty() {
        return o.fail("log-unreadable", format!("unknown line {:?}", part.other[0]));
    }
    if part.entries.is_empty() {
        if s.hist.iter().any(|e| matches!(e, Ev::Eval { st: St::Ok | St::Inacc(_), .. })) {
            o.fail("no-entry", "the log has no entry although an iterate was evaluated".into());
        }
        return;
    }
    if let Some(m) = config(sc, &part) {
        return o.fail("wrong-config", m);
    }
    // numbering
    let nums: Vec<usize> = part.entries.iter().filter_map(|e| e.iter).collect();
    if nums.iter().enumerate().any(|(i, k)| i != *k) {
        return o.fail("numbering", format!("the entries are numbered {nums:?}"));
    }
    // every entry is an evaluation of the history, in order
    let evals: Vec<(usize, &Vec<f64>, &Vec<f64>, &Vec<f64>)> = s
        .hist
        .iter()
        .enumerate()
        .filter_map(|(i, e)| match e {
            Ev::Eval { x, l, r, st: St::Ok | St::Inacc(_), .. } => Some((i, x, l, r)),
            _ => None,
        })
        .collect();
    o.count("log entries compared", part.entries.len() as u64);
    let diverged = f.divs.iter().any(|d| d.known.is_none() && d.code != "panic");
    if diverged || f.gave_up {
        o.count("logs compared without the reading of the history", 1);
        let mut p = 0;
        for (ei, e) in part.entries.iter().enumerate() {
            match (p..evals.len()).find(|k| entry_ok(sc, e, evals[*k].1, evals[*k].2, evals[*k].3).is_none()) {
                Some(k) => p = k + 1,
                None => return o.fail("wrong-entry", format!("entry {ei} ({:?}) is no evaluation that was made", e.rows)),
            }
        }
        return;
    }
    let at = |hi: usize| evals.iter().find(|e| e.0 == hi);
    let mut k = 0;
    let mut expect = |o: &mut Outcome, hi: usize, iter: Option<usize>| -> Option<usize> {
        let (_, x, l, r) = at(hi)?;
        let e = match part.entries.get(k) {
            Some(e) => e,
            None => {
                o.fail("entry-missing", format!("{} has no entry in the log", show(&s.hist[hi])));
                return None;
            }
        };
        match (e.iter, iter) {
            (Some(a), Some(b)) if a != b => o.fail("numbering", format!("entry {k} is iteration {a} instead of {b}")),
            (Some(a), None) => o.fail("damping-unreported", format!("a damped iterate, {}, is not reported before iteration {a}", show(&s.hist[hi]))),
            (None, Some(b)) => o.fail("damping-invented", format!("a damping is reported where iteration {b} is expected")),
            _ => (),
        }
        if let Some(m) = entry_ok(sc, e, x, l, r) {
            o.fail("wrong-entry", format!("entry {k} for {}: {m}", show(&s.hist[hi])));
        }
        k += 1;
        Some(k - 1)
    };
    let ini = match f.labels.iter().find(|l| l.1 == Lab::Initial) {
        Some(l) => l.0,
        None => return,
    };
    let mut prev = expect(o, ini, Some(0));
    let mut prev_refused = Some(false);
    for it in &f.iters {
        // what follows the previous entry
        if let Some(p) = prev {
            after(o, sc, s, &part.entries[p], prev_refused, it, f);
        }
        let Some(u) = it.update else { break };
        prev = expect(o, u, Some(it.n));
        if prev.is_none() {
            prev_refused = Some(false);
            continue;
        }
        let mut refused = it.refused;
        if let Some(d) = it.damped {
            // a refusal line would come before the damped entry
            if part.entries[prev.unwrap()].refused > 0 {
                o.fail("refusal-invented", format!("iteration {} is damped, not refused", it.n));
            }
            if !part.entries[prev.unwrap()].blocks.is_empty() {
                o.fail("jacobian-misplaced", format!("a jacobian between iteration {} and its damping", it.n));
            }
            prev = expect(o, d, None);
            refused = Some(false);
        }
        prev_refused = refused;
    }
    // nothing after the last
    if let (Some(p), true) = (prev, o.viol.is_none()) {
        if f.iters.last().map_or(true, |i| i.update.is_some()) {
            let e = &part.entries[p];
            refusal(o, e, prev_refused);
            if !e.blocks.is_empty() && !matches!(s.res, Res::JacInv) {
                o.fail("jacobian-invented", format!("a jacobian is reported after the last iterate, {:?}", e.rows));
            }
        }
    }
    if k < part.entries.len() && o.viol.is_none() {
        let e = &part.entries[k];
        let w = if e.iter.is_none() { "damping-invented" } else { "entry-invented" };
        o.fail(w, format!("entry {k} ({:?}, {:?}) corresponds to no evaluation of an iterate", e.iter, e.rows));
    }
}

fn refusal(o: &mut Outcome, e: &Entry, want: Option<bool>) {
    match want {
        Some(true) if e.refused != 1 => o.fail("refusal-unreported", format!("the refusal of iteration {:?} is reported {} times", e.iter, e.refused)),
        Some(false) if e.refused > 0 => o.fail("refusal-invented", format!("iteration {:?} is reported refused", e.iter)),
        _ => (),
    }
}

/// what is reported between the entry of an iterate and the next iteration
fn after(o: &mut Outcome, sc: &Scenario, s: &Solve, e: &Entry, refused: Option<bool>, it: &Iter, f: &Follow) {
    refusal(o, e, refused);
    let n = sc.n();
    if it.jac_failed {
        // there is no jacobian: the one of an earlier iteration must not be shown in its place
        o.count("failed jacobians looked for in the log", 1);
        if let Some(b) = e.blocks.iter().find(|b| b.j.is_some() || b.h.is_some()) {
            o.fail("jacobian-stale", format!("the jacobian of iteration {} could not be had, the log shows {:?} as its jacobian and {:?} as the inverse", it.n, b.j, b.h));
        }
        return;
    }
    if it.update.is_none() {
        // nothing else is required of an iteration that failed
        return;
    }
    if e.blocks.len() != 1 {
        return o.fail("jacobian-count", format!("iteration {} made a step, its jacobian is reported {} times", it.n, e.blocks.len()));
    }
    o.count("jacobian blocks read", 1);
    let b = &e.blocks[0];
    let h = match &b.h {
        Some(h) if h.len() == n && h.iter().all(|r| r.len() == n) => h,
        _ => return o.fail("jacobian-block", format!("iteration {}: the inverse of the jacobian is not an {n}x{n} matrix: {:?}", it.n, b.h)),
    };
    // the matrices are the ones in force
    if let Some(j) = &b.j {
        if j.len() != n || j.iter().any(|r| r.len() != n) {
            return o.fail("jacobian-block", format!("iteration {}: the jacobian is not an {n}x{n} matrix", it.n));
        }
        // (nothing is the inverse of a jacobian with an entry that is no number)
        let numbers = j.iter().flatten().chain(h.iter().flatten()).all(|x| x.is_finite());
        for a in 0..n {
            if !numbers {
                break;
            }
            for c in 0..n {
                let v: f64 = (0..n).map(|k| j[a][k] * h[k][c]).sum();
                let mag: f64 = (0..n).map(|k| (j[a][k] * h[k][c]).abs()).sum::<f64>();
                let t = if a == c { 1.0 } else { 0.0 };
                let cond = j.iter().flatten().fold(0.0f64, |x, y| x.max(y.abs())) * h.iter().flatten().fold(0.0f64, |x, y| x.max(y.abs()));
                if v.is_finite() && mag.is_finite() && cond < 1e6 && (v - t).abs() > 1e-8 * (1.0 + mag) {
                    return o.fail("jacobian-inverse", format!("iteration {}: the reported matrices are not inverse of each other: {j:?} {h:?}", it.n));
                }
            }
        }
    }
    // the reported inverse leads to the step that was made
    let ev = |hi: usize| match &s.hist[hi] {
        Ev::Eval { x, l, r, .. } => Some((x, l, r)),
        _ => None,
    };
    let u = it.update.unwrap();
    let (xn, _, _) = ev(u).unwrap();
    // the iterate it starts from, and the last perturbed point
    let start = f.labels.iter().rev().find(|l| l.0 < u && matches!(l.1, Lab::Initial | Lab::Update(_) | Lab::Damped(_)));
    let fdp = f.labels.iter().rev().find(|l| l.0 < u && matches!(l.1, Lab::Fd(k, _) if k == it.n));
    let mut worst = 0.0f64;
    let mut fits = false;
    let mut judged = true;
    for b in [start, fdp].into_iter().flatten() {
        let (x, l, r) = ev(b.0).unwrap();
        let fr = upd_res(sc, l, r);
        let raw: Vec<f64> = matvec(h, &fr).iter().map(|v| -v).collect();
        let mag: Vec<f64> = (0..n).map(|i| (0..n).map(|k| (h[i][k] * fr[k]).abs()).sum()).collect();
        if !raw.iter().all(|v| v.is_finite()) || mag.iter().any(|m| *m > 1e100) {
            judged = false;
            break;
        }
        let d: Vec<f64> = (0..n).map(|i| (limit(&sc.iters[i], x[i], raw[i]) - xn[i]).abs() / (1e-9 * mag[i] + 1e-14 * (x[i].abs() + xn[i].abs()) + 1e-300)).collect();
        let m = amax(&d);
        worst = m;
        if m <= 1.0 {
            fits = true;
        }
    }
    if judged {
        o.count("steps derived from the reported jacobian", 1);
        if !fits {
            o.fail("jacobian-wrong", format!("iteration {}: the reported inverse {h:?} does not lead to the step to {xn:?} ({worst:e})", it.n));
        }
    }
}

fn shrink(c: &Case) -> Vec<Case> {
    let (sc, plan, before) = match c {
        Case::Log { sc, plan, before } => (sc, plan, before),
        _ => return vec![],
    };
    let mut v = vec![];
    if !before.is_empty() {
        v.push(Case::Log { sc: sc.clone(), plan: plan.clone(), before: before[1..].to_vec() });
    }
    if plan.faults.len() > 2 {
        let h = plan.faults.len() / 2;
        for f in [plan.faults[..h].to_vec(), plan.faults[h..].to_vec()] {
            v.push(Case::Log { sc: sc.clone(), plan: DiskPlan { faults: f, ..plan.clone() }, before: before.clone() });
        }
    }
    for i in 0..plan.faults.len().min(12) {
        let mut p = plan.clone();
        p.faults.remove(i);
        v.push(Case::Log { sc: sc.clone(), plan: p, before: before.clone() });
    }
    v.extend(shrink_scenario(sc).into_iter().map(|sc| Case::Log { sc, plan: plan.clone(), before: before.clone() }));
    v
}

pub fn checks() -> Vec<Check> {
    let mk = |id: &'static str, quick: u64, thorough: u64, rule: &'static str| Check {
        id,
        quick,
        thorough,
        hang: true,
        rule,
        real: REAL,
        stub: STUB,
        gen,
        run,
        shrink,
    };
    vec![
        mk("C11", 45_000, 1_000_000, "generated resolution with 0-2 model faults, run with its log on a disk with interrupted and short writes, and without log; non-trivial: more than two calls of the model"),
        mk("C12", 45_000, 1_000_000, "generated resolution with 0-2 model faults and in three runs out of four a death of the model inside a phase reached by a dry run; the log on disk is examined at every call of the model; non-trivial: more than two calls of the model"),
        mk("C13", 45_000, 1_000_000, "generated resolution whose log meets an error at a chosen operation, a disk of limited size, or transient faults; non-trivial: more than two calls of the model"),
        mk("C20", 45_000, 1_000_000, "generated resolution with 0-2 model faults, its log read back and compared with the history; non-trivial: more than two calls of the model"),
    ]
}
