//! C14: a solver can be used again as if it were new.

use crate::check::*;
use crate::core::{pick_target, place_faults, res_name};
use crate::exec::*;
use crate::problem::*;
use crate::refm::follow;
use crate::rng::*;
use crate::scen::*;
use crate::simmodel::*;
use crate::sysim::*;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Step {
    pub faults: Vec<Fault>,
    /// an earlier resolution of another problem of the same size
    #[serde(default)]
    pub other: Option<Scenario>,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ReuseCase {
    /// its faults are those of the last resolution, the one that is compared
    pub sc: Scenario,
    pub before: Vec<Step>,
    /// the same model object is solved again
    pub same_model: bool,
    pub log: bool,
    /// the log is activated just before the last resolution
    pub late: bool,
    /// each resolution takes place on another thread
    #[serde(default)]
    pub migrate: bool,
    pub plan: DiskPlan,
}

fn fault(r: &mut Rng, n: usize, jac: bool) -> FaultKind {
    use FaultKind::*;
    let (i, j) = (r.below(n), r.below(n));
    let off = F(r.log10(-6.0, 2.0));
    if jac {
        return [Inaccurate, Unusable, Off(off), JacNan(i, j), JacZeroRow(i), Panic][r.weighted(&[1.5, 1.5, 1.0, 0.5, 1.5, 2.0])].clone();
    }
    [Inaccurate, InaccurateBy(off), Off(off), Unusable, UnusableNan, NanAt(i), InfAt(i), HugeAt(i), Stale, Panic, Members(i, r.below(PAIRS))]
        [r.weighted(&[2.0, 1.0, 2.0, 2.0, 1.0, 0.7, 0.5, 0.5, 0.5, 3.0, 0.7])]
    .clone()
}
/// a fault for a resolution that is aimed at a phase of it
fn aim(r: &mut Rng, sc: &Scenario, keep: &[Fault]) -> Vec<Fault> {
    let mut c = sc.clone();
    c.faults = keep.to_vec();
    let ses = run_plain(&c);
    let mut v = keep.to_vec();
    if let Some(s) = ses.solves.first() {
        let f = follow(&c, s);
        if let Some((at, jac)) = pick_target("C03", r, s, &f) {
            if !v.iter().any(|f| f.at == at && f.jac == jac) {
                v.push(Fault { at, jac, kind: fault(r, sc.n(), jac) });
            }
        }
    }
    v
}

fn gen(_: &str, seed: u64, idx: u64) -> Case {
    let mut r = Rng::from_parts(seed, "C14", idx);
    let m = Mix { max_iter: (0, 16), damping: 0.6, nr_weight: 1.0, unbounded: 0.003, ..Mix::default() };
    let mut sc = gen_scenario(&mut r, &m);
    let count = r.weighted(&[4.0, 3.0, 1.0]);
    let mut r2 = Rng::new(r.next());
    place_faults("C03", &mut r2, &mut sc, count, &|r, n, j| fault(r, n, j));
    let mut before = vec![];
    let same_model = sc.mem == Mem::None && r.chance(0.25);
    for _ in 0..1 + r.weighted(&[5.0, 3.0, 1.0]) {
        let mut other = None;
        if !same_model && r.chance(0.4) {
            let mut o = sc.clone();
            o.faults.clear();
            let class = *r.pick(&[Class::Mild, Class::General, Class::Steep, Class::Singular, Class::Solved, Class::Domain, Class::NoRoot]);
            o.problem = gen_problem(&mut r, class, sc.n()).problem;
            o.mem = *r.pick(&[Mem::None, Mem::Warm, Mem::Full]);
            if sc.fd_params {
                o.provided_jac = r.chance(0.5);
            }
            other = Some(o);
        }
        let mut faults = vec![];
        for _ in 0..r.weighted(&[2.0, 4.0, 1.0]) {
            faults = aim(&mut r, other.as_ref().unwrap_or(&sc), &faults);
        }
        before.push(Step { faults, other });
    }
    if same_model {
        // what an evaluation without result leaves in the model belongs to the model
        sc.faults.retain(|f| !matches!(f.kind, FaultKind::Stale | FaultKind::Unusable | FaultKind::Members(_, REPEAT..)));
    }
    // a solver with a long past
    let past = if sc.n() > 5 || sc.cap.is_some() {
        0
    } else {
        match r.weighted(&[0.965, 0.03, 0.005]) {
            0 => 0,
            1 => r.range(5, 20),
            _ => r.range(250, 300),
        }
    };
    let own = before.len();
    while before.len() < past {
        let again = before[before.len() % own].clone();
        before.push(again);
    }
    let log = past < 100 && r.chance(0.4);
    let late = log && r.chance(0.3);
    let mut plan = DiskPlan::default();
    if log && !late && r.chance(0.4) {
        // the log of an earlier resolution fails and ends it
        let w = new_world(plan.clone(), None);
        let mut faults: Vec<&[Fault]> = vec![];
        for s in &before {
            faults.push(&s.faults);
        }
        let others = before.iter().map(|s| s.other.as_ref()).collect();
        let ses = run_session(&sc, &Opts { faults, others, world: Some(w), log, same_model, ..Default::default() });
        if ses.fs.writes > 2 {
            let at = 1 + r.below(ses.fs.writes - 1);
            plan.faults.push(DiskFault { class: OpClass::Write, at, kind: DiskFaultKind::Err(libc::EIO) });
        }
    }
    let migrate = r.chance(0.15);
    Case::Reuse(ReuseCase { sc, before, same_model, log, late, migrate, plan })
}

fn part<'a>(ses: &'a Session, s: &Solve) -> &'a [u8] {
    &ses.log[s.log_begin.min(ses.log.len())..s.log_end.min(ses.log.len())]
}

fn run(_: &str, c: &Case) -> Outcome {
    let c = match c {
        Case::Reuse(c) => c,
        _ => unreachable!(),
    };
    let mut o = Outcome::default();
    let sc = &c.sc;
    let k = c.before.len();
    let mut faults: Vec<&[Fault]> = c.before.iter().map(|s| &s.faults[..]).collect();
    faults.push(&sc.faults);
    let w = if c.log { Some(new_world(c.plan.clone(), None)) } else { None };
    let ses = run_session(
        sc,
        &Opts {
            faults,
            others: c.before.iter().map(|s| s.other.as_ref()).collect(),
            world: w,
            log: c.log,
            log_late: if c.late { Some(k) } else { None },
            same_model: c.same_model,
            migrate: c.migrate,
            ..Default::default()
        },
    );
    let fresh = run_session(
        sc,
        &Opts {
            faults: vec![&sc.faults],
            world: if c.log { Some(new_world(DiskPlan::default(), None)) } else { None },
            log: c.log,
            base: k as u64,
            ..Default::default()
        },
    );
    count_disk(&mut o, &ses);
    if c.migrate {
        o.count("solvers moved from thread to thread", 1);
    }
    let mut kinds = String::new();
    for (i, s) in ses.solves.iter().enumerate() {
        o.digest = digest_solve(o.digest, s);
        let fl = if i < k { &c.before[i].faults } else { &sc.faults };
        count_fired(&mut o, fl, &s.fired);
        o.count("model calls", calls(&s.hist).len() as u64);
        if i < k {
            o.count(&format!("earlier resolution ended {}", res_name(&s.res)), 1);
            kinds.push_str(&format!("{}.{} ", s.res.kind(), calls(&s.hist).len().min(20)));
        }
    }
    let (a, b) = match (ses.solves.get(k), fresh.solves.first()) {
        (Some(a), Some(b)) => (a, b),
        _ => {
            if ses.setup.is_some() != fresh.setup.is_some() {
                o.fail("setup", format!("{:?} / {:?}", ses.setup, fresh.setup));
            }
            return o;
        }
    };
    o.count(&format!("ended {}", res_name(&a.res)), 1);
    o.trace = trace_of(a);
    o.nontrivial = calls(&ses.solves[0].hist).len() > 1 && calls(&b.hist).len() > 1;
    o.sig = hash_bytes(
        hash_bytes(14, scenario_sig(sc).as_bytes()),
        format!("{kinds}{}{}{}{}{} {} {}", c.same_model, c.log, c.late, c.migrate, c.plan.faults.len(), a.res.kind(), calls(&a.hist).len()).as_bytes(),
    );
    if let Some(d) = first_diff(&a.hist, &b.hist) {
        o.fail("reuse-course", format!("reused / new: {d}"));
    } else if a.res != b.res && !matches!((&a.res, &b.res), (Res::Panic(_), Res::Panic(_))) {
        o.fail("reuse-result", format!("{} when reused, {} when new", a.res.short(), b.res.short()));
    } else if !same(&a.x, &b.x) || (!c.same_model && (!same(&a.l, &b.l) || !same(&a.r, &b.r) || !same1(a.mem, b.mem))) {
        o.fail("reuse-state", format!("the model is left at {:?} when reused, at {:?} when new", a.x, b.x));
    } else if c.log && part(&ses, a) != part(&fresh, b) {
        let (p, q) = (part(&ses, a), part(&fresh, b));
        let i = p.iter().zip(q).take_while(|(a, b)| a == b).count();
        let show = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(20)..(i + 60).min(v.len())]).into_owned();
        o.fail("reuse-log", format!("the log differs: {:?} when reused, {:?} when new", show(p), show(q)));
    }
    o
}

fn shrink(c: &Case) -> Vec<Case> {
    let c = match c {
        Case::Reuse(c) => c,
        _ => return vec![],
    };
    let mut v = vec![];
    let mut push = |c: ReuseCase| v.push(Case::Reuse(c));
    let len = c.before.len();
    let mut part = len / 2;
    while len > 8 && part > 0 {
        push(ReuseCase { before: c.before[..len - part].to_vec(), ..c.clone() });
        part /= 2;
    }
    if len > 1 && len <= 30 {
        for i in 0..len {
            let mut d = c.clone();
            d.before.remove(i);
            push(d);
        }
    }
    if c.log {
        push(ReuseCase { log: false, late: false, plan: DiskPlan::default(), ..c.clone() });
    }
    if !c.plan.faults.is_empty() {
        push(ReuseCase { plan: DiskPlan::default(), ..c.clone() });
    }
    if c.late {
        push(ReuseCase { late: false, ..c.clone() });
    }
    if c.same_model {
        push(ReuseCase { same_model: false, ..c.clone() });
    }
    if c.migrate {
        push(ReuseCase { migrate: false, ..c.clone() });
    }
    for i in 0..len.min(30) {
        for f in 0..c.before[i].faults.len() {
            let mut d = c.clone();
            d.before[i].faults.remove(f);
            push(d);
        }
        if c.before[i].other.is_some() {
            let mut d = c.clone();
            d.before[i].other = None;
            push(d);
        }
    }
    for sc in shrink_scenario(&c.sc) {
        if sc.n() == c.sc.n() || c.before.iter().all(|b| b.other.is_none()) {
            push(ReuseCase { sc, ..c.clone() });
        }
    }
    v
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C14",
        quick: 90_000,
        thorough: 2_000_000,
        hang: true,
        rule: "1-3 earlier resolutions with the same solver (of the same or another problem, with failures aimed at their phases, deaths of the model and failures of the log, with the solver moved from thread to thread), then a resolution compared with that of a new solver; non-trivial: both make more than one call of the model",
        real: "RootFinder, SolverLog, Iteratives, ResidualsConfig, nalgebra",
        stub: "the user's models (generated equations, fault plan by call number); the disk when there is a log",
        gen,
        run,
        shrink,
    }]
}
