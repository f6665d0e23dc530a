//! C22: the same configuration gives the same resolution however it is given.

use crate::check::*;
use crate::core::{place_faults, res_name};
use crate::exec::*;
use crate::problem::*;
use crate::rng::*;
use crate::scen::*;
use crate::simmodel::*;
use crate::sysim::*;

fn fault(r: &mut Rng, n: usize, jac: bool) -> FaultKind {
    use FaultKind::*;
    let off = F(r.log10(-6.0, 1.0));
    let i = r.below(n);
    if jac {
        return [Inaccurate, Unusable, Off(off), JacZeroRow(i), Panic][r.weighted(&[1.0, 1.0, 3.0, 0.5, 0.3])].clone();
    }
    [Inaccurate, InaccurateBy(off), Off(off), Unusable, NanAt(i), HugeAt(i), Panic][r.weighted(&[2.0, 1.0, 4.0, 1.0, 0.7, 0.5, 0.3])].clone()
}

fn gen(_: &str, seed: u64, idx: u64) -> Case {
    let mut r = Rng::from_parts(seed, "C22", idx);
    let dflt = r.chance(0.5);
    let m = Mix {
        dflt: if dflt { 1.0 } else { 0.0 },
        ways: 0.0,
        odd_tol: 0.0,
        limits: 0.5,
        damping: 0.5,
        nr_weight: 1.0,
        long: 0.0,
        wide: 0.04,
        huge: 0.0008,
        odd_dx: 0.15,
        max_iter: (1, 30),
        ..Mix::default()
    };
    let mut sc = gen_scenario(&mut r, &m);
    // the budget of the default solver has to be felt
    if dflt && r.chance(0.4) {
        let p = gen_problem(&mut r, *r2pick(idx), sc.n());
        sc.problem = p.problem;
        sc.x0 = fv(&p.x0);
        sc.class = *r2pick(idx);
    }
    if !dflt && r.chance(0.5) {
        // some values are the default ones
        if r.chance(0.5) {
            sc.tol = F(DEFAULT_TOL);
        }
        if r.chance(0.5) {
            sc.max_iter = DEFAULT_ITER;
        }
        for i in 0..sc.n() {
            if r.chance(0.5) {
                sc.iters[i] = IterP::free();
            }
            if r.chance(0.5) {
                sc.stop[i] = Norm::Abs;
                sc.upd[i] = Norm::Abs;
            }
        }
    }
    let count = r.weighted(&[3.0, 3.0, 2.0, 1.0]);
    let mut r2 = Rng::new(r.next());
    place_faults("C03", &mut r2, &mut sc, count, &|r, n, j| fault(r, n, j));
    sc.ways = 1 + r.below(31) as u8;
    if dflt {
        sc.ways |= WAY_DEFAULT_VARS | WAY_DEFAULT_SOLVER;
    }
    if sc.provided_jac {
        sc.fd_params = r.chance(0.5);
    }
    Case::Config { sc, log: r.chance(0.3) }
}
fn r2pick(idx: u64) -> &'static Class {
    const V: [Class; 4] = [Class::NoRoot, Class::Steep, Class::General, Class::Domain];
    &V[(idx % 4) as usize]
}

fn run(_: &str, c: &Case) -> Outcome {
    let (sc, log) = match c {
        Case::Config { sc, log } => (sc, *log),
        _ => unreachable!(),
    };
    let mut o = Outcome::default();
    let one = |sc: &Scenario| {
        let w = if log { Some(new_world(DiskPlan::default(), None)) } else { None };
        run_session(sc, &Opts { faults: vec![&sc.faults], world: w, log, ..Default::default() })
    };
    let mut hand = sc.clone();
    hand.ways = 0;
    let (a, b) = (one(sc), one(&hand));
    if a.setup.is_some() || b.setup.is_some() {
        if a.setup != b.setup {
            o.fail("config-refused", format!("{:?} when built with the helpers ({}), {:?} by hand", a.setup, ways(sc.ways), b.setup));
        }
        return o;
    }
    let (s, t) = (a.one(), b.one());
    count_faults(&mut o, sc, s);
    o.digest = digest_solve(0, s);
    o.trace = trace_of(s);
    let n = calls(&s.hist).len();
    o.count("model calls", n as u64);
    o.count(&format!("ended {}", res_name(&s.res)), 1);
    for b in [WAY_DEFAULT_VARS, WAY_EXTEND, WAY_CONVERT, WAY_DEFAULT_SOLVER, WAY_COPY] {
        if sc.ways & b != 0 {
            o.count(&format!("built with {}", ways(b)), 1);
        }
    }
    o.nontrivial = n > 1;
    o.sig = hash_bytes(hash_bytes(22, scenario_sig(sc).as_bytes()), format!("{} {} {} {}", sc.ways, log, n, s.res.kind()).as_bytes());
    differ(&mut o, &format!("built with {} / by hand", ways(sc.ways)), s, t);
    if log && a.log != b.log {
        let i = a.log.iter().zip(&b.log).take_while(|(a, b)| a == b).count();
        let show = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(20).min(v.len())..(i + 60).min(v.len())]).into_owned();
        o.fail("config-log", format!("the log says {:?} when built with {}, {:?} by hand", show(&a.log), ways(sc.ways), show(&b.log)));
    }
    if sc.provided_jac {
        // a provided jacobian leaves the perturbations unused
        let mut other = hand.clone();
        other.fd_params = !other.fd_params;
        let z = run_session(&other, &Opts { faults: vec![&sc.faults], ..Default::default() });
        if let Some(z) = z.solves.first() {
            differ(&mut o, "variables with / without perturbation parameters", if sc.fd_params { t } else { z }, if sc.fd_params { z } else { t });
        }
        o.count("provided jacobian with and without perturbation parameters", 1);
    }
    o
}
fn differ(o: &mut Outcome, what: &str, s: &Solve, t: &Solve) {
    if let Some(d) = first_diff(&s.hist, &t.hist) {
        o.fail("config-course", format!("{what}: {d}"));
    } else if s.res != t.res && !matches!((&s.res, &t.res), (Res::Panic(_), Res::Panic(_))) {
        o.fail("config-result", format!("{what}: {} / {}", s.res.short(), t.res.short()));
    }
}
fn ways(w: u8) -> String {
    let names = [
        (WAY_DEFAULT_VARS, "default variables"),
        (WAY_EXTEND, "extended variables"),
        (WAY_CONVERT, "converted residuals"),
        (WAY_DEFAULT_SOLVER, "the default solver"),
        (WAY_COPY, "parameters read back"),
    ];
    names.iter().filter(|n| w & n.0 != 0).map(|n| n.1).collect::<Vec<_>>().join(", ")
}

fn shrink(c: &Case) -> Vec<Case> {
    let (sc, log) = match c {
        Case::Config { sc, log } => (sc, *log),
        _ => return vec![],
    };
    let mut v = vec![];
    if log {
        v.push(Case::Config { sc: sc.clone(), log: false });
    }
    v.extend(shrink_scenario(sc).into_iter().map(|sc| Case::Config { sc, log }));
    v
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C22",
        quick: 150_000,
        thorough: 3_000_000,
        hang: true,
        rule: "a solver built with the helpers (defaults, extended variables, converted residuals, the default solver, parameters read back) against the same values given by hand, under the same failures; non-trivial: more than one call of the model",
        real: "constructors, defaults and accessors of the parameters, RootFinder, SolverLog, nalgebra",
        stub: "the user's model (generated equations, fault plan by call number); the disk when there is a log",
        gen,
        run,
        shrink,
    }]
}
