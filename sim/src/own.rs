//! C23: variables of the user's own type decide alone how they move and how they are perturbed.

use crate::check::*;
use crate::core::{place_faults, res_name};
use crate::exec::*;
use crate::problem::F;
use crate::refm::follow;
use crate::rng::*;
use crate::scen::*;
use crate::simmodel::*;
use crate::sysim::*;
use newton_rootfinder as nrf;
use nrf::iteratives::{Iterative, Iteratives};
use nrf::residuals::ResidualsConfig;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt;

/// what a variable answers instead of what it should
#[derive(Clone, Copy, Debug, PartialEq, Serialize, Deserialize)]
pub enum VarKind {
    Nan,
    Inf,
    NegInf,
    Huge,
    Zero,
    /// tiny or denormal
    Tiny,
    /// the value it has (a step), or the size of it (a perturbation)
    Stay,
    /// the opposite
    Opposite,
    Panic,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct VarFault {
    /// number of the question, all variables together, counted separately for steps and perturbations
    pub at: usize,
    pub pert: bool,
    pub kind: VarKind,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct OwnCase {
    pub sc: Scenario,
    pub vars: Vec<VarFault>,
    pub log: bool,
}

#[derive(Clone, Debug)]
enum Rec {
    /// an evaluation of the model begins
    Call,
    Step { i: usize, x: f64, out: f64 },
    Pert { i: usize, x: f64, out: f64 },
}

struct Shared<'a> {
    rec: Vec<Rec>,
    steps: usize,
    perts: usize,
    faults: &'a [VarFault],
    fired: Vec<usize>,
}
impl Shared<'_> {
    fn answer(&mut self, pert: bool, x: f64, usual: f64) -> f64 {
        let c = if pert { &mut self.perts } else { &mut self.steps };
        let at = *c;
        *c += 1;
        match self.faults.iter().position(|f| f.at == at && f.pert == pert) {
            None => usual,
            Some(f) => {
                self.fired.push(f);
                match self.faults[f].kind {
                    VarKind::Nan => f64::NAN,
                    VarKind::Inf => f64::INFINITY,
                    VarKind::NegInf => f64::NEG_INFINITY,
                    VarKind::Huge => 1e300,
                    VarKind::Zero => 0.0,
                    VarKind::Tiny => 5e-324,
                    VarKind::Stay => x,
                    VarKind::Opposite => -usual,
                    VarKind::Panic => std::panic::panic_any(InjectedPanic),
                }
            }
        }
    }
}

struct SimIter<'a> {
    i: usize,
    p: IterP,
    fd: bool,
    sh: &'a RefCell<Shared<'a>>,
}
impl Iterative for SimIter<'_> {
    fn step_limitation(&self, x: f64, raw: f64) -> f64 {
        let usual = match self.p.own_step {
            0 => self.p.plain().step_limitation(x, raw),
            1 => self.p.plain().step_limitation(x, 0.5 * raw),
            _ => self.p.next(x, raw),
        };
        let mut s = self.sh.borrow_mut();
        let out = s.answer(false, x, usual);
        s.rec.push(Rec::Step { i: self.i, x, out });
        out
    }
    fn compute_perturbation(&self, x: f64) -> f64 {
        let usual = match self.p.own_dx {
            0 => self.p.fd().compute_perturbation(x),
            _ => self.p.perturbation(x),
        };
        let mut s = self.sh.borrow_mut();
        let out = s.answer(true, x, usual);
        s.rec.push(Rec::Pert { i: self.i, x, out });
        out
    }
    fn with_finite_diff(&self) -> bool {
        self.fd
    }
}
impl fmt::Display for SimIter<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, " {} |", name(self.i))
    }
}
impl fmt::Debug for SimIter<'_> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "{}", name(self.i))
    }
}
fn name(i: usize) -> String {
    format!("<own variable {i}>")
}

struct Calls<'a>(&'a RefCell<Shared<'a>>);
impl HookFactory for Calls<'_> {
    fn make<'b>(&'b self, _: usize) -> Option<Box<dyn FnMut(usize) + 'b>> {
        Some(Box::new(move |_| self.0.borrow_mut().rec.push(Rec::Call)))
    }
}

/// the resolutions, what was asked of the variables during each, and their faults that came up
fn resolve(sc: &Scenario, vars: &[VarFault], solves: usize, base: u64, log: bool) -> (Session, Vec<Rec>, Vec<usize>) {
    let sh = RefCell::new(Shared { rec: vec![], steps: 0, perts: 0, faults: vars, fired: vec![] });
    let its: Vec<SimIter> = sc.iters.iter().enumerate().map(|(i, p)| SimIter { i, p: p.clone(), fd: !sc.provided_jac, sh: &sh }).collect();
    let cfg = Config::new(sc);
    let rc = ResidualsConfig::new(&cfg.stop, &cfg.upd);
    let w = if log { Some(new_world(DiskPlan::default(), None)) } else { None };
    let o = Opts { faults: vec![&sc.faults[..]; solves], world: w, log, base, ..Default::default() };
    let hook = Calls(&sh);
    let it = Iteratives::new(&its);
    let ses = dispatch(sc, &it, &rc, &o, &hook);
    drop(its);
    let (rec, fired) = {
        let mut s = sh.borrow_mut();
        (std::mem::take(&mut s.rec), std::mem::take(&mut s.fired))
    };
    (ses, rec, fired)
}

fn gen(_: &str, seed: u64, idx: u64) -> Case {
    let mut r = Rng::from_parts(seed, "C23", idx);
    let m = Mix { max_iter: (1, 25), odd_tol: 0.0, provided: 0.25, nr_weight: 1.2, wide: 0.002, odd_dx: 0.05, long: 0.0, ..Mix::default() };
    let mut sc = gen_scenario(&mut r, &m);
    for p in sc.iters.iter_mut() {
        p.own_step = r.weighted(&[3.0, 2.0, 2.0, 1.0, 0.7]) as u8;
        p.own_dx = r.below(4) as u8;
        if p.own_step >= 2 {
            p.step_abs = F(f64::INFINITY);
            p.step_rel = F(f64::INFINITY);
            p.min = F(f64::NEG_INFINITY);
            p.max = F(f64::INFINITY);
        }
    }
    let count = r.weighted(&[5.0, 3.0, 1.0]);
    let mut r2 = Rng::new(r.next());
    place_faults("C03", &mut r2, &mut sc, count, &|r, n, jac| {
        use FaultKind::*;
        let off = F(r.log10(-6.0, 1.0));
        if jac {
            return [Inaccurate, Unusable, Off(off)][r.weighted(&[1.0, 1.0, 3.0])].clone();
        }
        [Inaccurate, InaccurateBy(off), Off(off), Unusable, NanAt(r.below(n))][r.weighted(&[2.0, 1.0, 4.0, 1.0, 0.5])].clone()
    });
    let mut vars: Vec<VarFault> = vec![];
    if r.chance(0.6) {
        for _ in 0..1 + r.weighted(&[4.0, 2.0, 1.0]) {
            // aimed at a question of the run as it is so far
            let (_, rec, _) = resolve(&sc, &vars, 1, 0, false);
            let q: Vec<bool> = rec
                .iter()
                .filter_map(|e| match e {
                    Rec::Call => None,
                    Rec::Step { .. } => Some(false),
                    Rec::Pert { .. } => Some(true),
                })
                .collect();
            if q.is_empty() {
                break;
            }
            let pert = if r.chance(0.5) { *r.pick(&q) } else { q.iter().any(|p| *p) && r.chance(0.5) };
            let total = q.iter().filter(|p| **p == pert).count();
            if total == 0 {
                break;
            }
            let at = r.below(total);
            if vars.iter().any(|f| f.at == at && f.pert == pert) {
                continue;
            }
            use VarKind::*;
            let kind = *r.pick(&[Nan, Nan, Inf, NegInf, Huge, Zero, Zero, Tiny, Stay, Opposite, Opposite, Panic, Panic, Panic]);
            vars.push(VarFault { at, pert, kind });
        }
    }
    Case::Own(OwnCase { sc, vars, log: r.chance(0.15) })
}

/// Every point at which the model is evaluated is one the variables gave. Gives what is wrong.
fn from_answers(sc: &Scenario, s: &Solve, rec: &[Rec], stats: &mut [u64; 4]) -> Option<(&'static str, String)> {
    let n = sc.n();
    let evals: Vec<&Vec<f64>> = s
        .hist
        .iter()
        .filter_map(|e| match e {
            Ev::Eval { x, .. } => Some(x),
            _ => None,
        })
        .collect();
    let mut windows: Vec<Vec<&Rec>> = vec![vec![]];
    for r in rec {
        match r {
            Rec::Call => windows.push(vec![]),
            _ => windows.last_mut().unwrap().push(r),
        }
    }
    if sc.provided_jac && rec.iter().any(|r| matches!(r, Rec::Pert { .. })) {
        return Some(("own-asked", "the model provides its jacobian, but a variable is asked for a perturbation".into()));
    }
    // the last iterate, the points evaluated since, the perturbations given since
    let mut base: Vec<f64> = vec![];
    let mut seen: Vec<&Vec<f64>> = vec![];
    let mut perts: Vec<(usize, f64, f64)> = vec![];
    let mut after_update = false;
    for (k, x) in evals.iter().enumerate() {
        let w = match windows.get(k) {
            Some(w) => w,
            None => break,
        };
        let at = format!("evaluation {k} at {x:?}");
        if k == 0 {
            let x0: Vec<f64> = sc.x0.iter().map(|v| v.0).collect();
            if !w.is_empty() || !same(x, &x0) {
                return Some(("own-start", format!("{at}: the initial guess is {x0:?}, and nothing is to be asked of the variables before ({w:?})")));
            }
            base = x.to_vec();
            seen = vec![x];
            continue;
        }
        // what is asked is asked about the point the solver is at
        for r in w {
            let (i, v) = match r {
                Rec::Step { i, x, .. } | Rec::Pert { i, x, .. } => (*i, *x),
                Rec::Call => continue,
            };
            let there = seen.iter().any(|p| same1(p[i], v));
            if !there || (matches!(r, Rec::Pert { .. }) && !same1(base[i], v)) {
                return Some(("own-asked", format!("before {at}: variable {i} is asked {r:?} while the iterate is {base:?}")));
            }
        }
        let steps: Vec<(usize, f64)> = w
            .iter()
            .filter_map(|r| match r {
                Rec::Step { i, out, .. } => Some((*i, *out)),
                _ => None,
            })
            .collect();
        perts.extend(w.iter().filter_map(|r| match r {
            Rec::Pert { i, x, out } => Some((*i, *x, *out)),
            _ => None,
        }));
        if !steps.is_empty() {
            for i in 0..n {
                let given: Vec<f64> = steps.iter().filter(|s| s.0 == i).map(|s| s.1).collect();
                if !given.iter().any(|g| same1(*g, x[i])) {
                    return Some(("own-step", format!("{at}: variable {i} was asked its next value and gave {given:?}")));
                }
            }
            stats[0] += 1;
            base = x.to_vec();
            seen = vec![x];
            perts.clear();
            after_update = true;
            continue;
        }
        if !perts.is_empty() {
            let moved: Vec<usize> = (0..n).filter(|i| !same1(base[*i], x[*i])).collect();
            let ok = match moved.len() {
                0 => perts.iter().any(|(i, v, out)| same1(*v + *out, *v) || !base[*i].is_finite()),
                1 => perts.iter().any(|(i, v, out)| *i == moved[0] && same1(*v + *out, x[*i])),
                _ => false,
            };
            if !ok {
                return Some(("own-perturbation", format!("{at}: the iterate is {base:?} and the perturbations given are {perts:?}")));
            }
            stats[1] += 1;
            seen.push(x);
            continue;
        }
        if sc.damping && after_update {
            stats[2] += 1;
            base = x.to_vec();
            seen.push(x);
            after_update = false;
            continue;
        }
        return Some(("own-unasked", format!("{at}: no variable was asked anything since the evaluation at {:?}", evals[k - 1])));
    }
    None
}

fn run(_: &str, c: &Case) -> Outcome {
    let c = match c {
        Case::Own(c) => c,
        _ => unreachable!(),
    };
    let sc = &c.sc;
    let mut o = Outcome::default();
    let (ses, rec, fired) = resolve(sc, &c.vars, 1, 0, c.log);
    let s = match ses.solves.first() {
        Some(s) => s,
        None => {
            o.fail("own-refused", format!("a solver with variables of the user's own type is refused: {:?}", ses.setup));
            return o;
        }
    };
    count_faults(&mut o, sc, s);
    for f in &fired {
        let f = &c.vars[*f];
        o.count(&format!("fault variable:{:?} ({})", f.kind, if f.pert { "perturbation" } else { "step" }).to_lowercase(), 1);
    }
    o.digest = hash_bytes(digest_solve(0, s), format!("{rec:?}").as_bytes());
    o.trace = trace_of(s);
    o.count("model calls", calls(&s.hist).len() as u64);
    o.count("questions asked of the variables", rec.iter().filter(|r| !matches!(r, Rec::Call)).count() as u64);
    o.count(&format!("ended {}", res_name(&s.res)), 1);
    o.nontrivial = rec.iter().any(|r| matches!(r, Rec::Step { .. }));
    let kinds: Vec<(u8, u8)> = sc.iters.iter().map(|p| (p.own_step, p.own_dx)).collect();
    o.sig = hash_bytes(
        hash_bytes(23, scenario_sig(sc).as_bytes()),
        format!("{kinds:?} {:?} {} {}", fired.iter().map(|f| (c.vars[*f].kind, c.vars[*f].pert)).collect::<Vec<_>>(), calls(&s.hist).len(), s.res.kind()).as_bytes(),
    );
    let mut stats = [0; 4];
    if let Some((code, m)) = from_answers(sc, s, &rec, &mut stats) {
        o.fail(code, m);
    }
    o.count("iterates taken from the answers of the variables", stats[0]);
    o.count("columns taken from the answers of the variables", stats[1]);
    o.count("damped iterates", stats[2]);
    let panics = fired.iter().any(|f| c.vars[*f].kind == VarKind::Panic);
    match &s.res {
        Res::Panic(m) => o.fail("own-panic", format!("the resolution panics: {m}")),
        Res::Hang => o.fail("own-hang", "the resolution keeps calling the model far beyond its budget".into()),
        Res::Crash if !panics => o.fail("own-panic", "an unexplained panic".into()),
        r if panics && *r != Res::Crash => o.fail("own-panic", format!("a variable panicked and the resolution answers {}", r.short())),
        _ => (),
    }
    if fired.is_empty() {
        // nothing unusual: the resolution is the documented one with these variables
        let f = follow(sc, s);
        o.count("steps predicted and compared", f.steps_checked);
        for d in &f.divs {
            match d.known {
                Some(_) => o.count("divergences explained by recorded findings of other properties", 1),
                None => o.fail(&format!("own-{}", d.code), d.msg.clone()),
            }
        }
    } else {
        // the same solver afterwards, its variables being as usual again, against a new one
        let (both, _, fired2) = resolve(sc, &c.vars, 2, 0, c.log);
        if fired2.len() == fired.len() {
            let (fresh, _, _) = resolve(sc, &[], 1, 1, c.log);
            if let (Some(a), Some(b)) = (both.solves.get(1), fresh.solves.first()) {
                o.count("resolutions after unusual variables", 1);
                if let Some(d) = first_diff(&a.hist, &b.hist) {
                    o.fail("own-after", format!("the resolution after the unusual one / with a new solver: {d}"));
                } else if a.res != b.res && !matches!((&a.res, &b.res), (Res::Panic(_), Res::Panic(_))) {
                    o.fail("own-after", format!("{} after the unusual resolution, {} with a new solver", a.res.short(), b.res.short()));
                }
            }
        }
    }
    if c.log && o.nontrivial {
        let t = String::from_utf8_lossy(&ses.log).into_owned();
        let mut from = 0;
        for i in 0..sc.n() {
            match t[from..].find(&name(i)) {
                Some(p) => from += p,
                None => {
                    o.fail("own-display", format!("the log does not present variable {i} as it presents itself, {}", name(i)));
                    break;
                }
            }
        }
    }
    o
}

fn shrink(c: &Case) -> Vec<Case> {
    let c = match c {
        Case::Own(c) => c,
        _ => return vec![],
    };
    let mut v = vec![];
    if c.log {
        v.push(Case::Own(OwnCase { log: false, ..c.clone() }));
    }
    for i in 0..c.vars.len() {
        let mut d = c.clone();
        d.vars.remove(i);
        v.push(Case::Own(d));
    }
    for i in 0..c.sc.n() {
        let mut d = c.clone();
        d.sc.iters[i].own_step = 0;
        v.push(Case::Own(d));
        let mut d = c.clone();
        d.sc.iters[i].own_dx = 0;
        v.push(Case::Own(d));
    }
    v.retain(|d| d != &Case::Own(c.clone()));
    v.extend(shrink_scenario(&c.sc).into_iter().map(|sc| Case::Own(OwnCase { sc, ..c.clone() })));
    v
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C23",
        quick: 150_000,
        thorough: 3_000_000,
        hang: true,
        rule: "variables of a user-defined type (own steps, own perturbations, backward differences), with model failures and unusual answers of the variables (not a number, infinite, zero, panics) aimed at any question; non-trivial: a step was asked",
        real: "RootFinder, Iteratives, finite-difference jacobian, SolverLog, nalgebra; IterativeParams for the variables that move as documented",
        stub: "the user's model (generated equations, fault plan by call number) and the user's variables (recorded answers, fault plan by question number); the disk when there is a log",
        gen,
        run,
        shrink,
    }]
}
