//! A scenario is everything that decides one simulated resolution. Plain data: replaying it is exact.

use crate::problem::*;
use crate::rng::Rng;
use newton_rootfinder as nrf;
use nrf::iteratives::{IterativeParams, IterativeParamsFD, PerturbationMethod};
use nrf::residuals::NormalizationMethod;
use nrf::solver::{QuasiNewtonMethod, ResolutionMethod, UpdateQuasiNewtonMethod};
use serde::{Deserialize, Serialize};

pub const METHODS: [&str; 10] = [
    "NR", "SN", "BROY1", "BROY1_INV", "BROY2", "BROY2_INV", "GRST1", "GRST1_INV", "GRST2", "GRST2_INV",
];

pub fn method_of(m: usize) -> ResolutionMethod {
    use QuasiNewtonMethod::*;
    use UpdateQuasiNewtonMethod::*;
    match m {
        0 => ResolutionMethod::NewtonRaphson,
        1 => ResolutionMethod::QuasiNewton(StationaryNewton),
        2 => ResolutionMethod::QuasiNewton(JacobianUpdate(BroydenFirstMethod)),
        3 => ResolutionMethod::QuasiNewton(InverseJacobianUpdate(BroydenFirstMethod)),
        4 => ResolutionMethod::QuasiNewton(JacobianUpdate(BroydenSecondMethod)),
        5 => ResolutionMethod::QuasiNewton(InverseJacobianUpdate(BroydenSecondMethod)),
        6 => ResolutionMethod::QuasiNewton(JacobianUpdate(GreenstadtFirstMethod)),
        7 => ResolutionMethod::QuasiNewton(InverseJacobianUpdate(GreenstadtFirstMethod)),
        8 => ResolutionMethod::QuasiNewton(JacobianUpdate(GreenstadtSecondMethod)),
        _ => ResolutionMethod::QuasiNewton(InverseJacobianUpdate(GreenstadtSecondMethod)),
    }
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum Norm {
    Abs,
    Rel,
    Adapt,
}
impl Norm {
    pub fn real(self) -> NormalizationMethod {
        match self {
            Norm::Abs => NormalizationMethod::Abs,
            Norm::Rel => NormalizationMethod::Rel,
            Norm::Adapt => NormalizationMethod::Adapt,
        }
    }
    pub fn name(self) -> &'static str {
        match self {
            Norm::Abs => "Abs",
            Norm::Rel => "Rel",
            Norm::Adapt => "Adapt",
        }
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct IterP {
    pub step_abs: F,
    pub step_rel: F,
    pub min: F,
    pub max: F,
    pub dx_abs: F,
    pub dx_rel: F,
    /// perturbation: true = Sum, false = Max
    pub sum: bool,
    /// a variable of the user's own type (C23): how it moves and how it is perturbed
    #[serde(default, skip_serializing_if = "zero")]
    pub own_step: u8,
    #[serde(default, skip_serializing_if = "zero")]
    pub own_dx: u8,
}
pub fn zero(v: &u8) -> bool {
    *v == 0
}
impl IterP {
    pub fn free() -> Self {
        IterP {
            step_abs: F(f64::INFINITY),
            step_rel: F(f64::INFINITY),
            min: F(f64::NEG_INFINITY),
            max: F(f64::INFINITY),
            dx_abs: F(5e-8),
            dx_rel: F(5e-8),
            sum: false,
            own_step: 0,
            own_dx: 0,
        }
    }
    pub fn plain(&self) -> IterativeParams {
        IterativeParams::new(self.step_abs.0, self.step_rel.0, self.min.0, self.max.0)
    }
    pub fn fd(&self) -> IterativeParamsFD {
        IterativeParamsFD::new(
            self.step_abs.0,
            self.step_rel.0,
            self.min.0,
            self.max.0,
            self.dx_abs.0,
            self.dx_rel.0,
            if self.sum { PerturbationMethod::Sum } else { PerturbationMethod::Max },
        )
    }
    pub fn perturbation(&self, x: f64) -> f64 {
        match self.own_dx {
            0 => self.documented_perturbation(x),
            // backward differences
            1 => -self.documented_perturbation(x),
            2 => 1e-6 * (1.0 + x.abs()),
            // away from zero
            _ => 1e-7 * (2.0 + x * x).sqrt() * if x < 0.0 { -1.0 } else { 1.0 },
        }
    }
    /// the next value of a variable of the user's own type, or the documented one
    pub fn next(&self, x: f64, raw: f64) -> f64 {
        match self.own_step {
            0 => crate::refm::limit(self, x, raw),
            1 => crate::refm::limit(self, x, 0.5 * raw),
            2 => x + raw / (1.0 + raw.abs()),
            3 => x * (raw / x).max(-1.0).min(1.0).exp(),
            _ => x,
        }
    }
    pub fn documented_perturbation(&self, x: f64) -> f64 {
        let r = x.abs() * self.dx_rel.0;
        if self.sum {
            self.dx_abs.0 + r
        } else {
            self.dx_abs.0.max(r)
        }
    }
    /// largest allowed |step| from x
    pub fn step_limit(&self, x: f64) -> f64 {
        let mut m = self.step_abs.0;
        if self.step_rel.0.is_finite() {
            m = m.min(self.step_rel.0 * x.abs());
        }
        m
    }
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum Mem {
    None,
    /// one number, carried from one evaluation to the next
    Warm,
    /// the whole state of the model: restoring it restores inputs and outputs
    Full,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub enum FaultKind {
    /// values correct but reported inaccurate
    Inaccurate,
    /// values off by up to this amount and reported inaccurate
    InaccurateBy(F),
    /// values off by up to this amount and reported fine
    Off(F),
    /// no usable values; the residuals are left as they were
    Unusable,
    /// no usable values; the residuals become NaN
    UnusableNan,
    NanAt(usize),
    InfAt(usize),
    HugeAt(usize),
    /// returns the previous values
    Stale,
    /// the members of an equation take a special pair of values (see `members`)
    Members(usize, usize),
    /// the process dies inside the model
    Panic,
    // jacobian only
    JacNan(usize, usize),
    JacZeroRow(usize),
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Fault {
    /// index of the call of the model (evaluations and provided jacobians are counted separately)
    pub at: usize,
    /// applies to get_jacobian instead of evaluate
    #[serde(default)]
    pub jac: bool,
    pub kind: FaultKind,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Scenario {
    pub class: Class,
    pub problem: Problem,
    pub x0: Vec<F>,
    pub tol: F,
    pub max_iter: usize,
    pub method: usize,
    pub damping: bool,
    pub iters: Vec<IterP>,
    pub stop: Vec<Norm>,
    pub upd: Vec<Norm>,
    pub provided_jac: bool,
    /// a model with a provided jacobian can also be solved with finite difference parameters
    pub fd_params: bool,
    pub mem: Mem,
    /// statically sized types
    pub fixed: bool,
    /// how the configuration is built (bits of WAY_*)
    #[serde(default, skip_serializing_if = "zero")]
    pub ways: u8,
    /// a budget without limit: every evaluation from this one on is unusable
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub cap: Option<usize>,
    pub faults: Vec<Fault>,
}

/// default variables wherever they have the default values
pub const WAY_DEFAULT_VARS: u8 = 1;
/// finite difference variables made by extending plain ones
pub const WAY_EXTEND: u8 = 2;
/// residuals configured one by one and converted
pub const WAY_CONVERT: u8 = 4;
/// the default solver wherever it has the default values
pub const WAY_DEFAULT_SOLVER: u8 = 8;
/// the parameters read back from ones made before
pub const WAY_COPY: u8 = 16;
pub const DEFAULT_TOL: f64 = 1e-6;
pub const DEFAULT_ITER: usize = 50;

impl Scenario {
    pub fn n(&self) -> usize {
        self.problem.n
    }
    pub fn eval_budget(&self) -> usize {
        let b = self.max_iter.saturating_mul(self.n() + 2).saturating_add(1);
        b.min(self.cap.map_or(usize::MAX, |c| c + 1)).min(1 << 40)
    }
    pub fn in_range(&self) -> bool {
        self.iters.iter().zip(&self.x0).all(|(p, x)| x.0 >= p.min.0 && x.0 <= p.max.0)
    }
}

/// Swarm configuration of the generator.
#[derive(Clone)]
pub struct Mix {
    pub classes: Vec<(Class, f64)>,
    pub max_n: usize,
    pub limits: f64,
    pub out_of_range: f64,
    pub norms: f64,
    pub damping: f64,
    pub provided: f64,
    pub memory: f64,
    pub max_iter: (usize, usize),
    pub nr_weight: f64,
    pub big_dx: f64,
    /// resolutions of many iterations
    pub long: f64,
    /// problems of many variables
    pub wide: f64,
    /// problems of more variables than small indices or masks can count
    pub huge: f64,
    /// iteration budgets without limit
    pub unbounded: f64,
    /// unusual tolerances
    pub odd_tol: f64,
    /// unusual perturbations
    pub odd_dx: f64,
    /// other ways to build the configuration
    pub ways: f64,
    /// default values
    pub dflt: f64,
    /// variables held by their range
    pub pinned: f64,
}
impl Default for Mix {
    fn default() -> Self {
        Mix {
            classes: vec![
                (Class::Mild, 4.0),
                (Class::General, 3.0),
                (Class::Singular, 0.6),
                (Class::Steep, 2.5),
                (Class::Domain, 1.0),
                (Class::NoRoot, 0.7),
                (Class::Solved, 0.5),
                (Class::Scaled, 1.0),
            ],
            max_n: 5,
            limits: 0.4,
            out_of_range: 0.0,
            norms: 0.5,
            damping: 0.5,
            provided: 0.4,
            memory: 0.4,
            max_iter: (0, 40),
            nr_weight: 1.5,
            big_dx: 0.3,
            long: 0.02,
            wide: 0.004,
            huge: 0.0,
            unbounded: 0.0,
            odd_tol: 0.03,
            odd_dx: 0.0,
            ways: 0.1,
            dflt: 0.02,
            pinned: 0.04,
        }
    }
}

pub fn gen_scenario(r: &mut Rng, mix: &Mix) -> Scenario {
    let w: Vec<f64> = mix.classes.iter().map(|c| c.1).collect();
    let class = mix.classes[r.weighted(&w)].0;
    let mut n = 1 + r.weighted(&[2.0, 3.0, 3.0, 2.0, 1.0, 0.5, 0.5, 0.3][..mix.max_n.min(8)]);
    let huge = mix.huge > 0.0 && r.chance(mix.huge);
    let long = r.chance(mix.long) && !huge;
    if huge {
        n = match r.weighted(&[6.0, 2.5, 1.5]) {
            0 => r.range(62, 72),
            1 => r.range(126, 131),
            _ => r.range(254, 260),
        };
    } else if long {
        n = n.min(3);
    } else if r.chance(mix.wide) {
        n = if r.chance(0.2) { r.range(21, 45) } else { r.range(7, 20) };
    }
    let g = gen_problem(r, class, n);
    let mut problem = g.problem;
    let mut x0 = g.x0;
    let fixed = n <= 5 && r.chance(0.4);
    let mut mw = vec![1.0; 10];
    mw[0] = mix.nr_weight;
    let method = r.weighted(&mw);
    let provided_jac = r.chance(mix.provided);
    let mem = if r.chance(mix.memory) {
        *r.pick(&[Mem::Warm, Mem::Warm, Mem::Full])
    } else {
        Mem::None
    };
    if mem != Mem::None && r.chance(0.8) {
        problem.mem_gain = F(*r.pick(&[1e-9, 1e-6, 1e-4, 1e-2, 0.1]));
    }
    let mut iters = vec![];
    for i in 0..n {
        let mut p = IterP::free();
        if r.chance(mix.limits) {
            if r.chance(0.5) {
                p.step_abs = F(r.log10(-2.0, 1.0));
            }
            if r.chance(0.4) {
                p.step_rel = F(r.log10(-1.3, 0.7));
            }
            if r.chance(0.5) {
                p.min = F(x0[i] - *r.pick(&[0.0, 0.05, 0.3, 1.0, 3.0]) - r.f(0.0, 0.2) * if r.chance(0.7) { 1.0 } else { 0.0 });
            }
            if r.chance(0.5) {
                p.max = F(x0[i] + *r.pick(&[0.0, 0.05, 0.3, 1.0, 3.0]) + r.f(0.0, 0.2) * if r.chance(0.7) { 1.0 } else { 0.0 });
            }
            if p.min.0 >= p.max.0 {
                p.max = F(p.min.0 + 1.0);
            }
            if r.chance(0.1) {
                p.min = F(0.0);
                if p.max.0 <= 0.0 {
                    p.max = F(f64::INFINITY);
                }
                if x0[i] < 0.0 {
                    x0[i] = -x0[i];
                }
                if x0[i] > p.max.0 {
                    x0[i] = p.max.0;
                }
            }
        }
        if r.chance(mix.big_dx) {
            p.dx_abs = F(r.log10(-7.0, -2.0));
            p.dx_rel = F(r.log10(-7.0, -2.0));
        } else if r.chance(0.3) {
            p.dx_abs = F(*r.pick(&[5e-8, 1e-7, 1.5e-6]));
            p.dx_rel = F(*r.pick(&[5e-8, 1e-7, 5e-5]));
        }
        if r.chance(mix.odd_dx) {
            // a perturbation lost in the rounding of the variable, close to it, or larger than the variable
            let v = [1e-12, 0.1, 1.0, 100.0, 1e-12, 0.1, 1.0, 100.0, 1e-20, 5e-16];
            p.dx_abs = F(*r.pick(&v));
            p.dx_rel = F(*r.pick(&v));
        }
        p.sum = r.chance(0.4);
        if r.chance(mix.out_of_range) {
            x0[i] = p.max.0.min(1e3) + 0.5;
        }
        iters.push(p);
    }
    let mut damped = r.chance(mix.damping);
    if mix.limits > 0.0 && r.chance(mix.pinned) {
        // variables held where they are by their range, of a model that may get worse by itself
        for i in 0..n {
            let p = &mut iters[i];
            (p.min, p.max) = if r.chance(0.5) { (F(x0[i]), F(x0[i] + 3.0)) } else { (F(x0[i] - 3.0), F(x0[i])) };
        }
        if mem != Mem::None {
            problem.mem_gain = F(*r.pick(&[1e-6, 1e-2, 0.1, 1.0]));
        }
        damped |= mix.damping > 0.0;
    }
    let all_abs = !r.chance(mix.norms);
    let pickn = |r: &mut Rng| {
        if all_abs {
            Norm::Abs
        } else {
            *r.pick(&[Norm::Abs, Norm::Rel, Norm::Adapt])
        }
    };
    let stop: Vec<Norm> = (0..n).map(|_| pickn(r)).collect();
    let upd: Vec<Norm> = (0..n).map(|_| pickn(r)).collect();
    let mut tol = F(*r.pick(&[1e-3, 1e-6, 1e-6, 1e-8, 1e-10, 1e-12]));
    if r.chance(mix.odd_tol) {
        tol = F(*r.pick(&[0.0, 0.0, -1e-3, 0.1, 1.0, 10.0, 1e300, 5e-324]));
    }
    if long {
        // small steps or a tolerance out of reach
        tol = F(*r.pick(&[1e-12, 1e-15, 1e-300]));
        for p in iters.iter_mut() {
            if r.chance(0.6) {
                p.step_abs = F(r.log10(-3.5, -0.5));
            }
        }
    }
    let max_iter = if long { if r.chance(0.2) { r.range(256, 700) } else { r.range(41, 260) } } else { match r.below(10) {
        0 => r.range(mix.max_iter.0, mix.max_iter.0.max(2).min(mix.max_iter.1)),
        1 | 2 => r.range(mix.max_iter.0.max(1).min(mix.max_iter.1), 6.max(mix.max_iter.0).min(mix.max_iter.1)),
        _ => r.range(mix.max_iter.0.max(8).min(mix.max_iter.1), mix.max_iter.1),
    } };
    let ways = if r.chance(mix.ways) { r.below(32) as u8 } else { 0 };
    let dflt = r.chance(mix.dflt);
    let (mut stop, mut upd, mut max_iter, mut ways) = (stop, upd, max_iter, ways);
    if dflt {
        tol = F(DEFAULT_TOL);
        max_iter = DEFAULT_ITER;
        iters.iter_mut().for_each(|p| *p = IterP::free());
        stop.iter_mut().chain(upd.iter_mut()).for_each(|s| *s = Norm::Abs);
        ways |= WAY_DEFAULT_VARS | WAY_DEFAULT_SOLVER | WAY_CONVERT;
    }
    if huge {
        max_iter = max_iter.min(if n > 200 { 1 } else if n > 100 { 2 } else { r.range(1, 4) });
    }
    let mut cap = None;
    if !huge && mix.unbounded > 0.0 && r.chance(mix.unbounded) {
        max_iter = *r.pick(&[usize::MAX, usize::MAX, usize::MAX - 1, u32::MAX as usize, 1 << 32]);
        cap = Some(r.range(60, 400));
    }
    Scenario {
        class,
        problem,
        x0: fv(&x0),
        tol,
        max_iter,
        method,
        damping: damped,
        iters,
        stop,
        upd,
        provided_jac,
        fd_params: !provided_jac || r.chance(0.3),
        mem,
        fixed,
        ways,
        cap,
        faults: vec![],
    }
}

/// Simpler scenarios to try in place of a failing one.
pub fn shrink_scenario(s: &Scenario) -> Vec<Scenario> {
    let mut out: Vec<Scenario> = vec![];
    let mut push = |f: &dyn Fn(&mut Scenario)| {
        let mut c = s.clone();
        f(&mut c);
        if c != *s {
            out.push(c);
        }
    };
    if s.faults.len() > 6 {
        let h = s.faults.len() / 2;
        push(&|c| c.faults.truncate(h));
        push(&|c| {
            c.faults.drain(..h);
        });
    }
    for i in 0..s.faults.len() {
        push(&|c| {
            c.faults.remove(i);
        });
    }
    // drop one variable together with one equation
    if s.n() > 1 {
        for v in 0..s.n() {
            push(&|c| drop_var(c, v));
        }
    }
    for m in [1, 2, 3, 5, 8, 100] {
        if m < s.max_iter {
            push(&|c| {
                c.max_iter = m;
                c.cap = None;
            });
        }
    }
    if let Some(k) = s.cap {
        push(&|c| c.cap = Some(k / 2));
    }
    if s.max_iter > 1 {
        push(&|c| c.max_iter -= 1);
    }
    push(&|c| c.mem = Mem::None);
    push(&|c| c.problem.mem_gain = F(0.0));
    push(&|c| c.fixed = false);
    push(&|c| c.ways = 0);
    for b in 0..8 {
        push(&|c| c.ways &= !(1 << b));
    }
    push(&|c| c.damping = false);
    push(&|c| c.method = 0);
    push(&|c| c.fd_params = !c.provided_jac);
    push(&|c| {
        c.provided_jac = true;
    });
    push(&|c| c.tol = F(1e-6));
    for i in 0..s.n() {
        push(&|c| c.iters[i] = IterP::free());
        push(&|c| c.iters[i].step_abs = F(f64::INFINITY));
        push(&|c| c.iters[i].step_rel = F(f64::INFINITY));
        push(&|c| c.iters[i].min = F(f64::NEG_INFINITY));
        push(&|c| c.iters[i].max = F(f64::INFINITY));
        push(&|c| {
            c.iters[i].dx_abs = F(5e-8);
            c.iters[i].dx_rel = F(5e-8);
        });
        push(&|c| c.stop[i] = Norm::Abs);
        push(&|c| c.upd[i] = Norm::Abs);
        push(&|c| c.x0[i] = F((c.x0[i].0 * 10.0).round() / 10.0));
        for side in 0..2 {
            let len = if side == 0 { s.problem.eqs[i].left.len() } else { s.problem.eqs[i].right.len() };
            for t in 0..len {
                push(&|c| {
                    if side == 0 {
                        c.problem.eqs[i].left.remove(t);
                    } else {
                        c.problem.eqs[i].right.remove(t);
                    }
                });
                push(&|c| {
                    let e = &mut c.problem.eqs[i];
                    let t = if side == 0 { &mut e.left[t] } else { &mut e.right[t] };
                    t.c = F((t.c.0 * 10.0).round() / 10.0);
                });
            }
        }
    }
    for i in 0..s.faults.len() {
        let k = s.faults[i].kind.clone();
        if matches!(k, FaultKind::InaccurateBy(_) | FaultKind::Off(_)) {
            push(&|c| c.faults[i].kind = FaultKind::Inaccurate);
        }
    }
    out
}

fn drop_var(c: &mut Scenario, v: usize) {
    let n = c.n();
    c.problem.n = n - 1;
    c.problem.eqs.remove(v);
    for e in c.problem.eqs.iter_mut() {
        for side in [&mut e.left, &mut e.right] {
            side.retain(|t| t.k == K::Const || (t.i != v && (t.k != K::Mul || t.j != v)));
            for t in side.iter_mut() {
                if t.i > v {
                    t.i -= 1
                }
                if t.j > v {
                    t.j -= 1
                }
                t.i = t.i.min(n - 2);
                t.j = t.j.min(n - 2);
            }
        }
    }
    c.x0.remove(v);
    c.iters.remove(v);
    c.stop.remove(v);
    c.upd.remove(v);
    for f in c.faults.iter_mut() {
        match &mut f.kind {
            FaultKind::NanAt(k) | FaultKind::InfAt(k) | FaultKind::HugeAt(k) | FaultKind::JacZeroRow(k) | FaultKind::Members(k, _) => *k = (*k).min(n - 2),
            FaultKind::JacNan(a, b) => {
                *a = (*a).min(n - 2);
                *b = (*b).min(n - 2);
            }
            _ => (),
        }
    }
}
