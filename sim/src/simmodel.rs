//! The simulated party behind the `Model` trait: evaluates a generated problem, records every call of the solver
//! and injects the faults of the scenario.

use crate::problem::Problem;
use crate::scen::*;
use crate::sysim;
use nalgebra::{allocator::Allocator, Const, DefaultAllocator, Dim, OMatrix, OVector};
use newton_rootfinder as nrf;
use nrf::model::{Model, ModelError};
use nrf::residuals::{JacobianValues, ResidualsValues};
use std::fmt;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash)]
pub enum St {
    Ok,
    /// the number identifies the error object given to the solver
    Inacc(u64),
    Unus(u64),
    Panic,
}

#[derive(Clone, PartialEq, Debug)]
pub enum Ev {
    Set { x: Vec<f64> },
    Eval { k: usize, x: Vec<f64>, mem_in: f64, mem_out: f64, l: Vec<f64>, r: Vec<f64>, st: St, log: usize },
    Jac { k: usize, x: Vec<f64>, l: Vec<Vec<f64>>, r: Vec<Vec<f64>>, st: St, log: usize },
    SetMem { v: Vec<f64> },
}

pub fn same(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits() || (x.is_nan() && y.is_nan()) || x == y)
}
pub fn same1(a: f64, b: f64) -> bool {
    a == b || (a.is_nan() && b.is_nan())
}

/// bitwise comparison of two histories of calls (log positions aside)
pub fn same_ev(a: &Ev, b: &Ev) -> bool {
    let sm = |p: &Vec<Vec<f64>>, q: &Vec<Vec<f64>>| p.len() == q.len() && p.iter().zip(q).all(|(u, v)| same(u, v));
    match (a, b) {
        (Ev::Set { x }, Ev::Set { x: y }) => same(x, y),
        (Ev::SetMem { v }, Ev::SetMem { v: w }) => same(v, w),
        (
            Ev::Eval { k, x, mem_in, mem_out, l, r, st, .. },
            Ev::Eval { k: k2, x: x2, mem_in: mi2, mem_out: mo2, l: l2, r: r2, st: st2, .. },
        ) => k == k2 && same(x, x2) && same1(*mem_in, *mi2) && same1(*mem_out, *mo2) && same(l, l2) && same(r, r2) && st == st2,
        (Ev::Jac { k, x, l, r, st, .. }, Ev::Jac { k: k2, x: x2, l: l2, r: r2, st: st2, .. }) => {
            k == k2 && same(x, x2) && sm(l, l2) && sm(r, r2) && st == st2
        }
        _ => false,
    }
}
/// the calls that reach the model's computations, for the comparisons
pub fn calls(h: &[Ev]) -> Vec<&Ev> {
    h.iter().filter(|e| matches!(e, Ev::Eval { .. } | Ev::Jac { .. })).collect()
}
pub fn first_diff(a: &[Ev], b: &[Ev]) -> Option<String> {
    let (a, b) = (calls(a), calls(b));
    for i in 0..a.len().max(b.len()) {
        match (a.get(i), b.get(i)) {
            (Some(x), Some(y)) if same_ev(x, y) => (),
            (x, y) => return Some(format!("call {i}: {} versus {}", show_opt(x), show_opt(y))),
        }
    }
    None
}
fn show_opt(e: Option<&&Ev>) -> String {
    match e {
        None => "no call".into(),
        Some(e) => show(e),
    }
}
pub fn show(e: &Ev) -> String {
    match e {
        Ev::Set { x } => format!("set {x:?}"),
        Ev::Eval { k, x, l, r, st, mem_in, .. } => format!("evaluate#{k} at {x:?} mem {mem_in:?} -> {l:?} = {r:?} {st:?}"),
        Ev::Jac { k, x, l, st, .. } => format!("jacobian#{k} at {x:?} -> left {l:?} {st:?}"),
        Ev::SetMem { v } => format!("set_memory {v:?}"),
    }
}

#[derive(Debug)]
pub struct SimErr(pub u64);
impl fmt::Display for SimErr {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        write!(f, "SIMERR<{}>", self.0)
    }
}
impl std::error::Error for SimErr {}

pub struct BudgetExceeded;
pub struct InjectedPanic;

pub struct SimModel<'a, D>
where
    D: Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    pub problem: &'a Problem,
    pub faults: &'a [Fault],
    pub provided: bool,
    pub memk: Mem,
    pub inputs: OVector<f64, D>,
    pub left: OVector<f64, D>,
    pub right: OVector<f64, D>,
    pub mem: f64,
    pub hist: Vec<Ev>,
    pub evals: usize,
    pub jacs: usize,
    pub max_evals: usize,
    cap: usize,
    tol: f64,
    stop: &'a [Norm],
    pub world: Option<sysim::Handle>,
    pub on_call: Option<Box<dyn FnMut(usize) + 'a>>,
    pub fired: Vec<usize>,
    /// offset of the error identifiers
    pub id_base: u64,
    /// records nothing
    pub quiet: bool,
}

impl<'a, D> SimModel<'a, D>
where
    D: Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    pub fn new(sc: &'a Scenario, dim: D) -> Self {
        let z = OVector::<f64, D>::zeros_generic(dim, Const::<1>);
        SimModel {
            problem: &sc.problem,
            faults: &sc.faults,
            provided: sc.provided_jac,
            memk: sc.mem,
            inputs: z.clone(),
            left: z.map(|_: f64| f64::NAN),
            right: z,
            mem: 0.0,
            hist: vec![],
            evals: 0,
            jacs: 0,
            max_evals: 4 * sc.eval_budget() + 40,
            cap: sc.cap.unwrap_or(usize::MAX),
            tol: sc.tol.0,
            stop: &sc.stop,
            world: None,
            on_call: None,
            fired: vec![],
            id_base: 0,
            quiet: false,
        }
    }
    fn yield_now(&self) {
        if let Some(w) = &self.world {
            if let Some(y) = &w.yielder {
                y.yield_now("model");
            }
        }
    }
    /// evaluations take their time: some an instant, some stall for minutes or days
    fn take_time(&self, k: usize) {
        const MS: i64 = 1_000_000;
        const T: [i64; 9] = [MS, 20 * MS, 1_000 * MS, 0, 90_000 * MS, MS, 7_200_000 * MS, 0, 259_200_000 * MS];
        sysim::spend(T[k % T.len()]);
    }
    fn note(&mut self, e: Ev) {
        if !self.quiet {
            self.hist.push(e);
        }
    }
    fn log_len(&self) -> usize {
        match &self.world {
            Some(w) => sysim::lock(w).watched_len(),
            None => 0,
        }
    }
    fn fault(&mut self, jac: bool, k: usize) -> Option<FaultKind> {
        let f = self.faults.iter().position(|f| f.jac == jac && f.at == k)?;
        self.fired.push(f);
        Some(self.faults[f].kind.clone())
    }
}

pub fn off(l: &mut [f64], a: f64, k: usize) {
    for (i, v) in l.iter_mut().enumerate() {
        *v += a * noise(k, i);
    }
}
/// how many special pairs of values there are
pub const PAIRS: usize = 20;
/// from here on, an equation almost at the tolerance, the others satisfied
const EDGE: usize = 13;
/// from here on, almost the previous values
pub const REPEAT: usize = 18;
/// an error just above or just below the tolerance, in the normalization of the stopping criterion
fn edge(l: &mut [f64], r: &mut [f64], i: usize, pattern: usize, tol: f64, norm: Norm) {
    (0..l.len()).filter(|j| *j != i).for_each(|j| l[j] = r[j]);
    let t = tol * (1.0 + [3e-8, -3e-8, 1e-4, -1e-4, 0.4][pattern - EDGE]);
    let (a, b) = match norm {
        Norm::Abs => (t, 0.0),
        Norm::Adapt if t < 1.0 => (t / (1.0 - t / 2.0), 0.0),
        Norm::Rel if t < 1.0 => ((1.0 + t / 2.0) / (1.0 - t / 2.0), 1.0),
        _ => return,
    };
    (l[i], r[i]) = if i % 2 == 0 { (a, b) } else { (b, a) };
}
/// special values of the members of the equation `i`
fn members(l: &mut [f64], r: &mut [f64], i: usize, pattern: usize) {
    let scale = if r[i] != 0.0 && r[i].is_finite() { r[i] } else { 1.5 };
    let same = |l: &mut [f64], r: &[f64], but: Option<usize>| (0..l.len()).filter(|j| Some(*j) != but).for_each(|j| l[j] = r[j]);
    let (a, b) = match pattern {
        0 => (-scale, scale),
        1 => (0.0, 0.0),
        2 => (0.0, scale),
        3 => (scale, 0.0),
        4 => (r[i], r[i]),
        5 => (f64::INFINITY, f64::INFINITY),
        6 => (-0.0, 0.0),
        7 => (5e-324, -5e-324),
        8 => (1.7e308, -1.7e308),
        // every equation is satisfied, this one is opposite, below, not a number, or satisfied too
        9 => {
            same(l, r, Some(i));
            (-scale, scale)
        }
        10 => {
            same(l, r, Some(i));
            (scale - 3.0 * scale.abs(), scale)
        }
        11 => {
            same(l, r, Some(i));
            (f64::NAN, scale)
        }
        _ => {
            same(l, r, None);
            (r[i], r[i])
        }
    };
    l[i] = a;
    r[i] = b;
}
fn noise(k: usize, i: usize) -> f64 {
    let h = crate::rng::mix((k as u64) * 1000 + i as u64);
    ((h >> 11) as f64 / (1u64 << 53) as f64) * 2.0 - 1.0
}

impl<'a, D> Model<D> for SimModel<'a, D>
where
    D: Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    type InaccurateValuesError = SimErr;
    type UnusableValuesError = SimErr;

    fn len_problem(&self) -> usize {
        self.problem.n
    }
    fn set_iteratives(&mut self, x: &OVector<f64, D>) {
        self.inputs = x.clone();
        self.note(Ev::Set { x: x.iter().copied().collect() });
    }
    fn get_iteratives(&self) -> OVector<f64, D> {
        self.inputs.clone()
    }
    fn evaluate(&mut self) -> Result<(), ModelError<Self, D>> {
        let k = self.evals;
        self.evals += 1;
        if k >= self.max_evals {
            std::panic::panic_any(BudgetExceeded);
        }
        self.yield_now();
        self.take_time(k);
        let log = self.log_len();
        if let Some(mut f) = self.on_call.take() {
            f(k);
            self.on_call = Some(f);
        }
        let x: Vec<f64> = self.inputs.iter().copied().collect();
        let mem_in = if self.memk == Mem::None { 0.0 } else { self.mem };
        let (mut l, mut r) = self.problem.eval(&x, mem_in);
        let mut mem_out = if self.memk == Mem::None { 0.0 } else { self.problem.next_mem(&x, mem_in) };
        let fk = if k >= self.cap { Some(FaultKind::Unusable) } else { self.fault(false, k) };
        let id = self.id_base + k as u64;
        let mut st = St::Ok;
        let mut store = true;
        match fk {
            None => (),
            Some(FaultKind::Inaccurate) => st = St::Inacc(id),
            Some(FaultKind::InaccurateBy(a)) => {
                st = St::Inacc(id);
                off(&mut l, a.0, k);
            }
            Some(FaultKind::Off(a)) => {
                off(&mut l, a.0, k);
            }
            Some(FaultKind::Unusable) => {
                st = St::Unus(id);
                store = false;
            }
            Some(FaultKind::UnusableNan) => {
                st = St::Unus(id);
                l.iter_mut().for_each(|v| *v = f64::NAN);
                mem_out = f64::NAN;
            }
            Some(FaultKind::NanAt(i)) => l[i] = f64::NAN,
            Some(FaultKind::InfAt(i)) => l[i] = if k % 2 == 0 { f64::INFINITY } else { f64::NEG_INFINITY },
            Some(FaultKind::HugeAt(i)) => l[i] = 1e300 * if k % 2 == 0 { 1.0 } else { -1.0 },
            Some(FaultKind::Members(i, p)) if p < EDGE => members(&mut l, &mut r, i, p),
            Some(FaultKind::Members(i, p)) if p < REPEAT => edge(&mut l, &mut r, i, p, self.tol, self.stop[i]),
            Some(FaultKind::Members(_, p)) => {
                // the members of the previous evaluation, a little farther apart or closer
                if self.left.iter().all(|v| !v.is_nan()) {
                    let d = if p % 2 == 0 { 1.0 + 3e-8 } else { 1.0 - 3e-8 };
                    for i in 0..self.problem.n {
                        r[i] = self.right[i];
                        l[i] = r[i] + (self.left[i] - r[i]) * d;
                    }
                }
            }
            Some(FaultKind::Stale) => {
                let p: Vec<f64> = self.left.iter().copied().collect();
                if p.iter().all(|v| !v.is_nan()) {
                    l = p;
                }
            }
            Some(FaultKind::Panic) => st = St::Panic,
            Some(FaultKind::JacNan(..)) | Some(FaultKind::JacZeroRow(_)) => (),
        }
        if st == St::Panic {
            self.note(Ev::Eval { k, x, mem_in, mem_out: mem_in, l: vec![], r: vec![], st, log });
            std::panic::panic_any(InjectedPanic);
        }
        if store {
            for i in 0..self.problem.n {
                self.left[i] = l[i];
                self.right[i] = r[i];
            }
            if self.memk != Mem::None {
                self.mem = mem_out;
            }
        } else {
            mem_out = mem_in;
            l = self.left.iter().copied().collect();
        }
        self.note(Ev::Eval { k, x, mem_in, mem_out, l, r: self.right.iter().copied().collect(), st, log });
        match st {
            St::Inacc(id) => Err(ModelError::InaccurateValuesError(SimErr(id))),
            St::Unus(id) => Err(ModelError::UnusableValuesError(SimErr(id))),
            _ => Ok(()),
        }
    }
    fn get_residuals(&self) -> ResidualsValues<D> {
        ResidualsValues::new(self.left.clone(), self.right.clone())
    }
    fn jacobian_provided(&self) -> bool {
        self.provided
    }
    fn get_jacobian(&mut self) -> Result<JacobianValues<D>, ModelError<Self, D>> {
        let k = self.jacs;
        self.jacs += 1;
        if k >= self.max_evals {
            std::panic::panic_any(BudgetExceeded);
        }
        self.yield_now();
        self.take_time(k);
        let log = self.log_len();
        let x: Vec<f64> = self.inputs.iter().copied().collect();
        let (mut l, mut r) = self.problem.jac(&x);
        let fk = self.fault(true, k);
        let id = self.id_base + 1_000_000 + k as u64;
        let mut st = St::Ok;
        match fk {
            Some(FaultKind::Inaccurate) => st = St::Inacc(id),
            Some(FaultKind::Unusable) | Some(FaultKind::UnusableNan) => st = St::Unus(id),
            Some(FaultKind::InaccurateBy(a)) | Some(FaultKind::Off(a)) => {
                for (i, row) in l.iter_mut().enumerate() {
                    for (j, v) in row.iter_mut().enumerate() {
                        *v *= 1.0 + a.0 * noise(k + 7, i * 100 + j);
                    }
                }
            }
            Some(FaultKind::JacNan(i, j)) => l[i][j] = f64::NAN,
            Some(FaultKind::NanAt(i)) => l[i][0] = f64::NAN,
            Some(FaultKind::InfAt(i)) => l[i][0] = f64::INFINITY,
            Some(FaultKind::HugeAt(i)) => l[i][0] = 1e300,
            Some(FaultKind::JacZeroRow(i)) => {
                l[i].iter_mut().for_each(|v| *v = 0.0);
                r[i].iter_mut().for_each(|v| *v = 0.0);
            }
            Some(FaultKind::Panic) => st = St::Panic,
            Some(FaultKind::Stale) | Some(FaultKind::Members(..)) | None => (),
        }
        self.note(Ev::Jac { k, x, l: l.clone(), r: r.clone(), st, log });
        match st {
            St::Panic => std::panic::panic_any(InjectedPanic),
            St::Inacc(id) => return Err(ModelError::InaccurateValuesError(SimErr(id))),
            St::Unus(id) => return Err(ModelError::UnusableValuesError(SimErr(id))),
            St::Ok => (),
        }
        let dim = self.inputs.shape_generic().0;
        let n = self.problem.n;
        let ml = OMatrix::<f64, D, D>::from_fn_generic(dim, dim, |i, j| l[i][j]);
        let mr = OMatrix::<f64, D, D>::from_fn_generic(dim, dim, |i, j| r[i][j]);
        let _ = n;
        Ok(JacobianValues::new(ml, mr))
    }
    fn get_memory(&self) -> nalgebra::DVector<f64> {
        match self.memk {
            Mem::None => nalgebra::DVector::from_vec(vec![]),
            Mem::Warm => nalgebra::DVector::from_vec(vec![self.mem]),
            Mem::Full => {
                let mut v = vec![self.mem];
                v.extend(self.inputs.iter());
                v.extend(self.left.iter());
                v.extend(self.right.iter());
                nalgebra::DVector::from_vec(v)
            }
        }
    }
    fn set_memory(&mut self, m: &nalgebra::DVector<f64>) {
        self.note(Ev::SetMem { v: m.iter().copied().collect() });
        match self.memk {
            Mem::None => (),
            Mem::Warm => self.mem = m[0],
            Mem::Full => {
                let n = self.problem.n;
                self.mem = m[0];
                for i in 0..n {
                    self.inputs[i] = m[1 + i];
                    self.left[i] = m[1 + n + i];
                    self.right[i] = m[1 + 2 * n + i];
                }
            }
        }
    }
}
