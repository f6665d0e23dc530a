//! C17: functions and closures are adapted faithfully.

use crate::check::*;
use crate::exec::*;
use crate::problem::*;
use crate::rng::*;
use crate::scen::*;
use crate::simmodel::*;
use nalgebra::{DMatrix, DVector, Dyn};
use newton_rootfinder as nrf;
use nrf::iteratives::{Iterative, Iteratives};
use nrf::model::*;
use nrf::residuals::{JacobianValues, ResidualsConfig, ResidualsValues};
use nrf::solver::{RootFinder, SolverParameters};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::convert::Infallible;
use std::rc::Rc;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Serialize, Deserialize)]
pub enum Adapter {
    Function,
    FunctionAndJacobian,
    Closure,
    ClosureAndJacobian,
    /// written by hand
    ByHand,
}
use Adapter::*;

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum UserFault {
    Nan(usize),
    Infinite(usize),
    Off(F),
    /// an earlier result again
    Again,
    Panic,
}
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct UF {
    pub jac: bool,
    /// call number
    pub at: usize,
    pub kind: UserFault,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Op {
    Set(Vec<F>),
    Evaluate,
    Jacobian,
    /// the accessors that change nothing
    Look,
    Memory,
    Right(Vec<F>),
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct AdaptCase {
    pub adapter: Adapter,
    pub sc: Scenario,
    /// stored right members, zero unless the user changes them
    pub right: Option<Vec<F>>,
    /// calls made directly before the resolutions
    pub ops: Vec<Op>,
    /// failures during the direct calls and during each resolution
    pub op_faults: Vec<UF>,
    pub solves: Vec<Vec<UF>>,
}

#[derive(Clone, Debug, PartialEq)]
struct Call {
    jac: bool,
    x: Vec<f64>,
    out: Vec<f64>,
    died: bool,
}

/// the user's functions
struct User {
    problem: Problem,
    faults: Vec<UF>,
    calls: Vec<Call>,
    counts: [usize; 2],
    budget: usize,
    fired: Vec<&'static str>,
}
type Shared = Rc<RefCell<User>>;
thread_local! {
    static USER: RefCell<Option<Shared>> = const { RefCell::new(None) };
}

fn user_call(u: &Shared, jac: bool, x: &DVector<f64>) -> Vec<f64> {
    let mut u = u.borrow_mut();
    let k = u.counts[jac as usize];
    u.counts[jac as usize] += 1;
    if k >= u.budget {
        drop(u);
        std::panic::panic_any(BudgetExceeded);
    }
    let x: Vec<f64> = x.iter().copied().collect();
    let n = u.problem.n;
    let mut out = vec![];
    if x.len() == n {
        if jac {
            let (l, r) = u.problem.jac(&x);
            for i in 0..n {
                for j in 0..n {
                    out.push(l[i][j] - r[i][j]);
                }
            }
        } else {
            let (l, r) = u.problem.eval(&x, 0.0);
            out = l.iter().zip(&r).map(|(a, b)| a - b).collect();
        }
    }
    let f = u.faults.iter().find(|f| f.jac == jac && f.at == k).map(|f| f.kind.clone());
    let len = out.len();
    let mut died = false;
    match &f {
        None => (),
        Some(UserFault::Nan(i)) => out[i % len] = f64::NAN,
        Some(UserFault::Infinite(i)) => out[i % len] = f64::INFINITY,
        Some(UserFault::Off(a)) => off(&mut out, a.0, k),
        Some(UserFault::Again) => {
            if let Some(c) = u.calls.iter().rev().find(|c| c.jac == jac && !c.died) {
                out = c.out.clone();
            }
        }
        Some(UserFault::Panic) => died = true,
    }
    if let Some(f) = f {
        let name = match f {
            UserFault::Nan(_) => "nan",
            UserFault::Infinite(_) => "infinite",
            UserFault::Off(_) => "values-off",
            UserFault::Again => "stale",
            UserFault::Panic => "dies",
        };
        u.fired.push(name);
    }
    u.calls.push(Call { jac, x, out: if died { vec![] } else { out.clone() }, died });
    drop(u);
    if died {
        std::panic::panic_any(InjectedPanic);
    }
    out
}
fn current() -> Shared {
    USER.with(|u| u.borrow().clone()).unwrap()
}
fn user_fn(x: &DVector<f64>) -> DVector<f64> {
    DVector::from_vec(user_call(&current(), false, x))
}
fn user_jac(x: &DVector<f64>) -> DMatrix<f64> {
    let n = x.len();
    DMatrix::from_row_slice(n, n, &user_call(&current(), true, x))
}

/// what a user would write by hand, from the documentation of the trait
struct Hand {
    n: usize,
    provided: bool,
    x: DVector<f64>,
    left: DVector<f64>,
    right: DVector<f64>,
}
impl Model<Dyn> for Hand {
    type InaccurateValuesError = Infallible;
    type UnusableValuesError = Infallible;
    fn len_problem(&self) -> usize {
        self.n
    }
    fn set_iteratives(&mut self, x: &DVector<f64>) {
        self.x = x.clone();
    }
    fn get_iteratives(&self) -> DVector<f64> {
        self.x.clone()
    }
    fn evaluate(&mut self) -> Result<(), ModelError<Self, Dyn>> {
        self.left = user_fn(&self.x);
        Ok(())
    }
    fn get_residuals(&self) -> ResidualsValues<Dyn> {
        ResidualsValues::new(self.left.clone(), self.right.clone())
    }
    fn jacobian_provided(&self) -> bool {
        self.provided
    }
    fn get_jacobian(&mut self) -> Result<JacobianValues<Dyn>, ModelError<Self, Dyn>> {
        Ok(JacobianValues::new(user_jac(&self.x), DMatrix::zeros(self.n, self.n)))
    }
}

trait Fields: Model<Dyn> {
    fn put_right(&mut self, r: DVector<f64>);
}
impl Fields for Hand {
    fn put_right(&mut self, r: DVector<f64>) {
        self.right = r;
    }
}
impl Fields for UserModelFromFunction {
    fn put_right(&mut self, r: DVector<f64>) {
        self.right = r;
    }
}
impl Fields for UserModelFromFunctionAndJacobian {
    fn put_right(&mut self, r: DVector<f64>) {
        self.right = r;
    }
}
impl Fields for UserModelFromClosure<'_> {
    fn put_right(&mut self, r: DVector<f64>) {
        self.right = r;
    }
}
impl Fields for UserModelFromClosureAndJacobian<'_, '_> {
    fn put_right(&mut self, r: DVector<f64>) {
        self.right = r;
    }
}

#[derive(Default)]
struct Seen {
    viol: Option<(String, String)>,
    solves: Vec<(Result<String, Res>, Vec<Call>, Vec<f64>, Vec<(f64, f64)>)>,
    fired: Vec<&'static str>,
    ops_died: u64,
}

fn residuals_of<M: Model<Dyn>>(m: &M) -> Vec<(f64, f64)> {
    let r = m.get_residuals();
    let n = m.len_problem();
    (0..n).map(|i| r.get_values(i)).collect()
}

fn drive<M, T>(c: &AdaptCase, user: &Shared, mut m: M, provided: bool, iters: &Iteratives<'_, T>, rc: &ResidualsConfig<'_>) -> Seen
where
    M: Fields,
    T: Iterative + std::fmt::Display + std::fmt::Debug,
{
    let mut s = Seen::default();
    let sc = &c.sc;
    let n = sc.n();
    let mut right = vec![0.0; n];
    let check_res = |m: &M, left: &Option<Vec<f64>>, right: &[f64], what: &str| -> Option<(String, String)> {
        let v = residuals_of(m);
        let r: Vec<f64> = v.iter().map(|v| v.1).collect();
        if !same(&r, right) {
            return Some(("right".into(), format!("{what}: right members {r:?}, stored {right:?}")));
        }
        if let Some(l) = left {
            let g: Vec<f64> = v.iter().map(|v| v.0).collect();
            if !same(&g, l) {
                return Some(("left".into(), format!("{what}: left members {g:?}, the user's function returned {l:?}")));
            }
        }
        None
    };
    macro_rules! fail {
        ($code:expr, $($t:tt)*) => {{ if s.viol.is_none() { s.viol = Some(($code.to_string(), format!($($t)*))); } }};
    }
    if let Some(r) = &c.right {
        right = vf(r);
        m.put_right(DVector::from_vec(right.clone()));
    }
    // direct calls, each compared with what it must do
    user.borrow_mut().faults = c.op_faults.clone();
    let mut x = vec![0.0; n];
    let mut left: Option<Vec<f64>> = None;
    for (i, op) in c.ops.iter().enumerate() {
        let before = user.borrow().calls.len();
        let what = format!("direct call {i} ({})", ["set_iteratives", "evaluate", "get_jacobian", "accessors", "memory", "right"][op_index(op)]);
        let r: Result<Option<(Vec<Vec<f64>>, Vec<Vec<f64>>)>, Res> = guarded(|| match op {
            Op::Set(v) => {
                m.set_iteratives(&DVector::from_vec(vf(v)));
                None
            }
            Op::Evaluate => {
                m.evaluate().unwrap();
                None
            }
            Op::Jacobian => {
                if m.jacobian_provided() {
                    let j = m.get_jacobian().unwrap();
                    let (l, r) = j.get_jacobians();
                    let f = |m: &DMatrix<f64>| -> Vec<Vec<f64>> { (0..m.nrows()).map(|i| m.row(i).iter().copied().collect()).collect() };
                    Some((f(l), f(r)))
                } else {
                    None
                }
            }
            Op::Look => {
                let _ = (m.get_iteratives(), m.get_residuals(), m.len_problem(), m.jacobian_provided(), m.get_memory());
                None
            }
            Op::Memory => {
                let v = m.get_memory();
                m.set_memory(&v);
                None
            }
            Op::Right(v) => {
                m.put_right(DVector::from_vec(vf(v)));
                None
            }
        });
        let new: Vec<Call> = user.borrow().calls[before..].to_vec();
        let expected = match op {
            Op::Evaluate => Some(false),
            Op::Jacobian if provided => Some(true),
            _ => None,
        };
        match op {
            Op::Set(v) => x = vf(v),
            Op::Right(v) => right = vf(v),
            _ => (),
        }
        match expected {
            None => {
                if !new.is_empty() {
                    fail!("calls", "{what}: the user's functions are called {} times", new.len());
                }
            }
            Some(jac) => {
                if new.len() != 1 || new[0].jac != jac {
                    fail!("calls", "{what}: {} calls of the user's functions instead of one", new.len());
                } else if !same(&new[0].x, &x) {
                    fail!("point", "{what}: called at {:?}, the point set is {x:?}", new[0].x);
                }
            }
        }
        let died = new.iter().any(|c| c.died);
        match &r {
            Err(Res::Crash) if died => {
                s.ops_died += 1;
                if matches!(op, Op::Evaluate) {
                    left = None;
                }
            }
            Err(e) => fail!("panic", "{what}: {}", e.short()),
            Ok(_) if died => fail!("panic-swallowed", "{what}: the panic of the user's function did not come through"),
            Ok(j) => {
                if matches!(op, Op::Evaluate) {
                    left = new.first().map(|c| c.out.clone());
                }
                if let (Some((l, r)), Some(c)) = (j, new.first()) {
                    let l: Vec<f64> = l.iter().flatten().copied().collect();
                    if !same(&l, &c.out) {
                        fail!("jacobian", "{what}: jacobian {l:?}, the user's function returned {:?}", c.out);
                    }
                    if r.iter().flatten().any(|v| *v != 0.0) {
                        fail!("jacobian", "{what}: the right members are constant and their jacobian is {r:?}");
                    }
                }
            }
        }
        let g: Vec<f64> = m.get_iteratives().iter().copied().collect();
        if !same(&g, &x) {
            fail!("point", "{what}: the model is at {g:?}, the point set is {x:?}");
        }
        if m.len_problem() != n || m.jacobian_provided() != provided {
            fail!("shape", "{what}: size {} jacobian {}", m.len_problem(), m.jacobian_provided());
        }
        if left.is_some() {
            if let Some(v) = check_res(&m, &left, &right, &what) {
                s.viol.get_or_insert(v);
            }
        }
    }
    // resolutions, each with a new solver and the same model
    for (k, faults) in c.solves.iter().enumerate() {
        {
            let mut u = user.borrow_mut();
            s.fired.extend(u.fired.drain(..));
            u.faults = faults.clone();
            u.calls.clear();
            u.counts = [0, 0];
        }
        let x0 = DVector::from_vec(vf(&sc.x0));
        let r = guarded(|| {
            let p = SolverParameters::new(n, sc.tol.0, sc.max_iter, method_of(sc.method), sc.damping);
            let mut rf = RootFinder::new(p, x0, iters, rc);
            match rf.solve(&mut m) {
                Ok(()) => "converged".to_string(),
                Err(e) => e.to_string(),
            }
        });
        let calls = user.borrow().calls.clone();
        let died = calls.iter().any(|c| c.died);
        let what = format!("resolution {k}");
        match &r {
            Ok(_) if died => fail!("panic-swallowed", "{what}: the panic of the user's function did not come through"),
            Err(Res::Crash) if !died => fail!("panic", "{what}: ended without a panic of the user's function"),
            _ => (),
        }
        if !died && !matches!(r, Err(_)) {
            // the state of the model is that of the last evaluation
            if let Some(c) = calls.iter().rev().find(|c| !c.jac) {
                if let Some(v) = check_res(&m, &Some(c.out.clone()), &right, &what) {
                    s.viol.get_or_insert(v);
                }
            }
        }
        let x = m.get_iteratives().iter().copied().collect();
        let v = if died { vec![] } else { residuals_of(&m) };
        s.solves.push((r, calls, x, v));
    }
    let mut u = user.borrow_mut();
    s.fired.extend(u.fired.drain(..));
    s
}

fn op_index(o: &Op) -> usize {
    match o {
        Op::Set(_) => 0,
        Op::Evaluate => 1,
        Op::Jacobian => 2,
        Op::Look => 3,
        Op::Memory => 4,
        Op::Right(_) => 5,
    }
}

fn session(c: &AdaptCase, adapter: Adapter, provided: bool) -> Seen {
    let cfg = Config::new(&c.sc);
    let rc = ResidualsConfig::new(&cfg.stop, &cfg.upd);
    if cfg.use_fd || !provided {
        with_iters(c, adapter, provided, &Iteratives::new(&cfg.fd), &rc)
    } else {
        with_iters(c, adapter, provided, &Iteratives::new(&cfg.plain), &rc)
    }
}

fn with_iters<T>(c: &AdaptCase, adapter: Adapter, provided: bool, it: &Iteratives<'_, T>, rc: &ResidualsConfig<'_>) -> Seen
where
    T: Iterative + std::fmt::Display + std::fmt::Debug,
{
    let n = c.sc.n();
    let user: Shared = Rc::new(RefCell::new(User {
        problem: c.sc.problem.clone(),
        faults: vec![],
        calls: vec![],
        counts: [0, 0],
        budget: c.sc.eval_budget() + c.ops.len(),
        fired: vec![],
    }));
    USER.with(|u| *u.borrow_mut() = Some(user.clone()));
    let (a, b) = (user.clone(), user.clone());
    let f = move |x: &DVector<f64>| DVector::from_vec(user_call(&a, false, x));
    let j = move |x: &DVector<f64>| DMatrix::from_row_slice(x.len(), x.len(), &user_call(&b, true, x));
    let s = match adapter {
        Function => drive(c, &user, UserModelFromFunction::new(n, user_fn), provided, it, rc),
        FunctionAndJacobian => drive(c, &user, UserModelFromFunctionAndJacobian::new(n, user_fn, user_jac), provided, it, rc),
        Closure => drive(c, &user, UserModelFromClosure::new(n, &f), provided, it, rc),
        ClosureAndJacobian => drive(c, &user, UserModelFromClosureAndJacobian::new(n, &f, &j), provided, it, rc),
        ByHand => {
            let h = Hand { n, provided, x: DVector::zeros(n), left: DVector::from_element(n, f64::NAN), right: DVector::zeros(n) };
            drive(c, &user, h, provided, it, rc)
        }
    };
    USER.with(|u| *u.borrow_mut() = None);
    s
}

fn show_call(c: &Call) -> String {
    format!("{} at {:?} -> {}", if c.jac { "jacobian" } else { "function" }, c.x, if c.died { "panic".to_string() } else { format!("{:?}", c.out) })
}

fn run(_: &str, c: &Case) -> Outcome {
    let c = match c {
        Case::Adapt(c) => c,
        _ => unreachable!(),
    };
    let mut o = Outcome::default();
    let provided = matches!(c.adapter, FunctionAndJacobian | ClosureAndJacobian);
    let s = session(c, c.adapter, provided);
    for f in &s.fired {
        o.count(&format!("fault user function:{f}"), 1);
    }
    o.count(&format!("adapter {:?}", c.adapter), 1);
    o.count("direct calls", c.ops.len() as u64);
    o.count("panics during direct calls", s.ops_died);
    if let Some((a, b)) = s.viol {
        o.fail(&a, b);
    }
    let mut right = c.right.clone();
    for op in &c.ops {
        if let Op::Right(v) = op {
            right = Some(v.clone());
        }
    }
    let mut kinds = String::new();
    for (k, (r, calls, x, v)) in s.solves.iter().enumerate() {
        // a new hand-written model
        let one = AdaptCase { adapter: ByHand, right: right.clone(), ops: vec![], op_faults: vec![], solves: vec![c.solves[k].clone()], sc: c.sc.clone() };
        let h = session(&one, ByHand, provided);
        let (r2, calls2, x2, v2) = &h.solves[0];
        o.count("resolutions compared", 1);
        o.count("model calls", calls.len() as u64);
        let kind = match r {
            Ok(m) => m.chars().take(12).collect::<String>(),
            Err(e) => format!("{}", e.kind()),
        };
        o.count(&format!("ended {}", if r.is_ok() { "converged or error" } else { "died" }), 1);
        kinds.push_str(&format!("{kind}.{} ", calls.len().min(30)));
        let n = calls.len().max(calls2.len());
        for i in 0..n {
            match (calls.get(i), calls2.get(i)) {
                (Some(a), Some(b)) if a.jac == b.jac && a.died == b.died && same(&a.x, &b.x) && same(&a.out, &b.out) => (),
                (a, b) => {
                    let f = |c: Option<&Call>| c.map(show_call).unwrap_or("no call".into());
                    o.fail("calls", format!("resolution {k}, call {i}: {} through the adapter, {} by hand", f(a), f(b)));
                    break;
                }
            }
        }
        let ok = match (r, r2) {
            (Err(Res::Panic(_)), Err(Res::Panic(_))) => true,
            (a, b) => a == b,
        };
        if !ok {
            o.fail("result", format!("resolution {k}: {r:?} through the adapter, {r2:?} by hand"));
        }
        let pair = |a: &[(f64, f64)], b: &[(f64, f64)]| a.len() == b.len() && a.iter().zip(b).all(|(p, q)| same1(p.0, q.0) && same1(p.1, q.1));
        if !same(x, x2) || !pair(v, v2) {
            o.fail("state", format!("resolution {k}: the model is left at {x:?} with {v:?}, by hand at {x2:?} with {v2:?}"));
        }
        o.digest = hash_bytes(o.digest, format!("{r:?} {x:?} {calls:?}").as_bytes());
        if k + 1 == s.solves.len() {
            o.trace = calls.iter().take(200).map(show_call).collect();
            o.trace.push(format!("returned {r:?}"));
        }
    }
    o.nontrivial = !c.ops.is_empty() || s.solves.iter().any(|s| s.1.len() > 2);
    o.sig = hash_bytes(
        hash_bytes(17, scenario_sig(&c.sc).as_bytes()),
        format!("{:?} {kinds}{} {:?}", c.adapter, right.is_some(), c.ops.iter().map(op_index).collect::<Vec<_>>()).as_bytes(),
    );
    o
}

fn gen_faults(r: &mut Rng, n: usize, provided: bool, max: usize) -> Vec<UF> {
    let mut v = vec![];
    for _ in 0..r.weighted(&[3.0, 4.0, 2.0, 1.0]) {
        let jac = provided && r.chance(0.3);
        let len = if jac { n * n } else { n };
        v.push(UF {
            jac,
            at: if r.chance(0.3) { r.below(3) } else { r.below(max) },
            kind: match r.below(6) {
                0 => UserFault::Nan(r.below(len)),
                1 => UserFault::Infinite(r.below(len)),
                2 => UserFault::Off(F(r.log10(-8.0, 0.0))),
                3 => UserFault::Again,
                _ => UserFault::Panic,
            },
        });
    }
    v
}

fn gen(_: &str, seed: u64, idx: u64) -> Case {
    let mut r = Rng::from_parts(seed, "C17", idx);
    let m = Mix { max_iter: (0, 20), memory: 0.0, ..Mix::default() };
    let mut sc = gen_scenario(&mut r, &m);
    let adapter = *r.pick(&[Function, FunctionAndJacobian, Closure, ClosureAndJacobian]);
    let provided = matches!(adapter, FunctionAndJacobian | ClosureAndJacobian);
    sc.provided_jac = provided;
    sc.fd_params = !provided || r.chance(0.3);
    sc.mem = Mem::None;
    sc.fixed = false;
    let n = sc.n();
    let vec = |r: &mut Rng| -> Vec<F> { (0..n).map(|_| F(r.dec(-3.0, 3.0))).collect() };
    let right = if r.chance(0.4) { Some((0..n).map(|_| F(if r.chance(0.6) { r.dec(-1.0, 1.0) } else { 0.0 })).collect()) } else { None };
    let mut ops = vec![];
    if r.chance(0.5) {
        for _ in 0..1 + r.below(12) {
            ops.push(match r.weighted(&[4.0, 4.0, 2.0, 1.0, 0.7, 0.5]) {
                0 => Op::Set(vec(&mut r)),
                1 => Op::Evaluate,
                2 => Op::Jacobian,
                3 => Op::Look,
                4 => Op::Memory,
                _ => Op::Right(vec(&mut r)),
            });
        }
    }
    let op_faults = if ops.is_empty() || r.chance(0.4) { vec![] } else { gen_faults(&mut r, n, provided, 5) };
    let mut solves = vec![];
    for _ in 0..1 + r.weighted(&[3.0, 3.0, 1.0]) {
        let max = if r.chance(0.5) { 8 } else { 40 };
        solves.push(if r.chance(0.4) { vec![] } else { gen_faults(&mut r, n, provided, max) });
    }
    Case::Adapt(AdaptCase { adapter, sc, right, ops, op_faults, solves })
}

fn shrink(c: &Case) -> Vec<Case> {
    let c = match c {
        Case::Adapt(c) => c,
        _ => return vec![],
    };
    let mut v = vec![];
    let mut push = |c: AdaptCase| v.push(Case::Adapt(c));
    if !c.ops.is_empty() {
        push(AdaptCase { ops: vec![], op_faults: vec![], ..c.clone() });
    }
    if !c.solves.is_empty() {
        push(AdaptCase { solves: vec![], ..c.clone() });
    }
    for i in 0..c.solves.len() {
        let mut d = c.clone();
        d.solves.remove(i);
        push(d);
        for f in 0..c.solves[i].len() {
            let mut d = c.clone();
            d.solves[i].remove(f);
            push(d);
        }
    }
    for i in 0..c.ops.len() {
        let mut d = c.clone();
        d.ops.remove(i);
        push(d);
    }
    for i in 0..c.op_faults.len() {
        let mut d = c.clone();
        d.op_faults.remove(i);
        push(d);
    }
    if c.right.is_some() {
        push(AdaptCase { right: None, ..c.clone() });
    }
    for sc in shrink_scenario(&c.sc) {
        let provided = matches!(c.adapter, FunctionAndJacobian | ClosureAndJacobian);
        if sc.n() == c.sc.n() && sc.provided_jac == provided {
            push(AdaptCase { sc, ..c.clone() });
        }
    }
    v
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C17",
        quick: 240_000,
        thorough: 3_000_000,
        hang: true,
        rule: "each of the four adapters, driven by direct calls in generated orders and by 1-3 resolutions with new solvers, while the user's functions die or return unusable, repeated or perturbed values at chosen calls; every call received by the user's functions is compared with the call made and with a new hand-written model; non-trivial: direct calls, or a resolution of more than two calls",
        real: "UserModelFromFunction, UserModelFromFunctionAndJacobian, UserModelFromClosure, UserModelFromClosureAndJacobian, RootFinder",
        stub: "the user's functions (generated equations, faults by call number)",
        gen,
        run,
        shrink,
    }]
}
