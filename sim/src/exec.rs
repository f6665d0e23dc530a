//! Runs the real solver on scenarios.

use crate::scen::*;
use crate::simmodel::*;
use crate::sysim;
use nalgebra::{allocator::Allocator, Const, DefaultAllocator, DimMin, Dyn, OVector, U1};
use newton_rootfinder as nrf;
use nrf::errors::{SolverError, SolverInternalError};
use nrf::iteratives::{Iterative, Iteratives};
use nrf::model::ModelError;
use nrf::residuals::ResidualsConfig;
use nrf::solver::{RootFinder, SolverParameters};
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};

pub const LOG: &str = "/sim/log.txt";

#[derive(Clone, PartialEq, Debug)]
pub enum Res {
    Ok,
    NonConv,
    Initial(String),
    ModelEval { unus: bool, id: u64 },
    Jac { unus: bool, id: u64 },
    JacInv,
    Final,
    /// a panic that the simulator did not inject
    Panic(String),
    /// the injected death of the model
    Crash,
    /// stopped by the simulator: far more calls than allowed
    Hang,
}
impl Res {
    pub fn short(&self) -> String {
        match self {
            Res::Panic(m) => format!("panic: {}", m.chars().take(200).collect::<String>()),
            o => format!("{o:?}"),
        }
    }
    pub fn kind(&self) -> u8 {
        match self {
            Res::Ok => 0,
            Res::NonConv => 1,
            Res::Initial(_) => 2,
            Res::ModelEval { .. } => 3,
            Res::Jac { .. } => 4,
            Res::JacInv => 5,
            Res::Final => 6,
            Res::Panic(_) => 7,
            Res::Crash => 8,
            Res::Hang => 9,
        }
    }
}

thread_local! {
    pub static LAST_PANIC: RefCell<String> = const { RefCell::new(String::new()) };
    pub static IN_SIM: std::cell::Cell<u32> = const { std::cell::Cell::new(0) };
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let loc = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".into()
        };
        let _ = LAST_PANIC.try_with(|p| *p.borrow_mut() = format!("{msg} at {loc}"));
        if IN_SIM.try_with(|c| c.get()).unwrap_or(0) == 0 {
            eprintln!("harness panic: {msg} at {loc}");
        }
    }));
}

/// Runs real code, turning panics into values.
pub fn guarded<T>(f: impl FnOnce() -> T) -> Result<T, Res> {
    IN_SIM.with(|c| c.set(c.get() + 1));
    let r = catch_unwind(AssertUnwindSafe(f));
    IN_SIM.with(|c| c.set(c.get() - 1));
    r.map_err(|e| {
        if e.is::<InjectedPanic>() {
            Res::Crash
        } else if e.is::<BudgetExceeded>() {
            Res::Hang
        } else {
            Res::Panic(LAST_PANIC.with(|p| p.borrow().clone()))
        }
    })
}

fn merr<D>(e: &ModelError<SimModel<'_, D>, D>) -> (bool, u64)
where
    D: nalgebra::Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    match e {
        ModelError::InaccurateValuesError(e) => (false, e.0),
        ModelError::UnusableValuesError(e) => (true, e.0),
    }
}

pub fn map_res<D>(r: Result<(), SolverError<SimModel<'_, D>, D>>) -> Res
where
    D: nalgebra::Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    match r {
        Ok(()) => Res::Ok,
        Err(SolverError::NonConvergenceError) => Res::NonConv,
        Err(SolverError::ModelInitialEvaluationError(s)) => Res::Initial(s),
        Err(SolverError::ModelEvaluationError(e)) => {
            let (unus, id) = merr(&e);
            Res::ModelEval { unus, id }
        }
        Err(SolverError::JacobianError(SolverInternalError::InvalidJacobianError(e))) => {
            let (unus, id) = merr(&e);
            Res::Jac { unus, id }
        }
        Err(SolverError::JacobianError(SolverInternalError::InvalidJacobianInverseError)) => Res::JacInv,
        Err(SolverError::FinalEvaluationError) => Res::Final,
    }
}

/// another kind of failure that says the same of itself
fn texts<D>(e: &SolverError<SimModel<'_, D>, D>) -> Option<&'static str>
where
    D: nalgebra::Dim,
    DefaultAllocator: Allocator<D> + Allocator<D, D>,
{
    let me = format!("{e}");
    let others: [(&'static str, SolverError<SimModel<'_, D>, D>); 3] = [
        ("non convergence", SolverError::NonConvergenceError),
        ("final evaluation error", SolverError::FinalEvaluationError),
        ("non invertible jacobian", SolverError::JacobianError(SolverInternalError::InvalidJacobianInverseError)),
    ];
    others.iter().find(|o| std::mem::discriminant(&o.1) != std::mem::discriminant(e) && format!("{}", o.1) == me).map(|o| o.0)
}

#[derive(Clone, Debug)]
pub struct Solve {
    pub res: Res,
    /// the text of an error is also the one of another failure
    pub text_of: Option<&'static str>,
    pub hist: Vec<Ev>,
    /// state of the model when the solver returned
    pub x: Vec<f64>,
    pub l: Vec<f64>,
    pub r: Vec<f64>,
    pub mem: f64,
    pub fired: Vec<usize>,
    pub log_begin: usize,
    pub log_end: usize,
    /// what the error says of itself (Display, Debug)
    pub text: Option<(String, String)>,
}

#[derive(Clone, Debug, Default)]
pub struct Session {
    pub solves: Vec<Solve>,
    /// content of the log when all is over
    pub log: Vec<u8>,
    /// the solver could not be built or its log not activated
    pub setup: Option<Res>,
    pub fs: sysim::FsStats,
    pub ops: Vec<String>,
    pub shrunk: Option<String>,
    /// log length right after activation
    pub log_start: usize,
}
impl Session {
    pub fn one(&self) -> &Solve {
        &self.solves[0]
    }
}

#[derive(Clone, Default)]
pub struct Opts<'a> {
    /// one solve per entry, each with a new model having these faults
    pub faults: Vec<&'a [Fault]>,
    pub world: Option<sysim::Handle>,
    /// activate the log (needs a world)
    pub log: bool,
    pub log_path: Option<String>,
    /// activate the log just before this solve instead of before the first
    pub log_late: Option<usize>,
    /// activate the log there just before this solve (after the last one, when there are fewer)
    pub again: Vec<(usize, String)>,
    /// the model of solve k is the one of another scenario of the same size
    pub others: Vec<Option<&'a Scenario>>,
    /// one model object for all the solves
    pub same_model: bool,
    /// number of the first solve
    pub base: u64,
    /// each resolution on a thread of its own, after the solver was moved there
    pub migrate: bool,
    /// the solver lives in the frame of the last resolution, and dies with it when the model panics
    pub own: bool,
    /// parameters of the solver made elsewhere
    pub params: Option<&'a RefCell<Option<SolverParameters>>>,
}

fn arm(w: &Option<sysim::Handle>, on: bool) {
    if let Some(h) = w {
        sysim::lock(h).armed = on;
    }
}

/// The caller waits for the thread, so what is handed over is used by one thread at a time.
struct Moved<F>(F);
unsafe impl<F> Send for Moved<F> {}
impl<F: FnOnce() -> R, R> Moved<F> {
    fn call(self) -> Moved<R> {
        Moved((self.0)())
    }
}
fn on_thread<R>(other: bool, f: impl FnOnce() -> R) -> R {
    if !other {
        return f();
    }
    let f = Moved(f);
    std::thread::scope(|s| s.spawn(move || f.call()).join().unwrap()).0
}

pub trait HookFactory {
    fn make<'b>(&'b self, solve: usize) -> Option<Box<dyn FnMut(usize) + 'b>>;
}
pub struct NoHook;
impl HookFactory for NoHook {
    fn make<'b>(&'b self, _: usize) -> Option<Box<dyn FnMut(usize) + 'b>> {
        None
    }
}

pub fn go<D, T>(sc: &Scenario, dim: D, iters: &Iteratives<'_, T>, rc: &ResidualsConfig<'_>, o: &Opts, hook: &dyn HookFactory) -> Session
where
    T: Iterative + std::fmt::Display + std::fmt::Debug,
    D: DimMin<D, Output = D>,
    DefaultAllocator: Allocator<D> + Allocator<U1, D> + Allocator<D, D>,
{
    let mut ses = Session::default();
    let enter = o.world.as_ref().map(sysim::enter);
    let path = o.log_path.clone().unwrap_or_else(|| LOG.to_string());
    let x0 = OVector::<f64, D>::from_fn_generic(dim, Const::<1>, |i, _| sc.x0[i].0);
    let rf = guarded(|| {
        let given = o.params.and_then(|p| p.borrow_mut().take());
        let dflt = sc.ways & WAY_DEFAULT_SOLVER != 0 && sc.tol.0 == DEFAULT_TOL && sc.max_iter == DEFAULT_ITER;
        let mut rf = if given.is_none() && dflt {
            nrf::solver::default_with_guess(x0, iters, rc, method_of(sc.method), sc.damping)
        } else {
            let mut p = given.unwrap_or_else(|| SolverParameters::new(sc.n(), sc.tol.0, sc.max_iter, method_of(sc.method), sc.damping));
            if sc.ways & WAY_COPY != 0 {
                p = SolverParameters::new(p.get_problem_size(), p.get_tolerance(), p.get_max_iter(), p.get_resolution_method(), p.get_damping());
            }
            RootFinder::new(p, x0, iters, rc)
        };
        if o.log && o.log_late.is_none() {
            rf.activate_debug(&path);
        }
        rf
    });
    let mut rf = match rf {
        Ok(rf) => rf,
        Err(e) => {
            ses.setup = Some(e);
            drop(enter);
            finish(&mut ses, o, &path);
            return ses;
        }
    };
    if let Some(h) = &o.world {
        let mut w = sysim::lock(h);
        ses.log_start = w.get(&path).map(|d| d.len()).unwrap_or(0);
        w.watch = path.clone();
        w.clock_mark = w.clock_values.len();
    }
    let mut rf = Some(rf);
    let activate = |rf: &mut RootFinder<'_, T, D>, ses: &mut Session, k: usize| {
        for (_, p) in o.again.iter().filter(|a| a.0 == k) {
            arm(&o.world, false);
            if let Err(e) = guarded(|| rf.activate_debug(p)) {
                ses.setup = Some(e);
            }
        }
    };
    let mut kept: Option<SimModel<'_, D>> = None;
    for (k, faults) in o.faults.iter().enumerate() {
        if o.log_late == Some(k) {
            if let Err(e) = guarded(|| rf.as_mut().unwrap().activate_debug(&path)) {
                ses.setup = Some(e);
                break;
            }
        }
        activate(rf.as_mut().unwrap(), &mut ses, k);
        if ses.setup.is_some() {
            break;
        }
        let who = o.others.get(k).copied().flatten().unwrap_or(sc);
        let mut m = match kept.take() {
            Some(m) if o.same_model => m,
            _ => SimModel::new(who, dim),
        };
        m.evals = 0;
        m.jacs = 0;
        m.faults = faults;
        m.world = o.world.clone();
        m.id_base = 10_000_000 * (k as u64 + o.base);
        m.on_call = hook.make(k);
        arm(&o.world, true);
        let log_begin = o.world.as_ref().map(|h| sysim::lock(h).get(&path).map(|d| d.len()).unwrap_or(0)).unwrap_or(0);
        let mut text = None;
        let mut text_of = None;
        let res = on_thread(o.migrate, || {
            let _g = if o.migrate { o.world.as_ref().map(sysim::enter) } else { None };
            let mut body = |rf: &mut RootFinder<'_, T, D>| {
                let r = rf.solve(&mut m);
                if let Err(e) = &r {
                    text = Some((format!("{e}"), format!("{e:?}")));
                    text_of = texts::<D>(r.as_ref().err().unwrap());
                }
                map_res(r)
            };
            if o.own && k + 1 == o.faults.len() {
                let own = rf.take();
                guarded(|| body(&mut own.unwrap()))
            } else {
                guarded(|| body(rf.as_mut().unwrap()))
            }
        });
        arm(&o.world, false);
        let res = res.unwrap_or_else(|e| e);
        let log_end = o.world.as_ref().map(|h| sysim::lock(h).get(&path).map(|d| d.len()).unwrap_or(0)).unwrap_or(0);
        m.on_call = None;
        ses.solves.push(Solve {
            res,
            x: m.inputs.iter().copied().collect(),
            l: m.left.iter().copied().collect(),
            r: m.right.iter().copied().collect(),
            mem: m.mem,
            fired: std::mem::take(&mut m.fired),
            hist: std::mem::take(&mut m.hist),
            log_begin,
            log_end,
            text,
            text_of,
        });
        kept = Some(m);
    }
    if let (None, Some(rf)) = (&ses.setup, rf.as_mut()) {
        activate(rf, &mut ses, o.faults.len());
    }
    drop(enter);
    finish(&mut ses, o, &path);
    let _g = o.world.as_ref().map(sysim::enter);
    drop(rf);
    ses
}

fn finish(ses: &mut Session, o: &Opts, path: &str) {
    if let Some(h) = &o.world {
        let w = sysim::lock(h);
        ses.log = w.get(path).unwrap_or(&[]).to_vec();
        ses.fs = w.stats.clone();
        ses.ops = w.ops.clone();
        ses.shrunk = w.shrunk.clone();
    }
}

/// Configuration objects of a scenario, shareable between solvers.
pub struct Config {
    pub plain: Vec<nrf::iteratives::IterativeParams>,
    pub fd: Vec<nrf::iteratives::IterativeParamsFD>,
    pub stop: Vec<nrf::residuals::NormalizationMethod>,
    pub upd: Vec<nrf::residuals::NormalizationMethod>,
    pub use_fd: bool,
}
impl Config {
    pub fn new(sc: &Scenario) -> Self {
        use nrf::iteratives::{default_vec_iteratives, default_vec_iteratives_fd, IterativeParams, IterativeParamsFD};
        use nrf::residuals::{default_vec_residuals, ResidualConfig};
        let n = sc.n();
        let way = |b: u8| sc.ways & b != 0;
        let copy = |p: &IterativeParams| {
            IterativeParams::new(p.get_max_step_abs(), p.get_max_step_rel(), p.get_min_value(), p.get_max_value())
        };
        let mut plain: Vec<IterativeParams> = sc.iters.iter().map(|p| p.plain()).collect();
        let mut fd: Vec<IterativeParamsFD> = if way(WAY_EXTEND) {
            sc.iters
                .iter()
                .map(|p| {
                    let q = p.fd();
                    let base = if way(WAY_COPY) { copy(q.get_iterative_params()) } else { p.plain() };
                    IterativeParamsFD::extend(base, q.get_dx_abs(), q.get_dx_rel(), q.get_perturbation_method())
                })
                .collect()
        } else {
            sc.iters.iter().map(|p| p.fd()).collect()
        };
        if way(WAY_COPY) {
            plain = plain.iter().map(copy).collect();
            fd = fd
                .iter()
                .map(|p| {
                    IterativeParamsFD::new(
                        p.get_max_step_abs(),
                        p.get_max_step_rel(),
                        p.get_min_value(),
                        p.get_max_value(),
                        p.get_dx_abs(),
                        p.get_dx_rel(),
                        p.get_perturbation_method(),
                    )
                })
                .collect();
        }
        if way(WAY_DEFAULT_VARS) {
            let free = IterP::free();
            let (a, b) = (default_vec_iteratives(n), default_vec_iteratives_fd(n));
            for (i, (p, q)) in a.into_iter().zip(b).enumerate() {
                if sc.iters[i] == free {
                    plain[i] = p;
                    fd[i] = q;
                }
            }
        }
        let (stop, upd) = if way(WAY_CONVERT) {
            let mut v = default_vec_residuals(n);
            for i in 0..n {
                if !(way(WAY_DEFAULT_VARS) && sc.stop[i] == Norm::Abs && sc.upd[i] == Norm::Abs) {
                    v[i] = ResidualConfig::new(sc.stop[i].real(), sc.upd[i].real());
                }
            }
            ResidualsConfig::convert_into_vecs(v)
        } else {
            (sc.stop.iter().map(|n| n.real()).collect(), sc.upd.iter().map(|n| n.real()).collect())
        };
        Config { plain, fd, stop, upd, use_fd: sc.fd_params || !sc.provided_jac }
    }
}

pub fn dispatch<T>(sc: &Scenario, iters: &Iteratives<'_, T>, rc: &ResidualsConfig<'_>, o: &Opts, hook: &dyn HookFactory) -> Session
where
    T: Iterative + std::fmt::Display + std::fmt::Debug,
{
    if !sc.fixed {
        return go(sc, Dyn(sc.n()), iters, rc, o, hook);
    }
    match sc.n() {
        1 => go(sc, Const::<1>, iters, rc, o, hook),
        2 => go(sc, Const::<2>, iters, rc, o, hook),
        3 => go(sc, Const::<3>, iters, rc, o, hook),
        4 => go(sc, Const::<4>, iters, rc, o, hook),
        5 => go(sc, Const::<5>, iters, rc, o, hook),
        _ => go(sc, Dyn(sc.n()), iters, rc, o, hook),
    }
}

pub fn run_with(sc: &Scenario, cfg: &Config, o: &Opts, hook: &dyn HookFactory) -> Session {
    let rc = ResidualsConfig::new(&cfg.stop, &cfg.upd);
    if cfg.use_fd {
        let it = Iteratives::new(&cfg.fd);
        dispatch(sc, &it, &rc, o, hook)
    } else {
        let it = Iteratives::new(&cfg.plain);
        dispatch(sc, &it, &rc, o, hook)
    }
}

pub fn run_session(sc: &Scenario, o: &Opts) -> Session {
    let cfg = Config::new(sc);
    run_with(sc, &cfg, o, &NoHook)
}

/// one resolution without log
pub fn run_plain(sc: &Scenario) -> Session {
    run_session(sc, &Opts { faults: vec![&sc.faults], ..Default::default() })
}
/// one resolution with its log on a simulated disk
pub fn run_logged(sc: &Scenario, plan: &sysim::DiskPlan) -> Session {
    let w = sysim::new_world(plan.clone(), None);
    run_session(sc, &Opts { faults: vec![&sc.faults], world: Some(w), log: true, ..Default::default() })
}
