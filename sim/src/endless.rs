//! Resolutions whose budget is out of the reach of small counters: more iterations than fit sixteen bits.
//! They record nothing, only count. Used by C02, C03, C05 and C25.

use crate::check::*;
use crate::exec::*;
use crate::problem::Class;
use crate::resource::live;
use crate::rng::*;
use crate::scen::*;
use crate::simmodel::*;
use nalgebra::{allocator::Allocator, Const, DefaultAllocator, DimMin, Dyn, OVector, U1};
use newton_rootfinder as nrf;
use nrf::iteratives::{Iterative, Iteratives};
use nrf::residuals::ResidualsConfig;
use nrf::solver::{RootFinder, SolverParameters};
use std::cell::RefCell;

pub fn gen(r: &mut Rng) -> Case {
    let m = Mix { classes: vec![(Class::Mild, 3.0), (Class::NoRoot, 1.0), (Class::General, 1.0)], max_n: 2, wide: 0.0, long: 0.0, memory: 0.2, odd_dx: 0.0, ..Mix::default() };
    let mut sc = gen_scenario(r, &m);
    // no iterate is ever good enough
    sc.tol = crate::problem::F(-1.0);
    sc.max_iter = 65_536 + r.below(3) * 4_000 + r.below(900);
    if r.chance(0.6) {
        sc.method = r.below(2);
    }
    sc.ways = 0;
    sc.fixed = sc.fixed && sc.n() <= 2;
    Case::Endless { sc }
}

#[inline(never)]
fn stack() -> usize {
    let here = 0u8;
    std::hint::black_box(&here as *const u8) as usize
}

pub const SAMPLES: usize = 4096;

struct Seen {
    res: Res,
    evals: usize,
    jacs: usize,
    /// heap and stack, every so many evaluations
    heap: Vec<i64>,
    stack: Vec<usize>,
}

fn go<D, T>(sc: &Scenario, dim: D, iters: &Iteratives<'_, T>, rc: &ResidualsConfig<'_>) -> Seen
where
    T: Iterative + std::fmt::Display + std::fmt::Debug,
    D: DimMin<D, Output = D>,
    DefaultAllocator: Allocator<D> + Allocator<U1, D> + Allocator<D, D>,
{
    let stride = sc.eval_budget() / SAMPLES + 1;
    let meter = RefCell::new((Vec::with_capacity(2 * SAMPLES), Vec::with_capacity(2 * SAMPLES)));
    let x0 = OVector::<f64, D>::from_fn_generic(dim, Const::<1>, |i, _| sc.x0[i].0);
    let mut model = SimModel::new(sc, dim);
    model.quiet = true;
    model.on_call = Some(Box::new(|k| {
        if k % stride == 0 {
            let mut m = meter.borrow_mut();
            if m.0.len() < 2 * SAMPLES {
                m.0.push(live());
                m.1.push(stack());
            }
        }
    }));
    let res = guarded(|| {
        let p = SolverParameters::new(sc.n(), sc.tol.0, sc.max_iter, method_of(sc.method), sc.damping);
        map_res(RootFinder::new(p, x0, iters, rc).solve(&mut model))
    })
    .unwrap_or_else(|e| e);
    let (evals, jacs) = (model.evals, model.jacs);
    drop(model);
    let (heap, stack) = meter.into_inner();
    Seen { res, evals, jacs, heap, stack }
}

fn on<T>(sc: &Scenario, it: &Iteratives<'_, T>, rc: &ResidualsConfig<'_>) -> Seen
where
    T: Iterative + std::fmt::Display + std::fmt::Debug,
{
    match (sc.fixed, sc.n()) {
        (true, 1) => go(sc, Const::<1>, it, rc),
        (true, 2) => go(sc, Const::<2>, it, rc),
        _ => go(sc, Dyn(sc.n()), it, rc),
    }
}

pub fn run(id: &str, sc: &Scenario) -> Outcome {
    let mut o = Outcome::default();
    let cfg = Config::new(sc);
    let rc = ResidualsConfig::new(&cfg.stop, &cfg.upd);
    let s = if cfg.use_fd { on(sc, &Iteratives::new(&cfg.fd), &rc) } else { on(sc, &Iteratives::new(&cfg.plain), &rc) };
    o.count("model calls", (s.evals + s.jacs) as u64);
    o.count(&format!("ended {}", crate::core::res_name(&s.res)), 1);
    o.count("resolutions with a budget beyond 65535", 1);
    o.nontrivial = s.evals > 65_536;
    o.sig = hash_bytes(hash_bytes(99, scenario_sig(sc).as_bytes()), format!("{} {}", s.evals, s.res.kind()).as_bytes());
    o.digest = hash_bytes(o.sig, format!("{} {:?}", s.jacs, s.res).as_bytes());
    o.trace = vec![format!("{} evaluations, {} jacobians asked for, {}", s.evals, s.jacs, s.res.short())];
    let (m, n) = (sc.max_iter, sc.n());
    match id {
        "C02" => match &s.res {
            Res::NonConv => {
                // without an error of the model nor of its jacobian, only a spent budget ends it
                if s.evals < 1 + m {
                    o.fail("budget-not-spent", format!("not converged after {} evaluations, with a budget of {m} iterations", s.evals));
                }
            }
            Res::JacInv => (),
            Res::Panic(_) | Res::Hang | Res::Crash => (),
            r => o.fail("wrong-error", format!("{} for a resolution that cannot meet its tolerance", r.short())),
        },
        "C03" => match &s.res {
            Res::Panic(_) | Res::Crash => o.fail("panic", s.res.short()),
            Res::Hang => o.fail("hang", format!("more than {} calls with a budget of {m} iterations", s.evals - 1)),
            _ => {
                let most = 1 + m * (2 + if sc.provided_jac { 0 } else { n });
                if s.evals > most || s.jacs > m {
                    o.fail("budget", format!("{} evaluations and {} jacobians with a budget of {m} iterations", s.evals, s.jacs));
                }
            }
        },
        "C05" => {
            let per = if sc.provided_jac { 0 } else { n };
            let least = 1 + m;
            let most = 1 + m * (1 + sc.damping as usize + per);
            if s.evals > most || s.jacs > m || (s.res == Res::NonConv && s.evals < least) {
                o.fail("calls", format!("{} evaluations and {} jacobians with a budget of {m} iterations", s.evals, s.jacs));
            }
            if s.res == Res::NonConv && !sc.damping {
                let jacs = match sc.method {
                    0 => m,
                    _ => 1,
                };
                let want = 1 + m + if sc.provided_jac { 0 } else { n * jacs };
                if s.evals != want || (sc.provided_jac && s.jacs != jacs) {
                    o.fail("calls", format!("{} evaluations and {} jacobians, {want} and {jacs} are needed", s.evals, s.jacs));
                }
            }
        }
        _ => {
            let q = s.heap.len() / 4;
            if q >= 100 {
                let (a, b) = (s.heap[..q].iter().max().unwrap(), s.heap[3 * q..].iter().max().unwrap());
                if b - a > 1024 + 64 * (n * n) as i64 {
                    o.fail("grows-during", format!("the heap grows by {} bytes from the first to the last quarter of a resolution of {} evaluations", b - a, s.evals));
                }
                // the stack grows downwards
                let (a, b) = (s.stack[..q].iter().min().unwrap(), s.stack[3 * q..].iter().min().unwrap());
                if *b + 65_536 < *a {
                    o.fail("stack", format!("the stack grows by {} bytes from the first to the last quarter of a resolution of {} evaluations", a - b, s.evals));
                }
            }
        }
    }
    o
}
