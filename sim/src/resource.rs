//! C25: a resolution holds on to nothing. Descriptors of the simulated disk and bytes of the heap are counted
//! over long resolutions, over many resolutions, over many solvers and over many readings of a configuration.

use crate::check::*;
use crate::core::res_name;
use crate::exec::*;
use crate::problem::F;
use crate::rng::*;
use crate::scen::*;
use crate::simmodel::*;
use crate::sysim::*;
use crate::xml::XmlCase;
use nalgebra::{allocator::Allocator, Const, DMatrix, DVector, DefaultAllocator, DimMin, Dyn, OVector, U1};
use newton_rootfinder as nrf;
use nrf::iteratives::{Iterative, Iteratives};
use nrf::residuals::ResidualsConfig;
use nrf::solver::{RootFinder, SolverParameters};
use serde::{Deserialize, Serialize};
use std::alloc::{GlobalAlloc, Layout, System};
use std::cell::{Cell, RefCell};

thread_local! {
    static LIVE: Cell<i64> = const { Cell::new(0) };
    static OFF: Cell<u32> = const { Cell::new(0) };
}
/// counts the bytes of the heap, by thread
pub struct Counting;
fn add(n: i64) {
    let _ = OFF.try_with(|o| {
        if o.get() == 0 {
            let _ = LIVE.try_with(|l| l.set(l.get() + n));
        }
    });
}
unsafe impl GlobalAlloc for Counting {
    unsafe fn alloc(&self, l: Layout) -> *mut u8 {
        let p = System.alloc(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn alloc_zeroed(&self, l: Layout) -> *mut u8 {
        let p = System.alloc_zeroed(l);
        if !p.is_null() {
            add(l.size() as i64);
        }
        p
    }
    unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
        System.dealloc(p, l);
        add(-(l.size() as i64));
    }
    unsafe fn realloc(&self, p: *mut u8, l: Layout, n: usize) -> *mut u8 {
        let q = System.realloc(p, l, n);
        if !q.is_null() {
            add(n as i64 - l.size() as i64);
        }
        q
    }
}
pub fn live() -> i64 {
    LIVE.with(|l| l.get())
}
/// what the simulator itself keeps is not counted
pub struct Uncounted;
pub fn uncounted() -> Uncounted {
    let _ = OFF.try_with(|o| o.set(o.get() + 1));
    Uncounted
}
impl Drop for Uncounted {
    fn drop(&mut self) {
        let _ = OFF.try_with(|o| o.set(o.get() - 1));
    }
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub enum Shape {
    /// one resolution of many iterations
    Long,
    /// solvers made and dropped, each used for several resolutions
    Many { solvers: usize, cycles: usize },
    /// a configuration file read again and again
    File { case: Box<XmlCase>, times: usize },
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct ResourceCase {
    pub sc: Scenario,
    pub shape: Shape,
    /// the faults of the resolutions of a cycle
    pub cycle: Vec<Vec<Fault>>,
    pub log: bool,
    /// the log is activated again before each cycle
    pub again: bool,
    /// the crate's closure adapter instead of a model written by hand
    pub adapter: bool,
    pub plan: DiskPlan,
}

fn fault(r: &mut Rng, n: usize, jac: bool) -> FaultKind {
    use FaultKind::*;
    let i = r.below(n);
    if jac {
        return [Inaccurate, Unusable, JacZeroRow(i), JacNan(i, 0), Panic][r.weighted(&[1.0, 2.0, 1.0, 0.5, 1.5])].clone();
    }
    [Inaccurate, Unusable, UnusableNan, NanAt(i), Panic][r.weighted(&[2.0, 2.0, 0.7, 0.7, 2.0])].clone()
}

fn gen(_: &str, seed: u64, idx: u64) -> Case {
    let mut r = Rng::from_parts(seed, "C25", idx);
    if idx % 256 == 200 {
        return crate::endless::gen(&mut r);
    }
    let long = r.chance(0.25);
    let m = Mix { max_n: 3, wide: 0.0, long: 0.0, max_iter: (0, 12), damping: 0.4, ..Mix::default() };
    let mut sc = gen_scenario(&mut r, &m);
    sc.fixed = sc.fixed && sc.n() <= 3;
    sc.ways = 0;
    let adapter = !sc.fixed && r.chance(0.2);
    if adapter {
        sc.mem = Mem::None;
    }
    let log = r.chance(0.6);
    let again = log && r.chance(0.3);
    let mut plan = DiskPlan::default();
    let mut cycle = vec![];
    let shape = if long {
        // no iterate is ever good enough
        sc.tol = F(-1.0);
        sc.max_iter = 600 + r.below(300);
        cycle.push(if adapter { vec![] } else { (0..r.below(4)).map(|_| Fault { at: r.below(400), jac: false, kind: FaultKind::Inaccurate }).collect() });
        Shape::Long
    } else if r.chance(0.2) {
        let case = match (crate::check::all_of("C16").gen)("C16", seed ^ 0x5eed, idx) {
            Case::Xml(c) => c,
            _ => unreachable!(),
        };
        Shape::File { case: Box::new(case), times: 16 }
    } else {
        for _ in 0..1 + r.below(3) {
            let mut v = vec![];
            for _ in 0..r.weighted(&[1.0, 2.0, 1.0]) {
                let jac = sc.provided_jac && r.chance(0.4);
                let at = r.below(if jac { 3 } else { 6 + 2 * sc.n() });
                if !v.iter().any(|f: &Fault| f.at == at && f.jac == jac) {
                    v.push(Fault { at, jac, kind: fault(&mut r, sc.n(), jac) });
                }
            }
            cycle.push(if adapter { vec![] } else { v });
        }
        if log && r.chance(0.4) {
            for _ in 0..1 + r.below(4) {
                let e = *r.pick(&[libc::EIO, libc::ENOSPC, libc::EDQUOT]);
                plan.faults.push(DiskFault { class: OpClass::Write, at: 1 + r.below(4000), kind: DiskFaultKind::Err(e) });
                plan.faults.push(DiskFault { class: OpClass::Open, at: 1 + r.below(4000), kind: DiskFaultKind::Err(libc::EMFILE) });
                plan.faults.push(DiskFault { class: OpClass::Write, at: r.below(4000), kind: DiskFaultKind::Short(1 + r.below(60)) });
                plan.faults.push(DiskFault { class: OpClass::Write, at: r.below(4000), kind: DiskFaultKind::Eintr(1) });
            }
        }
        Shape::Many { solvers: 5, cycles: 12 }
    };
    Case::Resource(ResourceCase { sc, shape, cycle, log, again, adapter, plan })
}

#[derive(Default)]
struct Meter {
    /// bytes at each evaluation of the first resolution
    during: Vec<i64>,
    /// bytes after each cycle of each solver
    after: Vec<Vec<i64>>,
    /// bytes when each solver was dropped
    dropped: Vec<i64>,
    /// descriptors left open
    left: Vec<usize>,
    results: Vec<(u8, &'static str)>,
    fired: Vec<usize>,
    calls: u64,
}

/// the text of the last panic belongs to the simulator
fn forget_panic() {
    LAST_PANIC.with(|p| *p.borrow_mut() = String::new());
}

const SAMPLES: usize = 20_000;

fn solve_one<D, T>(c: &ResourceCase, dim: D, rf: &mut RootFinder<'_, T, D>, faults: &[Fault], m: &mut Meter, w: &Option<Handle>, first: bool)
where
    T: Iterative + std::fmt::Display + std::fmt::Debug,
    D: DimMin<D, Output = D>,
    DefaultAllocator: Allocator<D> + Allocator<U1, D> + Allocator<D, D>,
{
    let during = RefCell::new(std::mem::take(&mut m.during));
    let mut model = SimModel::new(&c.sc, dim);
    model.quiet = true;
    model.id_base = 1000 * m.results.len() as u64;
    model.faults = faults;
    model.world = w.clone();
    if first {
        model.on_call = Some(Box::new(|_| {
            let mut d = during.borrow_mut();
            if d.len() < SAMPLES {
                d.push(live());
            }
        }));
    }
    let res = guarded(|| map_res(rf.solve(&mut model))).unwrap_or_else(|e| e);
    m.calls += model.evals as u64;
    {
        let _u = uncounted();
        m.results.push((res.kind(), res_name(&res)));
        m.fired.extend(&model.fired);
    }
    drop(model);
    m.during = during.into_inner();
}

fn solve_adapter<T>(c: &ResourceCase, rf: &mut RootFinder<'_, T, Dyn>, m: &mut Meter, first: bool)
where
    T: Iterative + std::fmt::Display + std::fmt::Debug,
{
    let n = c.sc.n();
    let during = RefCell::new(std::mem::take(&mut m.during));
    let count = Cell::new(0u64);
    let limit = (4 * c.sc.eval_budget() + 40) as u64;
    let mut f = |x: &DVector<f64>| {
        count.set(count.get() + 1);
        if count.get() > limit {
            std::panic::panic_any(BudgetExceeded);
        }
        let mut d = during.borrow_mut();
        if first && d.len() < SAMPLES {
            d.push(live());
        }
        let (l, r) = c.sc.problem.eval(x.as_slice(), 0.0);
        DVector::from_fn(n, |i, _| l[i] - r[i])
    };
    let mut jac = |x: &DVector<f64>| {
        let (l, r) = c.sc.problem.jac(x.as_slice());
        DMatrix::from_fn(n, n, |i, j| l[i][j] - r[i][j])
    };
    let res = guarded(|| {
        let r = if c.sc.provided_jac {
            rf.solve(&mut nrf::model::UserModelFromClosureAndJacobian::new(n, &mut f, &mut jac)).is_ok()
        } else {
            rf.solve(&mut nrf::model::UserModelFromClosure::new(n, &mut f)).is_ok()
        };
        if r {
            Res::Ok
        } else {
            Res::NonConv
        }
    })
    .unwrap_or_else(|e| e);
    m.calls += count.get();
    {
        let _u = uncounted();
        m.results.push((res.kind(), res_name(&res)));
    }
    m.during = during.into_inner();
}

fn meter<D, T>(c: &ResourceCase, dim: D, iters: &Iteratives<'_, T>, rc: &ResidualsConfig<'_>, w: &Option<Handle>, adapt: &dyn Fn(&mut RootFinder<'_, T, D>, &mut Meter, bool) -> bool) -> Meter
where
    T: Iterative + std::fmt::Display + std::fmt::Debug,
    D: DimMin<D, Output = D>,
    DefaultAllocator: Allocator<D> + Allocator<U1, D> + Allocator<D, D>,
{
    let sc = &c.sc;
    let (solvers, cycles) = match c.shape {
        Shape::Many { solvers, cycles } => (solvers, cycles),
        _ => (1, 1),
    };
    let mut m = Meter::default();
    m.during.reserve(SAMPLES);
    m.dropped.reserve(solvers);
    m.left.reserve(solvers);
    m.after = (0..solvers).map(|_| Vec::with_capacity(cycles)).collect();
    let _g = w.as_ref().map(enter);
    for p in 0..solvers {
        let x0 = OVector::<f64, D>::from_fn_generic(dim, Const::<1>, |i, _| sc.x0[i].0);
        let made = guarded(|| {
            let q = SolverParameters::new(sc.n(), sc.tol.0, sc.max_iter, method_of(sc.method), sc.damping);
            let mut rf = RootFinder::new(q, x0, iters, rc);
            if c.log {
                rf.activate_debug(LOG);
            }
            rf
        });
        if let Ok(mut rf) = made {
            for k in 0..cycles {
                if c.again && k > 0 {
                    let _ = guarded(|| rf.activate_debug(LOG));
                }
                for (i, faults) in c.cycle.iter().enumerate() {
                    let first = p + k + i == 0;
                    if !adapt(&mut rf, &mut m, first) {
                        solve_one(c, dim, &mut rf, faults, &mut m, w, first);
                    }
                }
                forget_panic();
                m.after[p].push(live());
            }
            drop(rf);
        }
        forget_panic();
        m.dropped.push(live());
        m.left.push(w.as_ref().map(|h| lock(h).open_files()).unwrap_or(0));
    }
    m
}

fn run_many<T>(c: &ResourceCase, iters: &Iteratives<'_, T>, rc: &ResidualsConfig<'_>, w: &Option<Handle>) -> Meter
where
    T: Iterative + std::fmt::Display + std::fmt::Debug,
{
    match (c.sc.fixed, c.sc.n()) {
        (true, 1) => meter(c, Const::<1>, iters, rc, w, &|_, _, _| false),
        (true, 2) => meter(c, Const::<2>, iters, rc, w, &|_, _, _| false),
        (true, 3) => meter(c, Const::<3>, iters, rc, w, &|_, _, _| false),
        _ => meter(c, Dyn(c.sc.n()), iters, rc, w, &|rf, m, first| {
            if c.adapter {
                solve_adapter(c, rf, m, first);
            }
            c.adapter
        }),
    }
}

/// descriptors that one program may have open at once
const OPEN: usize = 8;
const SLACK: i64 = 256;

fn run(_: &str, c: &Case) -> Outcome {
    let c = match c {
        Case::Resource(c) => c,
        Case::Endless { sc } => return crate::endless::run("C25", sc),
        _ => unreachable!(),
    };
    let mut o = Outcome::default();
    let sc = &c.sc;
    if let Shape::File { case, times } = &c.shape {
        return run_file(o, case, *times);
    }
    let w = if c.log {
        let w = new_world(c.plan.clone(), None);
        {
            let mut g = lock(&w);
            g.set_clock(ClockPlan { start_ns: 1_700_000_000_000_000_000, step_ns: 0, jumps: vec![] });
            g.quiet = true;
        }
        Some(w)
    } else {
        None
    };
    let cfg = Config::new(sc);
    let rc = ResidualsConfig::new(&cfg.stop, &cfg.upd);
    let m = if cfg.use_fd { run_many(c, &Iteratives::new(&cfg.fd), &rc, &w) } else { run_many(c, &Iteratives::new(&cfg.plain), &rc, &w) };
    let all: Vec<&Fault> = c.cycle.iter().flatten().collect();
    if !all.is_empty() {
        o.count("fault model (all kinds)", m.fired.len() as u64);
    }
    if let Some(w) = &w {
        let g = lock(w);
        o.count("fault disk:interrupted", g.stats.eintr);
        o.count("fault disk:short", g.stats.short);
        o.count("fault disk:error", g.stats.errors);
        o.count("disk operations", (g.stats.opens + g.stats.writes) as u64);
    }
    o.count("model calls", m.calls);
    o.count("resolutions", m.results.len() as u64);
    o.count("solvers", m.dropped.len() as u64);
    for r in &m.results {
        o.count(&format!("ended {}", r.1), 1);
    }
    let many = matches!(c.shape, Shape::Many { .. });
    o.nontrivial = if many { m.results.len() > 20 } else { m.during.len() >= 400 };
    o.sig = hash_bytes(
        hash_bytes(25, scenario_sig(sc).as_bytes()),
        format!("{many} {} {} {} {} {:?}", c.log, c.again, c.adapter, c.plan.faults.len(), m.results.iter().take(6).map(|r| r.0).collect::<Vec<_>>()).as_bytes(),
    );
    o.digest = hash_bytes(o.sig, format!("{} {:?}", m.calls, m.results.iter().map(|r| r.0).collect::<Vec<_>>()).as_bytes());
    if let Some(w) = &w {
        let peak = lock(w).peak_files;
        if peak > OPEN {
            o.fail("descriptors", format!("{peak} files are open at once"));
        }
        if let Some(p) = m.left.iter().position(|l| *l > 0) {
            o.fail("descriptor-left", format!("{} files are open after the solver {p} was dropped", m.left[p]));
        }
    }
    if m.during.len() >= 400 {
        o.count("resolutions of more than 400 evaluations", 1);
        let q = m.during.len() / 4;
        let a = m.during[..q].iter().max().unwrap();
        let b = m.during[3 * q..].iter().max().unwrap();
        if b - a > 1024 + 64 * (sc.n() * sc.n()) as i64 {
            o.fail("grows-during", format!("the heap grows by {} bytes from the first to the last quarter of a resolution of {} evaluations", b - a, m.during.len()));
        }
    }
    // a buffer may grow once where failures of the disk cut the first resolutions short: what is kept must
    // grow in both halves to be held against the crate
    let grows = |v: &[i64]| {
        let (a, b, z) = (v[1], v[v.len() / 2], v[v.len() - 1]);
        if z - a > SLACK && (c.plan.faults.is_empty() || (b - a > SLACK / 2 && z - b > SLACK / 2)) {
            Some(z - a)
        } else {
            None
        }
    };
    for (p, v) in m.after.iter().enumerate() {
        if let Some(d) = (v.len() > 2).then(|| grows(v)).flatten() {
            o.fail("grows-between", format!("the heap grows by {d} bytes over {} times the same {} resolutions with the solver {p}", v.len() - 2, c.cycle.len()));
        }
    }
    if let Some(d) = (m.dropped.len() > 2).then(|| grows(&m.dropped)).flatten() {
        o.fail("kept", format!("the heap grows by {d} bytes over {} solvers made, used and dropped", m.dropped.len() - 2));
    }
    o
}

fn run_file(mut o: Outcome, case: &XmlCase, times: usize) -> Outcome {
    let (bytes, _, _) = crate::xml::text(case);
    let w = new_world(DiskPlan::default(), None);
    {
        let mut g = lock(&w);
        g.quiet = true;
        g.put(crate::xml::PATH, &bytes);
    }
    let mut levels = Vec::with_capacity(times);
    let mut left = Vec::with_capacity(times);
    let mut refused = 0;
    let _g = enter(&w);
    for _ in 0..times {
        {
            let _u = uncounted();
            let mut g = lock(&w);
            // what is open stays open
            g.set_faults(case.disk.clone());
        }
        if crate::xml::read(case.fd).is_err() {
            refused += 1;
        }
        forget_panic();
        levels.push(live());
        left.push(lock(&w).open_files());
        let g = lock(&w);
        o.count("fault disk:interrupted", g.stats.eintr);
        o.count("fault disk:short", g.stats.short);
        o.count("fault disk:error", g.stats.errors);
    }
    o.count("fault damaged file", !case.edits.is_empty() as u64);
    o.count("files read", times as u64);
    o.count("files refused", refused);
    o.nontrivial = !bytes.is_empty();
    o.sig = hash_bytes(2500, &bytes);
    o.digest = hash_bytes(o.sig, &[refused as u8]);
    if let Some(k) = left.iter().position(|l| *l > 0) {
        o.fail("descriptor-left", format!("{} files are open after the file was read {} times", left[k], k + 1));
    }
    let d = levels[times - 1] - levels[2.min(times - 1)];
    if d > SLACK {
        o.fail("kept", format!("the heap grows by {d} bytes over {} readings of the same file", times - 3));
    }
    o
}

fn shrink(c: &Case) -> Vec<Case> {
    let c = match c {
        Case::Resource(c) => c,
        c => return shrink_solve(c),
    };
    let mut v = vec![];
    let mut push = |c: ResourceCase| v.push(Case::Resource(c));
    if let Shape::File { case, times } = &c.shape {
        if *times > 6 {
            push(ResourceCase { shape: Shape::File { case: case.clone(), times: times - 1 }, ..c.clone() });
        }
        for i in 0..case.edits.len() {
            let mut d = case.clone();
            d.edits.remove(i);
            push(ResourceCase { shape: Shape::File { case: d, times: *times }, ..c.clone() });
        }
        if case.disk != DiskPlan::default() {
            let mut d = case.clone();
            d.disk = DiskPlan::default();
            push(ResourceCase { shape: Shape::File { case: d, times: *times }, ..c.clone() });
        }
        return v;
    }
    if c.plan != DiskPlan::default() {
        push(ResourceCase { plan: DiskPlan::default(), ..c.clone() });
    }
    if c.log {
        push(ResourceCase { log: false, again: false, plan: DiskPlan::default(), ..c.clone() });
    }
    if c.again {
        push(ResourceCase { again: false, ..c.clone() });
    }
    if c.adapter {
        push(ResourceCase { adapter: false, ..c.clone() });
    }
    if c.cycle.len() > 1 {
        for i in 0..c.cycle.len() {
            let mut d = c.clone();
            d.cycle.remove(i);
            push(d);
        }
    }
    for i in 0..c.cycle.len() {
        for k in 0..c.cycle[i].len() {
            let mut d = c.clone();
            d.cycle[i].remove(k);
            push(d);
        }
    }
    if let Shape::Many { solvers, cycles } = c.shape {
        if solvers > 3 {
            push(ResourceCase { shape: Shape::Many { solvers: solvers - 1, cycles }, ..c.clone() });
        }
        if cycles > 3 {
            push(ResourceCase { shape: Shape::Many { solvers, cycles: cycles - 1 }, ..c.clone() });
        }
    }
    for sc in shrink_scenario(&c.sc) {
        if sc.n() <= 3 {
            push(ResourceCase { sc, ..c.clone() });
        }
    }
    v
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C25",
        quick: 8_000,
        thorough: 600_000,
        hang: true,
        rule: "a resolution of 600-900 iterations, or 5 solvers made and dropped with 12 cycles of 1-3 resolutions each (ended by errors, deaths of the model, disk failures, or well; the log activated again), or a configuration file (intact or damaged, with reading errors) read 16 times; the bytes of the heap and the open files are compared between equal moments; non-trivial: at least 400 evaluations in a row, more than 20 resolutions, or a file",
        real: "RootFinder, SolverLog, the closure adapters, the XML parser, std::fs, Iteratives, ResidualsConfig, nalgebra, minidom",
        stub: "the kernel's file system (in-memory disk with a fault plan); the heap counts what the code under test and the model hold; the user's models",
        gen,
        run,
        shrink,
    }]
}
