//! C15: resolutions are deterministic and independent of each other. Several resolutions, each on a thread of its own,
//! are interleaved by a scheduler that lets exactly one of them run at a time and switches at the calls of the models, of
//! the parameters of the variables and of the disk; or they are nested in each other's model evaluations.

use crate::check::*;
use crate::core::place_faults;
use crate::exec::*;
use crate::problem::*;
use crate::rng::*;
use crate::scen::*;
use crate::simmodel::*;
use crate::sysim::*;
use newton_rootfinder as nrf;
use nrf::iteratives::{Iterative, IterativeParams, IterativeParamsFD, Iteratives};
use nrf::residuals::ResidualsConfig;
use serde::{Deserialize, Serialize};
use std::cell::RefCell;
use std::fmt;
use std::sync::{Arc, Condvar, Mutex};

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Task {
    pub sc: Scenario,
    /// faults of the resolutions that follow the first one, with the same solver
    pub again: Vec<Vec<Fault>>,
    pub log: bool,
}

#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct InterCase {
    pub tasks: Vec<Task>,
    /// the configuration objects of the first task serve all
    pub shared: bool,
    /// also switch inside the computations of the parameters of the variables
    pub fine: bool,
    /// what happens at each switching point: 255 goes on, else the number (modulo) of a task that is not finished
    pub schedule: Vec<u8>,
    /// instead: the evaluations of task i during which task i+1 is run from start to end
    pub nest: Option<Vec<Vec<usize>>>,
    pub disk: DiskPlan,
}

// ---- scheduler ----
struct Turn {
    current: usize,
    alive: Vec<bool>,
    pos: usize,
    switches: u64,
    points: u64,
    trace: u64,
}
pub struct Baton {
    st: Mutex<Turn>,
    cv: Vec<Condvar>,
    schedule: Vec<u8>,
}
impl Baton {
    fn pick(&self, t: &mut Turn, me: usize) -> usize {
        let alive: Vec<usize> = (0..t.alive.len()).filter(|i| t.alive[*i]).collect();
        let b = self.schedule.get(t.pos).copied().unwrap_or(255);
        t.pos += 1;
        if alive.is_empty() {
            return me;
        }
        let stay = b == 255 && t.alive[me];
        let next = if stay { me } else { alive[b as usize % alive.len()] };
        if next != me {
            t.switches += 1;
        }
        t.trace = mix(t.trace ^ (next as u64 + 1));
        next
    }
    fn step(&self, me: usize, dead: bool) {
        let mut t = self.st.lock().unwrap_or_else(|e| e.into_inner());
        if dead {
            t.alive[me] = false;
        }
        t.points += 1;
        let next = self.pick(&mut t, me);
        if next != me {
            t.current = next;
            self.cv[next].notify_one();
            if !dead {
                while t.current != me {
                    t = self.cv[me].wait(t).unwrap_or_else(|e| e.into_inner());
                }
            }
        }
    }
    fn start(&self, me: usize) {
        let mut t = self.st.lock().unwrap_or_else(|e| e.into_inner());
        while t.current != me {
            t = self.cv[me].wait(t).unwrap_or_else(|e| e.into_inner());
        }
    }
}
thread_local! {
    static ME: RefCell<Option<(usize, Arc<Baton>)>> = const { RefCell::new(None) };
}
fn turn() {
    let me = ME.try_with(|m| m.try_borrow().ok().and_then(|m| m.clone())).ok().flatten();
    if let Some((i, b)) = me {
        b.step(i, false);
    }
}
struct Here;
impl Yielder for Here {
    fn yield_now(&self, _: &'static str) {
        turn();
    }
}
struct Finish(usize, Arc<Baton>);
impl Drop for Finish {
    fn drop(&mut self) {
        ME.with(|m| *m.borrow_mut() = None);
        self.1.step(self.0, true);
    }
}

// ---- parameters of the variables which are switching points ----
struct P<T> {
    p: T,
    fine: bool,
}
impl<T: Iterative> Iterative for P<T> {
    fn step_limitation(&self, value: f64, raw: f64) -> f64 {
        if self.fine {
            turn();
        }
        self.p.step_limitation(value, raw)
    }
    fn compute_perturbation(&self, x: f64) -> f64 {
        if self.fine {
            turn();
        }
        self.p.compute_perturbation(x)
    }
    fn with_finite_diff(&self) -> bool {
        self.p.with_finite_diff()
    }
}
impl<T: fmt::Display> fmt::Display for P<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        if self.fine {
            turn();
        }
        self.p.fmt(f)
    }
}
impl<T: fmt::Debug> fmt::Debug for P<T> {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        self.p.fmt(f)
    }
}

struct Data {
    plain: Vec<P<IterativeParams>>,
    fd: Vec<P<IterativeParamsFD>>,
    cfg: Config,
}
enum It<'a> {
    Plain(Iteratives<'a, P<IterativeParams>>),
    Fd(Iteratives<'a, P<IterativeParamsFD>>),
}
struct Shared2<'a> {
    it: It<'a>,
    rc: ResidualsConfig<'a>,
}
/// The scheduler lets one thread run at a time and every switch synchronises, so sharing is sound whatever the type.
struct OneAtATime<T>(T);
unsafe impl<T> Sync for OneAtATime<T> {}
unsafe impl<T> Send for OneAtATime<T> {}
impl<T> OneAtATime<T> {
    fn get(&self) -> &T {
        &self.0
    }
}

impl Data {
    fn new(sc: &Scenario, fine: bool) -> Self {
        let cfg = Config::new(sc);
        Data {
            plain: sc.iters.iter().map(|p| P { p: p.plain(), fine }).collect(),
            fd: sc.iters.iter().map(|p| P { p: p.fd(), fine }).collect(),
            cfg,
        }
    }
    fn objects(&self) -> Shared2<'_> {
        Shared2 {
            it: if self.cfg.use_fd { It::Fd(Iteratives::new(&self.fd)) } else { It::Plain(Iteratives::new(&self.plain)) },
            rc: ResidualsConfig::new(&self.cfg.stop, &self.cfg.upd),
        }
    }
}

fn path(i: usize) -> String {
    format!("/sim/log{i}.txt")
}
fn run_task(t: &Task, i: usize, ob: &Shared2, w: &Handle, hook: &dyn HookFactory) -> Session {
    run_task_on(t, i, ob, w, hook, false)
}
fn run_task_on(t: &Task, i: usize, ob: &Shared2, w: &Handle, hook: &dyn HookFactory, migrate: bool) -> Session {
    let mut faults: Vec<&[Fault]> = vec![&t.sc.faults];
    faults.extend(t.again.iter().map(|f| &f[..]));
    let o = Opts { faults, world: Some(w.clone()), log: t.log, log_path: Some(path(i)), migrate, ..Default::default() };
    match &ob.it {
        It::Plain(it) => dispatch(&t.sc, it, &ob.rc, &o, hook),
        It::Fd(it) => dispatch(&t.sc, it, &ob.rc, &o, hook),
    }
}

struct Nest<'a> {
    c: &'a InterCase,
    at: &'a [Vec<usize>],
    /// depth of the task whose model calls this
    depth: usize,
    obs: &'a [Shared2<'a>],
    w: &'a Handle,
    got: &'a RefCell<Vec<(usize, Session)>>,
}
impl HookFactory for Nest<'_> {
    fn make<'b>(&'b self, _: usize) -> Option<Box<dyn FnMut(usize) + 'b>> {
        let inner = self.depth + 1;
        if inner >= self.c.tasks.len() || self.at.get(self.depth).map_or(true, |a| a.is_empty()) {
            return None;
        }
        Some(Box::new(move |k| {
            if self.at[self.depth].contains(&k) {
                let ob = &self.obs[if self.c.shared { 0 } else { inner }];
                let deeper = Nest { depth: inner, ..*self };
                let s = run_task(&self.c.tasks[inner], inner, ob, self.w, &deeper);
                self.got.borrow_mut().push((inner, s));
            }
        }))
    }
}

fn compare(o: &mut Outcome, a: &Session, b: &Session, what: &str) {
    if a.setup.is_some() != b.setup.is_some() || a.solves.len() != b.solves.len() {
        return o.fail("setup", format!("{what}: {:?} / alone: {:?}", a.setup, b.setup));
    }
    for (k, (s, t)) in a.solves.iter().zip(&b.solves).enumerate() {
        if let Some(d) = first_diff(&s.hist, &t.hist) {
            return o.fail("course", format!("{what}, resolution {k} (/ alone): {d}"));
        }
        if s.res != t.res && !matches!((&s.res, &t.res), (Res::Panic(_), Res::Panic(_))) {
            return o.fail("result", format!("{what}, resolution {k}: {}, alone: {}", s.res.short(), t.res.short()));
        }
        if !same(&s.x, &t.x) || !same(&s.l, &t.l) || !same(&s.r, &t.r) || !same1(s.mem, t.mem) {
            return o.fail("state", format!("{what}, resolution {k}: the model is left at {:?}, alone at {:?}", s.x, t.x));
        }
    }
    if a.log != b.log {
        let i = a.log.iter().zip(&b.log).take_while(|(p, q)| p == q).count();
        let show = |v: &[u8]| String::from_utf8_lossy(&v[i.saturating_sub(20).min(v.len())..(i + 60).min(v.len())]).into_owned();
        o.fail("log", format!("{what}: the log holds {:?} where it holds {:?} alone", show(&a.log), show(&b.log)));
    }
}

fn solo(c: &InterCase, i: usize, migrate: bool) -> Session {
    let t = &c.tasks[i];
    let d = Data::new(if c.shared { &c.tasks[0].sc } else { &t.sc }, false);
    let w = new_world(DiskPlan::default(), None);
    run_task_on(t, i, &d.objects(), &w, &NoHook, migrate)
}

fn run(_: &str, c: &Case) -> Outcome {
    let c = match c {
        Case::Inter(c) => c,
        _ => unreachable!(),
    };
    let mut o = Outcome::default();
    let n = c.tasks.len();
    let alone: Vec<Session> = (0..n).map(|i| solo(c, i, false)).collect();
    let datas: Vec<Data> = c.tasks.iter().map(|t| Data::new(&t.sc, c.fine && c.nest.is_none())).collect();
    let obs: Vec<Shared2> = datas.iter().map(|d| d.objects()).collect();
    let mut trace = 0;
    let mut points = 0;
    let mut switches = 0;
    if let Some(at) = &c.nest {
        let w = new_world(c.disk.clone(), None);
        let got = RefCell::new(vec![]);
        let nest = Nest { c, at, depth: 0, obs: &obs, w: &w, got: &got };
        let outer = run_task(&c.tasks[0], 0, &obs[0], &w, &nest);
        o.count("nested resolutions", got.borrow().len() as u64);
        compare(&mut o, &outer, &alone[0], "resolution with others nested in it");
        count_disk(&mut o, &outer);
        for (i, s) in got.borrow().iter() {
            compare(&mut o, s, &alone[*i], &format!("resolution nested at depth {i}"));
            trace = mix(trace ^ *i as u64);
            points += 1;
        }
    } else {
        let w = new_world(c.disk.clone(), Some(Arc::new(Here)));
        let b = Arc::new(Baton {
            st: Mutex::new(Turn { current: 0, alive: vec![true; n], pos: 0, switches: 0, points: 0, trace: 0 }),
            cv: (0..n).map(|_| Condvar::new()).collect(),
            schedule: c.schedule.clone(),
        });
        let obs = OneAtATime(&obs);
        let out: Vec<Mutex<Option<Session>>> = (0..n).map(|_| Mutex::new(None)).collect();
        std::thread::scope(|sc| {
            for i in 0..n {
                let (b, w, obs, out) = (b.clone(), w.clone(), &obs, &out);
                sc.spawn(move || {
                    ME.with(|m| *m.borrow_mut() = Some((i, b.clone())));
                    b.start(i);
                    let _f = Finish(i, b.clone());
                    let ob = &obs.get()[if c.shared { 0 } else { i }];
                    let s = run_task(&c.tasks[i], i, ob, &w, &NoHook);
                    *out[i].lock().unwrap() = Some(s);
                });
            }
        });
        for i in 0..n {
            match out[i].lock().unwrap().take() {
                Some(s) => {
                    compare(&mut o, &s, &alone[i], &format!("resolution {i} of {n} interleaved ones"));
                    if i + 1 == n {
                        count_disk(&mut o, &s);
                    }
                }
                None => o.fail("lost", format!("task {i} did not finish")),
            }
        }
        let t = b.st.lock().unwrap();
        trace = t.trace;
        points = t.points;
        switches = t.switches;
        o.count("switching points", t.points);
        o.count("switches", t.switches);
    }
    // once more alone
    for i in 0..n {
        // a solver made here, its resolutions elsewhere
        let moved = i == 0 && c.nest.is_none();
        let again = solo(c, i, moved);
        compare(&mut o, &again, &alone[i], &format!("resolution {i} repeated{}", if moved { " on another thread" } else { "" }));
    }
    let mut sig = hash_bytes(15, format!("{} {}", c.shared, c.nest.is_some()).as_bytes());
    for (t, s) in c.tasks.iter().zip(&alone) {
        for v in &s.solves {
            o.digest = digest_solve(o.digest, v);
            o.count("model calls", calls(&v.hist).len() as u64);
        }
        for (k, v) in s.solves.iter().enumerate() {
            count_fired(&mut o, if k == 0 { &t.sc.faults } else { &t.again[k - 1] }, &v.fired);
        }
        o.digest = hash_bytes(o.digest, &s.log);
        sig = hash_bytes(sig, scenario_sig(&t.sc).as_bytes());
        sig = mix(sig ^ s.solves.last().map_or(0, |v| v.res.kind() as u64 + 10 * calls(&v.hist).len() as u64));
    }
    o.digest = mix(o.digest ^ trace);
    o.sig = mix(sig ^ trace);
    o.nontrivial = if c.nest.is_some() { points > 0 } else { switches > 1 };
    o.trace = vec![format!("{points} switching points, {switches} switches")];
    o
}

fn fault(r: &mut Rng, n: usize, jac: bool) -> FaultKind {
    use FaultKind::*;
    let i = r.below(n);
    let off = F(r.log10(-6.0, 1.0));
    if jac {
        return [Inaccurate, Unusable, Off(off), JacZeroRow(i), Panic][r.weighted(&[1.0, 1.0, 2.0, 1.0, 1.0])].clone();
    }
    [Inaccurate, Off(off), Unusable, NanAt(i), HugeAt(i), Panic][r.weighted(&[1.0, 3.0, 1.0, 1.0, 0.5, 1.0])].clone()
}

fn gen(_: &str, seed: u64, idx: u64) -> Case {
    let mut r = Rng::from_parts(seed, "C15", idx);
    let m = Mix { max_iter: (1, 10), damping: 0.5, max_n: 4, nr_weight: 1.0, ..Mix::default() };
    let n = 2 + r.weighted(&[5.0, 3.0, 1.0]);
    let shared = r.chance(0.7);
    let mut tasks: Vec<Task> = vec![];
    for i in 0..n {
        let mut sc = gen_scenario(&mut r, &m);
        if shared && i > 0 {
            let first = &tasks[0].sc;
            let mut s = first.clone();
            s.faults.clear();
            if r.chance(0.3) {
                // the very same resolution, or only another method
                if r.chance(0.5) {
                    s.method = sc.method;
                }
            } else {
                if r.chance(0.7) {
                    let g = gen_problem(&mut r, sc.class, first.n());
                    s.problem = g.problem;
                }
                s.method = sc.method;
                s.damping = sc.damping;
                s.tol = sc.tol;
                s.max_iter = sc.max_iter;
                s.mem = sc.mem;
                if first.fd_params {
                    s.provided_jac = sc.provided_jac;
                    s.fd_params = true;
                }
            }
            sc = s;
        }
        let count = r.weighted(&[4.0, 3.0, 1.0]);
        let mut r2 = Rng::new(r.next());
        place_faults("C03", &mut r2, &mut sc, count, &|r, n, j| fault(r, n, j));
        let again = if r.chance(0.2) { vec![vec![]] } else { vec![] };
        tasks.push(Task { sc, again, log: r.chance(0.5) });
    }
    let mut disk = DiskPlan::default();
    if r.chance(0.3) {
        for _ in 0..1 + r.below(6) {
            let kind = if r.chance(0.5) { DiskFaultKind::Eintr(1) } else { DiskFaultKind::Short(1 + r.below(60)) };
            disk.faults.push(DiskFault { class: OpClass::Write, at: r.below(120), kind });
        }
    }
    let nested = r.chance(0.3);
    let mut schedule = vec![];
    let mut nest = None;
    if nested {
        let mut v = vec![];
        for _ in 0..n - 1 {
            let mut at = vec![];
            for _ in 0..1 + r.weighted(&[3.0, 1.0]) {
                at.push(if r.chance(0.3) { r.below(3) } else { r.below(20) });
            }
            at.dedup();
            v.push(at);
        }
        nest = Some(v);
    } else {
        let stay = *r.pick(&[0.0, 0.5, 0.9, 0.97]);
        let len = *r.pick(&[20, 100, 400, 1500]);
        for _ in 0..len {
            schedule.push(if r.chance(stay) { 255 } else { r.below(n) as u8 });
        }
    }
    Case::Inter(InterCase { tasks, shared, fine: r.chance(0.3), schedule, nest, disk })
}

fn shrink(c: &Case) -> Vec<Case> {
    let c = match c {
        Case::Inter(c) => c,
        _ => return vec![],
    };
    let mut v = vec![];
    let mut push = |c: InterCase| v.push(Case::Inter(c));
    if c.tasks.len() > 1 {
        for i in 0..c.tasks.len() {
            if i == 0 && (c.shared || c.nest.is_some()) {
                continue;
            }
            let mut d = c.clone();
            d.tasks.remove(i);
            push(d);
        }
    }
    if c.fine {
        push(InterCase { fine: false, ..c.clone() });
    }
    if !c.disk.faults.is_empty() {
        push(InterCase { disk: DiskPlan::default(), ..c.clone() });
    }
    let len = c.schedule.len();
    if len > 0 {
        push(InterCase { schedule: c.schedule[..len / 2].to_vec(), ..c.clone() });
        push(InterCase { schedule: c.schedule[..len - 1].to_vec(), ..c.clone() });
        let size = (len / 8).max(1);
        for a in (0..len).step_by(size) {
            let mut s = c.schedule.clone();
            let b = (a + size).min(len);
            if s[a..b].iter().any(|x| *x != 255) {
                s[a..b].iter_mut().for_each(|x| *x = 255);
                push(InterCase { schedule: s, ..c.clone() });
            }
        }
    }
    if let Some(at) = &c.nest {
        for i in 0..at.len() {
            for j in 0..at[i].len() {
                let mut a = at.clone();
                a[i].remove(j);
                push(InterCase { nest: Some(a), ..c.clone() });
            }
        }
    }
    for i in 0..c.tasks.len() {
        if c.tasks[i].log {
            let mut d = c.clone();
            d.tasks[i].log = false;
            push(d);
        }
        if !c.tasks[i].again.is_empty() {
            let mut d = c.clone();
            d.tasks[i].again.clear();
            push(d);
        }
        for sc in shrink_scenario(&c.tasks[i].sc) {
            let f = &c.tasks[i].sc;
            if c.shared && (sc.n() != f.n() || sc.iters != f.iters || sc.stop != f.stop || sc.upd != f.upd || sc.provided_jac != f.provided_jac || sc.fd_params != f.fd_params) {
                continue;
            }
            let mut d = c.clone();
            d.tasks[i].sc = sc;
            push(d);
        }
    }
    v
}

pub fn checks() -> Vec<Check> {
    vec![Check {
        id: "C15",
        quick: 40_000,
        thorough: 2_000_000,
        hang: true,
        rule: "2-4 resolutions on threads of their own under a seeded scheduler that switches at the calls of models, parameters and disk (70 %), or nested in each other's evaluations (30 %), each compared with the same resolution run alone; non-trivial: more than one switch, or a nested resolution took place",
        real: "RootFinder, SolverLog, Iteratives, ResidualsConfig shared between threads, std::fs up to the libc calls, nalgebra",
        stub: "the users' models (generated equations, fault plan); the disk (in memory); the thread scheduler (one thread at a time, seeded switches)",
        gen,
        run,
        shrink,
    }]
}
