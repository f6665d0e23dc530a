//! Checks that judge one resolution: the reference model follows its history; a few direct oracles besides.

use crate::check::*;
use crate::exec::*;
use crate::problem::*;
use crate::refm::*;
use crate::rng::*;
use crate::scen::*;
use crate::simmodel::*;

const REAL: &str = "RootFinder, jacobian evaluation and quasi-Newton updates, iteratives, residuals, nalgebra";
const STUB: &str = "the user's model (generated equations, fault plan by call number)";

fn mix_for(id: &str, r: &mut Rng) -> Mix {
    let mut m = Mix::default();
    if r.chance(0.15) {
        m.odd_dx = 0.25;
    }
    m.huge = if id == "C21" { 0.0 } else { 0.0008 };
    m.unbounded = if id == "C21" { 0.0 } else { 0.006 };
    match id {
        "C01" => {
            m.wide = 0.03;
            m.classes = vec![
                (Class::Mild, 4.0),
                (Class::General, 2.0),
                (Class::Steep, 1.0),
                (Class::Domain, 1.5),
                (Class::Solved, 1.5),
                (Class::Scaled, 1.0),
            ];
        }
        "C02" => m.wide = 0.008,
        "C03" => {
            m.classes = vec![
                (Class::Mild, 2.0),
                (Class::General, 2.0),
                (Class::Singular, 2.0),
                (Class::Steep, 2.0),
                (Class::Domain, 2.0),
                (Class::NoRoot, 1.0),
                (Class::Solved, 0.5),
                (Class::Scaled, 1.0),
            ];
            m.limits = 0.5;
            m.out_of_range = if r.chance(0.1) { 0.3 } else { 0.0 };
        }
        "C04" => m.damping = 0.6,
        "C05" => {
            m.classes.push((Class::Solved, 1.0));
        }
        "C06" => {
            m.limits = 1.0;
            m.classes = vec![
                (Class::Mild, 3.0),
                (Class::General, 3.0),
                (Class::Singular, 1.0),
                (Class::Steep, 3.0),
                (Class::Domain, 1.0),
                (Class::NoRoot, 1.0),
                (Class::Scaled, 1.0),
            ];
            m.max_iter = (2, 25);
        }
        "C07" => {
            m.provided = 0.0;
            m.memory = 0.8;
            m.nr_weight = 4.0;
            m.max_iter = (1, 25);
        }
        "C08" => {
            m.damping = 0.7;
            m.provided = 0.5;
            m.classes = vec![(Class::Mild, 2.0), (Class::General, 3.0), (Class::Steep, 4.0), (Class::NoRoot, 1.0), (Class::Scaled, 1.0)];
            m.max_iter = (1, 40);
            m.nr_weight = 1.0;
        }
        "C09" => {
            m.limits = 0.25;
            m.classes = vec![(Class::Mild, 5.0), (Class::General, 4.0), (Class::Steep, 1.5), (Class::Scaled, 1.5)];
            m.max_iter = (1, 25);
            m.nr_weight = 0.8;
        }
        "C10" => {
            m.damping = 0.92;
            m.classes = vec![(Class::Mild, 2.0), (Class::General, 3.0), (Class::Steep, 5.0), (Class::NoRoot, 1.0), (Class::Scaled, 1.0)];
            m.max_iter = (1, 40);
        }
        "C21" => {
            m.max_iter = (2, 30);
            m.damping = 0.6;
        }
        _ => (),
    }
    m
}

fn palette(id: &str, r: &mut Rng, n: usize, jac: bool) -> FaultKind {
    use FaultKind::*;
    let i = r.below(n);
    let j = r.below(n);
    let off = F(r.log10(-9.0, 1.0));
    if jac {
        let all = [Inaccurate, Unusable, Off(off), JacNan(i, j), JacZeroRow(i), InfAt(i), HugeAt(i), Panic];
        let w: &[f64] = match id {
            "C01" => &[1.0, 0.2, 2.0, 2.0, 0.5, 1.0, 1.0, 0.0],
            "C02" => &[3.0, 3.0, 1.0, 1.0, 2.0, 0.5, 0.5, 0.3],
            "C03" => &[3.0, 1.0, 1.0, 2.0, 2.0, 2.0, 2.0, 0.0],
            "C04" => &[0.0, 0.0, 1.0, 0.3, 0.0, 0.3, 0.3, 0.0],
            "C05" => &[1.0, 1.0, 2.0, 0.5, 0.5, 0.5, 0.5, 0.0],
            "C06" => &[0.0, 0.0, 2.0, 2.0, 0.0, 2.0, 2.0, 0.0],
            "C08" => &[0.3, 0.3, 3.0, 0.5, 0.5, 0.5, 0.5, 0.0],
            "C09" => &[0.0, 0.0, 4.0, 0.0, 0.0, 0.0, 0.0, 0.0],
            "C10" => &[0.0, 0.0, 4.0, 0.0, 0.0, 0.2, 0.2, 0.0],
            _ => &[0.2, 0.2, 2.0, 0.3, 0.3, 0.3, 0.3, 0.0],
        };
        return all[r.weighted(w)].clone();
    }
    let pair = if matches!(id, "C08" | "C10") && r.chance(0.6) { REPEAT + r.below(PAIRS - REPEAT) } else { r.below(PAIRS) };
    let all = [Inaccurate, InaccurateBy(off), Off(off), Unusable, UnusableNan, NanAt(i), InfAt(i), HugeAt(i), Stale, Panic, Members(i, pair)];
    let w: &[f64] = match id {
        "C01" => &[3.0, 2.0, 2.0, 0.3, 0.2, 5.0, 1.5, 1.0, 1.0, 0.0, 3.0],
        "C02" => &[4.0, 1.0, 1.0, 4.0, 2.0, 1.0, 0.5, 0.5, 0.5, 0.5, 1.0],
        "C03" => &[3.0, 1.0, 1.0, 3.0, 2.0, 3.0, 3.0, 2.0, 1.0, 0.0, 2.0],
        "C04" => &[0.0, 0.0, 2.0, 0.6, 0.2, 0.5, 0.5, 0.5, 1.0, 0.0, 0.5],
        "C05" => &[3.0, 1.0, 2.0, 1.0, 1.0, 1.0, 0.5, 0.5, 1.0, 0.0, 0.5],
        "C06" => &[1.0, 1.0, 3.0, 0.5, 0.5, 3.0, 3.0, 3.0, 1.0, 0.0, 0.7],
        "C07" => &[3.0, 3.0, 3.0, 0.2, 0.2, 0.5, 0.3, 0.3, 1.0, 0.0, 0.3],
        "C08" => &[3.0, 2.0, 4.0, 0.3, 0.2, 0.3, 0.2, 0.5, 1.0, 0.0, 0.3],
        "C09" => &[2.0, 2.0, 4.0, 0.0, 0.0, 0.0, 0.0, 0.0, 0.5, 0.0, 0.0],
        "C10" => &[2.0, 2.0, 5.0, 0.2, 0.1, 0.3, 0.3, 0.5, 1.0, 0.0, 1.0],
        "C21" => &[0.5, 0.3, 0.5, 5.0, 2.0, 0.2, 0.2, 0.2, 0.2, 0.0, 0.2],
        _ => &[1.0; 11],
    };
    all[r.weighted(w)].clone()
}

/// Picks a call of the model inside the phase that the run reached.
pub fn pick_target(id: &str, r: &mut Rng, s: &Solve, f: &Follow) -> Option<(usize, bool)> {
    let mut groups: Vec<(f64, Vec<(usize, bool)>)> = vec![];
    let at = |hi: usize| -> Option<(usize, bool)> {
        match &s.hist[hi] {
            Ev::Eval { k, .. } => Some((*k, false)),
            Ev::Jac { k, .. } => Some((*k, true)),
            _ => None,
        }
    };
    let sel = |p: &dyn Fn(&Lab) -> bool| -> Vec<(usize, bool)> { f.labels.iter().filter(|l| p(&l.1)).filter_map(|l| at(l.0)).collect() };
    let upd = sel(&|l| matches!(l, Lab::Update(_)));
    let dam = sel(&|l| matches!(l, Lab::Damped(_)));
    let fd = sel(&|l| matches!(l, Lab::Fd(..)));
    let jac = sel(&|l| matches!(l, Lab::Jac(_)));
    let ini = sel(&|l| matches!(l, Lab::Initial));
    let last: Vec<(usize, bool)> =
        f.labels.iter().rev().filter(|l| matches!(l.1, Lab::Initial | Lab::Update(_) | Lab::Damped(_))).take(1).filter_map(|l| at(l.0)).collect();
    let n = s.x.len();
    let fd_first: Vec<(usize, bool)> = fd.iter().step_by(n.max(1)).cloned().collect();
    let fd_last: Vec<(usize, bool)> = fd.iter().skip(n.saturating_sub(1)).step_by(n.max(1)).cloned().collect();
    let w: [f64; 9] = match id {
        "C01" => [1.0, 1.0, 2.0, 2.0, 3.0, 0.5, 0.5, 0.7, 4.0],
        "C03" => [1.0, 1.0, 2.0, 2.0, 3.0, 1.0, 1.0, 2.0, 1.0],
        "C07" => [0.3, 0.5, 1.0, 1.0, 0.3, 3.0, 3.0, 0.5, 0.3],
        "C21" => [0.2, 2.0, 4.0, 1.0, 4.0, 0.2, 0.2, 0.2, 0.6],
        "C10" | "C08" => [0.3, 2.0, 4.0, 1.0, 2.0, 0.6, 0.6, 1.0, 0.5],
        _ => [0.7, 1.0, 2.0, 1.0, 2.0, 1.0, 1.0, 1.5, 1.5],
    };
    groups.push((w[0], ini));
    groups.push((w[1], upd.first().cloned().into_iter().collect()));
    groups.push((w[2], upd.clone()));
    groups.push((w[3], upd.iter().rev().take(2).cloned().collect()));
    groups.push((w[4], dam));
    groups.push((w[5], fd_first));
    groups.push((w[6], fd_last));
    groups.push((w[7], if jac.is_empty() { fd } else { jac }));
    groups.push((w[8], last));
    groups.retain(|g| !g.1.is_empty());
    if groups.is_empty() {
        return None;
    }
    let ws: Vec<f64> = groups.iter().map(|g| g.0).collect();
    let g = r.weighted(&ws);
    Some(*r.pick(&groups[g].1))
}

pub fn place_faults(id: &str, r: &mut Rng, sc: &mut Scenario, count: usize, kind: &dyn Fn(&mut Rng, usize, bool) -> FaultKind) {
    for _ in 0..count {
        let ses = run_plain(sc);
        if ses.solves.is_empty() {
            return;
        }
        let s = ses.one();
        let f = follow(sc, s);
        if let Some((at, jac)) = pick_target(id, r, s, &f) {
            if sc.faults.iter().any(|f| f.at == at && f.jac == jac) {
                continue;
            }
            let kind = kind(r, sc.n(), jac);
            sc.faults.push(Fault { at, jac, kind });
        }
    }
}

fn gen(id: &str, seed: u64, idx: u64) -> Case {
    let mut r = Rng::from_parts(seed, id, idx);
    if id == "C19" {
        return gen_live(&mut r);
    }
    if matches!(id, "C02" | "C03" | "C05") && idx % 2048 == 1999 {
        return crate::endless::gen(&mut r);
    }
    let mix = mix_for(id, &mut r);
    let mut sc = gen_scenario(&mut r, &mix);
    let count = match id {
        "C09" | "C07" => r.weighted(&[4.0, 3.0, 2.0, 1.0]),
        "C04" => r.weighted(&[5.0, 3.0, 1.0]),
        "C21" => 1 + r.weighted(&[4.0, 2.0, 1.0]),
        _ => r.weighted(&[2.0, 4.0, 2.0, 1.0]),
    };
    let idc = id.to_string();
    let mut r2 = Rng::new(r.next());
    if id == "C04" {
        // background faults that both runs share
        place_faults(id, &mut r2, &mut sc, count, &|r, n, j| palette(&idc, r, n, j));
        // then the reports of inaccuracy
        let ses = run_plain(&sc);
        if let Some(s) = ses.solves.first() {
            let f = follow(&sc, s);
            let k = 1 + r.weighted(&[3.0, 2.0, 2.0, 1.0]);
            for _ in 0..k {
                if r.chance(0.15) {
                    // every call of one kind
                    let p = r.chance(0.5);
                    for (i, l) in &f.labels {
                        if let Ev::Eval { k, .. } = &s.hist[*i] {
                            if matches!(l, Lab::Fd(..)) == p && !sc.faults.iter().any(|f| f.at == *k && !f.jac) {
                                sc.faults.push(Fault { at: *k, jac: false, kind: FaultKind::Inaccurate });
                            }
                        }
                    }
                } else if let Some((at, false)) = pick_target(id, &mut r, s, &f) {
                    if !sc.faults.iter().any(|f| f.at == at && !f.jac) {
                        sc.faults.push(Fault { at, jac: false, kind: FaultKind::Inaccurate });
                    }
                }
            }
        }
    } else if r.chance(0.05) {
        // a storm: most evaluations of the run suffer from something
        let p = *r.pick(&[0.1, 0.3, 0.7]);
        for at in 1..(6 + 2 * sc.max_iter.min(100)).min(120) {
            if r.chance(p) {
                let off = F(r.log10(-6.0, 1.0));
                let kind = match r.weighted(&[4.0, 1.0, 4.0, 1.0]) {
                    0 => FaultKind::Inaccurate,
                    1 => FaultKind::InaccurateBy(off),
                    2 => FaultKind::Off(off),
                    _ => FaultKind::Stale,
                };
                sc.faults.push(Fault { at, jac: false, kind });
            }
        }
        if sc.provided_jac && r.chance(0.5) {
            for at in 0..20 {
                if r.chance(p) {
                    sc.faults.push(Fault { at, jac: true, kind: FaultKind::Off(F(r.log10(-6.0, 1.0))) });
                }
            }
        }
        if id == "C21" || r.chance(0.5) {
            place_faults(id, &mut r2, &mut sc, 1, &|r, n, j| palette(&idc, r, n, j));
        }
    } else {
        place_faults(id, &mut r2, &mut sc, count, &|r, n, j| palette(&idc, r, n, j));
    }
    if r.chance(0.06) && !sc.faults.is_empty() {
        // the end of the budget close to the last fault
        let ses = run_plain(&sc);
        if let Some(s) = ses.solves.first() {
            let f = follow(&sc, s);
            if f.iters.len() > 1 {
                sc.max_iter = f.iters.len() - r.below(2);
            }
        }
    }
    Case::Solve { sc }
}

/// a well-conditioned problem whose first evaluations are off
fn gen_live(r: &mut Rng) -> Case {
    let mut mix = Mix { classes: vec![(Class::Mild, 1.0)], limits: 0.0, norms: 0.3, damping: 0.5, max_iter: (1, 5), nr_weight: 1.0, odd_dx: 0.0, odd_tol: 0.0, ..Mix::default() };
    mix.big_dx = 0.0;
    mix.memory = 0.15;
    mix.out_of_range = 0.0;
    let mut sc = gen_scenario(r, &mix);
    sc.problem.mem_gain = F(0.0);
    sc.tol = F(*r.pick(&[1e-6, 1e-8, 1e-9]));
    let n = sc.n();
    if !r.chance(0.2) {
        // the relative normalizations flatten the equations far from the root
        sc.upd.iter_mut().for_each(|u| *u = Norm::Abs);
    }
    // members that vanish at the root leave a relative residual of 2
    sc.stop.iter_mut().filter(|s| **s == Norm::Rel).for_each(|s| *s = Norm::Adapt);
    // the evaluations of the first iterations are reported inaccurate and are off; an approximation of the jacobian is
    // never made again, so that it is spared except by what happens far from the root
    let newton = sc.method == 0;
    let (first, last) = match (newton, sc.provided_jac) {
        (true, _) => (0, r.below(4) * (n + 2)),
        (false, true) => (0, r.below(4)),
        (false, false) => (n + 1, n + 1 + r.below(4)),
    };
    let amp = r.log10(-6.0, if newton { -1.3 } else { -2.5 });
    for at in first..last {
        if r.chance(0.5) {
            sc.faults.push(Fault { at, jac: false, kind: FaultKind::InaccurateBy(F(amp)) });
        }
    }
    if r.chance(0.3) {
        // reports without any harm, at any time before
        sc.faults.push(Fault { at: r.below(6), jac: false, kind: FaultKind::Inaccurate });
        let mut seen = std::collections::HashSet::new();
        sc.faults.retain(|f| seen.insert(f.at));
    }
    sc.max_iter = 2 * last + LIVE_BOUND;
    Case::Solve { sc }
}
/// the problem has to stay well-conditioned
fn shrink_faults(c: &Case) -> Vec<Case> {
    let sc = match c {
        Case::Solve { sc } => sc,
        _ => return vec![],
    };
    let mut v = vec![];
    for i in 0..sc.faults.len() {
        let mut t = sc.clone();
        t.faults.remove(i);
        v.push(Case::Solve { sc: t });
    }
    let mut edit = |f: &dyn Fn(&mut Scenario)| {
        let mut t = sc.clone();
        f(&mut t);
        if format!("{t:?}") != format!("{sc:?}") {
            v.push(Case::Solve { sc: t });
        }
    };
    edit(&|t| t.damping = false);
    edit(&|t| t.mem = Mem::None);
    edit(&|t| t.stop.iter_mut().for_each(|s| *s = Norm::Abs));
    edit(&|t| t.upd.iter_mut().for_each(|s| *s = Norm::Abs));
    v
}
const LIVE_BOUND: usize = 120;

fn final_state(o: &mut Outcome, sc: &Scenario, s: &Solve) {
    if s.res != Res::Ok {
        return;
    }
    o.count("successes judged", 1);
    let st = match s.hist.iter().rev().find(|e| matches!(e, Ev::Eval { .. })) {
        Some(Ev::Eval { st, .. }) => st,
        _ => return o.fail("success-unevaluated", "success without any evaluation of the model".into()),
    };
    let errs = stop_res(sc, &s.l, &s.r);
    for (i, e) in errs.iter().enumerate() {
        if !(*e <= sc.tol.0 * (1.0 + 1e-12)) {
            return o.fail(
                "success-not-root",
                format!("success, but equation {i} holds {:?} = {:?}: {:?} residual {e:?} against tolerance {:?}", s.l[i], s.r[i], sc.stop[i], sc.tol.0),
            );
        }
    }
    if *st != St::Ok {
        return o.fail("success-inaccurate", format!("success, but the last evaluation was reported {st:?}"));
    }
    left_as_evaluated(o, sc, s, "success");
}

/// the model is as its last evaluation left it
fn left_as_evaluated(o: &mut Outcome, sc: &Scenario, s: &Solve, what: &str) {
    let last_i = match s.hist.iter().rposition(|e| matches!(e, Ev::Eval { .. })) {
        Some(i) => i,
        None => return,
    };
    let (x, l, r, mo) = match &s.hist[last_i] {
        Ev::Eval { x, l, r, mem_out, .. } => (x, l, r, mem_out),
        _ => unreachable!(),
    };
    let code = |c: &str| format!("{}-{c}", if what == "success" { "success" } else { "failure" });
    if !same(&s.x, x) {
        return o.fail(&code("moved"), format!("{what}, but the model holds iterates {:?} and was last evaluated at {x:?}", s.x));
    }
    if !same(&s.l, l) || !same(&s.r, r) {
        return o.fail(&code("stale"), format!("{what}, but the values held {:?} = {:?} are not those of the last evaluation", s.l, s.r));
    }
    if sc.mem != Mem::None && !same1(s.mem, *mo) {
        return o.fail(&code("memory"), format!("{what}, but the memory {:?} is not the one left by the last evaluation {mo:?}", s.mem));
    }
    for e in &s.hist[last_i + 1..] {
        match e {
            Ev::SetMem { .. } => return o.fail(&code("touched"), format!("{what}, and the model was changed after its last evaluation: {}", show(e))),
            Ev::Set { x: y } if !same(y, x) => return o.fail(&code("touched"), format!("{what}, and the model was changed after its last evaluation: {}", show(e))),
            _ => (),
        }
    }
}

fn run(id: &str, c: &Case) -> Outcome {
    let sc = match c {
        Case::Solve { sc } => sc,
        Case::Endless { sc } => return crate::endless::run(id, sc),
        _ => unreachable!(),
    };
    let mut o = Outcome::default();
    let ses = run_plain(sc);
    if let Some(e) = &ses.setup {
        if id == "C03" {
            o.fail("setup", format!("building the solver: {}", e.short()));
        }
        return o;
    }
    let s = ses.one();
    count_faults(&mut o, sc, s);
    o.digest = digest_solve(0, s);
    let evals = calls(&s.hist).len() as u64;
    o.count("model calls", evals);
    let f = follow(sc, s);
    o.sig = hash_bytes(hash_bytes(3, scenario_sig(sc).as_bytes()), format!("{}{}", f.sig, s.res.kind()).as_bytes());
    o.nontrivial = f.iters.len() >= 2 || !s.fired.is_empty();
    o.trace = trace_of(s);
    o.count("iterations followed", f.iters.len() as u64);
    o.count("steps predicted and compared", f.steps_checked);
    o.count("steps too ill-conditioned to predict", f.steps_unchecked);
    o.count("damping decisions judged", f.damp_checked);
    o.count(&format!("ended {}", res_name(&s.res)), 1);
    o.count("damped iterates", f.iters.iter().filter(|i| i.damped.is_some()).count() as u64);
    o.count("refused updates", f.iters.iter().filter(|i| i.refused == Some(true)).count() as u64);
    for d in &f.divs {
        if d.props.contains(&id) {
            match d.known {
                Some(k) => o.known.push((k.to_string(), d.msg.clone())),
                None => o.fail(d.code, d.msg.clone()),
            }
        } else if d.known.is_none() {
            o.count("runs diverging for another property", 1);
        }
    }
    match id {
        "C01" => final_state(&mut o, sc, s),
        "C02" => {
            if matches!(s.res, Res::NonConv | Res::Final) {
                o.count("last iterates of failed resolutions judged", 1);
                left_as_evaluated(&mut o, sc, s, &format!("{:?}", s.res));
            }
            let want = match &s.res {
                Res::Initial(t) => Some(t.clone()),
                Res::ModelEval { id, .. } | Res::Jac { id, .. } => Some(format!("SIMERR<{id}>")),
                _ => None,
            };
            if let Some((a, b)) = &s.text {
                if let Some(w) = want {
                    if !a.contains(&w) || !b.contains(&w) {
                        o.fail("error-text", format!("the error {:?} says {a:?} ({b:?}), which does not tell the model's own error {w}", s.res));
                    }
                }
                if let Some(k) = s.text_of {
                    o.fail("error-text", format!("the error {:?} says {a:?}, as the error for {k} does", s.res));
                }
                o.count("error texts read", 1);
            }
        }
        "C03" => {
            if let Res::Panic(m) = &s.res {
                o.fail("panic", format!("the resolution panics: {m}"));
            }
            if s.res == Res::Hang {
                o.fail("hang", "the resolution keeps calling the model far beyond its budget".into());
            }
        }
        "C04" => {
            let mut clean = sc.clone();
            clean.faults.retain(|f| f.jac || f.kind != FaultKind::Inaccurate);
            if clean.faults.len() == sc.faults.len() {
                return o;
            }
            let ses2 = run_plain(&clean);
            let s2 = ses2.one();
            compare_clean(&mut o, s, s2);
        }
        "C19" => live(&mut o, sc, s, &f),
        "C21" => {
            if let Some(uid) = f.unusable_mid {
                o.count("unusable evaluations in mid-resolution", 1);
                if s.res == (Res::ModelEval { unus: true, id: uid }) && f.complete {
                    o.known.push((
                        "no-recovery".into(),
                        format!("the unusable evaluation SIMERR<{uid}> of an iterate ends the resolution at once, no other attempt is made"),
                    ));
                }
            }
        }
        _ => (),
    }
    o
}

pub fn res_name(r: &Res) -> &'static str {
    match r {
        Res::Ok => "success",
        Res::NonConv => "non convergence",
        Res::Initial(_) => "initial evaluation error",
        Res::ModelEval { .. } => "model evaluation error",
        Res::Jac { .. } => "jacobian error",
        Res::JacInv => "non invertible jacobian",
        Res::Final => "final evaluation error",
        Res::Panic(_) => "panic",
        Res::Crash => "death of the model",
        Res::Hang => "hang",
    }
}

fn compare_clean(o: &mut Outcome, a: &Solve, b: &Solve) {
    let (ca, cb) = (calls(&a.hist), calls(&b.hist));
    for i in 0..ca.len().max(cb.len()) {
        let same_call = match (ca.get(i), cb.get(i)) {
            (Some(Ev::Eval { x, l, r, mem_in, .. }), Some(Ev::Eval { x: x2, l: l2, r: r2, mem_in: m2, .. })) => {
                same(x, x2) && same(l, l2) && same(r, r2) && same1(*mem_in, *m2)
            }
            (Some(Ev::Jac { x, .. }), Some(Ev::Jac { x: x2, .. })) => same(x, x2),
            _ => false,
        };
        if !same_call {
            if matches!(a.res, Res::Panic(_)) && i >= ca.len() {
                return o.fail("inaccurate-panic", format!("the report of inaccuracy makes the resolution panic: {}", a.res.short()));
            }
            let sh = |e: Option<&&Ev>| e.map(|e| show(e)).unwrap_or_else(|| "the end".into());
            return o.fail(
                "inaccurate-changes-course",
                format!("call {i}: {} with the reports of inaccuracy, {} without", sh(ca.get(i)), sh(cb.get(i))),
            );
        }
    }
    let last = a.hist.iter().rev().find_map(|e| match e {
        Ev::Eval { st, .. } => Some(*st),
        _ => None,
    });
    let want = match (&b.res, last) {
        (Res::Ok, Some(St::Inacc(_))) => Res::Final,
        (r, _) => r.clone(),
    };
    let same_kind = match (&a.res, &want) {
        (Res::Panic(_), Res::Panic(_)) => true,
        (x, y) => x == y,
    };
    if !same_kind {
        o.fail("inaccurate-verdict", format!("{} with the reports of inaccuracy, {} expected ({} without)", a.res.short(), want.short(), b.res.short()));
    }
}

/// The documented algorithm in its plainest form, under the same inaccurate evaluations. Gives the number of iterations
/// it takes. `nudge` perturbs the initial guess, `alt` starts the updates from the last perturbed point.
/// `alt`: the step is taken from the last perturbed point; `rev`: the columns are evaluated from the last one
fn textbook(sc: &Scenario, nudge: f64, alt: bool, rev: bool) -> Option<usize> {
    let n = sc.n();
    let m = sc.method;
    let mut k = 0;
    let mem = std::cell::Cell::new(0.0);
    let mut ev = |x: &[f64]| -> (Vec<f64>, Vec<f64>) {
        let (mut l, r) = sc.problem.eval(x, mem.get());
        if sc.mem != Mem::None {
            mem.set(sc.problem.next_mem(x, mem.get()));
        }
        if let Some(f) = sc.faults.iter().find(|f| !f.jac && f.at == k) {
            if let FaultKind::InaccurateBy(a) = f.kind {
                off(&mut l, a.0, k);
            }
        }
        k += 1;
        (l, r)
    };
    let mut x: Vec<f64> = vf(&sc.x0).iter().enumerate().map(|(i, v)| v + nudge * (1.0 + i as f64)).collect();
    let (mut l, mut r) = ev(&x);
    let (mut j, mut h): (Mat, Mat) = (vec![], vec![]);
    let mut fresh = true;
    let mut pending: Option<(Vec<f64>, Vec<f64>)> = None;
    for it in 0..LIVE_REF {
        if stop_res(sc, &l, &r).iter().all(|e| *e <= sc.tol.0) {
            return Some(it);
        }
        let mut base = (x.clone(), l.clone(), r.clone());
        let need = fresh || m == 0;
        if need {
            if sc.provided_jac {
                let (jl, jr) = sc.problem.jac(&x);
                j = (0..n).map(|a| (0..n).map(|b| dnorm(l[a], r[a], jl[a][b], jr[a][b], sc.upd[a])).collect()).collect();
            } else {
                let f = upd_res(sc, &l, &r);
                j = vec![vec![0.0; n]; n];
                let at = mem.get();
                for b in 0..n {
                    let b = if rev { n - 1 - b } else { b };
                    let p = sc.iters[b].perturbation(x[b]);
                    let mut xp = x.clone();
                    xp[b] += p;
                    let (lp, rp) = ev(&xp);
                    let fp = upd_res(sc, &lp, &rp);
                    for a in 0..n {
                        j[a][b] = (fp[a] - f[a]) / p;
                    }
                    mem.set(at);
                    if alt {
                        base = (xp, lp, rp);
                    }
                }
            }
            h = inverse(&j).1;
        } else if m >= 2 {
            let (s, y) = pending.take().unwrap();
            let f = upd_res(sc, &l, &r);
            if m % 2 == 0 {
                j = update_j(m, &j, &h, &s, &y, &f, 0.0, 0);
                h = inverse(&j).1;
            } else {
                h = update_h(m, &h, &s, &y, &f, 0.0, 0);
            }
        }
        fresh = false;
        let f = upd_res(sc, &base.1, &base.2);
        let step = matvec(&h, &f);
        let mut xn: Vec<f64> = (0..n).map(|i| limit(&sc.iters[i], base.0[i], -step[i])).collect();
        let (mut ln, mut rn) = ev(&xn);
        let worse = amax(&stop_res(sc, &ln, &rn)) > amax(&stop_res(sc, &base.1, &base.2));
        if !xn.iter().all(|v| v.is_finite()) {
            return None;
        }
        if sc.damping && worse {
            if need || m < 2 {
                xn = (0..n).map(|i| 0.5 * (base.0[i] + xn[i])).collect();
                let e = ev(&xn);
                ln = e.0;
                rn = e.1;
            } else {
                fresh = true;
            }
        }
        let fb = upd_res(sc, &base.1, &base.2);
        let fa = upd_res(sc, &ln, &rn);
        pending = Some(((0..n).map(|i| xn[i] - base.0[i]).collect(), (0..n).map(|i| fa[i] - fb[i]).collect()));
        x = xn;
        l = ln;
        r = rn;
    }
    None
}
/// the reference must converge in this many iterations for the solver to be judged
const LIVE_REF: usize = 14;

fn live(o: &mut Outcome, sc: &Scenario, s: &Solve, f: &Follow) {
    let last_at = s
        .hist
        .iter()
        .filter_map(|e| match e {
            Ev::Eval { k, st: St::Inacc(_), .. } => Some(*k),
            _ => None,
        })
        .last();
    // iterations begun after the last fault
    let after = match last_at {
        None => f.iters.len(),
        Some(a) => f
            .iters
            .iter()
            .filter(|it| {
                it.update.map_or(false, |hi| match &s.hist[hi] {
                    Ev::Eval { k, .. } => *k > a,
                    _ => false,
                })
            })
            .count(),
    };
    if let Res::Ok = s.res {
        // an accurate root: the equations hold when recomputed from scratch
        let (l, r) = sc.problem.eval(&s.x, 0.0);
        let e = stop_res(sc, &l, &r);
        if sc.problem.mem_gain.0 == 0.0 && !e.iter().all(|v| *v <= sc.tol.0 * (1.0 + 1e-9)) {
            o.fail("inaccurate-root", format!("success at {:?} whose residuals are {e:?}", s.x));
        }
    }
    if matches!(s.res, Res::Final) && last_at.is_some() && after == 0 {
        o.count("ended before the failures did", 1);
        return;
    }
    // the documented method itself has to converge, and not by luck
    let mut worst = 0;
    let fd = !sc.provided_jac;
    let ways = [(0.0, false, false), (0.0, true, false), (1e-10, false, false), (-1e-9, true, false), (1e-7, false, false), (-1e-6, false, false)];
    let reversed = [(0.0, false, true), (0.0, true, true), (1e-8, true, true)];
    for (nudge, alt, rev) in ways.iter().chain(reversed.iter().filter(|_| fd)).copied() {
        match textbook(sc, nudge, alt, rev) {
            Some(k) => worst = worst.max(k),
            None => {
                o.count("method itself too slow: not judged", 1);
                return;
            }
        }
    }
    if worst > 9 && sc.upd.iter().any(|u| *u != Norm::Abs) {
        o.count("method itself too slow: not judged", 1);
        return;
    }
    o.count("convergence judged", 1);
    o.count("iterations after the last fault", after as u64);
    *o.counts.entry("max iterations after the last fault".into()).or_insert(0) = after as u64;
    *o.counts.entry("max iterations of the reference".into()).or_insert(0) = worst as u64;
    let bound = 2 * worst + 10;
    match &s.res {
        Res::Ok if f.gave_up || f.iters.len() <= bound => (),
        Res::Ok => o.fail("slow", format!("{} iterations of {}, the documented method takes {worst}", f.iters.len(), METHODS[sc.method])),
        r => o.fail(
            "no-convergence",
            format!(
                "{} on a well-conditioned problem ends with {} after {} iterations, {after} of them after the last inaccurate evaluation; the documented method takes {worst}",
                METHODS[sc.method],
                r.short(),
                f.iters.len()
            ),
        ),
    }
}

pub fn checks() -> Vec<Check> {
    let mk = |id: &'static str, quick: u64, thorough: u64, rule: &'static str| Check {
        id,
        quick,
        thorough,
        hang: true,
        rule,
        real: REAL,
        stub: STUB,
        gen,
        run,
        shrink: if id == "C19" { shrink_faults } else { shrink_solve },
    };
    vec![
        mk("C01", 120_000, 3_000_000, "generated problem, configuration and 0-3 model faults placed inside phases reached by a dry run (biased to the last evaluation); non-trivial: at least two iterations or a fault fired"),
        mk("C02", 140_000, 3_000_000, "as C01 with error faults in every phase; non-trivial: at least two iterations or a fault fired"),
        mk("C03", 140_000, 4_000_000, "as C01 with errors and non-finite, huge or singular values; non-trivial: at least two iterations or a fault fired"),
        mk("C04", 140_000, 3_000_000, "each scenario is run with and without its reports of inaccuracy; non-trivial: at least two iterations or a fault fired"),
        mk("C05", 140_000, 3_000_000, "generated problem, configuration and 0-3 model faults; every call is attributed to a phase by the reference model; non-trivial: at least two iterations or a fault fired"),
        mk("C06", 140_000, 3_000_000, "generated problem with limits and ranges, faults returning non-finite or huge values; non-trivial: at least two iterations or a fault fired"),
        mk("C07", 140_000, 3_000_000, "models without jacobian, with memory; faults inside the finite differences; non-trivial: at least two iterations or a fault fired"),
        mk("C08", 140_000, 3_000_000, "all methods with damping and refusals provoked by faults; non-trivial: at least two iterations or a fault fired"),
        mk("C09", 140_000, 3_000_000, "all methods, values off or inaccurate; non-trivial: at least two iterations or a fault fired"),
        mk("C10", 140_000, 3_000_000, "damping on, values off so that steps get worse; non-trivial: at least two iterations or a fault fired"),
        mk("C19", 200_000, 2_000_000, "well-conditioned problem, inaccurate evaluations during the first iterations, then none; non-trivial: at least two iterations or a fault fired"),
        mk("C21", 160_000, 2_000_000, "unusable evaluations placed on iterates; non-trivial: at least two iterations or a fault fired"),
    ]
}
