//! Reference model of the documented algorithm. It follows the history of calls of one resolution, predicts the next
//! call and the verdict, re-synchronises on the observed values after each prediction, and reports divergences tagged
//! with the properties they break.

use crate::exec::{Res, Solve};
use crate::scen::*;
use crate::simmodel::*;

pub type Mat = Vec<Vec<f64>>;

pub fn norm(l: f64, r: f64, n: Norm) -> f64 {
    let d = l - r;
    match n {
        Norm::Abs => d,
        Norm::Rel => {
            if d == 0.0 {
                0.0
            } else {
                d / ((l + r).abs() / 2.0)
            }
        }
        Norm::Adapt => d / (1.0 + (l + r).abs() / 2.0),
    }
}
fn sgn(v: f64) -> f64 {
    if v.is_nan() {
        v
    } else if v.is_sign_negative() {
        -1.0
    } else {
        1.0
    }
}
pub fn dnorm(l: f64, r: f64, dl: f64, dr: f64, n: Norm) -> f64 {
    match n {
        Norm::Abs => dl - dr,
        Norm::Rel => {
            let a = (l + r).abs() / 2.0;
            let da = (dl + dr) / 2.0 * sgn(l + r);
            ((dl - dr) * a - (l - r) * da) / (a * a)
        }
        Norm::Adapt => {
            let a = 1.0 + (l + r).abs() / 2.0;
            let da = (dl + dr) / 2.0 * sgn(l + r);
            ((dl - dr) * a - (l - r) * da) / (a * a)
        }
    }
}
pub fn upd_res(sc: &Scenario, l: &[f64], r: &[f64]) -> Vec<f64> {
    (0..sc.n()).map(|i| norm(l[i], r[i], sc.upd[i])).collect()
}
pub fn stop_res(sc: &Scenario, l: &[f64], r: &[f64]) -> Vec<f64> {
    (0..sc.n()).map(|i| norm(l[i], r[i], sc.stop[i]).abs()).collect()
}
pub fn amax(v: &[f64]) -> f64 {
    let mut m = 0.0f64;
    for x in v {
        if x.is_nan() {
            return f64::NAN;
        }
        m = m.max(x.abs());
    }
    m
}
pub fn matvec(m: &Mat, v: &[f64]) -> Vec<f64> {
    m.iter().map(|r| r.iter().zip(v).map(|(a, b)| a * b).sum()).collect()
}
fn tmatvec(m: &Mat, v: &[f64]) -> Vec<f64> {
    let n = v.len();
    (0..n).map(|j| (0..n).map(|i| m[i][j] * v[i]).sum()).collect()
}
fn dot(a: &[f64], b: &[f64]) -> f64 {
    a.iter().zip(b).map(|(x, y)| x * y).sum()
}
fn finite_m(m: &Mat) -> bool {
    m.iter().all(|r| r.iter().all(|v| v.is_finite()))
}
fn wild<'a>(mut v: impl Iterator<Item = &'a f64>) -> bool {
    v.any(|v| *v != 0.0 && !(1e-75..1e75).contains(&v.abs()))
}
fn finite(v: &[f64]) -> bool {
    v.iter().all(|v| v.is_finite())
}

#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Inv {
    /// comfortably invertible
    Good,
    /// cannot tell
    Doubt,
    /// has a zero row or column
    Singular,
}

pub fn inverse(m: &Mat) -> (Inv, Mat) {
    let n = m.len();
    let nan = vec![vec![f64::NAN; n]; n];
    if !finite_m(m) {
        return (Inv::Doubt, nan);
    }
    if (0..n).any(|i| (0..n).all(|j| m[i][j] == 0.0) || (0..n).all(|j| m[j][i] == 0.0)) {
        // out of reach of overflows and underflows only
        let moderate = m.iter().flatten().all(|v| *v == 0.0 || (1e-60..1e60).contains(&v.abs()));
        return (if moderate { Inv::Singular } else { Inv::Doubt }, nan);
    }
    // row equilibration only to judge the condition
    let mut a: Mat = m.clone();
    let mut inv: Mat = (0..n).map(|i| (0..n).map(|j| if i == j { 1.0 } else { 0.0 }).collect()).collect();
    let (mut pmin, mut pmax) = (f64::INFINITY, 0.0f64);
    // complete pivoting: as accurate as can be, whatever the scaling of the rows and columns
    let mut col: Vec<usize> = (0..n).collect();
    for c in 0..n {
        let (mut p, mut q) = (c, c);
        for r in c..n {
            for k in c..n {
                if a[r][k].abs() > a[p][q].abs() {
                    p = r;
                    q = k;
                }
            }
        }
        if a[p][q] == 0.0 {
            return (Inv::Doubt, nan);
        }
        a.swap(p, c);
        inv.swap(p, c);
        if q != c {
            for row in a.iter_mut() {
                row.swap(q, c);
            }
            col.swap(q, c);
        }
        let d = a[c][c];
        pmin = pmin.min(d.abs());
        pmax = pmax.max(d.abs());
        for r in 0..n {
            if r != c && a[r][c] != 0.0 {
                let f = a[r][c] / d;
                for k in 0..n {
                    a[r][k] -= f * a[c][k];
                    inv[r][k] -= f * inv[c][k];
                }
            }
        }
    }
    for c in 0..n {
        let d = a[c][c];
        for k in 0..n {
            inv[c][k] /= d;
        }
    }
    // back to the order of the variables
    let mut out = inv.clone();
    for c in 0..n {
        out[col[c]] = inv[c].clone();
    }
    let inv = out;
    if !finite_m(&inv) || pmin < 1e-280 || pmax > 1e280 {
        return (Inv::Doubt, inv);
    }
    // badly scaled but triangular matrices are invertible: judge by the residual of the inverse
    let mut worst = 0.0f64;
    for i in 0..n {
        for j in 0..n {
            let s: f64 = (0..n).map(|k| m[i][k] * inv[k][j]).sum();
            let mag: f64 = (0..n).map(|k| (m[i][k] * inv[k][j]).abs()).sum();
            let t = if i == j { 1.0 } else { 0.0 };
            worst = worst.max((s - t).abs()).max(mag * 1e-13);
        }
    }
    if worst > 1e-4 {
        (Inv::Doubt, inv)
    } else {
        (Inv::Good, inv)
    }
}

fn abs_v(v: &[f64]) -> Vec<f64> {
    v.iter().map(|x| x.abs()).collect()
}
fn abs_m(m: &Mat) -> Mat {
    m.iter().map(|r| abs_v(r)).collect()
}
/// y, s, c as documented; both forms
pub fn update_j(method: usize, j: &Mat, h: &Mat, s: &[f64], y: &[f64], fcur: &[f64], noise: f64, salt: usize) -> Mat {
    let n = s.len();
    let js = matvec(j, s);
    // J+ = J - (J s - y) (c^T J) / (c^T J s)
    let row: Vec<f64> = match method {
        2 => s.to_vec(), // c = H^T s  =>  c^T J = s^T
        4 => tmatvec(j, y),
        6 => tmatvec(j, fcur),
        _ => matvec(h, y), // c = H^T H y  =>  c^T J = (H y)^T
    };
    let (aj, ah) = (abs_m(j), abs_m(h));
    let rmag = match method {
        2 => abs_v(s),
        4 => tmatvec(&aj, &abs_v(y)),
        6 => tmatvec(&aj, &abs_v(fcur)),
        _ => tmatvec(&aj, &tmatvec(&ah, &matvec(&ah, &abs_v(y)))),
    };
    let row: Vec<f64> = (0..n).map(|b| row[b] + noise * wob(b + 71 + salt) * rmag[b]).collect();
    let den = dot(&row, s) + noise * wob(3 + salt) * row.iter().zip(s).map(|(a, b)| (a * b).abs()).sum::<f64>();
    let mag: Vec<f64> = (0..n).map(|a| j[a].iter().zip(s).map(|(u, v)| (u * v).abs()).sum::<f64>() + y[a].abs()).collect();
    // whether the product of the three factors is computed from the left or from the right
    let rm = amax(&rmag);
    (0..n)
        .map(|a| {
            (0..n)
                .map(|b| {
                    let nz = noise * wob(a * 7 + b * 3 + 11 + salt) * (j[a][b].abs() + mag[a] * rm.max(rmag[b]) / den.abs());
                    j[a][b] - (js[a] - y[a]) * row[b] / den + nz
                })
                .collect()
        })
        .collect()
}
pub fn update_h(method: usize, h: &Mat, s: &[f64], y: &[f64], fcur: &[f64], noise: f64, salt: usize) -> Mat {
    let n = s.len();
    let hy = matvec(h, y);
    let c: Vec<f64> = match method {
        3 => tmatvec(h, s),
        5 => y.to_vec(),
        7 => fcur.to_vec(),
        _ => tmatvec(h, &hy),
    };
    let ah = abs_m(h);
    let cmag = match method {
        3 => tmatvec(&ah, &abs_v(s)),
        5 => abs_v(y),
        7 => abs_v(fcur),
        _ => tmatvec(&ah, &matvec(&ah, &abs_v(y))),
    };
    let c: Vec<f64> = (0..n).map(|b| c[b] + noise * wob(b + 71 + salt) * cmag[b]).collect();
    let den = dot(&c, y) + noise * wob(3 + salt) * c.iter().zip(y).map(|(a, b)| (a * b).abs()).sum::<f64>();
    let mag: Vec<f64> = (0..n).map(|a| h[a].iter().zip(y).map(|(u, v)| (u * v).abs()).sum::<f64>() + s[a].abs()).collect();
    let cm = amax(&cmag);
    (0..n)
        .map(|a| {
            (0..n)
                .map(|b| {
                    let nz = noise * wob(a * 7 + b * 3 + 11 + salt) * (h[a][b].abs() + mag[a] * cm.max(cmag[b]) / den.abs());
                    h[a][b] - (hy[a] - s[a]) * c[b] / den + nz
                })
                .collect()
        })
        .collect()
}

pub fn limit(p: &IterP, x: f64, raw: f64) -> f64 {
    let v = if raw.is_nan() {
        x
    } else {
        let m = p.step_limit(x);
        x + raw.max(-m).min(m)
    };
    v.max(p.min.0).min(p.max.0)
}

fn wob(i: usize) -> f64 {
    let h = crate::rng::mix(i as u64 + 31);
    (h & 0xffff) as f64 / 32768.0 - 1.0
}
fn wob_m(m: &Mat, e: f64, salt: usize) -> Mat {
    m.iter().enumerate().map(|(i, r)| r.iter().enumerate().map(|(j, v)| v * (1.0 + e * wob(i * 17 + j + salt))).collect()).collect()
}

/// rounding errors of an elimination, of the order of the largest entries
fn col_noise(mut m: Mat, salt: usize) -> Mat {
    let n = m.len();
    for j in 0..n {
        let c = (0..n).map(|i| m[i][j].abs()).fold(0.0, f64::max);
        for i in 0..n {
            m[i][j] += 1e-15 * c * wob(i * 19 + j * 23 + 6 + salt);
        }
    }
    m
}
fn close_m(a: &Mat, b: &Mat) -> bool {
    let s = a.iter().flatten().fold(0.0f64, |x, y| x.max(y.abs()));
    a.iter().flatten().zip(b.iter().flatten()).all(|(x, y)| (x - y).abs() <= 1e-5 * s)
}

/// how many shadows measure the sensitivity
const SHADOWS: usize = 3;
fn salt(k: usize) -> usize {
    k * 5003
}

/// one hypothesis on the jacobian in force, with slightly perturbed shadows that measure its sensitivity
#[derive(Clone)]
struct Cand {
    known: bool,
    j: Mat,
    h: Mat,
    js: Vec<Mat>,
    hs: Vec<Mat>,
    inv: Inv,
    /// close to overflows or underflows: the order of the operations matters
    wild: bool,
}
#[derive(Clone)]
struct Base {
    known: bool,
    x: Vec<f64>,
    l: Vec<f64>,
    r: Vec<f64>,
}

#[derive(Clone, Debug)]
pub struct Div {
    pub props: Vec<&'static str>,
    pub code: &'static str,
    pub msg: String,
    pub known: Option<&'static str>,
    pub at: usize,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Lab {
    Initial,
    Fd(usize, usize),
    Jac(usize),
    Update(usize),
    Damped(usize),
    Extra,
}

#[derive(Clone, Debug, Default)]
pub struct Iter {
    pub n: usize,
    pub new_jac: bool,
    pub update: Option<usize>,
    pub damped: Option<usize>,
    /// Some(true): refused, Some(false): not, None: cannot tell
    pub refused: Option<bool>,
    pub unusable: bool,
    pub jac_failed: bool,
}

#[derive(Clone, Debug, Default)]
pub struct Follow {
    pub divs: Vec<Div>,
    /// (index in the history, label)
    pub labels: Vec<(usize, Lab)>,
    pub iters: Vec<Iter>,
    pub sig: String,
    /// the reference model understood the whole history
    pub complete: bool,
    /// the rest of the history has no unique reading
    pub gave_up: bool,
    pub expected: Vec<Res>,
    pub steps_checked: u64,
    pub steps_unchecked: u64,
    pub damp_checked: u64,
    pub unusable_mid: Option<u64>,
}

struct St8 {
    x: Vec<f64>,
    l: Vec<f64>,
    r: Vec<f64>,
    mem: f64,
    ok: bool,
}

struct Fol<'a> {
    sc: &'a Scenario,
    s: &'a Solve,
    ev: Vec<(usize, &'a Ev)>,
    pos: usize,
    out: Follow,
    /// decisions imposed at the first ambiguous points, and all those taken
    imposed: Vec<bool>,
    midpoint_from: Vec<usize>,
    /// an iterate left its range because of the recorded finding
    astray: bool,
    doubt: bool,
    taken: Vec<bool>,
    choices_before: Option<usize>,
}

/// x is `base` with exactly one component moved by its perturbation
fn fd_column(sc: &Scenario, base: &[f64], x: &[f64]) -> Option<usize> {
    let d: Vec<usize> = (0..base.len()).filter(|i| !same1(base[*i], x[*i])).collect();
    if d.len() != 1 {
        return None;
    }
    let j = d[0];
    let p = sc.iters[j].perturbation(base[j]);
    let got = x[j] - base[j];
    let ulp = (base[j].abs() + p.abs()) * 4.5e-16;
    if (got - p).abs() <= 1e-9 * p.abs() + 2.0 * ulp {
        Some(j)
    } else {
        None
    }
}

/// the perturbation of this variable is lost in its rounding
fn stalled(sc: &Scenario, base: &[f64], j: usize) -> bool {
    base[j] + sc.iters[j].perturbation(base[j]) == base[j]
}
/// as fd_column, a perturbation being possibly lost in the rounding
fn maybe_column(sc: &Scenario, base: &[f64], x: &[f64]) -> bool {
    fd_column(sc, base, x).is_some() || (same(base, x) && (0..base.len()).any(|j| stalled(sc, base, j)))
}

impl<'a> Fol<'a> {
    fn div(&mut self, props: &[&'static str], code: &'static str, msg: String) {
        let at = self.pos;
        if self.choices_before.is_none() {
            self.choices_before = Some(self.taken.len());
        }
        self.out.divs.push(Div { props: props.to_vec(), code, msg, known: None, at });
    }
    fn known(&mut self, props: &[&'static str], key: &'static str, msg: String) {
        let at = self.pos;
        self.out.divs.push(Div { props: props.to_vec(), code: key, msg, known: Some(key), at });
    }
    /// an ambiguous point of the history: more than one reading is possible
    fn choose(&mut self, default: bool) -> bool {
        let v = self.imposed.get(self.taken.len()).copied().unwrap_or(default);
        self.taken.push(v);
        v
    }
    fn peek(&self) -> Option<&'a Ev> {
        self.ev.get(self.pos).map(|e| e.1)
    }
    fn take(&mut self, lab: Lab) -> usize {
        let i = self.ev[self.pos].0;
        self.out.labels.push((i, lab));
        self.out.sig.push(match lab {
            Lab::Initial => 'I',
            Lab::Fd(..) => 'f',
            Lab::Jac(_) => 'J',
            Lab::Update(_) => 'U',
            Lab::Damped(_) => 'D',
            Lab::Extra => '?',
        });
        match self.ev[self.pos].1 {
            Ev::Eval { st, .. } | Ev::Jac { st, .. } => match st {
                St::Ok => (),
                St::Inacc(_) => self.out.sig.push('i'),
                St::Unus(_) => self.out.sig.push('u'),
                St::Panic => self.out.sig.push('p'),
            },
            _ => (),
        }
        self.pos += 1;
        i
    }
    /// the resolution must be over, with one of these results
    fn end(&mut self, allowed: Vec<Res>, more: &[&'static str], why: &str) {
        if let Some(e) = self.peek() {
            let m = format!("{why}, yet the model is called again: {}", show(e));
            self.div(more, "call-after-end", m);
        }
        self.verdict(allowed, why);
    }
    fn verdict(&mut self, allowed: Vec<Res>, why: &str) {
        self.out.expected = allowed.clone();
        let got = self.s.res.clone();
        if matches!(got, Res::Panic(_) | Res::Hang) {
            return; // reported apart
        }
        if !allowed.contains(&got) {
            let mut p = vec!["C02"];
            if got == Res::Ok {
                p.push("C01");
            }
            if why.contains("unusable evaluation of") {
                p.push("C21");
            }
            if why.contains("inaccurate") || got == Res::Final {
                p.push("C04");
            }
            self.div(&p, "wrong-verdict", format!("{why}: expected {:?}, returned {}", allowed.first().unwrap(), got.short()));
        } else {
            self.out.complete = true;
        }
    }

    fn run(&mut self) {
        let sc = self.sc;
        let n = sc.n();
        if let Res::Panic(m) = &self.s.res {
            let m = m.clone();
            self.div(&["C03", "C02"], "panic", format!("the resolution panics: {m}"));
        }
        if self.s.res == Res::Hang {
            self.div(&["C03", "C05"], "hang", "the resolution keeps calling the model far beyond its budget".into());
        }
        let evals = self.ev.iter().filter(|e| matches!(e.1, Ev::Eval { .. })).count();
        let jacs = self.ev.iter().filter(|e| matches!(e.1, Ev::Jac { .. })).count();
        if evals > sc.eval_budget() || jacs > sc.max_iter {
            self.div(
                &["C03", "C05"],
                "over-budget",
                format!("{evals} evaluations and {jacs} jacobians for a budget of {} iterations of {n} variables", sc.max_iter),
            );
        }
        // the first evaluation
        let x0 = crate::problem::vf(&sc.x0);
        let mut cur = match self.peek() {
            Some(Ev::Eval { x, l, r, st, mem_out, .. }) => {
                if !same(x, &x0) {
                    self.div(&["C05", "C14"], "initial-point", format!("first evaluation at {x:?} instead of the initial guess {x0:?}"));
                    return;
                }
                self.take(Lab::Initial);
                match st {
                    St::Panic => return self.end(vec![Res::Crash], &["C02"], "the model died"),
                    St::Unus(id) => {
                        return self.end(
                            vec![Res::Initial(format!("SIMERR<{id}>"))],
                            &["C02", "C05"],
                            "the initial evaluation is unusable",
                        )
                    }
                    _ => (),
                }
                St8 { x: x.clone(), l: l.clone(), r: r.clone(), mem: *mem_out, ok: *st == St::Ok }
            }
            Some(e) => {
                let m = format!("first call is {}", show(e));
                return self.div(&["C05", "C08"], "initial-call", m);
            }
            None => {
                if !matches!(self.s.res, Res::Panic(_)) {
                    self.div(&["C01", "C02"], "no-evaluation", format!("returned {} without evaluating the model", self.s.res.short()));
                }
                return;
            }
        };
        let mut iter = 0usize;
        let mut forced = true;
        let mut cands: Vec<Cand> = vec![];
        let m = sc.method;
        loop {
            // convergence
            let errs = stop_res(sc, &cur.l, &cur.r);
            let tol = sc.tol.0;
            let conv = errs.iter().all(|e| *e <= tol);
            let edge = errs.iter().all(|e| *e <= tol * (1.0 + 1e-9)) && errs.iter().any(|e| *e >= tol * (1.0 - 1e-9));
            let fin = if cur.ok { Res::Ok } else { Res::Final };
            if conv || edge {
                if !(edge && (self.peek().is_some() || self.s.res == Res::NonConv)) {
                    let why = if cur.ok { "the tolerance is met" } else { "the tolerance is met by an inaccurate evaluation" };
                    return self.end(vec![fin], &["C05"], why);
                }
            }
            if iter == sc.max_iter {
                return self.end(vec![Res::NonConv], &["C03", "C05"], "the iteration budget is spent without meeting the tolerance");
            }
            iter += 1;
            let mut it = Iter { n: iter, refused: Some(false), ..Default::default() };
            let was_forced = forced && iter > 1;
            let need = m == 0 || forced;
            forced = false;
            let mut bases = vec![Base { known: false, x: cur.x.clone(), l: cur.l.clone(), r: cur.r.clone() }];
            let mut fd_done = false;
            if need {
                it.new_jac = true;
                let mut tag: Vec<&'static str> = vec!["C08"];
                if was_forced {
                    tag.push("C10");
                }
                let jm: Mat;
                let mut fd_noise: Option<Mat> = None;
                if sc.provided_jac {
                    match self.peek() {
                        Some(Ev::Jac { x, l, r, st, .. }) => {
                            if !same(x, &cur.x) {
                                let msg = format!("jacobian asked at {x:?}, the current iterate is {:?}", cur.x);
                                self.div(&["C08"], "jac-elsewhere", msg);
                                return;
                            }
                            self.take(Lab::Jac(iter));
                            match st {
                                St::Panic => return self.end(vec![Res::Crash], &["C02"], "the model died"),
                                St::Inacc(id) => {
                                    it.jac_failed = true;
                                    self.out.iters.push(it);
                                    return self.end(vec![Res::Jac { unus: false, id: *id }], &["C02"], "the jacobian evaluation failed");
                                }
                                St::Unus(id) => {
                                    it.jac_failed = true;
                                    self.out.iters.push(it);
                                    return self.end(vec![Res::Jac { unus: true, id: *id }], &["C02"], "the jacobian evaluation failed");
                                }
                                St::Ok => (),
                            }
                            jm = (0..n)
                                .map(|i| (0..n).map(|j| dnorm(cur.l[i], cur.r[i], l[i][j], r[i][j], sc.upd[i])).collect())
                                .collect();
                            let mag = |i: usize, j: usize| -> f64 {
                                if sc.upd[i] == Norm::Abs {
                                    return 0.0;
                                }
                                let a = (cur.l[i] + cur.r[i]).abs() / 2.0 + if sc.upd[i] == Norm::Adapt { 1.0 } else { 0.0 };
                                1e-15 * (l[i][j].abs() + r[i][j].abs()) * (1.0 + (cur.l[i] - cur.r[i]).abs() / a) / a
                            };
                            fd_noise = Some((0..n).map(|i| (0..n).map(|j| mag(i, j)).collect()).collect());
                        }
                        Some(e @ Ev::Eval { x, .. }) => {
                            if fd_column(sc, &cur.x, x).is_some() && n > 1 {
                                self.div(&["C08", "C05"], "fd-on-provided", format!("the jacobian is provided but {}", show(e)));
                            } else {
                                self.div(&tag, "jac-missing", format!("iteration {iter} needs a new jacobian, but {}", show(e)));
                            }
                            return;
                        }
                        _ => {
                            return self.verdict_early(iter, &tag);
                        }
                    }
                } else {
                    let mut cols: Vec<Option<Vec<f64>>> = vec![None; n];
                    let fref = upd_res(sc, &cur.l, &cur.r);
                    let mut last: Option<Base> = None;
                    let mut seen = 0;
                    while seen < n {
                        match self.peek() {
                            Some(e @ Ev::Eval { x, l, r, st, mem_in, mem_out: _, .. }) => {
                                let col = if finite(&cur.x) { fd_column(sc, &cur.x, x) } else { cols.iter().position(|c| c.is_none()) };
                                let lost = || (0..n).find(|j| cols[*j].is_none() && stalled(sc, &cur.x, *j));
                                let j = match col.or_else(|| if same(x, &cur.x) { lost() } else { None }) {
                                    Some(j) => j,
                                    None if same(x, &cur.x) => {
                                        self.div(&["C05", "C07"], "iterate-again", format!("the current iterate is evaluated again: {}", show(e)));
                                        self.take(Lab::Extra);
                                        continue;
                                    }
                                    None => {
                                        let nd = (0..n).filter(|i| !same1(cur.x[*i], x[*i])).count();
                                        let t: Vec<&'static str> = if seen > 0 || (nd == 1 && n > 1) || nd > 1 && nd < n {
                                            vec!["C07"]
                                        } else {
                                            let mut t = vec!["C07"];
                                            t.extend(tag.iter());
                                            t
                                        };
                                        self.div(
                                            &t,
                                            "fd-column",
                                            format!(
                                                "iteration {iter}, finite difference evaluation {seen} of {n}: expected one variable of {:?} perturbed, got {}",
                                                cur.x,
                                                show(e)
                                            ),
                                        );
                                        return;
                                    }
                                };
                                if cols[j].is_some() {
                                    self.div(&["C05", "C07"], "fd-column-twice", format!("variable {j} is perturbed again: {}", show(e)));
                                    self.take(Lab::Extra);
                                    continue;
                                }
                                if sc.mem != Mem::None && !same1(*mem_in, cur.mem) {
                                    self.div(
                                        &["C07"],
                                        "fd-memory",
                                        format!("column of variable {j} starts from memory {mem_in:?} instead of {:?}, the one saved at the iterate", cur.mem),
                                    );
                                }
                                self.take(Lab::Fd(iter, j));
                                match st {
                                    St::Panic => return self.end(vec![Res::Crash], &["C02"], "the model died"),
                                    St::Unus(id) => {
                                        it.jac_failed = true;
                                        self.out.iters.push(it);
                                        return self.end(vec![Res::Jac { unus: true, id: *id }], &["C02"], "a finite difference evaluation is unusable");
                                    }
                                    _ => (),
                                }
                                let p = sc.iters[j].perturbation(cur.x[j]);
                                let f = upd_res(sc, l, r);
                                cols[j] = Some((0..n).map(|i| (f[i] - fref[i]) / p).collect());
                                let nz = fd_noise.get_or_insert_with(|| vec![vec![0.0; n]; n]);
                                let e = 4.0 * 2.3e-16;
                                for i in 0..n {
                                    let frozen = same1(l[i], cur.l[i]) && same1(r[i], cur.r[i]);
                                    nz[i][j] = if frozen { 0.0 } else { e * (f[i].abs() + fref[i].abs()) / p };
                                }
                                last = Some(Base { known: true, x: x.clone(), l: l.clone(), r: r.clone() });
                                seen += 1;
                            }
                            Some(e @ Ev::Jac { .. }) => {
                                self.div(&["C08"], "jac-not-provided", format!("the model does not provide its jacobian but {}", show(e)));
                                return;
                            }
                            _ => return self.verdict_early(iter, if seen == 0 { &tag } else { &["C07"] }),
                        }
                    }
                    fd_done = true;
                    if sc.mem != Mem::Full {
                        bases.push(last.unwrap());
                    }
                    jm = (0..n).map(|i| (0..n).map(|j| cols[j].as_ref().unwrap()[i]).collect()).collect();
                    // a column evaluated twice after all were seen
                    while let Some(Ev::Eval { x, .. }) = self.peek() {
                        if n > 1 && finite(&cur.x) && fd_column(sc, &cur.x, x).is_some() && self.looks_wasted(&bases, &jm, x) {
                            let msg = format!("a column is evaluated again: {}", show(self.peek().unwrap()));
                            self.div(&["C05", "C07"], "fd-column-twice", msg);
                            self.take(Lab::Extra);
                        } else {
                            break;
                        }
                    }
                }
                let (inv, h) = inverse(&jm);
                let mut js = vec![];
                let mut hs = vec![];
                let mut still = true;
                for k in 0..SHADOWS {
                    let mut q = wob_m(&jm, 1e-11, salt(k));
                    if let Some(noise) = &fd_noise {
                        for i in 0..n {
                            for j in 0..n {
                                q[i][j] += noise[i][j] * wob(i * 13 + j * 5 + 2 + salt(k));
                            }
                        }
                    }
                    still &= inverse(&q).0 == Inv::Singular;
                    let q = col_noise(q, salt(k));
                    hs.push(inverse(&q).1);
                    js.push(q);
                }
                let inv = match inv {
                    Inv::Good if !hs.iter().all(|q| close_m(&h, q)) => Inv::Doubt,
                    Inv::Singular if !still => Inv::Doubt,
                    v => v,
                };
                let wild = wild(jm.iter().flatten());
                cands = vec![Cand { known: false, j: jm, h, js, hs, inv, wild }];
            } else {
                // nothing may be obtained for this iteration
                match self.peek() {
                    Some(e @ Ev::Jac { .. }) => {
                        let t: &[&'static str] = if sc.damping { &["C08", "C10"] } else { &["C08"] };
                        self.div(t, "jac-unexpected", format!("iteration {iter} of {} obtains a jacobian: {}", METHODS[m], show(e)));
                        return;
                    }
                    Some(e @ Ev::Eval { x, .. }) if n > 1 && fd_column(sc, &cur.x, x).is_some() && !sc.provided_jac => {
                        let close = self.doubt || cands.iter().any(|c| self.matches(&bases[0], c, x) != Some(false));
                        if !close {
                            let t: &[&'static str] = if sc.damping { &["C05", "C08", "C10"] } else { &["C05", "C08"] };
                            self.div(t, "fd-unexpected", format!("iteration {iter} of {} perturbs the iterate: {}", METHODS[m], show(e)));
                            return;
                        }
                    }
                    _ => (),
                }
            }
            // invertibility
            let worst_inv = cands.iter().map(|c| c.inv).fold(Inv::Good, |a, b| if a == Inv::Good { b } else { a });
            let relevant = need || matches!(m, 2 | 4 | 6 | 8);
            if self.peek().is_none() && self.s.res == Res::JacInv && relevant {
                it.jac_failed = true;
                self.out.iters.push(it);
                if cands.iter().all(|c| c.inv == Inv::Good) && (need || !self.doubt) {
                    self.div(&["C02"], "wrong-verdict", format!("iteration {iter}: non invertible jacobian reported for an invertible one {:?}", cands[0].j));
                } else {
                    self.out.expected = vec![Res::JacInv];
                    self.out.complete = true;
                    self.out.sig.push('S');
                }
                return;
            }
            if relevant && worst_inv == Inv::Singular && cands.iter().all(|c| c.inv == Inv::Singular) {
                it.jac_failed = true;
                self.out.iters.push(it);
                return self.end(vec![Res::JacInv], &["C02"], "the jacobian has a zero row or column");
            }
            // the step
            let (ui, x_new) = loop {
                match self.peek() {
                    Some(e @ Ev::Eval { x, .. }) => {
                        if same(x, &cur.x) && !(self.doubt && !need) && !self.any_step_null(&bases, &cands) {
                            self.div(&["C05"], "iterate-again", format!("the current iterate is evaluated again: {}", show(e)));
                            self.take(Lab::Extra);
                            continue;
                        }
                        break (self.ev[self.pos].0, x.clone());
                    }
                    Some(e @ Ev::Jac { .. }) => {
                        let t: &[&'static str] = if sc.provided_jac { &["C05", "C08"] } else { &["C08"] };
                        let msg = format!("jacobian obtained twice in iteration {iter}: {}", show(e));
                        self.div(t, "jac-twice", msg);
                        return;
                    }
                    _ => return self.verdict_early(iter, &[]),
                }
            };
            // limits (the iterate may already be out of its range because of the recorded finding)
            let inside = !self.astray || (0..n).all(|i| cur.x[i] >= sc.iters[i].min.0 && cur.x[i] <= sc.iters[i].max.0);
            if sc.in_range() && inside {
                self.check_limits(&bases, &x_new, iter, "iterate");
            }
            // prediction
            let mut matched: Vec<(usize, usize)> = vec![];
            let mut undecided = false;
            for (bi, b) in bases.iter().enumerate() {
                for (ci, c) in cands.iter().enumerate() {
                    match self.matches(b, c, &x_new) {
                        Some(true) => matched.push((bi, ci)),
                        Some(false) => (),
                        None => undecided = true,
                    }
                }
            }
            // an approximation inherits the errors of the matrix it started from
            if need {
                self.doubt = false;
            }
            self.doubt |= undecided;
            if undecided || (self.doubt && matched.is_empty()) {
                self.out.steps_unchecked += 1;
                matched = (0..bases.len()).flat_map(|b| (0..cands.len()).map(move |c| (b, c))).collect();
            } else {
                self.out.steps_checked += 1;
                if matched.is_empty() {
                    let p = self.predict(&bases[0], &cands[0]).0;
                    let msg = format!(
                        "iteration {iter} of {}: from {:?} with residuals {:?} the documented step leads to {:?}, the model was evaluated at {:?}",
                        METHODS[m],
                        cur.x,
                        upd_res(sc, &cur.l, &cur.r),
                        p,
                        x_new
                    );
                    self.div(&["C09"], "wrong-step", msg);
                    matched = (0..bases.len()).flat_map(|b| (0..cands.len()).map(move |c| (b, c))).collect();
                } else if matched.iter().all(|(b, c)| bases[*b].known || cands[*c].known) {
                    let msg = format!("iteration {iter} of {}: the step starts from the last perturbed point, not from the iterate", METHODS[m]);
                    self.known(&["C09"], "fd-base", msg);
                }
            }
            // memory after the columns
            let (l, r, st, mem_in, mem_out) = match self.peek() {
                Some(Ev::Eval { l, r, st, mem_in, mem_out, .. }) => (l.clone(), r.clone(), *st, *mem_in, *mem_out),
                _ => unreachable!(),
            };
            if fd_done && sc.mem != Mem::None && !same1(mem_in, cur.mem) {
                let msg = format!("after the jacobian the next evaluation starts from memory {mem_in:?} instead of {:?}", cur.mem);
                self.div(&["C07"], "memory-after-jac", msg);
            }
            self.take(Lab::Update(iter));
            it.update = Some(ui);
            match st {
                St::Panic => {
                    self.out.iters.push(it);
                    return self.end(vec![Res::Crash], &["C02"], "the model died");
                }
                St::Unus(id) => {
                    it.unusable = true;
                    if iter < sc.max_iter {
                        self.out.unusable_mid = Some(id);
                    }
                    self.out.iters.push(it);
                    return self.unusable(&bases, &x_new, id);
                }
                _ => (),
            }
            let mut acc = St8 { x: x_new.clone(), l, r, mem: mem_out, ok: st == St::Ok };
            let dust = |b: &Base| (0..n).all(|i| (b.x[i] - x_new[i]).abs() <= 1e-14 * (b.x[i].abs() + x_new[i].abs()));
            if !x_new.iter().all(|v| v.abs() < 1e75) || (sc.damping && bases.iter().any(dust)) {
                // no unique reading from here on: a point that does not move is its own midpoint
                self.out.iters.push(it);
                self.out.sig.push('~');
                self.out.gave_up = true;
                return;
            }
            // damping
            let m_new = amax(&stop_res(sc, &acc.l, &acc.r));
            let worse = |b: &Base| -> Option<bool> {
                let p = amax(&stop_res(sc, &b.l, &b.r));
                if p.is_nan() || m_new.is_nan() || (p.is_infinite() && m_new.is_infinite()) {
                    return None;
                }
                if p.is_finite() && m_new.is_finite() && (m_new - p).abs() <= 1e-12 * p.abs().max(m_new.abs()) {
                    return if p == m_new { Some(false) } else { None };
                }
                Some(m_new > p)
            };
            let approx = m >= 2 && !need;
            // which bases are still possible for this iteration
            let live: Vec<usize> = {
                let mut v: Vec<usize> = matched.iter().map(|x| x.0).collect();
                v.sort();
                v.dedup();
                v
            };
            let mut damped = false;
            let due = sc.damping && !approx && live.iter().any(|b| worse(&bases[*b]) != Some(false));
            let obs = {
                let mid = self.looks_midpoint(&bases, &x_new);
                // the midpoint may be the same point
                let null = sc.damping && self.looks_null_midpoint(&bases, &x_new);
                let seg = due && worse(&bases[0]) == Some(true) && self.looks_segment(&bases, &x_new);
                let column = match self.peek() {
                    Some(Ev::Eval { x, .. }) => !sc.provided_jac && maybe_column(sc, &x_new, x),
                    _ => false,
                };
                let dust = |b: &Base| (0..n).all(|i| (b.x[i] - x_new[i]).abs() <= 1e-12 * (b.x[i].abs() + x_new[i].abs()));
                if (mid || null) && live.iter().any(|b| worse(&bases[*b]).is_none() && dust(&bases[*b])) {
                    // moves and residuals at the level of rounding: no unique reading from here on
                    self.out.iters.push(it);
                    self.out.sig.push('~');
                    self.out.gave_up = true;
                    return;
                }
                if mid || null {
                    let d = if null || column { due } else { due || !self.explained_as_step(&bases, &cands, &matched, &acc) };
                    self.choose(d)
                } else {
                    seg && {
                        let d = !column && !self.explained_as_step(&bases, &cands, &matched, &acc);
                        self.choose(d)
                    }
                }
            };
            if sc.damping || obs {
                if !sc.damping {
                    let msg = format!("damping is off but {}", show(self.peek().unwrap()));
                    self.div(&["C10"], "damped-off", msg);
                    damped = true;
                } else {
                    self.out.damp_checked += 1;
                    let w: Vec<(bool, Option<bool>)> = live.iter().map(|b| (bases[*b].known, worse(&bases[*b]))).collect();
                    let base_a = worse(&bases[0]);
                    if !approx {
                        // expected: damped iff worse
                        let ok_a = base_a.is_none() || base_a == Some(obs);
                        if !ok_a {
                            let ok_any = w.iter().any(|(k, v)| *k && (v.is_none() || *v == Some(obs)));
                            let msg = format!(
                                "iteration {iter}: largest stopping residual {:?} after {:?}, {}",
                                m_new,
                                amax(&stop_res(sc, &cur.l, &cur.r)),
                                if obs { "and the midpoint was evaluated" } else { "and no midpoint was evaluated" }
                            );
                            if ok_any {
                                self.known(&["C10"], "fd-base", msg);
                            } else {
                                self.div(&["C10"], if obs { "damped-better" } else { "not-damped" }, msg);
                            }
                        }
                        damped = obs;
                    } else {
                        if obs {
                            let msg = format!("iteration {iter}: the step came from an approximated jacobian, yet it was damped: {}", show(self.peek().unwrap()));
                            self.div(&["C10"], "damped-approximated", msg);
                            damped = true;
                        }
                        match base_a {
                            Some(true) => {
                                forced = true;
                                it.refused = Some(true)
                            }
                            Some(false) => (),
                            None => {
                                // cannot tell: believe what is observed
                                it.refused = None;
                                let lost = match self.peek() {
                                    Some(Ev::Eval { x, .. }) => same(x, &acc.x),
                                    _ => false,
                                };
                                forced = self.next_is_jacobian(&acc);
                                if forced && lost {
                                    forced = self.choose(true);
                                }
                            }
                        }
                    }
                }
            }
            if damped {
                let (x, l, r, st, mo) = match self.peek() {
                    Some(Ev::Eval { x, l, r, st, mem_out, .. }) => (x.clone(), l.clone(), r.clone(), *st, *mem_out),
                    _ => unreachable!(),
                };
                // location
                let mid = |b: &Base| -> Vec<f64> { (0..n).map(|i| b.x[i] * 0.5 + x_new[i] * 0.5).collect() };
                let hit = |b: &Base| -> bool {
                    let q = mid(b);
                    (0..n).all(|i| !q[i].is_finite() || (q[i] - x[i]).abs() <= 1e-15 * (b.x[i].abs() + x_new[i].abs()))
                };
                if !hit(&bases[0]) {
                    let msg = format!("iteration {iter}: damped iterate {x:?} is not the midpoint {:?} of {:?} and {:?}", mid(&bases[0]), cur.x, x_new);
                    if bases.len() > 1 && hit(&bases[1]) {
                        self.known(&["C10"], "fd-base", msg);
                    } else {
                        self.div(&["C10"], "not-midpoint", msg);
                    }
                }
                self.midpoint_from = (0..bases.len()).filter(|b| hit(&bases[*b])).collect();
                if sc.in_range() && inside {
                    self.check_limits(&bases, &x, iter, "damped iterate");
                }
                let di = self.take(Lab::Damped(iter));
                it.damped = Some(di);
                match st {
                    St::Panic => {
                        self.out.iters.push(it);
                        return self.end(vec![Res::Crash], &["C02"], "the model died");
                    }
                    St::Unus(id) => {
                        it.unusable = true;
                        if iter < sc.max_iter {
                            self.out.unusable_mid = Some(id);
                        }
                        self.out.iters.push(it);
                        return self.unusable(&bases, &x, id);
                    }
                    _ => (),
                }
                acc = St8 { x, l, r, mem: mo, ok: st == St::Ok };
                // at most one midpoint
                while let Some(Ev::Eval { x, .. }) = self.peek() {
                    let second = self.on_segment(&bases[0].x, &acc.x, x) && !self.on_segment_trivial(&acc.x, x);
                    if second && self.is_midpoint(&bases, &acc.x, x) && (m == 0 || !self.explained_as_step(&bases, &cands, &matched, &acc)) {
                        let msg = format!("iteration {iter}: a second midpoint is tried: {}", show(self.peek().unwrap()));
                        self.div(&["C10", "C05"], "second-midpoint", msg);
                        return;
                    }
                    break;
                }
            }
            if m >= 2 {
                cands = self.next_cands(&bases, &cands, &matched, &acc);
            }
            self.out.iters.push(it);
            cur = acc;
        }
    }

    /// quasi-Newton update for the next iteration
    fn next_cands(&self, bases: &[Base], cands: &[Cand], matched: &[(usize, usize)], acc: &St8) -> Vec<Cand> {
        let sc = self.sc;
        let n = sc.n();
        let m = sc.method;
        if m < 2 {
            return cands.to_vec();
        }
                let mut next: Vec<Cand> = vec![];
                for (bi, ci) in matched {
                    let (b, c) = (&bases[*bi], &cands[*ci]);
                    let fb = upd_res(sc, &b.l, &b.r);
                    let fa = upd_res(sc, &acc.l, &acc.r);
                    let s: Vec<f64> = (0..n).map(|i| acc.x[i] - b.x[i]).collect();
                    let y: Vec<f64> = (0..n).map(|i| fa[i] - fb[i]).collect();
                    let wild = c.wild || wild(s.iter()) || wild(y.iter()) || wild(fa.iter());
                    let shadow = |k: usize| {
                        let w = |i: usize| wob(i + salt(k));
                        let s2: Vec<f64> = (0..n).map(|i| s[i] + 2e-16 * w(i) * (acc.x[i].abs() + b.x[i].abs())).collect();
                        let y2: Vec<f64> = (0..n).map(|i| y[i] + 2e-15 * w(i + 9) * (fa[i].abs() + fb[i].abs())).collect();
                        let fa2: Vec<f64> = (0..n).map(|i| fa[i] * (1.0 + 1e-13 * w(i + 5))).collect();
                        (s2, y2, fa2)
                    };
                    let nc = if m % 2 == 0 {
                        let j = update_j(m, &c.j, &c.h, &s, &y, &fa, 0.0, 0);
                        let js: Vec<Mat> = (0..SHADOWS)
                            .map(|k| {
                                let (s2, y2, fa2) = shadow(k);
                                col_noise(update_j(m, &c.js[k], &c.hs[k], &s2, &y2, &fa2, 1e-14, salt(k)), salt(k))
                            })
                            .collect();
                        let (inv, h) = inverse(&j);
                        let hs: Vec<Mat> = js.iter().map(|q| inverse(q).1).collect();
                        // it may be lost in the cancellations
                        let lost = !js.iter().all(|q| close_m(&j, q)) || !hs.iter().all(|q| close_m(&h, q));
                        let inv = if inv == Inv::Singular || lost { Inv::Doubt } else { inv };
                        Cand { known: c.known || b.known, wild: wild || crate::refm::wild(j.iter().flatten()), j, h, js, hs, inv }
                    } else {
                        let h = update_h(m, &c.h, &s, &y, &fa, 0.0, 0);
                        let hs: Vec<Mat> = (0..SHADOWS)
                            .map(|k| {
                                let (s2, y2, fa2) = shadow(k);
                                update_h(m, &c.hs[k], &s2, &y2, &fa2, 1e-14, salt(k))
                            })
                            .collect();
                        Cand { known: c.known || b.known, wild: wild || crate::refm::wild(h.iter().flatten()), j: c.j.clone(), h, js: c.js.clone(), hs, inv: Inv::Good }
                    };
                    next.push(nc);
                }
                next.truncate(4);
        next
    }

    /// the next call is the step of the next iteration (or could be)
    fn explained_as_step(&self, bases: &[Base], cands: &[Cand], matched: &[(usize, usize)], acc: &St8) -> bool {
        let x = match self.peek() {
            Some(Ev::Eval { x, .. }) => x,
            _ => return false,
        };
        if self.doubt && self.sc.method != 0 {
            return true;
        }
        let nb = Base { known: false, x: acc.x.clone(), l: acc.l.clone(), r: acc.r.clone() };
        self.next_cands(bases, cands, matched, acc).iter().any(|c| self.matches(&nb, c, x) != Some(false))
    }

    fn looks_wasted(&self, bases: &[Base], jm: &Mat, x: &[f64]) -> bool {
        let (inv, h) = inverse(jm);
        if inv != Inv::Good {
            return false;
        }
        let c = Cand { known: false, j: jm.clone(), h: h.clone(), js: vec![jm.clone(); SHADOWS], hs: vec![h; SHADOWS], inv, wild: wild(jm.iter().flatten()) };
        // not explained as a step
        bases.iter().all(|b| self.matches(b, &c, x) == Some(false))
    }

    fn next_is_jacobian(&self, acc: &St8) -> bool {
        match self.peek() {
            Some(Ev::Jac { .. }) => true,
            Some(Ev::Eval { x, .. }) => !self.sc.provided_jac && maybe_column(self.sc, &acc.x, x),
            _ => false,
        }
    }

    /// (prediction, tolerance or None when the step is too sensitive to be judged)
    fn predict(&self, b: &Base, c: &Cand) -> (Vec<f64>, Option<f64>) {
        let sc = self.sc;
        let n = sc.n();
        let f = upd_res(sc, &b.l, &b.r);
        let raw: Vec<f64> = matvec(&c.h, &f).iter().map(|v| -v).collect();
        let raws: Vec<Vec<f64>> = c
            .hs
            .iter()
            .enumerate()
            .map(|(k, h)| {
                let fs: Vec<f64> = (0..n).map(|i| f[i] * (1.0 + 1e-13 * wob(i + 40 + salt(k)))).collect();
                matvec(h, &fs).iter().map(|v| -v).collect()
            })
            .collect();
        let x: Vec<f64> = (0..n).map(|i| sc.iters[i].next(b.x[i], raw[i])).collect();
        if !finite(&raw) || !raws.iter().all(|v| finite(v)) || !finite(&b.x) || c.inv == Inv::Doubt || c.wild || wild(f.iter()) {
            return (x, None);
        }
        let d = raws.iter().map(|v| (0..n).map(|i| (raw[i] - v[i]).abs()).fold(0.0, f64::max)).fold(0.0, f64::max);
        let sz = amax(&raw);
        if 1000.0 * d > 1e-3 * sz {
            return (x, None);
        }
        (x, Some(1000.0 * d + 1e-9 * sz))
    }
    fn matches(&self, b: &Base, c: &Cand, x: &[f64]) -> Option<bool> {
        let (p, tol) = self.predict(b, c);
        let tol = tol?;
        Some((0..x.len()).all(|i| (p[i] - x[i]).abs() <= tol + 1e-15 * (b.x[i].abs() + p[i].abs())))
    }
    fn any_step_null(&self, bases: &[Base], cands: &[Cand]) -> bool {
        bases.iter().any(|b| {
            cands.iter().any(|c| {
                let (p, tol) = self.predict(b, c);
                match tol {
                    None => true,
                    Some(t) => (0..p.len()).all(|i| (p[i] - bases[0].x[i]).abs() <= t + 1e-6 * (1e-6 + p[i].abs())),
                }
            })
        })
    }
    fn check_limits(&mut self, bases: &[Base], x: &[f64], iter: usize, what: &str) {
        let sc = self.sc;
        let ok = |b: &Base| -> Option<String> {
            for i in 0..x.len() {
                let p = &sc.iters[i];
                if !(b.x[i].is_finite()) {
                    continue;
                }
                let lim = p.step_limit(b.x[i]);
                let d = (x[i] - b.x[i]).abs();
                // brought back to its range
                if (b.x[i] > p.max.0 && x[i] == p.max.0) || (b.x[i] < p.min.0 && x[i] == p.min.0) {
                    continue;
                }
                let slack = 1e-12 * lim + 4.5e-16 * (b.x[i].abs() + x[i].abs());
                if p.own_step < 2 && lim.is_finite() && !(d <= lim + slack) {
                    return Some(format!("variable {i} moves from {:?} to {:?}, more than its limit {:?}", b.x[i], x[i], lim));
                }
            }
            None
        };
        for i in 0..x.len() {
            let p = &sc.iters[i];
            let slack = |v: f64| if v.is_finite() { 4.5e-16 * v.abs() } else { 0.0 };
            if p.own_step < 2 && !(x[i] >= p.min.0 - slack(p.min.0) && x[i] <= p.max.0 + slack(p.max.0)) {
                if what == "damped iterate" && bases.len() > 1 && self.midpoint_from.contains(&1) && !self.midpoint_from.contains(&0) {
                    let msg = format!("iteration {iter}: {what} {x:?}: variable {i} = {:?} is outside [{:?}, {:?}]", x[i], p.min.0, p.max.0);
                    self.known(&["C06"], "fd-base", msg);
                    self.astray = true;
                    return;
                }
                self.div(
                    &["C06"],
                    "out-of-range",
                    format!("iteration {iter}: {what} {x:?}: variable {i} = {:?} is outside [{:?}, {:?}]", x[i], p.min.0, p.max.0),
                );
                return;
            }
        }
        if let Some(m) = ok(&bases[0]) {
            if bases.len() > 1 && ok(&bases[1]).is_none() {
                self.known(&["C06"], "fd-base", format!("iteration {iter}: {what}: {m}"));
            } else {
                self.div(&["C06"], "step-limit", format!("iteration {iter}: {what}: {m}"));
            }
        }
    }
    fn on_segment_trivial(&self, a: &[f64], x: &[f64]) -> bool {
        same(a, x)
    }
    /// x strictly between a and b, on the same line
    fn on_segment(&self, a: &[f64], b: &[f64], x: &[f64]) -> bool {
        let n = a.len();
        let k = (0..n).max_by(|i, j| (a[*i] - b[*i]).abs().partial_cmp(&(a[*j] - b[*j]).abs()).unwrap_or(std::cmp::Ordering::Equal));
        let k = match k {
            Some(k) => k,
            None => return false,
        };
        let den = b[k] - a[k];
        if den == 0.0 || !den.is_finite() {
            return false;
        }
        let t = (x[k] - a[k]) / den;
        if !(t > 1e-3 && t < 1.0 - 1e-3) {
            return false;
        }
        (0..n).all(|i| {
            let e = a[i] + t * (b[i] - a[i]);
            (e - x[i]).abs() <= 1e-9 * den.abs() + 4e-15 * (a[i].abs() + b[i].abs())
        })
    }
    fn is_midpoint(&self, bases: &[Base], x_new: &[f64], x: &[f64]) -> bool {
        bases.iter().any(|b| {
            (0..x.len()).all(|i| {
                let q = b.x[i] * 0.5 + x_new[i] * 0.5;
                (!q.is_finite() && !x[i].is_finite()) || (q - x[i]).abs() <= 1e-15 * (b.x[i].abs() + x_new[i].abs())
            })
        }) && !same(x, x_new)
    }
    fn looks_null_midpoint(&self, bases: &[Base], x_new: &[f64]) -> bool {
        match self.peek() {
            Some(Ev::Eval { x, .. }) => {
                bases.iter().any(|b| {
                    (0..x.len()).all(|i| {
                        let q = b.x[i] * 0.5 + x_new[i] * 0.5;
                        same1(x[i], x_new[i]) && (q - x[i]).abs() <= 1e-15 * x[i].abs()
                    })
                })
            }
            _ => false,
        }
    }
    /// the next evaluation is the midpoint of a base and x_new
    fn looks_midpoint(&self, bases: &[Base], x_new: &[f64]) -> bool {
        match self.peek() {
            Some(Ev::Eval { x, .. }) => self.is_midpoint(bases, x_new, x),
            _ => false,
        }
    }
    /// the next evaluation is another point between a base and x_new
    fn looks_segment(&self, bases: &[Base], x_new: &[f64]) -> bool {
        match self.peek() {
            Some(Ev::Eval { x, .. }) => {
                bases.iter().any(|b| !same(&b.x, x_new) && self.on_segment(&b.x, x_new, x))
            }
            _ => false,
        }
    }
    /// an iterate had no usable values: either the error ends the resolution or a documented recovery is attempted
    fn unusable(&mut self, bases: &[Base], x_new: &[f64], id: u64) {
        if let Some(e) = self.peek() {
            let b = &bases[0];
            let recov = match e {
                Ev::Jac { x, .. } => bases.iter().any(|b| same(x, &b.x)),
                Ev::Eval { x, .. } => {
                    !same(x, x_new)
                        && ((!self.sc.provided_jac && maybe_column(self.sc, &b.x, x))
                            || bases.iter().any(|b| self.on_segment(&b.x, x_new, x))
                            || self.is_midpoint(bases, x_new, x))
                }
                _ => false,
            };
            if recov {
                self.out.sig.push('r');
                return;
            }
            let msg = format!("an iterate had no usable values, yet the resolution goes on from it: {}", show(e));
            self.div(&["C02", "C21", "C01"], "continued-unusable", msg);
            return;
        }
        self.verdict(vec![Res::ModelEval { unus: true, id }], "unusable evaluation of an iterate")
    }
    fn verdict_early(&mut self, iter: usize, tag: &[&'static str]) {
        let got = self.s.res.clone();
        if matches!(got, Res::Panic(_) | Res::Hang) {
            return;
        }
        let mut t = vec!["C02"];
        if got == Res::Ok {
            t.push("C01");
        }
        t.extend(tag.iter().filter(|x| **x != "C08" || got == Res::NonConv));
        self.div(&t, "early-end", format!("the resolution stops before iteration {iter} is done with {} (budget {})", got.short(), self.sc.max_iter));
    }
}

const MAX_READINGS: usize = 200;

/// The history may be readable in several ways (a step may fall on a midpoint): it is accepted when one reading is.
pub fn follow(sc: &Scenario, s: &Solve) -> Follow {
    let ev: Vec<(usize, &Ev)> = s.hist.iter().enumerate().filter(|e| matches!(e.1, Ev::Eval { .. } | Ev::Jac { .. })).collect();
    let mut imposed: Vec<bool> = vec![];
    let mut best: Option<Follow> = None;
    // (choices, how many of them are not to be changed any more)
    let mut todo: Vec<Vec<bool>> = vec![];
    for _ in 0..MAX_READINGS {
        let mut f = Fol { sc, s, ev: ev.clone(), pos: 0, out: Follow::default(), imposed: imposed.clone(), midpoint_from: vec![], astray: false, doubt: false, taken: vec![], choices_before: None };
        f.run();
        let bad = f.out.divs.iter().any(|d| d.known.is_none());
        if !bad {
            return f.out;
        }
        // what comes after the first divergence does not explain it
        for k in imposed.len()..f.choices_before.unwrap_or(f.taken.len()) {
            let mut alt = f.taken[..k].to_vec();
            alt.push(!f.taken[k]);
            todo.push(alt);
        }
        if best.is_none() {
            best = Some(f.out);
        }
        match todo.pop() {
            Some(t) => imposed = t,
            None => return best.unwrap(),
        }
    }
    // too many readings to try them all: not judged
    let mut f = best.unwrap();
    f.divs.retain(|d| d.known.is_some());
    f.complete = false;
    f.gave_up = true;
    f
}

/// Other readings of the history than the one `follow` gives which leave nothing unexplained.
pub fn other_readings(sc: &Scenario, s: &Solve) -> Vec<Follow> {
    let ev: Vec<(usize, &Ev)> = s.hist.iter().enumerate().filter(|e| matches!(e.1, Ev::Eval { .. } | Ev::Jac { .. })).collect();
    let mut out = vec![];
    let mut todo: Vec<Vec<bool>> = vec![vec![]];
    for _ in 0..MAX_READINGS {
        let imposed = match todo.pop() {
            Some(t) => t,
            None => return out,
        };
        let mut f = Fol { sc, s, ev: ev.clone(), pos: 0, out: Follow::default(), imposed: imposed.clone(), midpoint_from: vec![], astray: false, doubt: false, taken: vec![], choices_before: None };
        f.run();
        for k in imposed.len()..f.choices_before.unwrap_or(f.taken.len()) {
            let mut alt = f.taken[..k].to_vec();
            alt.push(!f.taken[k]);
            todo.push(alt);
        }
        if f.out.divs.iter().all(|d| d.known.is_some()) {
            out.push(f.out);
        }
    }
    // too many to know them all
    let mut f = Follow::default();
    f.gave_up = true;
    out.push(f);
    out
}
