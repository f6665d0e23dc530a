//! Generated systems of equations left(x) = right(x).

use crate::rng::Rng;
use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// f64 that survives a JSON round trip (NaN, infinities included).
#[derive(Clone, Copy, PartialEq, PartialOrd, Debug)]
pub struct F(pub f64);

impl Serialize for F {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        if self.0.is_finite() && self.0 == self.0.trunc() && self.0.abs() < 1e15 && !(self.0 == 0.0 && self.0.is_sign_negative()) {
            s.serialize_i64(self.0 as i64)
        } else {
            s.serialize_str(&format!("{:?}", self.0))
        }
    }
}
impl<'de> Deserialize<'de> for F {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let v = serde_json::Value::deserialize(d)?;
        match v {
            serde_json::Value::Number(n) => Ok(F(n.as_f64().unwrap())),
            serde_json::Value::String(s) => s.parse::<f64>().map(F).map_err(serde::de::Error::custom),
            _ => Err(serde::de::Error::custom("not a float")),
        }
    }
}
pub fn fv(v: &[f64]) -> Vec<F> {
    v.iter().map(|x| F(*x)).collect()
}
pub fn vf(v: &[F]) -> Vec<f64> {
    v.iter().map(|x| x.0).collect()
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum K {
    Const,
    Lin,
    Sq,
    Mul,
    Cub,
    Sin,
    Exp,
    Sqrt,
    Ln,
    Inv,
    Atan,
}

/// c * k(x_i [, x_j]); Atan is c * atan(a * (x_i - b))
#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Term {
    pub k: K,
    pub c: F,
    #[serde(default)]
    pub i: usize,
    #[serde(default)]
    pub j: usize,
    #[serde(default = "one")]
    pub a: F,
    #[serde(default = "zero")]
    pub b: F,
}
fn one() -> F {
    F(1.0)
}
fn zero() -> F {
    F(0.0)
}

pub fn term(k: K, c: f64, i: usize, j: usize) -> Term {
    Term { k, c: F(c), i, j, a: F(1.0), b: F(0.0) }
}

impl Term {
    pub fn val(&self, x: &[f64]) -> f64 {
        let u = x[self.i];
        self.c.0
            * match self.k {
                K::Const => 1.0,
                K::Lin => u,
                K::Sq => u * u,
                K::Mul => u * x[self.j],
                K::Cub => u * u * u,
                K::Sin => u.sin(),
                K::Exp => u.exp(),
                K::Sqrt => u.sqrt(),
                K::Ln => u.ln(),
                K::Inv => 1.0 / u,
                K::Atan => (self.a.0 * (u - self.b.0)).atan(),
            }
    }
    pub fn grad(&self, x: &[f64], g: &mut [f64]) {
        let u = x[self.i];
        let c = self.c.0;
        match self.k {
            K::Const => (),
            K::Lin => g[self.i] += c,
            K::Sq => g[self.i] += c * 2.0 * u,
            K::Mul => {
                g[self.i] += c * x[self.j];
                g[self.j] += c * u;
            }
            K::Cub => g[self.i] += c * 3.0 * u * u,
            K::Sin => g[self.i] += c * u.cos(),
            K::Exp => g[self.i] += c * u.exp(),
            K::Sqrt => g[self.i] += c * 0.5 / u.sqrt(),
            K::Ln => g[self.i] += c / u,
            K::Inv => g[self.i] += -c / (u * u),
            K::Atan => {
                let t = self.a.0 * (u - self.b.0);
                g[self.i] += c * self.a.0 / (1.0 + t * t)
            }
        }
    }
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Eq {
    pub left: Vec<Term>,
    pub right: Vec<Term>,
}

#[derive(Clone, PartialEq, Debug, Serialize, Deserialize)]
pub struct Problem {
    pub n: usize,
    pub eqs: Vec<Eq>,
    /// additive effect of the scalar memory on the left member of each equation
    pub mem_gain: F,
}

impl Problem {
    pub fn eval(&self, x: &[f64], mem: f64) -> (Vec<f64>, Vec<f64>) {
        let mut l = Vec::with_capacity(self.n);
        let mut r = Vec::with_capacity(self.n);
        for e in &self.eqs {
            let mut s = 0.0;
            for t in &e.left {
                s += t.val(x);
            }
            if self.mem_gain.0 != 0.0 {
                s += self.mem_gain.0 * mem;
            }
            l.push(s);
            let mut s = 0.0;
            for t in &e.right {
                s += t.val(x);
            }
            r.push(s);
        }
        (l, r)
    }
    /// rows of d left / dx and d right / dx
    pub fn jac(&self, x: &[f64]) -> (Vec<Vec<f64>>, Vec<Vec<f64>>) {
        let mut jl = vec![vec![0.0; self.n]; self.n];
        let mut jr = vec![vec![0.0; self.n]; self.n];
        for (r, e) in self.eqs.iter().enumerate() {
            for t in &e.left {
                t.grad(x, &mut jl[r]);
            }
            for t in &e.right {
                t.grad(x, &mut jr[r]);
            }
        }
        (jl, jr)
    }
    pub fn next_mem(&self, x: &[f64], mem: f64) -> f64 {
        let mut s = 0.0;
        for (i, v) in x.iter().enumerate() {
            s += v * (1.0 + 0.37 * i as f64);
        }
        // depends on the history on purpose
        0.25 * mem + (s * 0.7).sin() + 0.5
    }
    fn shift_to_root(&mut self, root: &[f64], right_side: &mut dyn FnMut(usize) -> bool) {
        let (l, r) = self.eval(root, 0.0);
        for i in 0..self.n {
            let d = l[i] - r[i];
            if right_side(i) {
                self.eqs[i].right.push(term(K::Const, d, 0, 0));
            } else {
                self.eqs[i].left.push(term(K::Const, -d, 0, 0));
            }
        }
    }
}

#[derive(Clone, Copy, PartialEq, Debug, Serialize, Deserialize)]
pub enum Class {
    Mild,
    General,
    Singular,
    Steep,
    Domain,
    NoRoot,
    Solved,
    Scaled,
}

pub struct Gen {
    pub problem: Problem,
    pub x0: Vec<f64>,
    #[allow(dead_code)]
    pub root: Vec<f64>,
}

fn rnd_term(r: &mut Rng, n: usize, i: usize) -> Term {
    let j = r.below(n);
    let c = r.dec(0.2, 2.0) * r.sign();
    let k = [K::Lin, K::Sq, K::Mul, K::Cub, K::Sin, K::Exp, K::Atan][r.weighted(&[3.0, 3.0, 3.0, 1.0, 2.0, 1.0, 1.0])];
    let c = match k {
        K::Exp => c * 0.3,
        K::Cub => c * 0.3,
        _ => c,
    };
    let c = (c * 1000.0).round() / 1000.0;
    term(k, c, i, j)
}

pub fn gen_problem(r: &mut Rng, class: Class, n: usize) -> Gen {
    let mut p = Problem { n, eqs: vec![Eq { left: vec![], right: vec![] }; n], mem_gain: F(0.0) };
    let mut root: Vec<f64> = (0..n).map(|_| r.dec(-2.0, 2.0)).collect();
    let mut x0;
    let dominant = |r: &mut Rng, p: &mut Problem| {
        for i in 0..n {
            p.eqs[i].left.push(term(K::Lin, r.dec(2.0, 5.0) * r.sign(), i, 0));
            for j in 0..n {
                if j != i && r.chance(0.7) {
                    let t = term(K::Lin, r.dec(-0.8, 0.8) / n as f64, j, 0);
                    if r.chance(0.5) {
                        p.eqs[i].left.push(t)
                    } else {
                        p.eqs[i].right.push(t)
                    }
                }
            }
        }
    };
    match class {
        Class::Mild | Class::Solved => {
            dominant(r, &mut p);
            for i in 0..n {
                if r.chance(0.8) {
                    let k = *r.pick(&[K::Sin, K::Atan, K::Sq, K::Mul]);
                    let c = r.dec(-0.3, 0.3) / if matches!(k, K::Sq | K::Mul) { 2.0 } else { 1.0 };
                    let t = term(k, c, r.below(n), r.below(n));
                    if r.chance(0.5) {
                        p.eqs[i].left.push(t)
                    } else {
                        p.eqs[i].right.push(t)
                    }
                }
            }
            x0 = root.iter().map(|v| v + r.dec(-0.6, 0.6)).collect::<Vec<_>>();
            if class == Class::Solved {
                x0 = root.clone();
                if r.chance(0.3) {
                    let i = r.below(n);
                    x0[i] += r.log10(-13.0, -6.0);
                }
            }
        }
        Class::General => {
            for i in 0..n {
                let m = r.range(1, 3);
                let t0 = rnd_term(r, n, i);
                p.eqs[i].left.push(t0);
                for _ in 0..m {
                    let v = r.below(n);
                    let t = rnd_term(r, n, v);
                    if r.chance(0.6) {
                        p.eqs[i].left.push(t)
                    } else {
                        p.eqs[i].right.push(t)
                    }
                }
            }
            x0 = root.iter().map(|v| v + r.dec(-2.0, 2.0)).collect();
        }
        Class::Singular => {
            dominant(r, &mut p);
            let a = r.below(n);
            match r.below(4) {
                0 => {
                    // one equation does not depend on anything
                    p.eqs[a] = Eq { left: vec![term(K::Const, r.dec(0.5, 2.0), 0, 0)], right: vec![] };
                }
                1 => {
                    // one variable appears nowhere
                    for e in p.eqs.iter_mut() {
                        for t in e.left.iter_mut().chain(e.right.iter_mut()) {
                            if t.i == a {
                                t.c = F(0.0)
                            }
                        }
                    }
                }
                2 if n > 1 => {
                    let b = (a + 1) % n;
                    p.eqs[b] = p.eqs[a].clone();
                }
                _ => {
                    // singular at one point only
                    p.eqs[a] = Eq { left: vec![term(K::Sq, 1.0, a, 0)], right: vec![] };
                    root[a] = r.dec(0.5, 2.0);
                }
            }
            x0 = root.iter().map(|v| v + r.dec(-0.6, 0.6)).collect();
            if r.chance(0.5) {
                x0[a] = 0.0;
            }
        }
        Class::Steep => {
            for i in 0..n {
                let mut t = term(K::Atan, r.dec(0.5, 2.0), i, 0);
                t.a = F(r.dec(0.7, 2.5));
                t.b = F(root[i]);
                p.eqs[i].left.push(t);
                if n > 1 && r.chance(0.6) {
                    let j = r.below(n);
                    p.eqs[i].left.push(term(*r.pick(&[K::Sin, K::Lin]), r.dec(-0.15, 0.15), j, 0));
                }
                if r.chance(0.2) {
                    p.eqs[i].right.push(term(K::Lin, r.dec(-0.1, 0.1), i, 0));
                }
            }
            x0 = root.iter().map(|v| v + r.dec(0.7, 2.2) * r.sign()).collect();
            if r.chance(0.2) {
                // a start from which the step goes a little farther on the other side of the
                // root than it came from: the middle of the step is almost the root
                let far = 1.3917452002707 * (1.0 + r.log10(-9.0, -1.0));
                for i in 0..n {
                    p.eqs[i].left.truncate(1);
                    p.eqs[i].right.clear();
                    x0[i] = root[i] + far / p.eqs[i].left[0].a.0 * r.sign();
                }
            }
        }
        Class::Domain => {
            root = (0..n).map(|_| r.dec(0.2, 2.0)).collect();
            for i in 0..n {
                p.eqs[i].left.push(term(*r.pick(&[K::Sqrt, K::Ln, K::Inv]), r.dec(0.5, 2.0) * r.sign(), i, 0));
                if r.chance(0.7) {
                    let v = r.below(n);
                    let t = term(*r.pick(&[K::Lin, K::Sin, K::Mul]), r.dec(-0.5, 0.5), v, r.below(n));
                    p.eqs[i].right.push(t);
                }
            }
            x0 = root.iter().map(|v| v + r.dec(-0.15, 3.0)).collect();
        }
        Class::NoRoot => {
            dominant(r, &mut p);
            let a = r.below(n);
            p.eqs[a] = Eq {
                left: vec![term(K::Sq, r.dec(0.5, 2.0), a, 0), term(K::Const, r.dec(0.1, 2.0), 0, 0)],
                right: vec![],
            };
            x0 = root.iter().map(|v| v + r.dec(-1.0, 1.0)).collect();
        }
        Class::Scaled => {
            let far = r.chance(0.2);
            let mags: &[f64] = if far { &[1e-12, 1e-8, 1e-5, 1.0, 1e7, 1e10, 1e14] } else { &[1e-3, 1e-1, 1.0, 10.0, 1e3, 1e5] };
            let sx: Vec<f64> = (0..n).map(|_| *r.pick(mags)).collect();
            let mags: &[f64] = if far { &[1e-12, 1e-7, 1.0, 1e7, 1e12] } else { &[1e-3, 1.0, 10.0, 1e4] };
            let mut sf: Vec<f64> = (0..n).map(|_| *r.pick(mags)).collect();
            if far && r.chance(0.3) {
                // all alike: the determinant of the jacobian is out of the range of the numbers
                let m = *r.pick(&[1e-70, 1e-30, 1e-12, 1e12, 1e30, 1e70]);
                sf.iter_mut().for_each(|s| *s = m);
            }
            for i in 0..n {
                root[i] = r.dec(0.5, 2.0) * sx[i];
                p.eqs[i].left.push(term(K::Lin, r.dec(1.0, 3.0) * sf[i] / sx[i], i, 0));
                for j in 0..n {
                    if r.chance(0.5) {
                        let t = match r.below(3) {
                            0 => term(K::Lin, r.dec(-0.4, 0.4) * sf[i] / sx[j], j, 0),
                            1 => term(K::Sq, r.dec(-0.3, 0.3) * sf[i] / (sx[j] * sx[j]), j, 0),
                            _ => term(K::Mul, r.dec(-0.3, 0.3) * sf[i] / (sx[j] * sx[i]), i, j),
                        };
                        p.eqs[i].left.push(t);
                    }
                }
            }
            x0 = root.iter().map(|v| v * r.dec(0.7, 1.4)).collect();
        }
    }
    if class != Class::NoRoot && class != Class::Singular {
        p.shift_to_root(&root, &mut |_| r.chance(0.7));
    } else {
        let bad: Vec<bool> = p.eqs.iter().map(|e| e.right.is_empty() && e.left.len() <= 2).collect();
        let (l, rr) = p.eval(&root, 0.0);
        for i in 0..n {
            if !bad[i] {
                p.eqs[i].right.push(term(K::Const, l[i] - rr[i], 0, 0));
            }
        }
    }
    // the same value on both members: invisible to an absolute residual, not to a relative one
    for e in p.eqs.iter_mut() {
        if r.chance(0.4) {
            let c = *r.pick(&[1.0, 2.0, -1.0, 5.0, 50.0]);
            e.left.push(term(K::Const, c, 0, 0));
            e.right.push(term(K::Const, c, 0, 0));
        }
    }
    Gen { problem: p, x0, root }
}
