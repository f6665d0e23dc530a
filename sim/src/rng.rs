//! The only source of randomness of the simulator.

#[derive(Clone)]
pub struct Rng(u64);

pub fn mix(mut z: u64) -> u64 {
    z = z.wrapping_add(0x9E37_79B9_7F4A_7C15);
    z = (z ^ (z >> 30)).wrapping_mul(0xBF58_476D_1CE4_E5B9);
    z = (z ^ (z >> 27)).wrapping_mul(0x94D0_49BB_1331_11EB);
    z ^ (z >> 31)
}

pub fn hash_bytes(h: u64, b: &[u8]) -> u64 {
    let mut h = h ^ 0xcbf2_9ce4_8422_2325;
    for c in b {
        h ^= *c as u64;
        h = h.wrapping_mul(0x1000_0000_01b3);
    }
    mix(h)
}

impl Rng {
    pub fn new(seed: u64) -> Self {
        Rng(mix(seed))
    }
    pub fn from_parts(seed: u64, name: &str, idx: u64) -> Self {
        Rng(mix(mix(seed).wrapping_add(hash_bytes(1, name.as_bytes())) ^ mix(idx.wrapping_add(77))))
    }
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E37_79B9_7F4A_7C15);
        mix(self.0)
    }
    /// uniform in 0..n
    pub fn below(&mut self, n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        (self.next() % n as u64) as usize
    }
    pub fn range(&mut self, lo: usize, hi: usize) -> usize {
        lo + self.below(hi - lo + 1)
    }
    pub fn unit(&mut self) -> f64 {
        (self.next() >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn f(&mut self, lo: f64, hi: f64) -> f64 {
        lo + (hi - lo) * self.unit()
    }
    pub fn chance(&mut self, p: f64) -> bool {
        self.unit() < p
    }
    pub fn pick<'a, T>(&mut self, v: &'a [T]) -> &'a T {
        &v[self.below(v.len())]
    }
    pub fn weighted(&mut self, w: &[f64]) -> usize {
        let s: f64 = w.iter().sum();
        let mut u = self.unit() * s;
        for (i, x) in w.iter().enumerate() {
            if u < *x {
                return i;
            }
            u -= x;
        }
        w.len() - 1
    }
    pub fn sign(&mut self) -> f64 {
        if self.chance(0.5) {
            1.0
        } else {
            -1.0
        }
    }
    /// a short decimal number, to keep scenarios readable
    pub fn dec(&mut self, lo: f64, hi: f64) -> f64 {
        let v = self.f(lo, hi);
        (v * 1000.0).round() / 1000.0
    }
    pub fn log10(&mut self, lo: f64, hi: f64) -> f64 {
        let e = self.f(lo, hi);
        let v = 10f64.powf(e);
        // two significant digits
        let s = 10f64.powf(e.floor() - 1.0);
        let r = (v / s).round() * s;
        if r > 0.0 {
            r
        } else {
            v
        }
    }
}
