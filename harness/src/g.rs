//! Case generation: named parameters drawn at random, or fixed by a verifier model / a replay file.
use solstrale::geo::vec3::Vec3;
use std::collections::HashMap;

pub struct Gen {
    pub rng: fastrand::Rng,
    pub over: HashMap<String, f64>,
    pub log: Vec<(String, f64)>,
    pub case_seed: u64,
}
pub struct Fail {
    pub check: String,
    pub msg: String,
}
pub type Res = Result<(), Fail>;
#[macro_export]
macro_rules! chk {
    ($c:expr, $name:expr, $($a:tt)*) => {
        if !($c) { return Err($crate::g::Fail { check: $name.to_string(), msg: format!($($a)*) }); }
    };
}
impl Gen {
    pub fn new(seed: u64, over: &HashMap<String, f64>) -> Gen {
        Gen { rng: fastrand::Rng::with_seed(seed), over: over.clone(), log: vec![], case_seed: seed }
    }
    fn put(&mut self, name: &str, v: f64) -> f64 {
        let v = self.over.get(name).copied().unwrap_or(v);
        self.log.push((name.to_string(), v));
        v
    }
    /// a real in [lo, hi]: uniform, round, tiny offsets, or an end
    pub fn f(&mut self, name: &str, lo: f64, hi: f64) -> f64 {
        let u = lo + (hi - lo) * self.rng.f64();
        let v = match self.rng.u32(0..20) {
            0 => lo,
            1 => hi,
            2..=5 => u.round().clamp(lo, hi),
            6 | 7 => ((u * 4.).round() / 4.).clamp(lo, hi),
            8 if lo < 0. && hi > 0. => 0.,
            _ => u,
        };
        self.put(name, v)
    }
    /// uniform in [lo, hi)
    pub fn u(&mut self, name: &str, lo: f64, hi: f64) -> f64 {
        let v = lo + (hi - lo) * self.rng.f64();
        self.put(name, v)
    }
    /// positive, log-uniform
    pub fn lg(&mut self, name: &str, lo: f64, hi: f64) -> f64 {
        let v = (lo.ln() + (hi.ln() - lo.ln()) * self.rng.f64()).exp();
        self.put(name, v)
    }
    pub fn i(&mut self, name: &str, lo: i64, hi: i64) -> i64 {
        let v = self.rng.i64(lo..=hi) as f64;
        self.put(name, v) as i64
    }
    pub fn b(&mut self, name: &str) -> bool { self.i(name, 0, 1) == 1 }
    /// true with probability 1/n
    pub fn one_in(&mut self, name: &str, n: i64) -> bool { self.i(name, 1, n) == 1 }
    pub fn v(&mut self, name: &str, r: f64) -> Vec3 {
        let x = self.f(&format!("{}.x", name), -r, r);
        let y = self.f(&format!("{}.y", name), -r, r);
        let z = self.f(&format!("{}.z", name), -r, r);
        Vec3::new(x, y, z)
    }
    /// a generic vector (no special values)
    pub fn vu(&mut self, name: &str, r: f64) -> Vec3 {
        let x = self.u(&format!("{}.x", name), -r, r);
        let y = self.u(&format!("{}.y", name), -r, r);
        let z = self.u(&format!("{}.z", name), -r, r);
        Vec3::new(x, y, z)
    }
    /// a non-zero direction of widely varying length; sometimes axis parallel
    pub fn dir(&mut self, name: &str) -> Vec3 {
        let mut d = self.v(name, 1.);
        if self.i(&format!("{}.axis", name), 0, 15) == 0 {
            let k = self.i(&format!("{}.k", name), 0, 2);
            d = Vec3::new(if k == 0 { 1. } else { 0. }, if k == 1 { 1. } else { 0. }, if k == 2 { -1. } else { 0. });
        }
        if d.x * d.x + d.y * d.y + d.z * d.z < 1e-4 { d = Vec3::new(0.3, -0.7, 0.2); }
        let s = self.lg(&format!("{}.scale", name), 0.05, 20.);
        let k = if self.i(&format!("{}.unit", name), 0, 2) == 0 { 1. / len(d) } else { s };
        mul(d, k)
    }
    pub fn seed_library(&mut self) {
        fastrand::seed(self.case_seed ^ 0x5eed);
    }
}
pub fn add(a: Vec3, b: Vec3) -> Vec3 { Vec3 { x: a.x + b.x, y: a.y + b.y, z: a.z + b.z } }
pub fn sub(a: Vec3, b: Vec3) -> Vec3 { Vec3 { x: a.x - b.x, y: a.y - b.y, z: a.z - b.z } }
pub fn mul(a: Vec3, k: f64) -> Vec3 { Vec3 { x: a.x * k, y: a.y * k, z: a.z * k } }
pub fn dot(a: Vec3, b: Vec3) -> f64 { a.x * b.x + a.y * b.y + a.z * b.z }
pub fn cross(a: Vec3, b: Vec3) -> Vec3 {
    Vec3 { x: a.y * b.z - a.z * b.y, y: a.z * b.x - a.x * b.z, z: a.x * b.y - a.y * b.x }
}
pub fn len(a: Vec3) -> f64 { dot(a, a).sqrt() }
pub fn unit(a: Vec3) -> Vec3 { mul(a, 1. / len(a)) }
/// |a-b| <= tol * (1 + |b|)
pub fn near(a: f64, b: f64, tol: f64) -> bool { (a - b).abs() <= tol * (1. + b.abs()) }
pub fn nearv(a: Vec3, b: Vec3, tol: f64) -> bool { len(sub(a, b)) <= tol * (1. + len(b)) }
pub fn fin(a: Vec3) -> bool { a.x.is_finite() && a.y.is_finite() && a.z.is_finite() }
