use sc::config::{Config, DriveType};
use sc::spin::Spin;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;
use std::cell::RefCell;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicUsize, Ordering};

pub use rand::tape;
pub use report::serde_json::{json, Value};
pub use report::Report;
pub type V3 = [f64; 3];
pub const PI: f64 = std::f64::consts::PI;

thread_local!(static LAST: RefCell<String> = RefCell::new(String::new()));

pub fn quiet_panics() {
    std::panic::set_hook(Box::new(|i| {
        let s = format!("{}", i);
        LAST.with(|l| *l.borrow_mut() = s);
    }));
}
pub fn guard<T>(f: impl FnOnce() -> T) -> Result<T, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST.with(|l| l.borrow().clone()))
}

static SCR: AtomicUsize = AtomicUsize::new(0);
pub fn scratch_root() -> String {
    format!("{}/sc-verif-{}", std::env::temp_dir().display(), std::process::id())
}
/// A fresh file prefix inside this process's scratch directory.
pub fn scratch() -> String {
    let n = SCR.fetch_add(1, Ordering::SeqCst);
    let d = scratch_root();
    std::fs::create_dir_all(&d).expect("scratch");
    format!("{}/f{}-", d, n)
}
pub fn cleanup() {
    let _ = std::fs::remove_dir_all(scratch_root());
}

// ---------- vectors ----------
pub fn dot(a: &V3, b: &V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
pub fn norm(a: &V3) -> f64 {
    a[0].hypot(a[1]).hypot(a[2])
}
pub fn cross(a: &V3, b: &V3) -> V3 {
    [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
}
pub fn add(a: &V3, b: &V3) -> V3 {
    [a[0] + b[0], a[1] + b[1], a[2] + b[2]]
}
pub fn sub(a: &V3, b: &V3) -> V3 {
    [a[0] - b[0], a[1] - b[1], a[2] - b[2]]
}
pub fn sc(a: &V3, f: f64) -> V3 {
    [a[0] * f, a[1] * f, a[2] * f]
}
pub fn mul(a: &V3, b: &V3) -> V3 {
    [a[0] * b[0], a[1] * b[1], a[2] * b[2]]
}
pub fn unit(a: &V3) -> V3 {
    sc(a, 1.0 / norm(a))
}
pub fn maxd(a: &[V3], b: &[V3]) -> f64 {
    let mut m: f64 = 0.0;
    for (x, y) in a.iter().zip(b) {
        for k in 0..3 {
            let d = (x[k] - y[k]).abs();
            if !(d <= m) {
                m = d;
            }
        }
    }
    if m.is_nan() {
        f64::INFINITY
    } else {
        m
    }
}
/// NaN-safe "is within": false for NaN
pub fn near(a: f64, b: f64, tol: f64) -> bool {
    (a - b).abs() <= tol
}

/// Small deterministic generator for building generic (not special) coefficients; independent of the code's own.
pub struct Lcg(pub u64);
impl Lcg {
    pub fn f(&mut self) -> f64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        ((z ^ (z >> 31)) >> 11) as f64 / (1u64 << 53) as f64
    }
    pub fn s(&mut self) -> f64 {
        2.0 * self.f() - 1.0
    }
    pub fn v(&mut self) -> V3 {
        [self.s(), self.s(), self.s()]
    }
    pub fn dir(&mut self) -> V3 {
        loop {
            let v = self.v();
            let n = norm(&v);
            if n > 0.2 && n < 1.0 {
                return unit(&v);
            }
        }
    }
}

// ---------- configurations ----------
pub fn drive(k: usize) -> DriveType {
    match k {
        0 => DriveType::xyplane,
        1 => DriveType::uniaxial,
        2 => DriveType::xyelliptic,
        3 => DriveType::staticfield,
        _ => DriveType::none,
    }
}
pub const DRIVES: [&str; 5] = ["xyplane", "uniaxial", "xyelliptic", "staticfield", "none"];

pub fn conf(l: usize, ss: usize) -> Config {
    Config {
        hsize: l as i32,
        ssize: ss as i32,
        jvar: 0.0,
        hvar: 0.0,
        log: false,
        drive: DriveType::none,
        ..Config::default()
    }
}
pub fn cstr(c: &Config) -> String {
    format!("{:?}", c)
}
pub fn chain(c: &Config) -> SpinChain {
    tape::free_mild(7);
    SpinChain::new(c.clone(), 0)
}
pub fn langevin(c: &Config, gamma: f64) -> SpinChainLangevin {
    let mut c = c.clone();
    c.file = scratch();
    tape::free_mild(11);
    SpinChainLangevin::new(c, 0, gamma)
}
pub fn spins_of(s: &[Spin]) -> Vec<V3> {
    s.iter().map(|x| x.dir).collect()
}
pub fn set_spins(s: &mut [Spin], d: &[V3]) {
    for (a, b) in s.iter_mut().zip(d) {
        a.dir = *b;
    }
}

// ---------- reference drive and Hamiltonians ----------
pub fn ref_drive(c: &Config, t: f64) -> V3 {
    let w = 2.0 * PI / c.tau;
    match c.drive {
        DriveType::xyplane => [(w * t).cos(), (w * t).sin(), 0.0],
        DriveType::uniaxial => [(w * t).cos(), 0.0, 0.0],
        DriveType::xyelliptic => [(w * t).cos(), c.e * (w * t).sin(), 0.0],
        DriveType::staticfield => [c.hs[0], c.hs[1], c.hs[2]],
        DriveType::none => [0.0; 3],
    }
}
pub fn ref_drive_rate(c: &Config, t: f64) -> V3 {
    let w = 2.0 * PI / c.tau;
    match c.drive {
        DriveType::xyplane => [-w * (w * t).sin(), w * (w * t).cos(), 0.0],
        DriveType::uniaxial => [-w * (w * t).sin(), 0.0, 0.0],
        DriveType::xyelliptic => [-w * (w * t).sin(), w * c.e * (w * t).cos(), 0.0],
        _ => [0.0; 3],
    }
}
/// A system: couplings, static fields, configuration.
#[derive(Clone)]
pub struct Sys {
    pub j: Vec<V3>,
    pub h: Vec<V3>,
    pub c: Config,
}
impl Sys {
    pub fn l(&self) -> usize {
        self.c.hsize as usize
    }
    pub fn ss(&self) -> usize {
        self.c.ssize as usize
    }
    pub fn bond(&self, s: &[V3], n: usize) -> f64 {
        let l = s.len();
        -dot(&s[n], &mul(&self.j[n], &s[(n + 1) % l]))
    }
    pub fn field(&self, n: usize, t: f64) -> V3 {
        if n < self.ss() {
            add(&self.h[n], &ref_drive(&self.c, t))
        } else {
            self.h[n]
        }
    }
    /// closed-ring energy with drive (not per site)
    pub fn e_ring(&self, s: &[V3], t: f64) -> f64 {
        (0..s.len()).map(|n| self.bond(s, n) + dot(&s[n], &self.field(n, t))).sum()
    }
    pub fn e_ring_static(&self, s: &[V3]) -> f64 {
        (0..s.len()).map(|n| self.bond(s, n) + dot(&s[n], &self.h[n])).sum()
    }
    pub fn e_open(&self, s: &[V3], t: f64) -> f64 {
        (0..s.len() - 1).map(|n| self.bond(s, n)).sum::<f64>()
            + (0..s.len()).map(|n| dot(&s[n], &self.field(n, t))).sum::<f64>()
    }
    /// the precession field of site n, ring or open
    pub fn omega(&self, s: &[V3], n: usize, t: f64, ring: bool, static_on: bool) -> V3 {
        let l = s.len();
        let mut o = [0.0; 3];
        if ring || n > 0 {
            let m = (n + l - 1) % l;
            o = add(&o, &mul(&self.j[m], &s[m]));
        }
        if ring || n + 1 < l {
            o = add(&o, &mul(&self.j[n], &s[(n + 1) % l]));
        }
        let mut b = [0.0; 3];
        if static_on {
            b = self.h[n];
        }
        if n < self.ss() {
            b = add(&b, &ref_drive(&self.c, t));
        }
        sub(&o, &b)
    }
    pub fn install(&self, ch: &mut SpinChain, s: &[V3], t: f64) {
        ch.j_couple = self.j.clone();
        ch.static_h = self.h.clone();
        ch.vars = self.c.clone();
        ch.t = t;
        set_spins(&mut ch.spins, s);
    }
    pub fn intact(&self, ch: &SpinChain) -> bool {
        ch.j_couple == self.j && ch.static_h == self.h && cstr(&ch.vars) == cstr(&self.c)
    }
}
/// Generic system: jitter 0 gives clean couplings (1,1,lambda) and no field.
pub fn system(c: Config, seed: u64, jv: f64, hv: f64) -> Sys {
    let l = c.hsize as usize;
    let mut g = Lcg(seed);
    let j = (0..l).map(|_| add(&[1.0, 1.0, c.lambda], &sc(&g.v(), jv))).collect();
    let h = (0..l).map(|_| sc(&g.v(), hv)).collect();
    Sys { j, h, c }
}
/// A library of spin states: special (aligned, staggered, zero-torque, poles) then generic ones.
pub fn states(l: usize, generic: usize) -> Vec<Vec<V3>> {
    let z: V3 = [0.0, 0.0, 1.0];
    let x: V3 = [1.0, 0.0, 0.0];
    let mut v = vec![
        vec![z; l],
        (0..l).map(|n| if n % 2 == 0 { z } else { [0.0, 0.0, -1.0] }).collect(),
        (0..l).map(|n| if n % 4 < 2 { x } else { [-1.0, 0.0, 0.0] }).collect(),
        (0..l).map(|n| match n % 3 { 0 => x, 1 => [0.0, 1.0, 0.0], _ => z }).collect(),
    ];
    let mut g = Lcg(1000 + l as u64);
    for _ in 0..generic {
        v.push((0..l).map(|_| g.dir()).collect());
    }
    v
}

/// Every assignment of six (tilted octahedron) directions to the sites: a complete, finite set of spin states.
pub fn octa(l: usize) -> Vec<Vec<V3>> {
    let (a, b): (V3, V3) = (unit(&[2.0, 3.0, 6.0]), unit(&[3.0, -6.0, 2.0]));
    let c = cross(&a, &b);
    let d = [a, b, c, sc(&a, -1.0), sc(&b, -1.0), sc(&c, -1.0)];
    (0..6usize.pow(l as u32)).map(|mut k| (0..l).map(|_| { let x = d[k % 6]; k /= 6; x }).collect()).collect()
}

/// Run independent shards on all cores, merging their reports.
pub fn parallel<T: Sync>(r: &mut Report, items: &[T], f: impl Fn(&mut Report, &T) + Sync) {
    let next = AtomicUsize::new(0);
    let id = r.id.clone();
    let parts: Vec<Report> = std::thread::scope(|sc| {
        let hs: Vec<_> = (0..8.min(items.len().max(1)))
            .map(|_| {
                sc.spawn(|| {
                    let mut p = Report::new(&id);
                    loop {
                        let i = next.fetch_add(1, Ordering::SeqCst);
                        if i >= items.len() {
                            break;
                        }
                        if let Err(m) = guard(|| f(&mut p, &items[i])) {
                            p.violation("panic", format!("panic in case {}: {}", i, m), json!({"case": i, "panic": m}));
                        }
                    }
                    p
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().unwrap()).collect()
    });
    for p in parts {
        r.merge(p);
    }
}
