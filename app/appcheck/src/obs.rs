//! Reference observables of a recorded chain, from the documented Hamiltonian.
use vhook::Snap;
pub type V3 = [f64; 3];
fn dot(a: &V3, b: &V3) -> f64 {
    a[0] * b[0] + a[1] * b[1] + a[2] * b[2]
}
fn jdot(a: &V3, j: &V3, b: &V3) -> f64 {
    a[0] * j[0] * b[0] + a[1] * j[1] * b[1] + a[2] * j[2] * b[2]
}
pub fn drive(s: &Snap, t: f64) -> V3 {
    let p = 2.0 * std::f64::consts::PI * t / s.tau;
    match s.drive.as_str() {
        "xyplane" => [p.cos(), p.sin(), 0.0],
        "xyelliptic" => [p.cos(), s.e * p.sin(), 0.0],
        "uniaxial" => [p.cos(), 0.0, 0.0],
        "staticfield" => [s.hs[0], s.hs[1], s.hs[2]],
        _ => [0.0; 3],
    }
}
fn field(s: &Snap, n: usize) -> V3 {
    let mut h = s.h[n];
    if n < s.ssize {
        let d = drive(s, s.t);
        for k in 0..3 {
            h[k] += d[k];
        }
    }
    h
}
pub fn total(s: &Snap) -> f64 {
    let l = s.hsize;
    (0..l).map(|n| -jdot(&s.spins[n], &s.j[n], &s.spins[(n + 1) % l]) + dot(&s.spins[n], &field(s, n))).sum::<f64>() / l as f64
}
pub fn system(s: &Snap) -> f64 {
    let n = s.ssize - 1;
    (0..n).map(|i| -jdot(&s.spins[i], &s.j[i], &s.spins[i + 1]) + dot(&s.spins[i], &field(s, i))).sum::<f64>() / n as f64
}
pub fn mc_system(s: &Snap) -> f64 {
    let n = s.ssize;
    (0..n).map(|i| -jdot(&s.spins[i], &s.j[i], &s.spins[(i + 1) % n]) + dot(&s.spins[i], &s.h[i])).sum::<f64>() / n as f64
}
pub fn m(s: &Snap) -> V3 {
    let mut a = [0.0; 3];
    for x in &s.spins[..s.ssize] {
        for k in 0..3 {
            a[k] += x[k] / s.ssize as f64;
        }
    }
    a
}
pub fn mz_total(s: &Snap) -> f64 {
    s.spins.iter().map(|x| x[2]).sum::<f64>() / s.hsize as f64
}
pub fn quarter(s: &Snap) -> (V3, V3) {
    let l = s.ssize as f64;
    (s.spins[(l / 4.0) as usize], s.spins[(3.0 * l / 4.0) as usize])
}
/// Row of a Monte-Carlo averaging run.
pub fn mc_row(s: &Snap) -> Vec<f64> {
    let (a, b) = quarter(s);
    let mm = m(s);
    vec![total(s), mc_system(s), mm[0], mm[1], mm[2], a[0], a[1], a[2], b[0], b[1], b[2]]
}
/// Row of a trajectory log (without the time, with the boundary term of the Langevin log left out).
pub fn log_row(s: &Snap) -> Vec<f64> {
    let mm = m(s);
    if s.lang {
        // couplings recorded like everything else
        let e = system(s);
        vec![s.t, e, e, mm[0], mm[1], mm[2], mz_total(s)]
    } else {
        let (a, b) = quarter(s);
        vec![s.t, total(s), system(s), mm[0], mm[1], mm[2], mz_total(s), a[0], a[1], a[2], b[0], b[1], b[2]]
    }
}
/// Rows of one extended log record.
pub fn ext_rows(s: &Snap) -> Vec<Vec<f64>> {
    (1..s.ssize.min(s.hsize - 1)).map(|j| {
        let e = -0.5 * (jdot(&s.spins[j - 1], &s.j[j - 1], &s.spins[j]) + jdot(&s.spins[j], &s.j[j], &s.spins[j + 1]))
            + dot(&s.spins[j], &field(s, j));
        vec![s.t, j as f64, e, s.spins[j][0], s.spins[j][1], s.spins[j][2]]
    }).collect()
}
/// Site profile row: bond energy shared with both neighbours, and the spin.
pub fn site(s: &Snap, n: usize) -> Vec<f64> {
    let l = s.hsize;
    let (p, q) = ((n + l - 1) % l, (n + 1) % l);
    let e = -0.5 * (jdot(&s.spins[p], &s.j[p], &s.spins[n]) + jdot(&s.spins[n], &s.j[n], &s.spins[q]));
    vec![e, s.spins[n][0], s.spins[n][1], s.spins[n][2]]
}
