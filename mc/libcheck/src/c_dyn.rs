use crate::util::*;
use sc::spinchain::SpinChain;

/// Fourth-order Runge-Kutta solution of the documented equations of motion.
pub fn rk4(sys: &Sys, s: &[V3], t: f64, span: f64, n: usize, ring: bool, static_on: bool) -> Vec<V3> {
    let d = |x: &[V3], t: f64| -> Vec<V3> { (0..x.len()).map(|i| cross(&x[i], &sys.omega(x, i, t, ring, static_on))).collect() };
    let ax = |x: &[V3], k: &[V3], f: f64| -> Vec<V3> { x.iter().zip(k).map(|(a, b)| add(a, &sc(b, f))).collect() };
    let h = span / n as f64;
    let mut x = s.to_vec();
    let mut tt = t;
    for i in 0..n {
        let k1 = d(&x, tt);
        let k2 = d(&ax(&x, &k1, h / 2.0), tt + h / 2.0);
        let k3 = d(&ax(&x, &k2, h / 2.0), tt + h / 2.0);
        let k4 = d(&ax(&x, &k3, h), tt + h);
        for j in 0..x.len() {
            for c in 0..3 {
                x[j][c] += h / 6.0 * (k1[j][c] + 2.0 * k2[j][c] + 2.0 * k3[j][c] + k4[j][c]);
            }
        }
        tt = t + (i + 1) as f64 * h;
    }
    x
}

/// A bound on the rate scale of the dynamics: fields plus drive frequency.
fn scale(sys: &Sys) -> f64 {
    let j = sys.j.iter().map(|x| x.iter().fold(0.0f64, |a, b| a.max(b.abs()))).fold(0.0, f64::max);
    let h = sys.h.iter().map(norm).fold(0.0, f64::max);
    let d = match sys.c.drive {
        sc::config::DriveType::staticfield => norm(&[sys.c.hs[0], sys.c.hs[1], sys.c.hs[2]]),
        sc::config::DriveType::none => 0.0,
        _ => 1.5 + 2.0 * PI / sys.c.tau.abs(),
    };
    2.0 * j + h + d
}

fn grid(th: bool) -> Vec<(usize, usize, usize, f64, f64, f64)> {
    let mut v = vec![];
    let sizes: &[(usize, usize)] = if th {
        &[(2, 1), (2, 2), (4, 1), (4, 2), (4, 3), (4, 4), (6, 1), (6, 2), (6, 3), (6, 4), (6, 5), (6, 6), (8, 1), (8, 2), (8, 3), (8, 4), (8, 5), (8, 6), (8, 7), (8, 8), (10, 5), (10, 10), (12, 1), (12, 7), (12, 12), (20, 11), (32, 32)]
    } else {
        &[(2, 1), (2, 2), (4, 1), (4, 2), (4, 3), (4, 4), (6, 1), (6, 2), (6, 3), (6, 4), (6, 5), (6, 6), (8, 3), (8, 6), (10, 5), (12, 12)]
    };
    // long chains: once per drive
    for (l, ss) in [(66, 40), (256, 200), (512, 8)] {
        for d in 0..5 {
            v.push((l, ss, d, 1.3, 0.4, 1.1));
        }
    }
    for &(l, ss) in sizes {
        for d in 0..5 {
            for tau in [10.0, 1.3] {
                for (jv, hv) in [(0.0, 0.0), (0.4, 1.1), (0.4, 0.0)] {
                    v.push((l, ss, d, tau, jv, hv));
                }
            }
        }
    }
    v
}
fn mk(l: usize, ss: usize, d: usize, tau: f64, jv: f64, hv: f64) -> Sys {
    let mut c = conf(l, ss);
    c.drive = drive(d);
    c.tau = tau;
    c.e = 0.7;
    c.lambda = 1.3;
    c.hs = vec![0.3, -0.4, 0.5];
    let mut s = system(c, (l * 10 + ss) as u64, jv, hv);
    if d == 3 || hv == 0.0 {
        // static fields that include the subsystem field, as creation makes them
        for n in 0..ss {
            s.h[n] = add(&s.h[n], &[0.3, -0.4, 0.5]);
        }
    }
    s
}
fn upd(ch: &mut SpinChain, which: usize) {
    if which == 0 {
        ch.update()
    } else {
        ch.update_no_field()
    }
}
const W: [&str; 2] = ["update", "update_no_field"];

pub fn c03(r: &mut Report) {
    let th = r.thorough();
    let items = grid(th);
    parallel(r, &items, |r, &(l, ss, d, tau, jv, hv)| {
        let mut sys = mk(l, ss, d, tau, jv, hv);
        let mut ch = chain(&sys.c);
        let k = scale(&sys);
        for which in 0..2 {
            let big = l > 40;
            // a complete set of spin states on the small rings, special and generic ones elsewhere
            let full = if l == 2 || l == 4 && th || l == 6 && th && jv > 0.0 && hv > 0.0 && tau == 1.3 { octa(l) } else { vec![] };
            let all: Vec<(bool, Vec<V3>)> = states(l, if big { 2 } else if th { 12 } else { 4 }).into_iter().map(|s| (true, s)).chain(full.into_iter().map(|s| (false, s))).collect();
            for (grid, s) in all {
                for &t in if grid && !big { &[-3.7, 0.0, 0.1, 7.3, 123.4][..] } else { &[0.1][..] } {
                    r.states += 1;
                    for &dt in if grid && !big { &[1e-2, 1e-3, 1e-4, -1e-3][..] } else { &[1e-3][..] } {
                        sys.c.dt = dt;
                        sys.install(&mut ch, &s, t);
                        let ok = guard(|| upd(&mut ch, which));
                        r.transitions += 1;
                        let e = rk4(&sys, &s, t, dt, 4, true, which == 0);
                        let got = spins_of(&ch.spins);
                        let err = maxd(&got, &e);
                        let bound = 0.5 * (k * dt.abs()).powi(3) + 3e-14;
                        let case = json!({"L": l, "ssize": ss, "drive": DRIVES[d], "tau": tau, "jv": jv, "hv": hv, "t": t, "dt": dt, "spins": s, "op": W[which]});
                        if ok.is_err() || !(err <= bound) {
                            // zero-torque states fail in their own recognisable way
                            let z = (0..l).any(|n| norm(&sys.omega(&s, n, t + dt / 2.0, true, which == 0)) < 1e-12) && !err.is_finite();
                            r.violation(if z { "zero-torque" } else { ["local-error", "local-error-no-field"][which] },
                                format!("{}: error {} of one step exceeds {} (L={} ss={} {} t={} dt={}) {:?}", W[which], err, bound, l, ss, DRIVES[d], t, dt, ok.err()), case.clone());
                        }
                        if !near(ch.t, t + dt, 1e-12 * (1.0 + t.abs())) {
                            r.violation("clock", format!("clock went from {} to {} in a step of {}", t, ch.t, dt), case.clone());
                        }
                        if !sys.intact(&ch) {
                            r.violation("config-changed", format!("{} changed couplings, fields or configuration", W[which]), case);
                        }
                    }
                }
            }
            // trajectories: global second order
            for s in states(l, 2).into_iter().skip(if big { 99 } else { 3 }) {
                let t0 = -0.35;
                let span = 1.0;
                let e = rk4(&sys, &s, t0, span, 2000, true, which == 0);
                for n in [50usize, 100, 400] {
                    sys.c.dt = span / n as f64;
                    sys.install(&mut ch, &s, t0);
                    for _ in 0..n {
                        upd(&mut ch, which);
                    }
                    r.transitions += n as u64;
                    r.traces += 1;
                    let err = maxd(&spins_of(&ch.spins), &e);
                    let bound = 3.0 * k.powi(3) * sys.c.dt * sys.c.dt + 1e-9;
                    if !(err <= bound) {
                        r.violation("trajectory", format!("{} over {} steps: error {} exceeds {}", W[which], n, err, bound),
                            json!({"L": l, "ssize": ss, "drive": DRIVES[d], "tau": tau, "jv": jv, "hv": hv, "dt": sys.c.dt, "spins": s}));
                    }
                    if !near(ch.t, t0 + span, 1e-9) {
                        r.violation("clock", format!("clock is {} after {} steps of {} from {}", ch.t, n, sys.c.dt, t0), json!({"steps": n}));
                    }
                }
            }
        }
    });
    r.sample(json!({"L": 4, "ssize": 2, "drive": "xyplane", "tau": 1.3, "t": 7.3, "dt": 1e-4, "state": "staggered"}));
    r.extra.insert("bounds".into(), json!({"systems": items.len(), "times": 5, "steps_local": [1e-2, 1e-3, 1e-4, -1e-3], "trajectory_steps": [50, 100, 400]}));
    r.assumptions.push("even chain lengths; local error compared with a Runge-Kutta solution of the documented equations".into());
}

pub fn c04(r: &mut Report) {
    let th = r.thorough();
    let items = grid(th);
    parallel(r, &items, |r, &(l, ss, d, tau, jv, hv)| {
        let mut sys = mk(l, ss, d, tau, jv, hv);
        let mut ch = chain(&sys.c);
        let steady = d >= 3;
        for which in 0..2 {
            let big = l > 40;
            let full = if l == 2 || l == 4 && th || l == 6 && th && jv > 0.0 && hv > 0.0 && tau == 1.3 && ss % 2 == 1 { octa(l) } else { vec![] };
            let all: Vec<(bool, usize, Vec<V3>)> = states(l, if big { 1 } else if th { 10 } else { 3 }).into_iter().enumerate().map(|(i, s)| (true, i, s)).chain(full.into_iter().map(|s| (false, 9, s))).collect();
            for (grid, si, s) in all {
                for &t in if grid && !big { &[-3.7, 0.0, 7.3][..] } else { &[7.3][..] } {
                    for &dt in if grid && !big { &[0.02, 0.35, 1.0, 3.1, -0.6][..] } else if grid { &[0.02, 0.6][..] } else { &[0.35][..] } {
                        r.states += 1;
                        let n = if big || !grid { 12 } else if th { 200 } else { 60 };
                        sys.c.dt = dt;
                        sys.install(&mut ch, &s, t);
                        let case = json!({"L": l, "ssize": ss, "drive": DRIVES[d], "tau": tau, "jv": jv, "hv": hv, "t": t, "dt": dt, "spins": s, "op": W[which]});
                        // the conserved energy of this variant
                        let mut es = sys.clone();
                        if which == 1 {
                            es.h = vec![[0.0; 3]; l];
                        }
                        let e0 = es.e_ring(&s, t);
                        let mut bad = false;
                        let res = guard(|| {
                            for i in 0..n {
                                upd(&mut ch, which);
                                if steady {
                                    let e = es.e_ring(&spins_of(&ch.spins), ch.t);
                                    if !near(e, e0, 1e-11 * l as f64) {
                                        bad = true;
                                        return format!("energy moved from {} to {} at step {}", e0, e, i + 1);
                                    }
                                    if which == 0 {
                                        let a = ch.total_energy() * l as f64;
                                        if !near(a, e0, 1e-11 * l as f64) {
                                            bad = true;
                                            return format!("reported total energy moved from {} to {} at step {}", e0, a, i + 1);
                                        }
                                    }
                                }
                            }
                            String::new()
                        });
                        r.transitions += n as u64;
                        let zt = ch.spins.iter().any(|s| !s.dir[0].is_finite()) && si < 4;
                        if bad || res.is_err() {
                            r.violation(if zt { "zero-torque" } else { "energy-drift" }, format!("{}: {:?} (L={} dt={})", W[which], res, l, dt), case.clone());
                            continue;
                        }
                        // and back: as many steps as rounding allows before the chaos of the map blows it up
                        let amp = 3.0 * (1.0 + 3.0 * dt.abs()).ln();
                        let n = n.min((16.0 / amp) as usize).max(1);
                        sys.install(&mut ch, &s, t);
                        for _ in 0..n {
                            upd(&mut ch, which);
                        }
                        if !near(ch.t, t + n as f64 * dt, 1e-11 * (1.0 + t.abs())) {
                            r.violation("clock", format!("{} steps of {} moved the clock from {} to {}", n, dt, t, ch.t), case.clone());
                        }
                        ch.vars.dt = -dt;
                        for _ in 0..n {
                            upd(&mut ch, which);
                        }
                        r.transitions += n as u64;
                        r.traces += 1;
                        let err = maxd(&spins_of(&ch.spins), &s);
                        let tol = 1e-13 * (amp * n as f64).exp().max(10.0);
                        if !(err <= tol) || !near(ch.t, t, 1e-11 * (1.0 + t.abs())) {
                            r.violation(if zt { "zero-torque" } else { "time-reversal" },
                                format!("{}: {} steps of {} forth and back end {} away, clock {} instead of {}", W[which], n, dt, err, ch.t, t), case);
                        }
                    }
                }
            }
        }
    });
    r.sample(json!({"L": 6, "ssize": 3, "drive": "staticfield", "dt": 1.0, "steps": 20}));
    r.extra.insert("bounds".into(), json!({"systems": items.len(), "dt": [0.02, 0.35, 1.0, 3.1, -0.6], "steps": if th { 200 } else { 60 }}));
}
