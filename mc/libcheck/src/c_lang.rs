use crate::c_obs::infer_j;
use crate::util::*;
use sc::spinchain_langevin::SpinChainLangevin;

fn mk(l: usize, d: usize, gamma: f64, beta: f64, hv: f64, jv: f64, tau: f64) -> (SpinChainLangevin, Sys) {
    let mut c = conf(l, l);
    c.drive = drive(d);
    c.tau = tau;
    c.e = 0.7;
    c.beta = beta;
    c.lambda = 0.6;
    c.jvar = jv;
    c.hs = vec![0.3, -0.4, 0.5];
    let mut lv = langevin(&c, gamma);
    let sys0 = system(c.clone(), 21, 0.0, hv);
    let j = if l > 2 { infer_j(&mut lv) } else { vec![[1.0, 1.0, 0.6]; 2] };
    lv.static_h = sys0.h.clone();
    (lv, Sys { j, h: sys0.h, c })
}
fn put(lv: &mut SpinChainLangevin, s: &[V3], t: f64) {
    set_spins(&mut lv.spins, s);
    lv.t = t;
}
fn generic(l: usize, n: usize) -> Vec<Vec<V3>> {
    states(l, n).into_iter().skip(3).collect()
}
/// Draws that decide the noise: for each draw, the sites it moves.
fn noise_roles(lv: &mut SpinChainLangevin, s: &[V3]) -> Result<(usize, Vec<Vec<usize>>), String> {
    put(lv, s, 0.0);
    tape::set(&[], 0.5);
    lv.update();
    let n = tape::used();
    let base = spins_of(&lv.spins);
    let mut v = vec![];
    for p in 0..n {
        let mut t = vec![0.5; n];
        t[p] = 0.75;
        put(lv, s, 0.0);
        tape::set(&t, 0.5);
        lv.update();
        if tape::used() != n {
            return Err("number of draws depends on the draws".into());
        }
        v.push((0..s.len()).filter(|&i| norm(&sub(&lv.spins[i].dir, &base[i])) > 0.05 * (2.0 * lv.gamma * lv.vars.dt / lv.vars.beta).sqrt()).collect());
    }
    Ok((n, v))
}

pub fn c11(r: &mut Report) {
    let th = r.thorough();
    let ls: &[usize] = if th { &[2, 4, 6, 8, 10, 12, 16] } else { &[2, 4, 6, 8] };
    let mut items = vec![];
    for l in [70, 200] {
        for d in 0..5 {
            for (gamma, beta) in [(0.0, 2.88), (1.0, 0.5)] {
                items.push((l, d, gamma, beta, 0.8, 0.2));
            }
        }
    }
    for &l in ls {
        for d in 0..5 {
            for (gamma, beta) in [(0.0, 2.88), (0.1, 2.0), (1.0, 0.5), (2.0, 10.0), (0.7, 0.03), (0.01, 1e3)] {
                for (hv, jv) in [(0.0, 0.0), (0.8, 0.2)] {
                    if l == 2 && jv > 0.0 {
                        continue;
                    }
                    items.push((l, d, gamma, beta, hv, jv));
                }
            }
        }
    }
    parallel(r, &items, |r, &(l, d, gamma, beta, hv, jv)| {
        let (mut lv, sys) = mk(l, d, gamma, beta, hv, jv, 3.0);
        let cfg = cstr(&lv.vars);
        let ctx = json!({"L": l, "drive": DRIVES[d], "gamma": gamma, "beta": beta, "hv": hv, "jv": jv});
        let fail = |r: &mut Report, k: &str, m: String| r.violation(k, format!("L={} {} gamma={} beta={}: {}", l, DRIVES[d], gamma, beta, m), ctx.clone());
        // clock and untouched parameters
        {
            let s = &generic(l, 1)[0];
            for dt in [0.02, 0.3] {
                lv.vars.dt = dt;
                put(&mut lv, s, 1.5);
                tape::set(&[], 0.7);
                lv.update();
                if !near(lv.t, 1.5 + dt, 1e-12) {
                    fail(r, "clock", format!("clock went from 1.5 to {} in a step of {}", lv.t, dt));
                }
            }
            lv.vars.dt = 0.02;
            if cstr(&lv.vars) != cfg || lv.static_h != sys.h || lv.gamma != gamma {
                fail(r, "config-changed", "the update changed configuration, fields or damping".into());
            }
            if l > 2 && maxd(&infer_j(&mut lv), &sys.j) > 1e-12 {
                fail(r, "config-changed", "the update changed the couplings".into());
            }
        }
        // undamped: open-chain energy conserved exactly for steady fields, any step size
        if gamma == 0.0 && d >= 3 {
            for s in states(l, 2) {
                for dt in [0.02, 0.4, 1.3, -0.7] {
                    lv.vars.dt = dt;
                    put(&mut lv, &s, 0.0);
                    let e0 = sys.e_open(&s, 0.0);
                    r.states += 1;
                    for i in 0..30 {
                        tape::set(&[], 0.8);
                        if let Err(m) = guard(|| lv.update()) {
                            fail(r, "undamped-energy", format!("step of {}: {}", dt, m));
                            break;
                        }
                        r.transitions += 1;
                        let e = sys.e_open(&spins_of(&lv.spins), lv.t);
                        if !near(e, e0, 1e-11 * l as f64) {
                            fail(r, "undamped-energy", format!("energy moved from {} to {} at step {} of {}", e0, e, i + 1, dt));
                            break;
                        }
                    }
                    r.traces += 1;
                }
            }
        }
        // drift: precession everywhere, Landau-Lifshitz damping on the two ends
        let big = l > 40;
        let full = if l == 2 || (l == 4 || l == 6 && gamma == 1.0) && th { octa(l) } else { vec![] };
        let all: Vec<(bool, Vec<V3>)> = states(l, if big { 2 } else if th { 20 } else { 6 }).into_iter().map(|s| (true, s)).chain(full.into_iter().map(|s| (false, s))).collect();
        for (many, s) in all {
            for &t in if many { &[0.0, -1.3, 4.4][..] } else { &[-1.3][..] } {
                r.states += 1;
                for &dt in if many { &[1e-3, 1e-5][..] } else { &[1e-5][..] } {
                    lv.vars.dt = dt;
                    put(&mut lv, &s, t);
                    tape::set(&[], 0.5); // zero noise
                    let res = guard(|| lv.update());
                    r.transitions += 1;
                    let got = spins_of(&lv.spins);
                    for n in 0..l {
                        let o = sys.omega(&s, n, t, false, true);
                        let mut want = cross(&s[n], &o);
                        if n == 0 || n == l - 1 {
                            let x = cross(&s[n], &cross(&s[n], &o));
                            want = sub(&want, &sc(&x, gamma));
                        }
                        let rate = sc(&sub(&got[n], &s[n]), 1.0 / dt);
                        let w = norm(&o) + 2.0 + 2.0 * PI / 3.0;
                        let bound = 3.0 * (1.0 + gamma) * (1.0 + gamma) * w * w * dt + 1e-9;
                        if res.is_err() || !(norm(&sub(&rate, &want)) <= bound) {
                            let zt = norm(&o) < 1e-12;
                            fail(r, if zt { "zero-torque" } else if n == 0 { "drift-left" } else if n == l - 1 { "drift-right" } else { "drift-bulk" },
                                format!("site {} moves at rate {:?} instead of {:?} (t={}, dt={})", n, rate, want, t, dt));
                        }
                    }
                }
            }
        }
        // damping alone never raises the energy
        if gamma > 0.0 && d >= 3 {
            lv.vars.beta = 1e300;
            for s in generic(l, 3) {
                lv.vars.dt = 1e-3;
                put(&mut lv, &s, 0.0);
                let mut e0 = sys.e_open(&s, 0.0);
                for _ in 0..if big { 300 } else if th { 60000 } else { 10000 } {
                    tape::set(&[], 0.9);
                    lv.update();
                    r.transitions += 1;
                    let e = sys.e_open(&spins_of(&lv.spins), 0.0);
                    if !(e <= e0 + 1e-12) {
                        fail(r, "damping-heats", format!("energy rose from {} to {} under pure damping", e0, e));
                        break;
                    }
                    e0 = e;
                }
                r.traces += 1;
            }
            lv.vars.beta = beta;
        }
        // noise (states with no spin along an axis)
        for s in generic(l, 2).into_iter().skip(1) {
            for dt in [1e-8, 1e-6] {
                lv.vars.dt = dt;
                let sigma = (2.0 * gamma * dt / beta).sqrt();
                if gamma == 0.0 {
                    // no damping, no noise
                    put(&mut lv, &s, 0.0);
                    tape::set(&[], 0.5);
                    lv.update();
                    let a = spins_of(&lv.spins);
                    put(&mut lv, &s, 0.0);
                    tape::set(&[], 0.9);
                    lv.update();
                    r.transitions += 2;
                    if maxd(&a, &spins_of(&lv.spins)) > 1e-13 {
                        fail(r, "noise-undamped", "noise acts without damping".into());
                    }
                    continue;
                }
                let (n, who) = match noise_roles(&mut lv, &s) {
                    Ok(x) => x,
                    Err(m) => {
                        fail(r, "noise-draws", m);
                        continue;
                    }
                };
                let left: Vec<usize> = (0..n).filter(|&p| who[p] == vec![0]).collect();
                let right: Vec<usize> = (0..n).filter(|&p| who[p] == vec![l - 1]).collect();
                if left.len() != 3 || right.len() != 3 || n != 6 {
                    fail(r, "noise-support", format!("draws act on sites {:?}", who));
                    continue;
                }
                for (site, ps) in [(0usize, left), (l - 1, right)] {
                    // response of the spin to each normal deviate
                    let mut cols = vec![];
                    for &p in &ps {
                        let resp = |x: f64, lv: &mut SpinChainLangevin| -> V3 {
                            let mut t = vec![0.5; n];
                            t[p] = x;
                            put(lv, &s, 0.0);
                            tape::set(&t, 0.5);
                            lv.update();
                            lv.spins[site].dir
                        };
                        let z = |x: f64| 3.910757959537090045 * (2.0 * x - 1.0);
                        let hi = resp(0.6, &mut lv);
                        let lo = resp(0.4, &mut lv);
                        let col = sc(&sub(&hi, &lo), 0.5 / z(0.6));
                        r.transitions += 2;
                        // linear in the deviate up to the curvature of the sphere
                        for x in [0.1, 0.3, 0.75, 0.9] {
                            let a = resp(x, &mut lv);
                            let b = resp(1.0 - x, &mut lv);
                            r.transitions += 2;
                            let c2 = sc(&sub(&a, &b), 0.5 / z(x));
                            if !(norm(&sub(&c2, &col)) <= 20.0 * sigma * sigma + 1e-10) {
                                fail(r, "noise-law", format!("site {}: response to deviate {} is {:?} per unit, {:?} for small ones", site, z(x), c2, col));
                            }
                        }
                        cols.push(col);
                    }
                    // covariance of the kick: sigma^2 (1 - S S^T), i.e. independent field components of variance 2 gamma dt / beta
                    for a in 0..3 {
                        for b in 0..3 {
                            let cov: f64 = cols.iter().map(|c| c[a] * c[b]).sum();
                            let want = sigma * sigma * ((a == b) as u8 as f64 - s[site][a] * s[site][b]);
                            if !near(cov / (sigma * sigma), want / (sigma * sigma), 1e-3 + 60.0 * sigma) {
                                fail(r, "noise-variance", format!("site {}: kick covariance [{}][{}] is {} instead of {} (dt={})", site, a, b, cov, want, dt));
                            }
                        }
                    }
                    // each draw is a kick about one axis, perpendicular to S, of size sigma
                    let mut axes = [false; 3];
                    for c in &cols {
                        for k in 0..3 {
                            let mut e = [0.0; 3];
                            e[k] = sigma;
                            let x = cross(&s[site], &e);
                            if norm(&sub(c, &x)) < 0.05 * sigma + 100.0 * sigma * sigma || norm(&add(c, &x)) < 0.05 * sigma + 100.0 * sigma * sigma {
                                axes[k] = true;
                            }
                        }
                    }
                    if axes != [true; 3] {
                        fail(r, "noise-axes", format!("site {}: kicks {:?} do not cover the three axes independently", site, cols));
                    }
                }
                r.traces += 1;
            }
        }
    });
    r.sample(json!({"L": 4, "drive": "none", "gamma": 1.0, "beta": 0.5, "varied": "each of the six noise deviates"}));
    r.extra.insert("bounds".into(), json!({"systems": items.len(), "dt": [1e-3, 1e-5, 1e-6, 1e-8]}));
    r.assumptions.push("even chain lengths with the chain equal to the subsystem, as the Langevin mode sets it; inverse temperature positive".into());
}

pub fn c12(r: &mut Report) {
    let th = r.thorough();
    let ls: &[usize] = if th { &[2, 4, 6, 8, 10, 14] } else { &[2, 4, 6, 8] };
    let mut items = vec![];
    for l in [70usize, 130] {
        for d in 0..5 {
            items.push((l, d, 1.0, 0.5, 0.8, 0.2, 3.0));
        }
    }
    for &l in ls {
        for d in 0..5 {
            for (gamma, beta) in [(0.0, 2.88), (0.1, 2.0), (1.0, 0.5), (0.5, 10.0), (0.3, 1e8), (0.6, 0.04), (3.0, 1.0)] {
                for (hv, jv) in [(0.0, 0.0), (0.0, 0.2), (0.8, 0.2)] {
                    for tau in [3.0, 10.0, 0.4] {
                        if l == 2 && jv > 0.0 && hv == 0.0 {
                            continue;
                        }
                        items.push((l, d, gamma, beta, hv, if l == 2 { 0.0 } else { jv }, tau));
                    }
                }
            }
        }
    }
    parallel(r, &items, |r, &(l, d, gamma, beta, hv, jv, tau)| {
        let (mut lv, sys) = mk(l, d, gamma, beta, hv, jv, tau);
        let big = l > 40;
        let full = if l == 2 || th && (l == 4 || l == 6 && beta == 0.5 && tau == 3.0 && hv > 0.0) { octa(l) } else { vec![] };
        let all: Vec<(bool, Vec<V3>)> = states(l, if big { 2 } else if th { 40 } else { 8 }).into_iter().map(|s| (!big, s)).chain(full.into_iter().map(|s| (false, s))).collect();
        for (many, s) in all {
            for &t in if many { &[0.0, 0.77, -2.1, 11.0][..] } else { &[0.77][..] } {
                put(&mut lv, &s, t);
                let got = lv.boundary_term();
                r.states += 1;
                if !spins_of(&lv.spins).eq(&s) || lv.t != t {
                    r.violation("mutation", "boundary_term changed the state".into(), json!({}));
                }
                // mean over the noise by second differences in each of the six deviates, for two steps: extrapolate to dt = 0
                let mut rate = |dt: f64, r: &mut Report| -> Result<f64, String> {
                    lv.vars.dt = dt;
                    let mut f = |p: usize, x: f64| -> f64 {
                        let mut tp = vec![0.5; 6];
                        if p < 6 {
                            tp[p] = x;
                        }
                        put(&mut lv, &s, t);
                        tape::set(&tp, 0.5);
                        lv.update();
                        sys.e_open(&spins_of(&lv.spins), lv.t)
                    };
                    let e0 = sys.e_open(&s, t);
                    let c = guard(|| f(6, 0.5))?;
                    if tape::used() != 6 {
                        return Err(format!("the update consumed {} deviates", tape::used()));
                    }
                    let mut mean = c - e0;
                    let h = 0.9; // deviate where the second difference is taken
                    let x = 0.5 + h / (2.0 * 3.910757959537090045);
                    for p in 0..6 {
                        mean += 0.5 * (f(p, x) + f(p, 1.0 - x) - 2.0 * c) / (h * h);
                    }
                    r.transitions += 13;
                    Ok(mean / dt)
                };
                let res = rate(2e-5, r).and_then(|a| rate(1e-5, r).map(|b| 2.0 * b - a));
                r.traces += 1;
                let want = match res {
                    Ok(x) => x,
                    Err(m) => {
                        r.violation("update", format!("L={} {}: {}", l, DRIVES[d], m), json!({"L": l, "drive": DRIVES[d]}));
                        continue;
                    }
                };
                let tol = 2e-6 * (1.0 + gamma) * (l as f64) * (1.0 + want.abs());
                if gamma == 1.0 && DRIVES[d] == "none" {
                    // the chain engine's boundary term is this rate per unit damping, without a drive
                    let mut cc = sys.c.clone();
                    cc.beta = beta;
                    let mut ch = chain(&cc);
                    sys.install(&mut ch, &s, t);
                    ch.vars.beta = beta;
                    let b = ch.boundary_term();
                    r.states += 1;
                    if !near(b, want, tol) {
                        r.violation("chain-engine", format!("L={} beta={}: the chain's boundary term is {} but the mean energy rate {}", l, beta, b, want), json!({"L": l, "beta": beta, "spins": s, "static_h": sys.h, "J": sys.j}));
                    }
                }
                if !near(got, want, tol) {
                    let key = if want.is_nan() { "zero-torque" } else if hv > 0.0 { "with-static-field" } else { "no-static-field" };
                    r.violation(key, format!("L={} {} gamma={} beta={} tau={} t={}: boundary term {} but mean energy rate {}", l, DRIVES[d], gamma, beta, tau, t, got, want),
                        json!({"L": l, "drive": DRIVES[d], "gamma": gamma, "beta": beta, "tau": tau, "t": t, "spins": s, "static_h": sys.h, "J": sys.j}));
                }
            }
        }
    });
    r.sample(json!({"L": 4, "drive": "xyplane", "gamma": 1.0, "beta": 0.5, "static_h": 0.8}));
    r.extra.insert("bounds".into(), json!({"systems": items.len()}));
    r.assumptions.push("mean over the Gaussian noise taken to second order in the step (exact as dt -> 0) on the real update".into());
}
