use crate::util::*;

fn grid(l: usize) -> Vec<(usize, usize)> {
    (0..5).flat_map(|d| (1..=l).map(move |ss| (d, ss))).collect()
}

/// Couplings of a Langevin chain (private), read off its energy with all but two spins switched off.
pub fn infer_j(lv: &mut sc::spinchain_langevin::SpinChainLangevin) -> Vec<V3> {
    let l = lv.vars.hsize as usize;
    let save = spins_of(&lv.spins);
    let hs = lv.static_h.clone();
    let dr = lv.vars.drive.clone();
    lv.vars.drive = sc::config::DriveType::none;
    lv.static_h = vec![[0.0; 3]; l];
    let mut j = vec![[0.0; 3]; l];
    for n in 0..l {
        for k in 0..3 {
            for s in lv.spins.iter_mut() {
                s.dir = [0.0; 3];
            }
            lv.spins[n].dir[k] = 1.0;
            lv.spins[(n + 1) % l].dir[k] = 1.0;
            j[n][k] = -lv.total_energy() * l as f64;
        }
    }
    set_spins(&mut lv.spins, &save);
    lv.static_h = hs;
    lv.vars.drive = dr;
    j
}

pub fn c05(r: &mut Report) {
    let th = r.thorough();
    let ls: Vec<usize> = if th { (2..=16).collect() } else { vec![2, 3, 4, 5, 6, 7, 8, 10] };
    let long = [33usize, 67, 130, 513];
    let all: Vec<usize> = ls.iter().chain(&long).cloned().collect();
    parallel(r, &all, |r, &l| {
        let big = l > 32;
        for (d, ss) in grid(l) {
            if big && ![1, 2, l / 3, l / 2 + 7, l - 1, l].contains(&ss) {
                continue;
            }
            for &tau in if big { &[0.8][..] } else { &[10.0, 0.8][..] } {
                let mut c = conf(l, ss);
                c.drive = drive(d);
                c.tau = tau;
                c.e = 0.6;
                c.lambda = 0.4;
                c.hs = vec![0.3, -0.4, 0.5];
                let sys = system(c.clone(), (l * 17 + ss) as u64, 0.6, 0.9);
                let mut ch = chain(&c);
                let mut lc = c.clone();
                lc.jvar = 0.3;
                let mut lv = langevin(&lc, 0.1);
                let lj = if l > 2 && (!big || d == 0) { infer_j(&mut lv) } else { vec![] };
                // the complete set of spin states on six directions for the short chains
                let full = if l <= 3 || l <= 6 && th { octa(l) } else { vec![] };
                let all: Vec<(bool, Vec<V3>)> = states(l, if big { 1 } else if th { 30 } else { 6 }).into_iter().map(|s| (true, s)).chain(full.into_iter().map(|s| (false, s))).collect();
                for (many, s) in all {
                    for &t in if many && !big { &[0.0, -2.6, 0.2, 31.7][..] } else { &[-2.6][..] } {
                        sys.install(&mut ch, &s, t);
                        r.states += 1;
                        r.transitions += 9;
                        r.traces += 1;
                        let tol = 1e-12;
                        let case = json!({"L": l, "ssize": ss, "drive": DRIVES[d], "tau": tau, "t": t, "spins": s});
                        let lf = l as f64;
                        let ring = sys.e_ring(&s, t) / lf;
                        let ring_s = sys.e_ring_static(&s) / lf;
                        // the subsystem as a ring of its own, static fields only
                        let sub_ring = (0..ss).map(|n| -dot(&s[n], &mul(&sys.j[n], &s[(n + 1) % ss])) + dot(&s[n], &sys.h[n])).sum::<f64>() / ss as f64;
                        let m = s[..ss].iter().fold([0.0; 3], |a, b| add(&a, b));
                        let mt = s.iter().fold([0.0; 3], |a, b| add(&a, b));
                        let mut chk = |r: &mut Report, k: &str, got: f64, want: f64| {
                            if !near(got, want, tol) {
                                r.violation(k, format!("{}: {} instead of {} (L={} ss={} {} t={})", k, got, want, l, ss, DRIVES[d], t), case.clone());
                            }
                        };
                        chk(r, "total_energy", ch.total_energy(), ring);
                        chk(r, "total_energy2", ch.total_energy2(), ring);
                        chk(r, "mc_total_energy", ch.mc_total_energy(), ring_s);
                        chk(r, "mc_system_energy", ch.mc_system_energy(), sub_ring);
                        chk(r, "mc_system_energy_maglab", ch.mc_system_energy_maglab(), crate::c_mc::h_maglab(&sys, &s) / lf);
                        if l > 2 {
                            chk(r, "mc_system_energy_rot", ch.mc_system_energy_rot(), crate::c_mc::h_rot(&sys, &s) / lf);
                        }
                        if ss >= 2 {
                            let e = (0..ss - 1).map(|n| sys.bond(&s, n) + dot(&s[n], &sys.field(n, t))).sum::<f64>() / (ss - 1) as f64;
                            chk(r, "system_energy", ch.system_energy(), e);
                        }
                        let (a, b) = (ch.m(), ch.m_tot());
                        for k in 0..3 {
                            chk(r, "m", a[k], m[k]);
                            chk(r, "m_tot", b[k], mt[k]);
                        }
                        if !sys.intact(&ch) || spins_of(&ch.spins) != s || ch.t != t {
                            r.violation("mutation", "an observable changed the state".into(), case.clone());
                        }
                        if !lj.is_empty() {
                            let ls = Sys { j: lj.clone(), h: sys.h.clone(), c: c.clone() };
                            lv.static_h = sys.h.clone();
                            lv.t = t;
                            set_spins(&mut lv.spins, &s);
                            let e = ls.e_ring(&s, t) / lf;
                            chk(r, "langevin-total_energy", lv.total_energy(), e);
                            chk(r, "langevin-total_energy2", lv.total_energy2(), e);
                            if ss >= 2 {
                                let e = (0..ss - 1).map(|n| ls.bond(&s, n) + dot(&s[n], &ls.field(n, t))).sum::<f64>() / (ss - 1) as f64;
                                chk(r, "langevin-system_energy", lv.system_energy(), e);
                            }
                            let (a, b) = (lv.m(), lv.m_tot());
                            for k in 0..3 {
                                chk(r, "langevin-m", a[k], m[k]);
                                chk(r, "langevin-m_tot", b[k], mt[k]);
                            }
                        }
                    }
                }
            }
        }
    });
    r.sample(json!({"L": 4, "ssize": 3, "drive": "uniaxial", "tau": 0.8, "t": -2.6}));
    r.extra.insert("bounds".into(), json!({"L": ls, "L_long": long, "ssize": "1..=L", "drives": 5, "times": 4, "complete_states": "6^L tilted octahedron states for short chains"}));
    r.assumptions.push("Langevin couplings are private: they are read off total_energy and then cross-checked through every other observable (and through the dynamics in C11)".into());
}

pub fn c06(r: &mut Report) {
    let ls = if r.thorough() { vec![2usize, 4, 6, 8, 10, 12, 16] } else { vec![2, 4, 6, 8] };
    let long = [66usize, 140];
    let all: Vec<usize> = long.iter().chain(&ls).cloned().collect();
    parallel(r, &all, |r, &l| {
        let big = l > 32;
        for (d, ss) in grid(l) {
            if big && ![1, l / 2 + 9, l - 1, l].contains(&ss) {
                continue;
            }
            for &tau in if big { &[1.0][..] } else { &[10.0, 1.0, 0.37, 7.7][..] } {
                for &ecc in if big { &[0.9][..] } else { &[0.9, 0.0, -0.5, 1.0][..] } {
                    let mut c = conf(l, ss);
                    c.drive = drive(d);
                    c.tau = tau;
                    c.e = ecc;
                    c.hs = vec![0.3, -0.4, 0.5];
                    let sys = system(c.clone(), 9, 0.2, 0.6);
                    let mut ch = chain(&c);
                    let mut lv = langevin(&c, 0.0);
                    for q in if big { 2..=3 } else { -9i32..=17 } {
                        let t = if q == 17 { 1234.567 } else { q as f64 * tau / 8.0 + if q % 3 == 0 { 0.0 } else { 0.013 * tau } };
                        let want = ref_drive(&c, t);
                        r.states += 1;
                        let case = json!({"L": l, "ssize": ss, "drive": DRIVES[d], "tau": tau, "e": ecc, "t": t});
                        // energies: switch all spins off but one
                        for n in 0..l {
                            if big && ![0, 1, ss - 1, ss % l, l / 2, 64, l - 1].contains(&n) {
                                continue;
                            }
                            let mut s = vec![[0.0; 3]; l];
                            for k in 0..3 {
                                s[n] = [0.0; 3];
                                s[n][k] = 1.0;
                                for (eng, period) in [(0, 0), (0, 1), (0, -3), (1, 0), (1, 1)] {
                                    let tt = t + period as f64 * tau;
                                    let (e, e2, es) = if eng == 0 {
                                        sys.install(&mut ch, &s, tt);
                                        (ch.total_energy(), ch.total_energy2(), ch.system_energy())
                                    } else {
                                        set_spins(&mut lv.spins, &s);
                                        lv.static_h = sys.h.clone();
                                        lv.t = tt;
                                        (lv.total_energy(), lv.total_energy2(), lv.system_energy())
                                    };
                                    r.transitions += 1;
                                    let w = sys.h[n][k] + if n < ss { want[k] } else { 0.0 };
                                    let name = ["chain", "langevin"][eng];
                                    // rounding of the phase grows with |t|/tau
                                    let tol = 1e-11 * (1.0 + tt.abs() / tau);
                                    if !near(e * l as f64, w, tol) || !near(e2 * l as f64, w, tol) {
                                        r.violation(&format!("{}-energy-drive", name), format!("{}: field on site {} axis {} at t={} is {} / {} in the energies, expected {}", name, n, k, tt, e * l as f64, e2 * l as f64, w), case.clone());
                                    }
                                    if ss >= 2 {
                                        let w = if n + 1 < ss { w } else { 0.0 };
                                        if !near(es * (ss - 1) as f64, w, tol) {
                                            r.violation(&format!("{}-subsystem-drive", name), format!("{}: field on site {} axis {} at t={} is {} in the subsystem energy, expected {}", name, n, k, tt, es * (ss - 1) as f64, w), case.clone());
                                        }
                                    }
                                }
                            }
                        }
                        // equations of motion: difference between driven and undriven step
                        let dt = 1e-5;
                        for s in states(l, 1).into_iter().skip(3) {
                            r.transitions += 5;
                            r.traces += 1;
                            let mut out: Vec<Vec<V3>> = vec![];
                            for on in [true, false] {
                                let mut sy = sys.clone();
                                sy.c.dt = dt;
                                if !on {
                                    sy.c.drive = sc::config::DriveType::none;
                                }
                                sy.install(&mut ch, &s, t);
                                ch.update();
                                out.push(spins_of(&ch.spins));
                                sy.install(&mut ch, &s, t);
                                ch.update_no_field();
                                out.push(spins_of(&ch.spins));
                                lv.vars = sy.c.clone();
                                lv.static_h = sy.h.clone();
                                lv.t = t;
                                set_spins(&mut lv.spins, &s);
                                tape::set(&[], 0.5);
                                lv.update();
                                out.push(spins_of(&lv.spins));
                                lv.vars = c.clone();
                            }
                            for (v, name) in ["chain", "chain-no-static", "langevin"].iter().enumerate() {
                                for n in 0..l {
                                    let diff = sc(&sub(&out[v][n], &out[3 + v][n]), 1.0 / dt);
                                    let w = if n < ss { sc(&cross(&s[n], &want), -1.0) } else { [0.0; 3] };
                                    let tol = 2e-4 * (1.0 + 1.0 / tau);
                                    if !(norm(&sub(&diff, &w)) <= tol) {
                                        r.violation(&format!("{}-motion-drive", name), format!("{}: drive torque on site {} at t={} is {:?}, expected {:?}", name, n, t, diff, w), case.clone());
                                    }
                                }
                            }
                        }
                    }
                }
            }
        }
    });
    r.sample(json!({"L": 4, "ssize": 2, "drive": "xyelliptic", "tau": 0.37, "e": -0.5, "t": 0.1}));
    r.extra.insert("bounds".into(), json!({"L": ls, "ssize": "1..=L", "drives": 5, "tau": [10.0, 1.0, 0.37, 7.7], "eccentricity": [0.9, 0.0, -0.5, 1.0], "phases": 27}));
}

pub fn c14(r: &mut Report) {
    let mut ls: Vec<usize> = if r.thorough() { (1..=64).map(|x| 2 * x).collect() } else { (1..=24).map(|x| 2 * x).collect() };
    ls.splice(0..0, [512, 300, 256, 200, 130]);
    parallel(r, &ls, |r, &l| {
        let step = if l >= 130 { l / 7 } else { 1 };
        let mut ch = chain(&conf(l, l));
        let mut all = states(l, 6);
        // every one-spin impulse and every plane wave
        for n in (0..l).step_by(step) {
            let mut s = vec![[0.0, 0.0, 1.0]; l];
            s[n] = [1.0, 0.0, 0.0];
            all.push(s);
            all.push((0..l).map(|m| { let a = 2.0 * PI * (n * m) as f64 / l as f64 + 0.3; [a.cos(), a.sin(), 0.0] }).collect());
            all.push((0..l).map(|m| { let a = 2.0 * PI * (n * m) as f64 / l as f64; [0.0, -a.sin(), a.cos()] }).collect());
        }
        for s in all {
            set_spins(&mut ch.spins, &s);
            r.states += 1;
            r.traces += 1;
            let got = ch.energy_spectrum();
            let case = json!({"L": l, "spins": s});
            if got.len() != l {
                r.violation("length", format!("spectrum of {} sites has {} entries", l, got.len()), case.clone());
                continue;
            }
            let mut total = 0.0;
            for n in 0..l {
                r.transitions += 1;
                let k = -PI + 2.0 * PI * n as f64 / l as f64;
                let mut p = 0.0;
                for c in 0..3 {
                    let (mut re, mut im) = (0.0, 0.0);
                    for (m, x) in s.iter().enumerate() {
                        re += x[c] * (k * m as f64).cos();
                        im -= x[c] * (k * m as f64).sin();
                    }
                    p += re * re + im * im;
                }
                total += got[n];
                if !near(got[n], p, 1e-9 * (l * l) as f64) || got[n] < 0.0 {
                    r.violation("value", format!("L={} k index {}: {} instead of {}", l, n, got[n], p), case.clone());
                }
                let mirror = got[(l - n) % l];
                if !near(got[n], mirror, 1e-9 * (l * l) as f64) {
                    r.violation("symmetry", format!("L={} index {}: {} at k but {} at -k", l, n, got[n], mirror), case.clone());
                }
            }
            let q: f64 = s.iter().map(|x| dot(x, x)).sum::<f64>() * l as f64;
            if !near(total, q, 1e-9 * (l * l) as f64) {
                r.violation("sum", format!("L={}: spectrum sums to {} instead of {}", l, total, q), case);
            }
        }
    });
    r.sample(json!({"L": 8, "state": "plane wave n=3"}));
    r.extra.insert("bounds".into(), json!({ "L": ls }));
}
