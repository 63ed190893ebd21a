use crate::util::*;
use sc::spin::Spin;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;

fn ok_unit(s: &V3) -> bool {
    s.iter().all(|x| x.is_finite()) && (norm(s) - 1.0).abs() <= 1e-9
}

/// Directions used as rotation inputs and histories' starting points.
fn dirs(thorough: bool) -> Vec<V3> {
    let mut v: Vec<V3> = vec![];
    for i in -1..=1 {
        for j in -1..=1 {
            for k in -1..=1 {
                if (i, j, k) != (0, 0, 0) {
                    v.push(unit(&[i as f64, j as f64, k as f64]));
                }
            }
        }
    }
    // directions next to the poles and axes
    for e in [1e-300, 1e-17, 1e-12, 1e-8, 1e-4] {
        v.push(unit(&[e, 0.0, 1.0]));
        v.push(unit(&[0.0, -e, -1.0]));
        v.push(unit(&[e, 1.0, 0.0]));
        v.push(unit(&[-e, -1.0, e]));
        v.push(unit(&[1.0, -e, 0.0]));
        v.push(unit(&[-1.0, e, -e]));
    }
    v.push([-0.0, 1.0, 0.0]);
    v.push([0.0, -1.0, -0.0]);
    v.push([-0.0, 0.0, 1.0]);
    v.push([-1.0, -0.0, 0.0]);
    // every lattice direction, tilted off the axes so that no component is special
    let m: i32 = if thorough { 4 } else { 2 };
    for i in -m..=m {
        for j in -m..=m {
            for k in -m..=m {
                v.push(unit(&[i as f64 + 0.13, j as f64 - 0.29, k as f64 + 0.41]));
            }
        }
    }
    v
}

fn constructors(r: &mut Report) {
    let comps = [0.0, 1.0, -1.0, 0.37, -2.5e3, 1e-12];
    for mag in [1e-100, 1e-20, 1e-3, 1.0, 7.0, 1e20, 1e100] {
        for a in comps {
            for b in comps {
                for c in comps {
                    if a == 0.0 && b == 0.0 && c == 0.0 {
                        continue;
                    }
                    let v = [a * mag, b * mag, c * mag];
                    r.transitions += 1;
                    match guard(|| Spin::new_xyz(&v).dir) {
                        Ok(d) if ok_unit(&d) && norm(&sub(&d, &unit(&v))) < 1e-9 => {}
                        x => r.violation("new_xyz", format!("new_xyz({:?}) gave {:?}", v, x), json!({ "v": v })),
                    }
                }
            }
        }
    }
    let angs: Vec<f64> = (-16..=16).map(|k| k as f64 * PI / 8.0).chain([1e-9, -1e-9, 100.0, 1e6, -3.3e4]).collect();
    for &t in &angs {
        for &p in &angs {
            r.transitions += 3;
            let a = Spin::new_from_angles(t, p).dir;
            let mut s = Spin::new();
            s.set_angles(t, p);
            if !ok_unit(&a) || !ok_unit(&s.dir) {
                r.violation("angles", format!("angles ({}, {}) gave {:?} / {:?}", t, p, a, s.dir), json!([t, p]));
            }
        }
    }
    if !ok_unit(&Spin::new().dir) || !ok_unit(&Spin::default().dir) {
        r.violation("default", "default spin is not a unit vector".into(), json!({}));
    }
    // rotation about every field, the zero field included, for every magnitude
    let ds = dirs(r.thorough());
    for s in &ds {
        for f in ds.iter().chain(std::iter::once(&[0.0, 0.0, 0.0])) {
            for mag in [0.0, 1e-200, 1e-100, 1e-9, 1.0, 3.7, 1e5, 1e100] {
                for dt in [0.0, 1e-12, 0.02, -0.5, 40.0] {
                    let fld = sc(f, mag);
                    let mut x = Spin { dir: *s };
                    x.rotate(&fld, dt);
                    r.transitions += 1;
                    if !ok_unit(&x.dir) {
                        let zero = norm(&fld) == 0.0;
                        r.violation(if zero { "rotate-zero-field" } else { "rotate" },
                            format!("rotating {:?} about {:?} for {} gave {:?}", s, fld, dt, x.dir),
                            json!({"spin": s, "field": fld, "dt": dt}));
                    }
                }
            }
        }
    }
    r.states += ds.len() as u64;
}

const TAPES: [[f64; 4]; 4] = [[0.1, 0.0, 0.0, 0.0], [0.999999, 0.999999, 0.9999999, 0.999999], [0.3, 0.7, 0.1, 0.5], [0.6, 0.25, 0.5, 0.02]];

/// Operation alphabet of the chain engine: (operation, tape)
fn chain_ops(full: bool) -> Vec<(usize, usize)> {
    let mut v = vec![(0, 0), (1, 0)];
    for op in 2..7 {
        if op == 4 && !full {
            continue; // second-order Magnus is documented for hsize == ssize only
        }
        for t in 0..if op == 2 { 4 } else { 2 } {
            v.push((op, t));
        }
    }
    v
}
fn apply(ch: &mut SpinChain, op: (usize, usize)) {
    tape::set(&TAPES[op.1], 0.5);
    match op.0 {
        0 => ch.update(),
        1 => ch.update_no_field(),
        2 => ch.metropolis_update(),
        3 => ch.metropolis_update_magnus(),
        4 => ch.metropolis_update_mag_full(),
        5 => ch.metropolis_update_rot_magnus(),
        _ => ch.metropolis_update_maglab(),
    }
}
pub const OPN: [&str; 7] = ["update", "update_no_field", "metropolis", "magnus", "mag_full", "rot_magnus", "maglab"];

fn dfs(r: &mut Report, ch: &mut SpinChain, ops: &[(usize, usize)], depth: usize, hist: &mut Vec<(usize, usize)>, ctx: &str) {
    if depth == 0 {
        r.traces += 1;
        return;
    }
    let save = spins_of(&ch.spins);
    let t = ch.t;
    for &op in ops {
        hist.push(op);
        let res = guard(|| apply(ch, op));
        r.transitions += 1;
        let bad = res.is_err() || ch.spins.iter().any(|s| !ok_unit(&s.dir)) || !ch.t.is_finite();
        if bad {
            let h: Vec<String> = hist.iter().map(|o| format!("{}#{}", OPN[o.0], o.1)).collect();
            r.violation(&format!("history-{}", OPN[op.0]),
                format!("after {:?} on {} the spins are {:?} ({:?})", h, ctx, spins_of(&ch.spins), res.err()),
                json!({"context": ctx, "history": h}));
        } else {
            dfs(r, ch, ops, depth - 1, hist, ctx);
        }
        hist.pop();
        set_spins(&mut ch.spins, &save);
        ch.t = t;
    }
}

pub fn c01(r: &mut Report) {
    constructors(r);
    // chain creation: every combination of extreme draws, every sign and size of beta
    let us = [0.0, 0.01 / (2.0 * PI), 0.25, 0.5, 0.75, 1.0 - 1e-16];
    let betas = [0.0, 1e-300, -1e-300, 1e-12, -1e-9, 1e-3, 0.5, 2.88, -2.88, 30.0, -40.0, 690.0, -700.0, 720.0, -1000.0, 1e5, -1e5, 1e200, -1e200];
    let th = r.thorough();
    parallel(r, &betas, |r, &beta| {
        let mut c = conf(2, 2);
        c.beta = beta;
        let n = us.len();
        let mut lv = { let mut cc = c.clone(); cc.file = scratch(); cc };
        lv.beta = beta;
        for code in 0..n.pow(6) {
            let mut x = code;
            let d: Vec<f64> = (0..6).map(|_| { let u = us[x % n]; x /= n; u }).collect();
            tape::set(&d, 0.5);
            r.transitions += 1;
            match guard(|| SpinChain::new(c.clone(), 0)) {
                Ok(ch) if ch.spins.iter().all(|s| ok_unit(&s.dir)) => {}
                Ok(ch) => r.violation("new", format!("beta {} draws {:?}: spins {:?}", beta, d, spins_of(&ch.spins)), json!({"beta": beta, "draws": d})),
                Err(m) => r.violation("new-panic", format!("beta {} draws {:?}: {}", beta, d, m), json!({"beta": beta, "draws": d})),
            }
            // the Langevin constructor opens its log: a coarser but still complete product
            if code % 7 == 0 || th {
                tape::set(&d, 0.5);
                r.transitions += 1;
                match guard(|| SpinChainLangevin::new(lv.clone(), 0, 0.1)) {
                    Ok(ch) if ch.spins.iter().all(|s| ok_unit(&s.dir)) => {}
                    Ok(ch) => r.violation("new-langevin", format!("beta {} draws {:?}: spins {:?}", beta, d, spins_of(&ch.spins)), json!({"beta": beta, "draws": d})),
                    Err(m) => r.violation("new-langevin-panic", format!("beta {} draws {:?}: {}", beta, d, m), json!({"beta": beta, "draws": d})),
                }
            }
        }
        r.states += n.pow(6) as u64;
    });
    // histories of the chain engine
    let depth = if th { 4 } else { 3 };
    let mut items = vec![];
    for (l, ss) in [(4usize, 2usize), (4, 4), (6, 3), (2, 2)] {
        for d in 0..5 {
            for beta in [0.0, 2.88, -5.0, 800.0] {
                items.push((l, ss, d, beta));
            }
        }
    }
    parallel(r, &items, |r, &(l, ss, d, beta)| {
        for (jv, hv, tau, dt) in [(0.0, 0.0, 10.0, 0.02), (0.3, 0.7, 1.0, 0.7)] {
            let mut c = conf(l, ss);
            c.drive = drive(d);
            c.beta = beta;
            c.tau = tau;
            c.dt = dt;
            c.e = 0.9;
            c.hs = vec![0.3, -0.2, 0.5];
            let sys = system(c.clone(), 3, jv, hv);
            let mut ch = chain(&{ let mut c = c.clone(); c.beta = 1.0; c });
            for (k, s) in states(l, 1).iter().enumerate() {
                sys.install(&mut ch, s, -1.0);
                r.states += 1;
                let ctx = format!("L={} ss={} drive={} beta={} jv={} hv={} state#{}", l, ss, DRIVES[d], beta, jv, hv, k);
                // L=2: the second-neighbour Magnus updates need four distinct sites to make sense but must stay finite
                let ops = chain_ops(l == ss && l > 2);
                dfs(r, &mut ch, &ops, depth, &mut vec![], &ctx);
            }
        }
    });
    // histories of the Langevin engine (chain is the subsystem)
    let mut items = vec![];
    for l in [2usize, 4, 6] {
        for d in 0..5 {
            for (gamma, beta) in [(0.0, 2.88), (0.2, 1.0), (3.0, 0.05)] {
                items.push((l, d, gamma, beta));
            }
        }
    }
    parallel(r, &items, |r, &(l, d, gamma, beta)| {
        let mut c = conf(l, l);
        c.drive = drive(d);
        c.beta = beta;
        c.hs = vec![0.3, -0.2, 0.5];
        let mut lv = langevin(&c, gamma);
        let tapes: [&[f64]; 3] = [&[0.5; 6], &[0.95, 0.05, 0.9, 0.06, 0.95, 0.1], &[0.3, 0.7, 0.1, 0.5, 0.2, 0.8]];
        let ops: Vec<(usize, usize)> = (0..3).flat_map(|o| (0..3).map(move |t| (o, t))).collect();
        for s in states(l, 1) {
            let dp = if th { 5 } else { 4 };
            let n = ops.len();
            // iterative enumeration of all op sequences, depth first
            fn go(r: &mut Report, lv: &mut SpinChainLangevin, ops: &[(usize, usize)], tapes: &[&[f64]; 3], dp: usize, hist: &mut Vec<(usize, usize)>, ctx: &str) {
                if dp == 0 {
                    r.traces += 1;
                    return;
                }
                let save = spins_of(&lv.spins);
                let t = lv.t;
                for &(o, k) in ops {
                    hist.push((o, k));
                    tape::set(tapes[k], 0.5);
                    let res = guard(|| match o {
                        0 => lv.update(),
                        1 => lv.metropolis_update(),
                        _ => lv.metropolis_update_magnus(),
                    });
                    r.transitions += 1;
                    if res.is_err() || lv.spins.iter().any(|s| !ok_unit(&s.dir)) || !lv.t.is_finite() {
                        r.violation(["langevin-update", "langevin-metropolis", "langevin-magnus"][o],
                            format!("{} history {:?}: spins {:?} ({:?})", ctx, hist, spins_of(&lv.spins), res.err()),
                            json!({"context": ctx, "history": hist}));
                    } else {
                        go(r, lv, ops, tapes, dp - 1, hist, ctx);
                    }
                    hist.pop();
                    set_spins(&mut lv.spins, &save);
                    lv.t = t;
                }
            }
            let _ = n;
            set_spins(&mut lv.spins, &s);
            lv.t = 0.3;
            r.states += 1;
            let ctx = format!("langevin L={} drive={} gamma={} beta={}", l, DRIVES[d], gamma, beta);
            go(r, &mut lv, &ops, &tapes, dp, &mut vec![], &ctx);
        }
    });
    r.sample(json!({"history": ["update#0", "metropolis#2", "magnus#1"], "context": "L=4 ss=2 drive=xyplane beta=2.88"}));
    r.sample(json!({"new": {"beta": 0.0, "draws": [0.0, 0.5, 0.25, 0.75, 0.5, 0.5]}}));
    r.extra.insert("bounds".into(), json!({"history_depth_chain": depth, "L": [2, 4, 6], "creation": "all 6^6 products of 6 extreme draws per beta", "betas": betas.len()}));
    r.assumptions.push("new_xyz is given non-zero finite vectors of magnitude 1e-100..1e100; even chain lengths".into());
}

/// Exact precession S(t) of dS/dt = S x f.
pub fn ref_rotate(s: &V3, f: &V3, dt: f64) -> V3 {
    let w = norm(f);
    if w == 0.0 {
        return *s;
    }
    let n = sc(f, 1.0 / w);
    let par = sc(&n, dot(s, &n));
    let per = sub(s, &par);
    let (sn, cs) = (w * dt).sin_cos();
    // d/dt per = per x f  => rotation by -w dt about n: per cos + (per x n) sin
    add(&par, &add(&sc(&per, cs), &sc(&cross(&per, &n), sn)))
}

pub fn c02(r: &mut Report) {
    let th = r.thorough();
    let ds = dirs(th);
    parallel(r, &ds, |r, s| {
        for f in &ds {
            for mag in [0.0, 1e-30, 1e-6, 0.3, 1.0, 2.9, 50.0] {
                let fld = sc(f, mag);
                for dt in [0.0, 1e-9, 1e-6, 0.02, 0.7, -0.3, PI, 2.0 * PI, -5.0] {
                    let mut x = Spin { dir: *s };
                    x.rotate(&fld, dt);
                    r.transitions += 1;
                    let e = ref_rotate(s, &fld, dt);
                    let tol = 1e-14 * (1.0 + (mag * dt).abs());
                    if !(norm(&sub(&x.dir, &e)) <= tol) {
                        let k = if mag == 0.0 { "rotate-zero-field" } else { "rotate" };
                        r.violation(k, format!("rotate {:?} about {:?} for {}: {:?}, expected {:?}", s, fld, dt, x.dir, e),
                            json!({"spin": s, "field": fld, "dt": dt}));
                        continue;
                    }
                    let mut y = x.clone();
                    y.rotate(&fld, -dt);
                    if !(norm(&sub(&y.dir, s)) <= tol) {
                        r.violation("inverse", format!("rotating back {:?} about {:?} for {} gives {:?}", s, fld, dt, y.dir), json!({"spin": s, "field": fld, "dt": dt}));
                    }
                    for dt2 in [0.4, -1.1] {
                        let mut a = x.clone();
                        a.rotate(&fld, dt2);
                        let mut b = Spin { dir: *s };
                        b.rotate(&fld, dt + dt2);
                        r.transitions += 2;
                        if !(norm(&sub(&a.dir, &b.dir)) <= tol) {
                            r.violation("compose", format!("two steps {} {} about {:?} differ from one", dt, dt2, fld), json!({"spin": s, "field": fld, "dt": [dt, dt2]}));
                        }
                    }
                }
            }
        }
        // angles rebuild the spin
        let sp = Spin { dir: *s };
        let (t, p) = (sp.theta(), sp.phi());
        let b = Spin::new_from_angles(t, p).dir;
        r.transitions += 1;
        if !(norm(&sub(&b, s)) <= 1e-12) {
            r.violation("angles-roundtrip", format!("spin {:?} has angles ({}, {}) which rebuild {:?}", s, t, p, b), json!({ "spin": s }));
        }
        if sp.xyz() != s.to_vec() {
            r.violation("xyz", format!("xyz of {:?} is {:?}", s, sp.xyz()), json!({ "spin": s }));
        }
        // slightly over-long z component, as rounding produces
        let q = Spin { dir: [0.0, 0.0, s[2].signum() * (1.0 + 2.3e-16)] };
        if !q.phi().is_finite() {
            r.violation("phi-rounding", format!("polar angle of {:?} is {}", q.dir, q.phi()), json!({ "spin": q.dir }));
        }
        // turning by an angle towards a direction
        let mut g = Lcg(3);
        let extra: Vec<V3> = (0..4).map(|_| sc(&g.v(), 3.0)).collect();
        for d in ds.iter().chain(extra.iter()) {
            for a in [0.0, 1e-6, 0.1, 0.5 * PI, 2.0, 3.0, PI] {
                r.transitions += 1;
                // start from exact angles
                let tt = s[1].atan2(s[0]);
                let pp = s[0].hypot(s[1]).atan2(s[2]);
                let old = Spin::new_from_angles(tt, pp).dir;
                let res = guard(|| Spin::rot_perp(&[tt, pp], d, a));
                let (nd, ok) = match &res {
                    Ok(n) => {
                        let nd = Spin::new_from_angles(n[0], n[1]).dir;
                        let ang = norm(&cross(&nd, &old)).atan2(dot(&nd, &old));
                        let par = norm(&cross(&unit(d), &old)) < 1e-3;
                        (nd, (ang - a).abs() <= if par { 1e-6 } else { 1e-11 })
                    }
                    Err(_) => ([0.0; 3], false),
                };
                if !ok {
                    let par = norm(&cross(&unit(d), &old)) < 1e-7;
                    r.violation(if par { "turn-parallel" } else { "turn" },
                        format!("turning {:?} by {} along {:?} gave {:?} ({:?})", old, a, d, nd, res),
                        json!({"spin": old, "direction": d, "angle": a}));
                }
            }
            // Gram-Schmidt direction: unit, orthogonal, in the plane of the two vectors
            for m in [1e-3, 1.0, 20.0] {
                let o = sc(s, m);
                let gsv = Spin::gs(&o, d);
                r.transitions += 1;
                let cr = cross(&unit(&o), &unit(d));
                let par = norm(&cr) < 1e-6;
                let bad = if par {
                    !((norm(&gsv) - 1.0).abs() < 1e-9 && (norm(&cr) > 1e-9 || dot(&gsv, &unit(&o)).abs() < 1e-6))
                } else {
                    !((norm(&gsv) - 1.0).abs() < 1e-9 && dot(&gsv, &unit(&o)).abs() < 1e-8 && dot(&gsv, &cr).abs() < 1e-8 && dot(&gsv, d) > 0.0)
                };
                if bad {
                    r.violation(if par { "gs-parallel" } else { "gs" }, format!("gs({:?}, {:?}) = {:?}", o, d, gsv), json!([o, d]));
                }
            }
        }
        r.states += 1;
        r.traces += 1;
    });
    // angle round trip over a full angular grid, every quadrant and both poles
    let n = if th { 512 } else { 256 };
    for i in 0..=n {
        for j in 0..=n {
            let t = -PI + 2.0 * PI * i as f64 / n as f64;
            // the first and the last few close in on the poles
            let p = match j {
                j if j >= 1 && j <= 16 => 0.1f64.powi(j as i32),
                j if j >= n - 16 && j < n => PI - 0.1f64.powi((n - j) as i32),
                j => PI * j as f64 / n as f64,
            };
            let s = Spin::new_from_angles(t, p);
            let b = Spin::new_from_angles(s.theta(), s.phi());
            r.transitions += 1;
            r.states += 1;
            if !(norm(&sub(&b.dir, &s.dir)) <= 1e-12) {
                r.violation("angles-roundtrip", format!("angles ({}, {}): spin {:?} rebuilt as {:?}", t, p, s.dir, b.dir), json!([t, p]));
            }
        }
    }
    r.sample(json!({"rotate": {"spin": [0.0, 0.0, 1.0], "field": [0.3, 0.0, 0.0], "dt": 0.02}}));
    r.sample(json!({"turn": {"spin": [0.0, 1.0, 0.0], "direction": [0.0, 1.0, 0.0], "angle": 0.5}}));
    r.extra.insert("bounds".into(), json!({"spin_directions": ds.len(), "field_directions": ds.len(), "field_magnitudes": 7, "steps": 9, "angle_grid": n}));
}
