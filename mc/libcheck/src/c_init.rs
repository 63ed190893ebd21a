use crate::c_obs::infer_j;
use crate::util::*;
use rand_distr::{Distribution, Normal};
use sc::config::Config;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;

struct Init {
    s: Vec<V3>,
    j: Vec<V3>,
    h: Vec<V3>,
    t: f64,
    vars: String,
    used: usize,
}
fn create(lang: bool, c: &Config, tp: &[f64]) -> Result<Init, String> {
    guard(|| {
        tape::set(tp, 0.5);
        if lang {
            let mut lv = SpinChainLangevin::new(c.clone(), 0, 0.3);
            let used = tape::used();
            let s = spins_of(&lv.spins);
            let h = lv.static_h.clone();
            let vars = cstr(&lv.vars);
            if lv.gamma != 0.3 {
                panic!("damping is {} instead of 0.3", lv.gamma);
            }
            let j = infer_j(&mut lv);
            Init { s, j, h, t: lv.t, vars, used }
        } else {
            let ch = SpinChain::new(c.clone(), 0);
            Init { s: spins_of(&ch.spins), j: ch.j_couple.clone(), h: ch.static_h.clone(), t: ch.t, vars: cstr(&ch.vars), used: tape::used() }
        }
    })
}

/// Cumulative distribution of c = cos(angle) with density proportional to exp(beta c).
fn cdf(beta: f64, c: f64) -> f64 {
    let b = beta.abs();
    let c = if beta < 0.0 { -c } else { c };
    let f = if b < 1e-5 {
        0.5 * (1.0 + c) + 0.25 * b * (c * c - 1.0)
    } else {
        ((b * (c - 1.0)).exp() - (-2.0 * b).exp()) / -(-2.0 * b).exp_m1()
    };
    if beta < 0.0 {
        1.0 - f
    } else {
        f
    }
}

pub fn c09(r: &mut Report) {
    let th = r.thorough();
    let betas = [0.0, 1e-12, -1e-12, 1e-6, 0.01, -0.3, 1.0, 2.88, -2.88, 30.0, -30.0, 300.0, -300.0, 720.0, -720.0, 1e4, -1e4];
    let mut items = vec![];
    for lang in [false, true] {
        for b in betas {
            for (l, ss) in [(4usize, 2usize), (4, 4), (5, 1)] {
                items.push((lang, b, l, ss));
            }
        }
    }
    parallel(r, &items, |r, &(lang, beta, l, ss)| {
        let name = if lang { "langevin" } else { "chain" };
        let mut c = conf(l, ss);
        c.file = scratch();
        c.beta = beta;
        c.jvar = 0.07;
        c.hvar = 0.3;
        c.lambda = 0.4;
        c.trel = 12.5;
        c.t = 3.0;
        c.hfield = vec![0.1, -0.2, 0.35];
        c.hs = vec![-0.6, 0.25, 0.15];
        let ctx = json!({"engine": name, "beta": beta, "L": l, "ssize": ss});
        let fail = |r: &mut Report, k: &str, m: String| r.violation(&format!("{}-{}", name, k), format!("{} beta={} L={} ss={}: {}", name, beta, l, ss, m), ctx.clone());
        let n = match create(lang, &c, &[]) {
            Ok(i) => i.used,
            Err(m) => return fail(r, "create", m),
        };
        let mut g = Lcg(77);
        let base: Vec<f64> = (0..n).map(|_| 0.2 + 0.6 * g.f()).collect();
        let b0 = match create(lang, &c, &base) {
            Ok(x) => x,
            Err(m) => return fail(r, "create", m),
        };
        r.states += 1;
        r.traces += 1;
        // plain facts
        if b0.s.len() != l || b0.j.len() != l || b0.h.len() != l {
            return fail(r, "layout", format!("{} spins, {} couplings, {} fields", b0.s.len(), b0.j.len(), b0.h.len()));
        }
        if b0.t != -12.5 {
            fail(r, "clock", format!("clock starts at {} with trel 12.5", b0.t));
        }
        if b0.vars != cstr(&c) {
            fail(r, "config", format!("configuration stored as {}", b0.vars));
        }
        let clean = {
            let mut cc = c.clone();
            cc.jvar = 0.0;
            cc.hvar = 0.0;
            create(lang, &cc, &base).unwrap()
        };
        for i in 0..l {
            let wj = [1.0, 1.0, 0.4];
            for k in 0..3 {
                let wh = c.hfield[k] + if i < ss { c.hs[k] } else { 0.0 };
                if !near(clean.j[i][k], wj[k], 1e-12) {
                    fail(r, "coupling", format!("coupling of bond {} axis {} is {} without disorder", i, k, clean.j[i][k]));
                }
                if !near(clean.h[i][k], wh, 1e-12) {
                    fail(r, "field", format!("static field on site {} axis {} is {} instead of {} without disorder", i, k, clean.h[i][k], wh));
                }
            }
        }
        // which draw decides what
        let cosn = |x: &Init, i: usize| dot(&x.s[i - 1], &x.s[i]);
        let mut who_j: Vec<Vec<usize>> = vec![vec![]; 3 * l];
        let mut who_h: Vec<Vec<usize>> = vec![vec![]; 3 * l];
        let mut who_c: Vec<Vec<usize>> = vec![vec![]; l];
        let mut who_s: Vec<Vec<usize>> = vec![vec![]; l];
        for p in 0..n {
            for v in [0.1, 0.37, 0.64, 0.9] {
                let mut t = base.clone();
                t[p] = v;
                r.transitions += 1;
                let x = match create(lang, &c, &t) {
                    Ok(x) => x,
                    Err(m) => return fail(r, "create", m),
                };
                let mut put = |w: &mut Vec<usize>| if w.last() != Some(&p) { w.push(p) };
                for i in 0..l {
                    for k in 0..3 {
                        if !near(x.j[i][k], b0.j[i][k], 1e-12) {
                            put(&mut who_j[3 * i + k]);
                        }
                        if !near(x.h[i][k], b0.h[i][k], 1e-12) {
                            put(&mut who_h[3 * i + k]);
                        }
                    }
                    if i > 0 && !near(cosn(&x, i), cosn(&b0, i), 1e-10) {
                        put(&mut who_c[i]);
                    }
                    if !(norm(&sub(&x.s[i], &b0.s[i])) <= 1e-10) {
                        put(&mut who_s[i]);
                    }
                }
            }
        }
        // disorder: one private draw per component, a normal deviate of the configured width
        let mut seen: Vec<usize> = vec![];
        for (what, who, var) in [("coupling", &who_j, c.jvar), ("field", &who_h, c.hvar)] {
            for q in 0..3 * l {
                if who[q].len() != 1 || seen.contains(&who[q][0]) {
                    fail(r, &format!("{}-disorder", what), format!("{} {} axis {} is decided by draws {:?} (others use {:?})", what, q / 3, q % 3, who[q], seen));
                    continue;
                }
                let p = who[q][0];
                seen.push(p);
                for v in [0.05, 0.2, 0.5, 0.71, 0.95] {
                    let mut t = base.clone();
                    t[p] = v;
                    let x = create(lang, &c, &t).unwrap();
                    r.transitions += 1;
                    tape::set(&[v], 0.5);
                    let z: f64 = Normal::new(0.0, 1.0).unwrap().sample(&mut rand::thread_rng());
                    let (got, mean) = if what == "coupling" { (x.j[q / 3][q % 3], clean.j[q / 3][q % 3]) } else { (x.h[q / 3][q % 3], clean.h[q / 3][q % 3]) };
                    if !near((got - mean).abs(), (var * z).abs(), 1e-10) || (v == 0.5 && !near(got, mean, 1e-10)) {
                        fail(r, &format!("{}-disorder", what), format!("{} {} axis {}: {} for a normal deviate {} of width {} around {}", what, q / 3, q % 3, got, z, var, mean));
                    }
                }
            }
        }
        // relative angles: inverse-transform law
        for i in 1..l {
            if who_c[i].len() != 1 {
                fail(r, "angle", format!("relative angle {} depends on draws {:?}", i, who_c[i]));
                continue;
            }
            let p = who_c[i][0];
            if seen.contains(&p) {
                fail(r, "angle", format!("relative angle {} shares draw {} with other quantities", i, p));
                continue;
            }
            seen.push(p);
            let m = if th { 1000 } else { 200 };
            let (mut up, mut down) = (0.0f64, 0.0f64);
            for q in 0..m {
                let u = (q as f64 + 0.5) / m as f64;
                let mut t = base.clone();
                t[p] = u;
                let x = match create(lang, &c, &t) {
                    Ok(x) => x,
                    Err(m) => return fail(r, "create", m),
                };
                r.transitions += 1;
                let f = cdf(beta, cosn(&x, i));
                let nan = |x: f64| if x.is_nan() { f64::INFINITY } else { x };
                up = up.max(nan((f - u).abs()));
                down = down.max(nan((f - (1.0 - u)).abs()));
            }
            if !(up.min(down) <= 1e-7 + 1e-11 * beta.abs()) {
                fail(r, "angle", format!("relative angle {} is off its law by {} in probability", i, up.min(down)));
            }
        }
        // azimuth of spin i about spin i-1: uniform given the remaining draws
        let azimuth = |r: &mut Report, base: &[f64], a: &V3, i: usize, ps: &[usize], m: usize| -> [f64; 4] {
            let n2 = if ps.len() == 1 { 1 } else { m };
            let mut mom = [[0.0f64; 2]; 4];
            let mut cnt = 0.0;
            let e1 = unit(&cross(a, &unit(&[0.3, -0.5, 0.8])));
            let e2 = cross(a, &e1);
            for q in 0..m * n2 {
                let mut t = base.to_vec();
                t[ps[0]] = ((q % m) as f64 + 0.5) / m as f64;
                if ps.len() == 2 {
                    t[ps[1]] = ((q / m) as f64 + 0.5) / m as f64;
                }
                let x = create(lang, &c, &t).unwrap();
                r.transitions += 1;
                let az = dot(&x.s[i], &e2).atan2(dot(&x.s[i], &e1));
                for (k, mm) in mom.iter_mut().enumerate() {
                    mm[0] += ((k + 1) as f64 * az).cos();
                    mm[1] += ((k + 1) as f64 * az).sin();
                }
                cnt += 1.0;
            }
            std::array::from_fn(|k| mom[k][0].hypot(mom[k][1]) / cnt)
        };
        let mut azi: Vec<Vec<usize>> = vec![vec![]; l];
        for i in 1..l {
            let ps: Vec<usize> = who_s[i].iter().cloned().filter(|p| !who_c[i].contains(p) && !who_s[i - 1].contains(p)).collect();
            if ps.is_empty() || ps.len() > 2 {
                fail(r, "azimuth", format!("azimuth {} depends on draws {:?}", i, ps));
                return;
            }
            azi[i] = ps;
        }
        for i in 1..l.min(4) {
            let m = if azi[i].len() == 1 { 720 } else { 48 };
            // a mid-range relative angle, so that the azimuth is defined
            for (k, z) in azimuth(r, &base, &b0.s[i - 1], i, &azi[i], m).iter().enumerate() {
                if !(*z < 0.02) {
                    fail(r, "azimuth", format!("azimuth of spin {} about its neighbour has Fourier moment {} = {}", i, k + 1, z));
                }
            }
            if lang {
                break; // the constructor opens a file each time: one site is enough there
            }
        }
        // The law of the next spin must hold wherever the previous one points. Steer a spin onto each coordinate axis by
        // a shrinking grid over its own draws, then repeat both checks for its successor.
        if ss != l && l == 4 {
            for i in 0..l - 1 {
                let ps: Vec<usize> = if i == 0 { who_s[0].clone() } else { azi[i].iter().chain(&who_c[i]).cloned().collect() };
                if ps.is_empty() || ps.len() > 3 || i > 0 && beta.abs() > 3.0 || i > 0 && (lang || !th && i > 1) {
                    continue;
                }
                for axis in 0..6 {
                    let mut want = [0.0; 3];
                    want[axis / 2] = 1.0 - 2.0 * (axis % 2) as f64;
                    let at = |t: &[f64], r: &mut Report| -> f64 {
                        r.transitions += 1;
                        match create(lang, &c, t) {
                            Ok(x) if x.s[i].iter().all(|v| v.is_finite()) => norm(&sub(&x.s[i], &want)),
                            _ => f64::INFINITY,
                        }
                    };
                    let mut best = base.clone();
                    let mut d = at(&best, r);
                    let g = [13usize, 13, 9][ps.len() - 1];
                    let mut half = 0.5;
                    let centre: Vec<f64> = ps.iter().map(|_| 0.5).collect();
                    let mut mid = centre;
                    for _ in 0..if lang { 10 } else { 18 } {
                        let from = mid.clone();
                        for code in 0..g.pow(ps.len() as u32) {
                            let mut t = best.clone();
                            let mut q = code;
                            for (k, &p) in ps.iter().enumerate() {
                                t[p] = (from[k] + half * (((q % g) as f64 + 0.5) / g as f64 * 2.0 - 1.0)).max(1e-15).min(1.0 - 1e-15);
                                q /= g;
                            }
                            let e = at(&t, r);
                            if e < d {
                                d = e;
                                mid = ps.iter().map(|&p| t[p]).collect();
                                best = t;
                            }
                        }
                        half *= 0.35;
                        if d < 1e-9 {
                            break;
                        }
                    }
                    if !(d < 1e-2) {
                        continue; // out of reach at this temperature
                    }
                    let x0 = create(lang, &c, &best).unwrap();
                    r.states += 1;
                    r.traces += 1;
                    // the steered spin itself obeys the law there
                    if i > 0 {
                        let (f, u) = (cdf(beta, cosn(&x0, i)), best[who_c[i][0]]);
                        if !((f - u).abs().min((f - 1.0 + u).abs()) <= 1e-6 + 1e-8 * beta.abs().sqrt()) {
                            fail(r, "angle", format!("relative angle {} is off its law (probability {} for the draw {}) when spin {} points along {:?} (within {})", i, f, u, i, want, d));
                        }
                    }
                    let mut worst = (0.0f64, 0.0f64);
                    let p = who_c[i + 1][0];
                    for q in 0..40 {
                        let u = (q as f64 + 0.5) / 40.0;
                        let mut t = best.clone();
                        t[p] = u;
                        let f = match create(lang, &c, &t) {
                            Ok(x) => cdf(beta, cosn(&x, i + 1)),
                            Err(m) => return fail(r, "create", m),
                        };
                        r.transitions += 1;
                        let nan = |x: f64| if x.is_nan() { f64::INFINITY } else { x };
                        worst = (worst.0.max(nan((f - u).abs())), worst.1.max(nan((f - (1.0 - u)).abs())));
                    }
                    if !(worst.0.min(worst.1) <= 1e-6 + 1e-8 * beta.abs().sqrt() + 1e-11 * beta.abs()) {
                        fail(r, "angle", format!("relative angle {} is off its law by {} in probability when spin {} points along {:?} (within {})", i + 1, worst.0.min(worst.1), i, want, d));
                    }
                    if !lang {
                        for (k, z) in azimuth(r, &best, &x0.s[i], i + 1, &azi[i + 1], if azi[i + 1].len() == 1 { 180 } else { 32 }).iter().enumerate() {
                            if !(*z < 0.04) {
                                fail(r, "azimuth", format!("azimuth of spin {} has Fourier moment {} = {} when spin {} points along {:?}", i + 1, k + 1, z, i, want));
                            }
                        }
                    }
                }
            }
        }
        // the clock starts at minus the relaxation time, whatever the other times are
        for trel in [0.0, 12.5, 1.0 / 3.0, 1e-3, 0.02, 1234.5, 1e7 + 0.3, -2.0] {
            for (dt, t, tau) in [(0.02, 3.0, 10.0), (0.3, 0.0, 1.0), (7.0, 100.0, 0.3)] {
                let mut cc = c.clone();
                cc.trel = trel;
                cc.dt = dt;
                cc.t = t;
                cc.tau = tau;
                r.transitions += 1;
                match create(lang, &cc, &base) {
                    Ok(x) if x.t == -trel && x.vars == cstr(&cc) => {}
                    Ok(x) => fail(r, "clock", format!("clock starts at {} with trel {} (dt {}, t {}, tau {}), configuration {}", x.t, trel, dt, t, tau, x.vars)),
                    Err(m) => fail(r, "create", m),
                }
            }
        }
    });
    // long chains: the same layout all the way
    let mut long = vec![];
    for lang in [false, true] {
        for (l, ss) in [(33usize, 17usize), (70, 65), (140, 3), (300, 290), (300, 2), (1100, 40), (1100, 1050)] {
            long.push((lang, l, ss));
        }
    }
    parallel(r, &long, |r, &(lang, l, ss)| {
        let name = if lang { "langevin" } else { "chain" };
        let mut c = conf(l, ss);
        c.file = scratch();
        c.beta = 1.3;
        c.jvar = 0.07;
        c.hvar = 0.3;
        c.lambda = 0.4;
        c.hfield = vec![0.1, -0.2, 0.35];
        c.hs = vec![-0.6, 0.25, 0.15];
        let ctx = json!({"engine": name, "L": l, "ssize": ss});
        let fail = |r: &mut Report, k: &str, m: String| r.violation(&format!("{}-{}", name, k), format!("{} L={} ss={}: {}", name, l, ss, m), ctx.clone());
        let n = match create(lang, &c, &[]) {
            Ok(i) => i.used,
            Err(m) => return fail(r, "create", m),
        };
        let mut g = Lcg(91);
        let base: Vec<f64> = (0..n).map(|_| 0.2 + 0.6 * g.f()).collect();
        r.states += 1;
        r.transitions += 2;
        let mut cc = c.clone();
        cc.jvar = 0.0;
        cc.hvar = 0.0;
        let (noisy, clean) = match (create(lang, &c, &base), create(lang, &cc, &base)) {
            (Ok(a), Ok(b)) => (a, b),
            (a, b) => return fail(r, "create", format!("{:?} {:?}", a.err(), b.err())),
        };
        for x in [&noisy, &clean] {
            if x.s.len() != l || x.j.len() != l || x.h.len() != l {
                return fail(r, "layout", format!("{} spins, {} couplings, {} fields", x.s.len(), x.j.len(), x.h.len()));
            }
            if x.s.iter().any(|v| !(( norm(v) - 1.0).abs() < 1e-9)) {
                fail(r, "spin", "a spin is not of unit length".to_string());
            }
        }
        let (mut dj, mut dh, mut cs) = (vec![], vec![], vec![]);
        for i in 0..l {
            for k in 0..3 {
                let wh = c.hfield[k] + if i < ss { c.hs[k] } else { 0.0 };
                if !near(clean.j[i][k], [1.0, 1.0, 0.4][k], 1e-12) {
                    return fail(r, "coupling", format!("coupling of bond {} axis {} is {} without disorder", i, k, clean.j[i][k]));
                }
                if !near(clean.h[i][k], wh, 1e-12) {
                    return fail(r, "field", format!("static field on site {} axis {} is {} instead of {} without disorder", i, k, clean.h[i][k], wh));
                }
                dj.push(noisy.j[i][k] - clean.j[i][k]);
                dh.push(noisy.h[i][k] - clean.h[i][k]);
            }
            if i > 0 {
                cs.push(dot(&noisy.s[i - 1], &noisy.s[i]));
            }
        }
        // every deviation has a draw of its own, and so has every relative angle
        for (what, v, width) in [("coupling-disorder", &dj, c.jvar), ("field-disorder", &dh, c.hvar), ("angle", &cs, 1.0)] {
            let mut w = v.clone();
            w.sort_by(f64::total_cmp);
            if w.windows(2).any(|p| p[1] - p[0] < 1e-14) {
                fail(r, what, "two of them are equal".to_string());
            }
            // deviates of the configured width, of both signs, all along the chain
            for part in v.chunks((v.len() / 2).max(1)).filter(|p| p.len() > 8) {
                let big = part.iter().fold(0.0f64, |a, x| a.max(x.abs()));
                if what != "angle" && !(big > 0.3 * width && big < 6.0 * width && part.iter().any(|x| *x > 0.0) && part.iter().any(|x| *x < 0.0)) {
                    fail(r, what, format!("deviations up to {} for a width of {}", big, width));
                }
            }
        }
        // the law of the angles, far along the chain
        let mut us: Vec<f64> = cs.iter().map(|x| cdf(1.3, *x)).collect();
        us.sort_by(f64::total_cmp);
        if us.first().map(|x| *x < 0.2 - 1e-6).unwrap_or(false) || us.last().map(|x| *x > 0.8 + 1e-6).unwrap_or(false) {
            fail(r, "angle", format!("angles from draws between 0.2 and 0.8 lie at {:?}..{:?} of their law", us.first(), us.last()));
        }
    });
    r.sample(json!({"engine": "chain", "beta": 2.88, "L": 4, "ssize": 2, "varied": "each draw of the constructor in turn"}));
    r.extra.insert("bounds".into(), json!({"betas": betas, "chains": items.len(), "long_chains": long.len()}));
    r.assumptions.push("the constructor's draws are enumerated one at a time around a generic base point; rand_distr's normal transform is trusted".into());
}

pub fn c10(r: &mut Report) {
    let mut es: Vec<f64> = vec![];
    let n = if r.thorough() { 400000 } else { 20000 };
    for k in 1..2 * n {
        es.push(-1.0 + k as f64 / n as f64);
    }
    for p in 1..14 {
        let d = 10f64.powi(-p);
        es.extend([-1.0 + d, 1.0 - d, d, -d, 3.3 * d, -3.3 * d]);
    }
    es.extend([0.0, -0.66, 0.66]);
    es.retain(|e| e.abs() < 1.0);
    es.sort_by(|a, b| a.partial_cmp(b).unwrap());
    es.dedup();
    for lang in [false, true] {
        let name = if lang { "langevin" } else { "chain" };
        let mut prev = f64::INFINITY;
        for &e in &es {
            r.transitions += 1;
            r.states += 1;
            r.traces += 1;
            // each call under a watchdog: it must terminate
            let b = match timed(move || if lang { SpinChainLangevin::solve_beta(e) } else { SpinChain::solve_beta(e) }) {
                Some(Ok(b)) => b,
                Some(Err(m)) => {
                    r.violation(&format!("{}-panic", name), format!("solve_beta({}) panicked: {}", e, m), json!({ "e": e }));
                    continue;
                }
                None => {
                    r.violation(&format!("{}-hang", name), format!("solve_beta({}) did not terminate", e), json!({ "e": e }));
                    return;
                }
            };
            // residual of 1/beta - coth(beta) = e
            let x = b.abs();
            let lg = if x < 1e-2 { b / 3.0 - b * b * b / 45.0 + 2.0 * b.powi(5) / 945.0 } else { (1.0 / x.tanh() - 1.0 / x) * b.signum() };
            if !((lg + e).abs() <= 1e-9) {
                r.violation(&format!("{}-accuracy", name), format!("solve_beta({}) = {} whose energy density is {}", e, b, -lg), json!({ "e": e }));
            }
            if !(b <= prev + 1e-9 * prev.abs().max(1.0)) {
                r.violation(&format!("{}-monotone", name), format!("solve_beta({}) = {} rises above {} for the next lower energy", e, b, prev), json!({ "e": e }));
            }
            prev = b;
        }
    }
    r.sample(json!({"e": -0.66}));
    r.extra.insert("bounds".into(), json!({"grid": es.len(), "range": "(-1, 1) incl. 1e-13 from the ends and zero"}));
}

/// Run on a helper thread; None if it takes more than 20 s.
pub fn timed<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Option<Result<T, String>> {
    thread_local!(static W: std::cell::RefCell<Option<Worker>> = std::cell::RefCell::new(None));
    type Job = Box<dyn FnOnce() + Send>;
    struct Worker(std::sync::mpsc::Sender<Job>);
    let (tx, rx) = std::sync::mpsc::channel();
    W.with(|w| {
        let mut w = w.borrow_mut();
        if w.is_none() {
            let (a, b) = std::sync::mpsc::channel::<Job>();
            std::thread::spawn(move || {
                for j in b {
                    j()
                }
            });
            *w = Some(Worker(a));
        }
        w.as_ref().unwrap().0.send(Box::new(move || {
            let _ = tx.send(guard(f));
        }))
        .unwrap();
    });
    rx.recv_timeout(std::time::Duration::from_secs(20)).ok()
}
