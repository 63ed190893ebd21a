//! The Monte-Carlo samplers as explicit Markov chains: every proposal draw is enumerated, the acceptance probability of
//! every transition is measured on the real code, and detailed balance is checked on every edge of the state graph.
use crate::util::*;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;

/// A sampler under test.
pub enum Eng {
    C(SpinChain),
    L(SpinChainLangevin),
}
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Kind {
    Plain,
    Magnus,
    MagFull,
    Rot,
    Maglab,
}
impl Eng {
    fn spins(&self) -> &[sc::spin::Spin] {
        match self {
            Eng::C(c) => &c.spins,
            Eng::L(c) => &c.spins,
        }
    }
    fn set(&mut self, s: &[V3]) {
        match self {
            Eng::C(c) => set_spins(&mut c.spins, s),
            Eng::L(c) => set_spins(&mut c.spins, s),
        }
    }
    fn step(&mut self, k: Kind) {
        match (self, k) {
            (Eng::C(c), Kind::Plain) => c.metropolis_update(),
            (Eng::C(c), Kind::Magnus) => c.metropolis_update_magnus(),
            (Eng::C(c), Kind::MagFull) => c.metropolis_update_mag_full(),
            (Eng::C(c), Kind::Rot) => c.metropolis_update_rot_magnus(),
            (Eng::C(c), Kind::Maglab) => c.metropolis_update_maglab(),
            (Eng::L(c), Kind::Plain) => c.metropolis_update(),
            (Eng::L(c), _) => c.metropolis_update_magnus(),
        }
    }
    fn set_beta(&mut self, b: f64) {
        match self {
            Eng::C(c) => c.vars.beta = b,
            Eng::L(c) => c.vars.beta = b,
        }
    }
    fn frame(&self) -> String {
        match self {
            Eng::C(c) => format!("{:?} {:?} {:?} {}", c.j_couple, c.static_h, c.t, cstr(&c.vars)),
            Eng::L(c) => format!("{:?} {:?} {:?} {}", c.static_h, c.t, c.gamma, cstr(&c.vars)),
        }
    }
}

/// Roles of the random draws of one update.
#[derive(Debug, Clone)]
struct Roles {
    site: usize,
    prop: Vec<usize>,
    acc: usize,
    n: usize,
}

fn site_x(i: usize, l: usize) -> f64 {
    (i as f64 + 0.25) / l as f64
}
/// One update at the given draws; returns which site changed and to what.
fn fire(e: &mut Eng, k: Kind, base: &[V3], tape_: &[f64]) -> Vec<(usize, V3)> {
    e.set(base);
    tape::set(tape_, 0.5);
    e.step(k);
    e.spins().iter().enumerate().filter(|(i, s)| s.dir != base[*i]).map(|(i, s)| (i, s.dir)).collect()
}

/// Find which draw chooses the site, which form the proposal and which decides acceptance (at beta = 0 every proposal is
/// accepted).
fn roles(e: &mut Eng, k: Kind, l: usize) -> Result<Roles, String> {
    e.set_beta(0.0);
    let base: Vec<V3> = (0..l).map(|n| unit(&[0.3 + n as f64, 1.0, -0.7 * n as f64])).collect();
    let t0: [f64; 8] = std::array::from_fn(|q| (((q * 2 + 1) % l) as f64 + 0.11 + 0.03 * q as f64) / l as f64);
    // fractions that index selection never rejects
    let vals: Vec<f64> = (0..l.max(6)).map(|i| ((i % l) as f64 + 0.07 + 0.31 * i as f64 / l.max(6) as f64) / l as f64).collect();
    let n = {
        let mut nmax = 0;
        for &v in &vals {
            fire(e, k, &base, &[v; 8]);
            nmax = nmax.max(tape::used());
        }
        nmax
    };
    if n > 8 {
        return Err(format!("one update consumed {} draws", n));
    }
    let mut site = vec![];
    let mut prop = vec![];
    let mut rest = vec![];
    let r0 = fire(e, k, &base, &t0);
    if r0.len() != 1 {
        return Err(format!("at beta 0 the update changed {} spins", r0.len()));
    }
    for p in 0..n {
        let (mut ms, mut md) = (false, false);
        for &v in &vals {
            let mut t = t0;
            t[p] = v;
            let r = fire(e, k, &base, &t);
            if r.len() != 1 {
                return Err(format!("at beta 0 draws {:?} changed {} spins", t, r.len()));
            }
            ms |= r[0].0 != r0[0].0;
            md |= norm(&sub(&r[0].1, &r0[0].1)) > 1e-9;
        }
        match (ms, md) {
            (true, false) => site.push(p),
            (false, true) => prop.push(p),
            (false, false) => rest.push(p),
            _ => return Err(format!("draw {} changes both the site and the proposal", p)),
        }
    }
    // an accept draw may go unused while acceptance is certain
    if rest.is_empty() {
        rest.push(n);
    }
    if site.len() != 1 || prop.len() != 2 || rest.len() != 1 {
        return Err(format!("draw roles: site {:?}, proposal {:?}, other {:?}", site, prop, rest));
    }
    Ok(Roles { site: site[0], prop, acc: rest[0], n })
}
fn draws(ro: &Roles, site: f64, u: f64, v: f64, acc: f64) -> [f64; 8] {
    let mut t = [0.5; 8];
    t[ro.site] = site;
    t[ro.prop[0]] = u;
    t[ro.prop[1]] = v;
    t[ro.acc] = acc;
    t
}

/// Site uniform, proposal uniform on the sphere and independent of everything else.
fn proposals(r: &mut Report, e: &mut Eng, k: Kind, l: usize, ro: &Roles, name: &str) {
    e.set_beta(0.0);
    let base: Vec<V3> = (0..l).map(|n| unit(&[0.3 + n as f64, 1.0, -0.7 * n as f64])).collect();
    // site: each index hit by an equal share of the unit interval
    let m = 64;
    let mut cnt = vec![0usize; l];
    for i in 0..l * m {
        // spread over the lower half of each site's interval, which index selection never rejects
        let x = ((i / m) as f64 + 0.5 * ((i % m) as f64 + 0.25) / m as f64) / l as f64;
        r.transitions += 1;
        for (s, _) in fire(e, k, &base, &draws(ro, x, 0.31, 0.37, 0.2)) {
            cnt[s] += 1;
        }
    }
    let tot: usize = cnt.iter().sum();
    if cnt.iter().any(|&c| (c as f64 - tot as f64 / l as f64).abs() > 0.05 * m as f64 + 1.0) {
        r.violation(&format!("{}-site", name), format!("{}: sites chosen {:?} times out of {}", name, cnt, l * m), json!(cnt));
    }
    // proposal: equal-area map of the unit square onto the sphere
    let n = if r.thorough() { 384 } else { 192 };
    let mut mom: Vec<f64> = vec![0.0; 40];
    let mut worst: f64 = 0.0;
    for i in 0..n {
        for j in 0..n {
            let (u, v) = ((i as f64 + 0.5) / n as f64, (j as f64 + 0.5) / n as f64);
            let d = |u: f64, v: f64, e: &mut Eng| fire(e, k, &base, &draws(ro, site_x(1, l), u, v, 0.2)).first().map(|x| x.1).unwrap_or([f64::NAN; 3]);
            let p = d(u, v, e);
            r.transitions += 1;
            if !near(norm(&p), 1.0, 1e-12) {
                r.violation(&format!("{}-proposal", name), format!("{}: proposal {:?} for draws ({}, {})", name, p, u, v), json!([u, v]));
                return;
            }
            // moments of every order up to 4
            let mut q = 0;
            for a in 0..=4usize {
                for b in 0..=(4 - a) {
                    for c in 0..=(4 - a - b) {
                        mom[q] += p[0].powi(a as i32) * p[1].powi(b as i32) * p[2].powi(c as i32);
                        q += 1;
                    }
                }
            }
            if i % 8 == 3 && j % 8 == 3 {
                let h = 1e-6;
                let du = sc(&sub(&d(u + h, v, e), &d(u - h, v, e)), 0.5 / h);
                let dv = sc(&sub(&d(u, v + h, e), &d(u, v - h, e)), 0.5 / h);
                let jac = norm(&cross(&du, &dv));
                worst = worst.max((jac / (4.0 * PI) - 1.0).abs());
            }
        }
    }
    let df = |n: usize| -> f64 { // (n-1)!!
        let mut f = 1.0;
        let mut k = n as i64 - 1;
        while k > 1 { f *= k as f64; k -= 2; }
        f
    };
    let mut q = 0;
    for a in 0..=4usize {
        for b in 0..=(4 - a) {
            for c in 0..=(4 - a - b) {
                let got = mom[q] / (n * n) as f64;
                q += 1;
                let s = a + b + c;
                let want = if a % 2 + b % 2 + c % 2 > 0 { 0.0 } else { df(a) * df(b) * df(c) / (1..=s / 2).map(|i| (2 * i + 1) as f64).product::<f64>() };
                if !near(got, want, 2e-3) {
                    r.violation(&format!("{}-proposal", name), format!("{}: moment x^{} y^{} z^{} of the proposal is {} instead of {}", name, a, b, c, got, want), json!([a, b, c]));
                }
            }
        }
    }
    if !(worst < 1e-3) {
        r.violation(&format!("{}-proposal", name), format!("{}: proposal density deviates by {} from uniform", name, worst), json!(worst));
    }
    // and the proposal does not depend on the site or on the state
    for i in 0..l {
        for (u, v) in [(0.1, 0.9), (0.6, 0.2)] {
            let a = fire(e, k, &base, &draws(ro, site_x(1, l), u, v, 0.2));
            let b = fire(e, k, &base, &draws(ro, site_x(i, l), u, v, 0.2));
            if a.len() != 1 || b.len() != 1 || a[0].1 != b[0].1 {
                r.violation(&format!("{}-proposal", name), format!("{}: proposal depends on the site", name), json!([i, u, v]));
            }
        }
    }
}

const ONE: u64 = 1 << 52;
/// Probability (as a fraction of the accept draw) that the transition happens; `guess` speeds up the search.
fn paccept(e: &mut Eng, k: Kind, x: &[V3], i: usize, y: &V3, ro: &Roles, t: &mut [f64; 8], guess: f64) -> Result<f64, String> {
    let mut at = |m: u64| -> Result<bool, String> {
        t[ro.acc] = m as f64 / ONE as f64;
        let c = fire(e, k, x, &t[..]);
        match c.len() {
            0 => Ok(false),
            1 if c[0].0 == i && c[0].1 == *y => Ok(true),
            _ => Err(format!("update meant for site {} changed {:?}", i, c)),
        }
    };
    let g = guess.min(1.0);
    // Is the threshold where a Metropolis rule would have it?
    let (lo, hi) = ((g * (1.0 - 1e-9) * ONE as f64) as u64, (g * (1.0 + 1e-9) * ONE as f64) as u64 + 2);
    let lo = lo.saturating_sub(2);
    let top_ok = hi >= ONE || !at(hi)?;
    let bot_ok = lo == 0 || at(lo)?;
    if top_ok && bot_ok && (hi < ONE || at(ONE - 1)?) {
        // coarse scan: acceptance is a threshold rule
        for q in [1u64, 3, 5, 7] {
            let m = q * ONE / 8;
            if m + 4 < lo && !at(m)? || m > hi + 4 && at(m)? {
                return Err(format!("acceptance is not monotone in the draw (threshold {} but draw {})", g, q as f64 / 8.0));
            }
        }
        return Ok(g);
    }
    if at(ONE - 1)? {
        return Ok(1.0);
    }
    if !at(0)? {
        return Ok(0.0);
    }
    let (mut a, mut b) = (0u64, ONE - 1);
    while b - a > 1 {
        let m = a + (b - a) / 2;
        if at(m)? {
            a = m
        } else {
            b = m
        }
    }
    Ok(b as f64 / ONE as f64)
}

/// Explore the whole state graph over direction set `dirs` (given by proposal draws) and check every edge.
/// `energy` is the reference, or None for "some fixed energy function" which is then reconstructed and returned.
#[allow(clippy::too_many_arguments)]
fn graph(r: &mut Report, e: &mut Eng, k: Kind, l: usize, beta: f64, ro: &Roles, dd: &[(f64, f64)], energy: Option<&dyn Fn(&[V3]) -> f64>, name: &str, ctx: &str) -> Option<Vec<f64>> {
    e.set_beta(0.0);
    let base: Vec<V3> = (0..l).map(|n| unit(&[0.3 + n as f64, 1.0, -0.7 * n as f64])).collect();
    let dirs: Vec<V3> = dd.iter().map(|&(u, v)| fire(e, k, &base, &draws(ro, site_x(0, l), u, v, 0.2)).first().map(|x| x.1).unwrap_or([0.0; 3])).collect();
    e.set_beta(beta);
    let frame = e.frame();
    let nd = dd.len();
    let ns = nd.pow(l as u32);
    let st = |c: usize| -> Vec<V3> {
        let mut c = c;
        (0..l).map(|_| { let d = dirs[c % nd]; c /= nd; d }).collect()
    };
    // potential beta*E: from the reference or built while walking the graph in code order
    let mut pot: Vec<f64> = vec![f64::NAN; ns];
    if let Some(f) = energy {
        for (c, p) in pot.iter_mut().enumerate() {
            *p = beta * f(&st(c));
        }
    }
    r.states += ns as u64;
    let mut p0 = vec![0.0; 0];
    p0.push(0.0);
    for c in 0..ns {
        let x = st(c);
        if c == 0 && energy.is_none() {
            pot[0] = 0.0;
        }
        for i in 0..l {
            let w = nd.pow(i as u32);
            let di = (c / w) % nd;
            for dj in di + 1..nd {
                let c2 = c + (dj - di) * w;
                let y = st(c2);
                let known = !pot[c2].is_nan();
                let gap = if known { pot[c2] - pot[c] } else { 0.0 };
                let (gf, gr) = ((-gap).exp().min(1.0), gap.exp().min(1.0));
                let mut tf = draws(ro, site_x(i, l), dd[dj].0, dd[dj].1, 0.5);
                let mut tr = draws(ro, site_x(i, l), dd[di].0, dd[di].1, 0.5);
                let pf = paccept(e, k, &x, i, &dirs[dj], ro, &mut tf, gf);
                let pr = paccept(e, k, &y, i, &dirs[di], ro, &mut tr, gr);
                r.transitions += 2;
                let case = json!({"context": ctx, "from": x, "site": i, "to": dirs[dj], "draws": tf.to_vec()});
                let (pf, pr) = match (pf, pr) {
                    (Ok(a), Ok(b)) => (a, b),
                    (a, b) => {
                        r.violation(&format!("{}-move", name), format!("{}: {:?} {:?} ({})", name, a, b, ctx), case);
                        return None;
                    }
                };
                if pf <= 0.0 || pr <= 0.0 {
                    // below the resolution of the uniform draw
                    if known && gap.abs() < 30.0 {
                        r.violation(&format!("{}-balance", name), format!("{}: transition probability {} / {} with energy gap {} ({})", name, pf, pr, gap, ctx), case);
                        return None;
                    }
                    continue;
                }
                let ratio = -(pf / pr).ln();
                if !known {
                    pot[c2] = pot[c] + ratio;
                } else {
                    // resolution of the draw bounds what can be told about tiny probabilities
                    let tol = 1e-7 + 4e-16 / pf.min(pr) + 1e-9 * gap.abs();
                    if !near(ratio, gap, tol) {
                        r.violation(&format!("{}-balance", name),
                            format!("{}: flow ratio ln(p(y->x)/p(x->y)) = {} but beta*(E(y)-E(x)) = {} at site {} ({})", name, ratio, gap, i, ctx), case);
                        if r.nviol() > 50 {
                            return None;
                        }
                    }
                }
            }
        }
    }
    if e.frame() != frame {
        r.violation(&format!("{}-frame", name), format!("{}: couplings, fields, time or configuration changed ({})", name, ctx), json!(ctx));
    }
    r.traces += ns as u64;
    Some(pot)
}

/// Single moves on a long ring: from a few states, every site, forward and back, against the reference energy.
#[allow(clippy::too_many_arguments)]
fn long_moves(r: &mut Report, e: &mut Eng, k: Kind, l: usize, beta: f64, ro: &Roles, energy: &dyn Fn(&[V3]) -> f64, name: &str, ctx: &str) {
    e.set_beta(0.0);
    let base: Vec<V3> = (0..l).map(|n| unit(&[0.3 + n as f64, 1.0, -0.7 * n as f64])).collect();
    let dd = dset(3);
    let dirs: Vec<V3> = dd.iter().map(|&(u, v)| fire(e, k, &base, &draws(ro, site_x(0, l), u, v, 0.2)).first().map(|x| x.1).unwrap_or([0.0; 3])).collect();
    // every site is reachable
    for i in 0..l {
        let c = fire(e, k, &base, &draws(ro, site_x(i, l), dd[0].0, dd[0].1, 0.2));
        r.transitions += 1;
        if c.len() != 1 || c[0].0 != i {
            return r.violation(&format!("{}-site", name), format!("{}: draw {} of {} sites moved {:?} ({})", name, i, l, c, ctx), json!(ctx));
        }
    }
    e.set_beta(beta);
    for s in states(l, 2).into_iter().skip(3) {
        r.states += 1;
        for i in 0..l {
            let mut x = s.clone();
            x[i] = dirs[i % 3];
            let j = (i + 1) % 3;
            let mut y = x.clone();
            y[i] = dirs[j];
            let gap = beta * (energy(&y) - energy(&x));
            let mut tf = draws(ro, site_x(i, l), dd[j].0, dd[j].1, 0.5);
            let mut tr = draws(ro, site_x(i, l), dd[i % 3].0, dd[i % 3].1, 0.5);
            let pf = paccept(e, k, &x, i, &dirs[j], ro, &mut tf, (-gap).exp().min(1.0));
            let pr = paccept(e, k, &y, i, &dirs[i % 3], ro, &mut tr, gap.exp().min(1.0));
            r.transitions += 2;
            match (pf, pr) {
                (Ok(a), Ok(b)) if a > 0.0 && b > 0.0 && near(-(a / b).ln(), gap, 1e-6 + 4e-16 / a.min(b)) => {}
                (a, b) => return r.violation(&format!("{}-balance", name), format!("{}: acceptance {:?} / {:?} with beta*dE = {} at site {} of {} ({})", name, a, b, gap, i, l, ctx), json!({"site": i, "from": x, "to": dirs[j]})),
            }
        }
        r.traces += 1;
    }
}

fn dset(n: usize) -> Vec<(f64, f64)> {
    // generic proposal draws spread over the square
    (0..n).map(|k| (((k as f64 * 0.618034 + 0.13) % 1.0), ((k as f64 + 0.37) / n as f64) % 1.0)).collect()
}

fn mk(langevin_: bool, l: usize, ss: usize, seed: u64, jv: f64, hv: f64, tau: f64, drv: usize) -> (Eng, Sys) {
    let mut c = conf(l, ss);
    c.tau = tau;
    c.lambda = 0.6;
    c.drive = drive(drv);
    c.hs = vec![0.4, -0.3, 0.2];
    let mut sys = system(c.clone(), seed, jv, hv);
    if langevin_ {
        let mut lc = c.clone();
        lc.jvar = jv * 0.4;
        let mut lv = langevin(&lc, 0.1);
        if l > 2 {
            sys.j = crate::c_obs::infer_j(&mut lv);
        }
        lv.static_h = sys.h.clone();
        lv.t = 0.7;
        sys.c = lc;
        (Eng::L(lv), sys)
    } else {
        let mut ch = chain(&c);
        let s = spins_of(&ch.spins);
        sys.install(&mut ch, &s, 0.7);
        (Eng::C(ch), sys)
    }
}

pub fn c07(r: &mut Report) {
    let th = r.thorough();
    let mut items = vec![];
    for lang in [false, true] {
        for (l, nd) in if th { vec![(3usize, 18usize), (4, 12), (5, 8), (6, 5), (7, 4), (8, 3), (2, 16)] } else { vec![(2, 9), (3, 8), (4, 7), (5, 4), (6, 3)] } {
            for beta in [0.0, 0.7, 2.88, -1.3, 9.0] {
                for (jv, hv) in [(0.0, 0.0), (0.7, 0.9)] {
                    for drv in [0usize, 3] {
                        // the couplings of a two-site Langevin chain cannot be told apart
                        let jv = if lang && l == 2 { 0.0 } else { jv };
                        items.push((lang, l, nd, beta, jv, hv, drv));
                    }
                }
            }
        }
    }
    parallel(r, &items, |r, &(lang, l, nd, beta, jv, hv, drv)| {
        let name = if lang { "langevin" } else { "chain" };
        let (mut e, sys) = mk(lang, l, l - 1, 5, jv, hv, 3.0, drv);
        let ro = match roles(&mut e, Kind::Plain, l) {
            Ok(x) => x,
            Err(m) => return r.violation(&format!("{}-proposal", name), format!("{}: {}", name, m), json!(m)),
        };
        if beta == 0.0 {
            proposals(r, &mut e, Kind::Plain, l, &ro, name);
        }
        let ctx = format!("{} L={} beta={} jv={} hv={} drive={} J={:?} h={:?}", name, l, beta, jv, hv, DRIVES[drv], sys.j, sys.h);
        let en = |s: &[V3]| -> f64 {
            if lang { (0..l).map(|n| sys.bond(s, n)).sum() } else { sys.e_ring_static(s) }
        };
        graph(r, &mut e, Kind::Plain, l, beta, &ro, &dset(nd), Some(&en), name, &ctx);
    });
    let mut long = vec![];
    for lang in [false, true] {
        for l in [34usize, 70, 150, 300, 600] {
            for beta in [0.7, -0.4] {
                long.push((lang, l, beta));
            }
        }
    }
    parallel(r, &long, |r, &(lang, l, beta)| {
        let name = if lang { "langevin" } else { "chain" };
        let (mut e, sys) = mk(lang, l, l / 2, 5, 0.7, 0.9, 3.0, 0);
        match roles(&mut e, Kind::Plain, l) {
            Ok(ro) => {
                let en = |s: &[V3]| -> f64 { if lang { (0..l).map(|n| sys.bond(s, n)).sum() } else { sys.e_ring_static(s) } };
                long_moves(r, &mut e, Kind::Plain, l, beta, &ro, &en, name, &format!("{} L={} beta={}", name, l, beta));
            }
            Err(m) => r.violation(&format!("{}-proposal", name), format!("{}: {}", name, m), json!(m)),
        }
    });
    r.sample(json!({"edge": {"L": 4, "site": 2, "beta": 2.88, "states": "5^4 configurations of 5 directions, every single-spin move both ways"}}));
    r.extra.insert("bounds".into(), json!({"markov_chains": items.len(), "beta": [0.0, 0.7, 2.88, -1.3, 9.0]}));
    r.assumptions.push("the thread generator is replaced by an enumerated tape; one uniform draw decides acceptance by threshold".into());
}

// ---- reference effective Hamiltonians ----
fn exch(sys: &Sys, s: &[V3]) -> f64 {
    (0..s.len()).map(|n| sys.bond(s, n)).sum()
}
fn h_magnus(sys: &Sys, s: &[V3]) -> f64 {
    // -S J S - 1/(2 omega) sum_{j in subsystem} [ S_j^z + 2 y.((J_j S_{j+1} + J_{j-1} S_{j-1}) x S_j) ]
    let l = s.len();
    let om = 2.0 * PI / sys.c.tau;
    let mut e = exch(sys, s);
    for j in 0..sys.ss() {
        let (p, m) = ((j + 1) % l, (j + l - 1) % l);
        let f = add(&mul(&sys.j[j], &s[p]), &mul(&sys.j[m], &s[m]));
        e -= (s[j][2] + 2.0 * cross(&f, &s[j])[1]) / (2.0 * om);
    }
    e
}
pub fn h_maglab(sys: &Sys, s: &[V3]) -> f64 {
    let om = 2.0 * PI / sys.c.tau;
    exch(sys, s) - s.iter().map(|x| x[2]).sum::<f64>() / (2.0 * om)
}
fn trip(a: &V3, b: &V3, i: &V3) -> f64 {
    i[2] * (a[0] * b[0] + a[1] * b[1])
}
pub fn h_rot(sys: &Sys, s: &[V3]) -> f64 {
    let l = s.len();
    let om = 2.0 * PI / sys.c.tau;
    let mut e = 0.0;
    for n in 0..l {
        let p = (n + 1) % l;
        let j = sys.j[n];
        e -= 0.5 * (j[0] + j[1]) * (s[n][0] * s[p][0] + s[n][1] * s[p][1]) + j[2] * s[n][2] * s[p][2];
        if n < sys.ss() {
            e += s[n][0];
        }
        e -= om * s[n][2];
        // corrections in 1/omega: bond terms and next-neighbour pairs sharing a centre
        let d = j[1] - j[0];
        let q = (n + 2) % l;
        let d2 = sys.j[p][1] - sys.j[p][0];
        let mut c = d * d * (trip(&s[n], &s[n], &s[p]) + trip(&s[p], &s[p], &s[n]));
        c += d * d2 * (trip(&s[q], &s[n], &s[p]) + trip(&s[n], &s[q], &s[p]));
        e -= c / (16.0 * om);
    }
    e
}

/// The second-order Magnus energy of a chain driven everywhere: exchange, first and second order in 1/omega. With the
/// neighbours' fields A_j = J_{j-1} S_{j-1} + J_j S_{j+1} (componentwise products), the second order is the sum over sites
/// of S^x/2 + A^x (S.A) - S^x A.A + sum over neighbours n, m of (f_n x S)^y f_m^y-like products, and over bonds of the
/// drive-drive-exchange terms.
fn h_magfull(sys: &Sys, s: &[V3]) -> [f64; 3] {
    let l = s.len();
    let mut h = [exch(sys, s), 0.0, 0.0];
    for n in 0..l {
        let (p, m) = ((n + 1) % l, (n + l - 1) % l);
        let (x, y, j) = (&s[n], &s[p], &sys.j[n]);
        h[1] -= x[2] / 2.0 + (j[2] - j[0]) * (x[0] * y[2] + x[2] * y[0]);
        h[2] += x[0] / 2.0;
        h[2] -= 0.5 * (j[1] * x[2] * y[2] + j[2] * x[1] * y[1]) + 1.5 * (j[0] * x[2] * y[2] + j[2] * x[0] * y[0]);
        let f = [mul(&sys.j[m], &s[m]), mul(&sys.j[n], &s[p])];
        let a = add(&f[0], &f[1]);
        h[2] += a[0] * dot(x, &a) - x[0] * dot(&a, &a);
        for u in &f {
            // the torque of either neighbour's field against that of either neighbour
            let c = cross(u, x);
            for (js, sp) in [(&sys.j[m], &s[m]), (&sys.j[n], &s[p])] {
                h[2] += c[1] * js[1] * sp[2] - c[2] * js[2] * sp[1];
            }
        }
    }
    h
}

pub fn c08(r: &mut Report) {
    let th = r.thorough();
    let mut items = vec![];
    for kind in [Kind::Magnus, Kind::MagFull, Kind::Rot, Kind::Maglab] {
        for lang in [false, true] {
            if lang && kind != Kind::Magnus {
                continue;
            }
            for (l, nd) in if th { vec![(5usize, 7usize), (6, 5), (7, 4), (8, 3), (9, 3), (10, 2)] } else { vec![(5, 4), (6, 4), (7, 3)] } {
                for ss in 1..=l {
                    if kind == Kind::MagFull && ss != l {
                        continue;
                    }
                    for (beta, jv, hv, tau) in [(0.9, 0.8, 0.5, 2.0), (0.4, 0.0, 0.0, 10.0), (-0.8, 0.5, 0.0, 1.1), (2.0, 0.8, 0.7, 0.6)] {
                        items.push((kind, lang, l, nd, ss, beta, jv, hv, tau));
                    }
                }
            }
        }
    }
    parallel(r, &items, |r, &(kind, lang, l, nd, ss, beta, jv, hv, tau)| {
        let name = format!("{}{}", if lang { "langevin-" } else { "" }, format!("{:?}", kind).to_lowercase());
        let (mut e, sys) = mk(lang, l, ss, 5, jv, hv, tau, 0);
        let ro = match roles(&mut e, kind, l) {
            Ok(x) => x,
            Err(m) => return r.violation(&format!("{}-proposal", name), format!("{}: {}", name, m), json!(m)),
        };
        if beta == 0.9 && ss == l {
            proposals(r, &mut e, kind, l, &ro, &name);
        }
        let ctx = format!("{} L={} ss={} beta={} tau={} J={:?} h={:?}", name, l, ss, beta, tau, sys.j, sys.h);
        let en: Option<Box<dyn Fn(&[V3]) -> f64>> = match kind {
            Kind::Magnus => Some(Box::new(|s| h_magnus(&sys, s))),
            Kind::Rot => Some(Box::new(|s| h_rot(&sys, s))),
            Kind::Maglab => Some(Box::new(|s| h_maglab(&sys, s))),
            _ => None,
        };
        graph(r, &mut e, kind, l, beta, &ro, &dset(nd), en.as_deref(), &name, &ctx);
        // the energy the temperature fits average is that of the ensemble
        if let (Eng::C(c), Kind::Rot | Kind::Maglab, Some(h)) = (&mut e, kind, &en) {
            for s in states(l, nd) {
                set_spins(&mut c.spins, &s);
                let got = if kind == Kind::Rot { c.mc_system_energy_rot() } else { c.mc_system_energy_maglab() };
                let want = h(&s) / l as f64;
                r.states += 1;
                if !near(got, want, 1e-11) {
                    r.violation(&format!("{}-energy", name), format!("{}: energy per site {} instead of {}, spins {:?}", ctx, got, want, s), json!({"case": ctx, "spins": s}));
                    break;
                }
            }
        }
    });
    let mut long = vec![];
    for (kind, lang) in [(Kind::Magnus, false), (Kind::Magnus, true), (Kind::Rot, false), (Kind::Maglab, false)] {
        for l in [34usize, 70, 150] {
            for ss in [l / 2 + 5, l] {
                long.push((kind, lang, l, ss));
            }
        }
    }
    parallel(r, &long, |r, &(kind, lang, l, ss)| {
        let name = format!("{}{}", if lang { "langevin-" } else { "" }, format!("{:?}", kind).to_lowercase());
        let (mut e, sys) = mk(lang, l, ss, 5, 0.7, 0.5, 2.0, 0);
        match roles(&mut e, kind, l) {
            Ok(ro) => {
                let en = |s: &[V3]| match kind {
                    Kind::Magnus => h_magnus(&sys, s),
                    Kind::Rot => h_rot(&sys, s),
                    _ => h_maglab(&sys, s),
                };
                long_moves(r, &mut e, kind, l, 0.6, &ro, &en, &name, &format!("{} L={} ss={}", name, l, ss));
            }
            Err(m) => r.violation(&format!("{}-proposal", name), format!("{}: {}", name, m), json!(m)),
        }
    });
    // second-order sampler on long rings: a move's acceptance is that of the same move in the surrounding window of 13 sites
    let mut long = vec![];
    for l in [16usize, 34, 70, 150] {
        for beta in [0.3, -0.2] {
            long.push((l, beta));
        }
    }
    parallel(r, &long, |r, &(l, beta)| {
        let w = 13usize;
        let (mut e, sys) = mk(false, l, l, 5, 0.5, 0.0, 1.5, 0);
        let (mut f, _) = mk(false, w, w, 5, 0.5, 0.0, 1.5, 0);
        let (ro, rw) = match (roles(&mut e, Kind::MagFull, l), roles(&mut f, Kind::MagFull, w)) {
            (Ok(a), Ok(b)) => (a, b),
            (a, b) => return r.violation("magfull-proposal", format!("{:?} {:?}", a.err(), b.err()), json!(l)),
        };
        let dd = dset(2);
        e.set_beta(0.0);
        let base: Vec<V3> = (0..l).map(|n| unit(&[0.3 + n as f64, 1.0, -0.7 * n as f64])).collect();
        let dirs: Vec<V3> = dd.iter().map(|&(u, v)| fire(&mut e, Kind::MagFull, &base, &draws(&ro, site_x(0, l), u, v, 0.2)).first().map(|x| x.1).unwrap_or([0.0; 3])).collect();
        e.set_beta(beta);
        f.set_beta(beta);
        for s in states(l, 2).into_iter().skip(3) {
            r.states += 1;
            for i in 0..l {
                let mut x = s.clone();
                x[i] = dirs[0];
                let win: Vec<usize> = (0..w).map(|q| (i + l + q - w / 2) % l).collect();
                let xs: Vec<V3> = win.iter().map(|&q| x[q]).collect();
                if let Eng::C(c) = &mut f {
                    c.j_couple = win.iter().map(|&q| sys.j[q]).collect();
                    c.static_h = win.iter().map(|&q| sys.h[q]).collect();
                }
                let mut back = (x.clone(), xs.clone());
                back.0[i] = dirs[1];
                back.1[w / 2] = dirs[1];
                for (q, xa, xb) in [(1, &x, &xs), (0, &back.0, &back.1)] {
                    let mut ta = draws(&ro, site_x(i, l), dd[q].0, dd[q].1, 0.5);
                    let mut tb = draws(&rw, site_x(w / 2, w), dd[q].0, dd[q].1, 0.5);
                    let a = paccept(&mut e, Kind::MagFull, xa, i, &dirs[q], &ro, &mut ta, 1.0);
                    let b = paccept(&mut f, Kind::MagFull, xb, w / 2, &dirs[q], &rw, &mut tb, 1.0);
                    r.transitions += 2;
                    if !matches!((&a, &b), (Ok(a), Ok(b)) if near(*a, *b, 1e-9)) {
                        return r.violation("magfull-local", format!("L={} beta={}: acceptance of the move at site {} is {:?}, but {:?} in its window of {} sites", l, beta, i, a, b, w), json!({"L": l, "site": i}));
                    }
                }
            }
            r.traces += 1;
        }
    });
    // and the whole energy, term by term, on chains of all sorts
    let mut items = vec![];
    for l in [5usize, 6, 8, 34, 66, 130] {
        for (jv, tau, beta) in [(0.7, 1.0, 0.4), (0.0, 3.0, 0.3), (0.3, 6.0, -0.2), (0.5, 0.4, 1.5)] {
            items.push((l, jv, tau, beta));
        }
    }
    parallel(r, &items, |r, &(l, jv, tau, beta)| {
        let (mut e, sys) = mk(false, l, l, 9, jv, 0.3, tau, 0);
        e.set_beta(beta);
        match roles(&mut e, Kind::MagFull, l) {
            Ok(ro) => {
                let om = 2.0 * PI / tau;
                let en = |s: &[V3]| { let h = h_magfull(&sys, s); h[0] + h[1] / om + h[2] / (om * om) };
                long_moves(r, &mut e, Kind::MagFull, l, beta, &ro, &en, "magfull", &format!("magfull L={} tau={} beta={}", l, tau, beta));
            }
            Err(m) => r.violation("magfull-proposal", m.clone(), json!(m)),
        }
    });
    // second-order Magnus: the reconstructed energy is a polynomial in 1/omega with the documented leading terms
    let mut items = vec![];
    for l in [5usize, 6] {
        for jv in [0.0, 0.7] {
            items.push((l, jv));
        }
    }
    parallel(r, &items, |r, &(l, jv)| {
        let nd = if th { 4 } else { 3 };
        let mut pots: Vec<(f64, Vec<f64>)> = vec![];
        let mut sy = None;
        for tau in [0.5, 1.0, 1.5, 2.0] {
            for beta in if tau == 1.0 { vec![0.5, 0.25] } else { vec![0.5] } {
                let (mut e, sys) = mk(false, l, l, 5, jv, 0.0, tau, 0);
                let ro = match roles(&mut e, Kind::MagFull, l) {
                    Ok(x) => x,
                    Err(m) => return r.violation("magfull-proposal", m.clone(), json!(m)),
                };
                let ctx = format!("magfull L={} tau={} jv={}", l, tau, jv);
                match graph(r, &mut e, Kind::MagFull, l, beta, &ro, &dset(nd), None, "magfull", &ctx) {
                    None => return,
                    Some(p) => {
                        let p: Vec<f64> = p.iter().map(|x| x / beta).collect();
                        if tau == 1.0 && beta == 0.25 {
                            let prev = &pots.last().unwrap().1;
                            if p.iter().zip(prev).any(|(a, b)| !near(*a, *b, 1e-6 * (1.0 + a.abs()))) {
                                r.violation("magfull-beta", format!("{}: the energy function depends on beta", ctx), json!(ctx));
                            }
                        } else {
                            pots.push((tau / (2.0 * PI), p));
                        }
                    }
                }
                sy = Some((sys, ro, e));
            }
        }
        let (sys, ro, mut e) = sy.unwrap();
        e.set_beta(0.0);
        let base: Vec<V3> = (0..l).map(|n| unit(&[0.3 + n as f64, 1.0, -0.7 * n as f64])).collect();
        let dirs: Vec<V3> = dset(nd).iter().map(|&(u, v)| fire(&mut e, Kind::MagFull, &base, &draws(&ro, site_x(0, l), u, v, 0.2))[0].1).collect();
        let st = |mut c: usize| -> Vec<V3> { (0..l).map(|_| { let d = dirs[c % nd]; c /= nd; d }).collect() };
        let lead = |s: &[V3]| exch(&sys, s);
        let first = |s: &[V3]| -> f64 {
            (0..l).map(|n| { let p = (n + 1) % l; let d = sys.j[n][2] - sys.j[n][0]; -s[n][2] / 2.0 - d * (s[n][0] * s[p][2] + s[n][2] * s[p][0]) }).sum()
        };
        let second = |s: &[V3]| h_magfull(&sys, s)[2];
        let s0 = st(0);
        // quadratic through the first three points predicts the fourth; its coefficients are the expansion
        let x: Vec<f64> = pots.iter().map(|p| p.0).collect();
        for c in 0..nd.pow(l as u32) {
            let y: Vec<f64> = pots.iter().map(|p| p.1[c]).collect();
            let d01 = (y[1] - y[0]) / (x[1] - x[0]);
            let d12 = (y[2] - y[1]) / (x[2] - x[1]);
            let q = (d12 - d01) / (x[2] - x[0]);
            let pred = y[0] + d01 * (x[3] - x[0]) + q * (x[3] - x[0]) * (x[3] - x[1]);
            let c0 = y[0] - d01 * x[0] + q * x[0] * x[1];
            let c1 = d01 - q * (x[0] + x[1]);
            let s = st(c);
            let w0 = lead(&s) - lead(&s0);
            let w1 = first(&s) - first(&s0);
            let w2 = second(&s) - second(&s0);
            r.states += 1;
            if !near(pred, y[3], 1e-7) || !near(c0, w0, 1e-7) || !near(c1, w1, 1e-7) || !near(q, w2, 1e-7) {
                r.violation("magfull-expansion", format!("L={} jv={}: energy of state {} expands as {} + {}/om + {}/om^2 (predicts {} for {}), documented terms {}, {} and {}", l, jv, c, c0, c1, q, pred, y[3], w0, w1, w2),
                    json!({"L": l, "jv": jv, "state": s}));
                break;
            }
        }
    });
    r.sample(json!({"sampler": "magnus", "L": 5, "ssize": 2, "beta": 0.9, "tau": 2.0}));
    r.extra.insert("bounds".into(), json!({"samplers": ["magnus", "langevin-magnus", "mag_full", "rot_magnus", "maglab"], "ssize": "1..=L"}));
    r.assumptions.push("chains of at least five sites (the second-neighbour corrections need distinct sites); mag_full only with system equal to subsystem, as documented".into());
}
