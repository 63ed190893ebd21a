//! C27-C30: histograms, preparation of samples and trajectories, the adiabatic target, refused invocations.
use crate::checks::*;
use crate::core::*;
use crate::obs;
use report::serde_json::json;
use std::collections::BTreeMap;
use vhook::{Attempt, Curve, Ev, Snap};
use vstd::rt::End;

fn conf_beta(s: &Scn) -> f64 {
    // the effective inverse temperature of the modes which come after the fits: from the energy density, unless given
    let k = keys(&String::from_utf8_lossy(&s.pre["config.toml"])).unwrap();
    for (i, a) in s.args.iter().enumerate() {
        if a == "-b" {
            return s.args[i + 1].parse().unwrap();
        }
    }
    infinite_chain_beta(num(&k, "ednsty"))
}
/// 1/beta - coth(beta) = e, by bisection.
pub fn infinite_chain_beta(e: f64) -> f64 {
    let f = |b: f64| if b.abs() < 1e-3 { -b / 3.0 + b * b * b / 45.0 } else { 1.0 / b - 1.0 / b.tanh() };
    let (mut lo, mut hi) = (-1e6, 1e6);
    for _ in 0..300 {
        let m = 0.5 * (lo + hi);
        if f(m) > e {
            lo = m;
        } else {
            hi = m;
        }
    }
    0.5 * (lo + hi)
}
fn close(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-6 * (1.0 + a.abs().max(b.abs()))
}
pub fn hist_row(s: &Snap) -> Vec<f64> {
    let (x, y) = obs::quarter(s);
    let m = obs::m(s);
    vec![m[0], m[1], m[2], obs::system(s), x[0], x[1], x[2], y[0], y[1], y[2]]
}

// ---------------------------------------------------------------- C27
/// Clearly acceptable, or clearly not: the tolerances are 0.005 in the energy and 0.003 in the magnetisation.
fn good(a: &Attempt) -> bool {
    a.0.abs() < 0.004 && a.1.iter().all(|x| x.abs() < 0.0025)
}
fn numbered(rows: &[Vec<f64>], n: usize, f: &str) -> Result<Vec<Vec<f64>>, (String, String)> {
    if rows.len() != n {
        return bad("row-count", format!("{} rows in {} instead of {}", rows.len(), f, n));
    }
    for (i, r) in rows.iter().enumerate() {
        if r.len() != 11 {
            return bad("torn-row", format!("row {} of {} has {} fields", i, f, r.len()));
        }
        if r[0] != i as f64 {
            return bad("sample-number", format!("row {} of {} is numbered {}", i, f, r[0]));
        }
    }
    Ok(rows.iter().map(|r| r[1..].to_vec()).collect())
}
/// Rows in order of sampling, each of a later burst than the one before.
fn in_order(rows: &[Vec<f64>], cand: &[Vec<f64>], f: &str) -> Result<Vec<usize>, (String, String)> {
    let mut k = 0;
    let mut out = vec![];
    for (i, r) in rows.iter().enumerate() {
        match (k..cand.len()).find(|&j| near_row(r, &cand[j])) {
            Some(j) => {
                k = j + 1;
                out.push(j);
            }
            None => return bad("wrong-row", format!("row {} of {} ({}) is not that of the next sampled state", i, f, show(r))),
        }
    }
    Ok(out)
}
pub fn histogram_oracle(n: usize) -> impl Fn(&Scn, &Out) -> Verdict {
    move |s, o| {
        ends_well(o)?;
        let beta = conf_beta(s);
        let conf = keys(&String::from_utf8_lossy(&s.pre["config.toml"])).unwrap();
        let mc = numbered(&appended(&s.pre, o, "hist_mc.dat")?, n, "hist_mc.dat")?;
        let dy = numbered(&appended(&s.pre, o, "hist_dyn.dat")?, n, "hist_dyn.dat")?;
        let bursts = o.bursts();
        for (_, k, _, sn) in &bursts {
            if *k != "metropolis_update" {
                return bad("ensemble", format!("sampled by {}", k));
            }
            if sn.drive != "none" {
                return bad("driven", format!("sampled with drive {}", sn.drive));
            }
            if !close(sn.beta, beta) {
                return bad("beta", format!("sampled at beta={} instead of {}", sn.beta, beta));
            }
        }
        let cand: Vec<Vec<f64>> = bursts.iter().map(|b| hist_row(b.3)).collect();
        in_order(&mc, &cand, "hist_mc.dat")?;
        // the attempts at a microcanonical start: looked at until the first acceptable one
        let first_good = s.script.iter().position(good).unwrap_or(s.script.len());
        let looked: Vec<usize> = o.attempts.iter().map(|a| a.0).collect();
        if looked.last().copied() != Some(first_good) {
            let a = looked.last().and_then(|&i| s.script.get(i)).copied().unwrap_or_default();
            return bad("start-state", format!("the dynamics started from attempt {:?} (off by {:?}) instead of {}", looked.last(), a, first_good));
        }
        // one undriven trajectory, from that state
        let runs = o.runs();
        if n > 0 && runs.len() != 1 {
            return bad("trajectories", format!("{} trajectories instead of 1", runs.len()));
        }
        if n > 0 {
            let r = &runs[0];
            if r.start.drive != "none" {
                return bad("driven", format!("the trajectory is driven ({})", r.start.drive));
            }
            if r.kinds.iter().any(|k| *k != "update") {
                return bad("step-kind", "the trajectory leaves out the static field");
            }
            match bursts.last() {
                Some(b) if b.3.spins == r.start.spins && b.3.j == r.start.j && b.3.h == r.start.h => (),
                _ => return bad("start-state", "the trajectory does not start from the accepted state"),
            }
            if !near(r.start.dt, num(&conf, "dt")) {
                return bad("step", "the trajectory has another time step");
            }
            // equal, positive intervals: every i-th of n equal parts
            let total = r.states.len();
            if total == 0 || total % n != 0 {
                return bad("interval", format!("{} steps for {} samples", total, n));
            }
            let per = total / n;
            if per < 2 {
                return bad("interval", "samples of the trajectory are not spaced".to_string());
            }
            for i in 0..n {
                let want = hist_row(&r.snap((i + 1) * per - 1));
                if !near_row(&dy[i], &want) {
                    return bad("wrong-row", format!("row {} of hist_dyn.dat ({}) is not the state after {} steps ({})", i, show(&dy[i]), (i + 1) * per, show(&want)));
                }
            }
        }
        Ok(())
    }
}
pub fn magnus_oracle(n: usize) -> impl Fn(&Scn, &Out) -> Verdict {
    move |s, o| {
        ends_well(o)?;
        let beta = conf_beta(s);
        let rows = numbered(&appended(&s.pre, o, "hist_mc_magnus.dat")?, n, "hist_mc_magnus.dat")?;
        for (_, k, _, sn) in o.bursts() {
            if k != "metropolis_update_magnus" {
                return bad("ensemble", format!("sampled by {}", k));
            }
            if sn.drive != "none" {
                return bad("driven", format!("sampled with drive {}", sn.drive));
            }
            if !close(sn.beta, beta) {
                return bad("beta", format!("sampled at beta={} instead of {}", sn.beta, beta));
            }
        }
        let cand: Vec<Vec<f64>> = o.bursts().iter().map(|b| hist_row(b.3)).collect();
        in_order(&rows, &cand, "hist_mc_magnus.dat")?;
        // the printed averages are those of the rows
        for (k, name) in ["mx", "my", "mz", "ed"].iter().enumerate() {
            let want = rows.iter().map(|r| r[k]).sum::<f64>() / n as f64;
            let got = o.stdout.lines().rev().find_map(|l| l.trim().strip_prefix(&format!("{}:", name)).and_then(|v| v.trim().parse::<f64>().ok()));
            if let Some(g) = got {
                if n > 0 && !near(g, want) {
                    return bad("printed-average", format!("printed {} {} instead of {}", name, g, want));
                }
            }
        }
        Ok(())
    }
}
pub fn c27(c: &mut Ctx) {
    let th = c.r.thorough();
    let nmax = if th { 12 } else { 6 };
    let drives = ["xyplane", "xyelliptic", "uniaxial", "staticfield", "none"];
    let mut scn: Vec<Conf> = vec![];
    for (hsize, ssize) in [(2, 2), (4, 2), (4, 3), (4, 4), (6, 5), (8, 8)] {
        for (k, drive) in drives.iter().enumerate() {
            scn.push(Conf { hsize, ssize, drive: drive.to_string(), ednsty: [-0.4, -0.66, 0.3, -0.1, 0.0][k], log: k % 2 == 0, threads: 1 + k % 3, trel: if k == 3 { 0.5 } else { 0.0 }, ..Conf::default() });
        }
    }
    // attempts at a start: every sequence up to a length over a set of deviations
    let dev: Vec<Attempt> = vec![
        (0.0, [0.0; 3]), (0.02, [0.0; 3]), (-0.02, [0.0; 3]), (0.0, [0.02, 0.0, 0.0]), (0.0, [-0.02, 0.0, 0.0]),
        (0.0, [0.0, 0.02, 0.0]), (0.0, [0.0, -0.02, 0.0]), (0.0, [0.0, 0.0, 0.02]), (0.0, [0.0, 0.0, -0.02]),
        (0.003, [0.001, -0.001, 0.002]), (-0.003, [-0.002, 0.001, -0.001]), (0.5, [0.5, 0.5, 0.5]), (-0.5, [-0.5, -0.5, -0.5]),
        (-0.5, [0.5, -0.5, 0.5]), (0.3, [-0.3, 0.0, 0.3]), (0.0, [0.006, -0.006, 0.0]), (0.008, [0.0; 3]), (-0.008, [0.0; 3]),
        (0.0, [0.0, 0.006, -0.006]), (0.0, [-0.006, 0.0, 0.006]),
    ];
    let mut scripts: Vec<Vec<Attempt>> = vec![vec![]];
    for a in &dev {
        scripts.push(vec![*a]);
        for b in &dev {
            scripts.push(vec![*a, *b]);
            if th {
                for d in &dev {
                    scripts.push(vec![*a, *b, *d]);
                }
            }
        }
    }
    for (i, conf) in scn.iter().enumerate() {
        for n in 0..=nmax {
            for b in [None, Some("0.7")] {
                for seed in 0..if th { 6u64 } else { 2 } {
                    if !c.mine() {
                        continue;
                    }
                    let ns = n.to_string();
                    for flag in ["--histogram", "--magnus-hist"] {
                        let mut a = vec![flag, &ns];
                        if let Some(x) = b {
                            a.extend(["-b", x]);
                        }
                        let mut s = Scn::new(format!("{} {} hsize={} ssize={} drive={} b={:?}", flag, n, conf.hsize, conf.ssize, conf.drive, b), conf, &a).seed(seed * 31 + 1);
                        s.hist = true;
                        if n % 2 == 1 {
                            for f in ["hist_mc.dat", "hist_dyn.dat", "hist_mc_magnus.dat"] {
                                s = s.with(f, b"0 1 2 3 4 5 6 7 8 9 10\n");
                            }
                        }
                        s.script = scripts[(i * 7 + n) % scripts.len()].clone();
                        if flag == "--histogram" {
                            c.single(&s, histogram_oracle(n));
                        } else {
                            s.script = vec![];
                            c.single(&s, magnus_oracle(n));
                        }
                    }
                }
            }
        }
    }
    crate::vary::c27(c);
    // longer chains
    for (hsize, ssize) in [(18, 16), (40, 33), (70, 66), (100, 90), (140, 130), (300, 40), (300, 290)] {
        for n in [1usize, 3] {
            if !c.mine() {
                continue;
            }
            let ns = n.to_string();
            let conf = Conf { hsize, ssize, ednsty: -0.4, jvar: 0.2, hvar: 0.3, ..Conf::default() };
            let mut s = Scn::new(format!("--histogram {} hsize={} ssize={}", n, hsize, ssize), &conf, &["--histogram", &ns]);
            s.hist = true;
            c.single(&s, histogram_oracle(n));
            let mut s = Scn::new(format!("--magnus-hist {} hsize={} ssize={}", n, hsize, ssize), &conf, &["--magnus-hist", &ns]);
            s.hist = true;
            c.single(&s, magnus_oracle(n));
        }
    }
    for sc in &scripts {
        for conf in [&scn[5], &scn[11]] {
            if !c.mine() {
                continue;
            }
            if c.out_of_time() {
                c.r.exhaustive = false;
                return;
            }
            let mut s = Scn::new(format!("start attempts {:?}", sc), conf, &["--histogram", "2"]);
            s.hist = true;
            s.script = sc.clone();
            c.single(&s, histogram_oracle(2));
        }
    }
    c.r.extra.insert("bounds".into(), json!({"samples": nmax, "configurations": scn.len(), "start_attempt_sequences": scripts.len()}));
}

// ---------------------------------------------------------------- C28
struct Prep {
    /// calls of the preparing update since the chain was created, or since its last sample
    calls: u64,
    kinds: Vec<&'static str>,
    snap: Snap,
}
/// Preparation of every trajectory, in order of the trace (bursts of the same chain add up).
fn preparations(o: &Out) -> Vec<(Option<Prep>, Snap)> {
    let mut acc: BTreeMap<usize, Prep> = BTreeMap::new();
    let mut v = vec![];
    for e in &o.trace {
        match e {
            Ev::Mc { th, kind, calls, snap } => {
                let p = acc.remove(th);
                let p = match p {
                    Some(mut p) if p.snap.j == snap.j && p.snap.h == snap.h => {
                        p.calls += calls;
                        p.kinds.push(kind);
                        p.snap = snap.clone();
                        p
                    }
                    _ => Prep { calls: *calls, kinds: vec![kind], snap: snap.clone() },
                };
                acc.insert(*th, p);
            }
            Ev::Run { th, start, .. } => v.push((acc.remove(th), start.clone())),
        }
    }
    v
}
// the full bursts (2e7, 1e6, 1e4 and 1e3 updates), give or take one in a hundred
pub const PER_TRAJECTORY: u64 = 19_800_000;
pub const PER_SAMPLE: u64 = 990_000;
pub const PER_HIST_SAMPLE: u64 = 9_900;
pub const PER_FIT_SAMPLE: u64 = 990;
const SAMPLES_PER_ESTIMATE: usize = 990;

fn distinct(what: &str, v: &[Vec<[f64; 3]>]) -> Verdict {
    for i in 0..v.len() {
        for j in 0..i {
            if v[i] == v[j] {
                return bad("shared", format!("chains {} and {} have the same {}", j, i, what));
            }
        }
    }
    Ok(())
}
pub fn prepared_runs(n: usize, beta: f64, thermal: bool, conf: Conf, full: bool) -> impl Fn(&Scn, &Out) -> Verdict {
    move |_s, o| {
        ends_well(o)?;
        let p = preparations(o);
        if p.len() != n {
            return bad("run-count", format!("{} trajectories instead of {}", p.len(), n));
        }
        for (prep, start) in &p {
            let given = if thermal {
                let prep = match prep {
                    Some(p) => p,
                    None => return bad("not-thermalised", "a trajectory started without thermalisation"),
                };
                if full && prep.calls < PER_TRAJECTORY {
                    return bad("too-short", format!("a trajectory was thermalised by {} updates only", prep.calls));
                }
                if prep.kinds.iter().any(|k| *k != "metropolis_update") {
                    return bad("ensemble", format!("a trajectory was thermalised by {:?}", prep.kinds));
                }
                if prep.snap.spins != start.spins || prep.snap.j != start.j || prep.snap.h != start.h {
                    return bad("other-chain", "a trajectory does not start from the thermalised state");
                }
                &prep.snap
            } else {
                start
            };
            if !close(given.beta, beta) {
                return bad("beta", format!("prepared at beta={} instead of {}", given.beta, beta));
            }
            if start.hsize != conf.hsize as usize || start.spins.len() != start.hsize || start.ssize != conf.ssize as usize {
                return bad("size", format!("ran with {} of {} sites", start.ssize, start.hsize));
            }
        }
        // chains of their own
        distinct("initial spins", &p.iter().map(|x| x.1.spins.clone()).collect::<Vec<_>>())?;
        if conf.jvar > 0.0 {
            distinct("couplings", &p.iter().map(|x| x.1.j.clone()).collect::<Vec<_>>())?;
        }
        if conf.hvar > 0.0 {
            distinct("fields", &p.iter().map(|x| x.1.h.clone()).collect::<Vec<_>>())?;
        }
        Ok(())
    }
}
/// Monte-Carlo rows: enough updates of the right kind between any two samples of a chain.
pub fn prepared_samples(file: &'static str, kind: &'static str, rowof: fn(&Snap) -> Vec<f64>, skip: usize, least: u64) -> impl Fn(&Scn, &Out) -> Verdict {
    move |s, o| {
        ends_well(o)?;
        let beta = conf_beta(s);
        let rows = appended(&s.pre, o, file)?;
        let body: Vec<Vec<f64>> = rows.iter().map(|r| r[skip.min(r.len())..].to_vec()).collect();
        let bursts: Vec<_> = o.bursts().into_iter().collect();
        let cand: Vec<Vec<f64>> = bursts.iter().map(|b| rowof(b.3)).collect();
        let hit = match match_rows(&body, &cand) {
            Ok(h) => h,
            Err(i) => return bad("stale-row", format!("row {} ({}) is not that of a freshly sampled state", i, show(&body[i]))),
        };
        let mut acc: BTreeMap<usize, u64> = BTreeMap::new();
        let mut chain: BTreeMap<usize, &Snap> = BTreeMap::new();
        for (i, (th, k, calls, sn)) in bursts.iter().enumerate() {
            if *k != kind {
                return bad("ensemble", format!("sampled by {} instead of {}", k, kind));
            }
            if !close(sn.beta, beta) {
                return bad("beta", format!("sampled at beta={} instead of {}", sn.beta, beta));
            }
            let same = chain.get(th).map(|p| p.j == sn.j && p.h == sn.h).unwrap_or(false);
            if !same {
                acc.remove(th);
            }
            chain.insert(*th, sn);
            *acc.entry(*th).or_insert(0) += calls;
            if hit.contains(&i) {
                if acc[th] < least {
                    return bad("too-short", format!("a sample was taken after {} updates only", acc[th]));
                }
                acc.insert(*th, 0);
            }
        }
        Ok(())
    }
}
pub fn profile_samples(points: usize) -> impl Fn(&Scn, &Out) -> Verdict {
    move |s, o| {
        ends_well(o)?;
        let beta = conf_beta(s);
        let b = o.bursts();
        if b.len() != points {
            return bad("sample-count", format!("{} samples instead of {}", b.len(), points));
        }
        for (_, k, calls, sn) in &b {
            if *k != "metropolis_update" {
                return bad("ensemble", format!("sampled by {}", k));
            }
            if *calls < PER_SAMPLE {
                return bad("too-short", format!("a sample was taken after {} updates only", calls));
            }
            if !close(sn.beta, beta) {
                return bad("beta", format!("sampled at beta={} instead of {}", sn.beta, beta));
            }
        }
        // one chain per worker, all different
        let mut chains: Vec<Vec<[f64; 3]>> = vec![];
        for x in &b {
            let disorder: Vec<[f64; 3]> = x.3.j.iter().chain(&x.3.h).cloned().collect();
            if !chains.contains(&disorder) {
                chains.push(disorder);
            }
        }
        let conf = keys(&String::from_utf8_lossy(&s.pre["config.toml"])).unwrap();
        // without disorder there is nothing to tell them by
        if num(&conf, "jvar") == 0.0 && num(&conf, "hvar") == 0.0 {
            return Ok(());
        }
        let want = (num(&conf, "threads") as usize).min(points);
        if chains.len() < want {
            return bad("shared", format!("{} chains for {} workers", chains.len(), want));
        }
        Ok(())
    }
}
pub fn fit_samples(kind: &'static str) -> impl Fn(&Scn, &Out) -> Verdict {
    move |_s, o| {
        ends_well(o)?;
        // consecutive samples at one temperature and of one chain make up one estimate
        let mut groups: Vec<(f64, Vec<[f64; 3]>, usize, u64)> = vec![];
        for (_, k, calls, sn) in o.bursts() {
            if k != kind {
                return bad("ensemble", format!("sampled by {} instead of {}", k, kind));
            }
            match groups.last_mut() {
                Some(g) if g.0 == sn.beta && g.1 == sn.j => {
                    g.2 += 1;
                    g.3 = g.3.min(calls);
                }
                _ => groups.push((sn.beta, sn.j.clone(), 1, calls)),
            }
        }
        if groups.is_empty() {
            return bad("no-samples", "nothing was sampled");
        }
        for (beta, _, n, least) in groups {
            if n < SAMPLES_PER_ESTIMATE {
                return bad("too-few", format!("the mean at beta={} is over {} samples only", beta, n));
            }
            if least < PER_FIT_SAMPLE * if kind == "metropolis_update" { 1 } else { 10 } {
                return bad("too-short", format!("samples at beta={} are {} updates apart only", beta, least));
            }
        }
        Ok(())
    }
}
pub fn c28(c: &mut Ctx) {
    let th = c.r.thorough();
    let modes: Vec<(&str, Vec<&str>, bool)> = vec![
        ("sim", vec![], false), ("ext", vec!["-e"], true), ("resp", vec!["--response"], false), ("lang", vec!["-l", "0.3"], false),
        ("profile", vec!["-P"], false), ("sweep", vec!["-n", "0.5,1,2", "--steps", "1"], true), ("hist-dyn", vec!["-d", "3"], false),
    ];
    for (name, args, file_beta) in &modes {
        for (runs, threads) in if th { vec![(1, 1), (2, 2), (3, 1), (3, 2), (4, 4), (6, 3)] } else { vec![(1, 1), (3, 2), (4, 3)] } {
            for (jvar, hvar) in [(0.1, 0.1), (0.0, 0.2), (0.3, 0.0), (0.0, 0.0)] {
                for (ed, b) in [(-0.4, None), (-0.66, None), (0.25, None), (-0.4, Some("0.35")), (-0.2, Some("12"))] {
                    if !c.mine() {
                        continue;
                    }
                    if c.out_of_time() {
                        c.r.exhaustive = false;
                        return;
                    }
                    // the bath of the Langevin engine exists at positive temperature only
                    if *name == "lang" && ed > 0.0 {
                        continue;
                    }
                    let ssize = if *name == "lang" || *name == "hist-dyn" { 4 } else { 2 };
                    let conf = Conf { runs, threads, jvar, hvar, ednsty: ed, offset: 2, ssize, hsize: 4, dt: if *name == "profile" { 1.0 } else { 0.1 }, log: *name != "sweep", ..Conf::default() };
                    let mut a = args.clone();
                    if let Some(x) = b {
                        a.extend(["-b", x]);
                    }
                    let mut s = Scn::new(format!("{} runs={} threads={} jvar={} hvar={} ednsty={} b={:?}", name, runs, threads, jvar, hvar, ed, b), &conf, &a);
                    s.full = true;
                    s.fuel = 2_000_000_000;
                    let beta = match b {
                        Some(x) => x.parse().unwrap(),
                        None if *file_beta => conf.beta,
                        None => infinite_chain_beta(ed),
                    };
                    let n = if *name == "sweep" || *name == "hist-dyn" { 3 } else { runs as usize };
                    c.single(&s, prepared_runs(n, beta, *name != "hist-dyn", conf.clone(), true));
                }
            }
        }
    }
    for (flag, kind) in [("-m", "metropolis_update"), ("--monte-carlo-magnus", "metropolis_update_mag_full")] {
        for threads in 1..=if th { 6 } else { 4 } {
            for points in 1..=if th { 9 } else { 5 } {
                for b in [None, Some("0.35")] {
                    if !c.mine() {
                        continue;
                    }
                    let conf = Conf { threads, mc_points: points, hsize: 4, ssize: 3, ..Conf::default() };
                    let mut a = vec![flag];
                    if let Some(x) = b {
                        a.extend(["-b", x]);
                    }
                    let mut s = Scn::new(format!("{} threads={} points={} b={:?}", flag, threads, points, b), &conf, &a);
                    s.full = true;
                    c.single(&s, prepared_samples("mc_live.dat", kind, obs::mc_row, 0, PER_SAMPLE));
                    if flag == "-m" {
                        s.args[0] = "-p".into();
                        s.name = s.name.replace("-m", "-p");
                        c.single(&s, profile_samples(points));
                    }
                }
            }
        }
    }
    for n in 1..=if th { 9usize } else { 4 } {
        for b in [None, Some("0.35")] {
            for (flag, file, kind) in [("--histogram", "hist_mc.dat", "metropolis_update"), ("--magnus-hist", "hist_mc_magnus.dat", "metropolis_update_magnus")] {
                if !c.mine() {
                    continue;
                }
                let ns = n.to_string();
                let mut a = vec![flag, &ns];
                if let Some(x) = b {
                    a.extend(["-b", x]);
                }
                let mut s = Scn::new(format!("{} {} b={:?}", flag, n, b), &Conf::default(), &a);
                s.full = true;
                s.hist = true;
                c.single(&s, prepared_samples(file, kind, hist_row, 1, PER_HIST_SAMPLE));
            }
        }
    }
    // the fits
    for (mode, kind) in [("-f", "metropolis_update"), ("-F", "metropolis_update"), ("-D", "metropolis_update"), ("-r", "metropolis_update_rot_magnus"), ("-E", "metropolis_update_maglab"), ("-H", "metropolis_update")] {
        for x in ["-0.3", "0.05"] {
            if !c.mine() {
                continue;
            }
            let x = if mode == "-D" { "1.5" } else { x };
            let mut s = Scn::new(format!("{} {}", mode, x), &Conf { log: false, jvar: 0.2, ..Conf::default() }, &[mode, x]).curve(Curve { kind: 0, a: 0.1, b: 0.2 });
            s.full = true;
            s.fuel = 4_000_000_000;
            c.single(&s, fit_samples(kind));
        }
    }
    // ... on chains of other sizes
    for (mode, kind) in [("-f", "metropolis_update"), ("-F", "metropolis_update"), ("-D", "metropolis_update"), ("-r", "metropolis_update_rot_magnus"), ("-E", "metropolis_update_maglab"), ("-H", "metropolis_update")] {
        for (hsize, ssize) in [(24, 16), (24, 2), (5, 1), (4, 4)] {
            if !c.mine() {
                continue;
            }
            let x = if mode == "-D" { "1.5" } else { "-0.3" };
            let mut s = Scn::new(format!("{} {} hsize={} ssize={}", mode, x, hsize, ssize), &Conf { log: false, jvar: 0.2, hsize, ssize, ..Conf::default() }, &[mode, x]).curve(Curve { kind: 0, a: 0.1, b: 0.2 });
            s.full = true;
            s.fuel = 4_000_000_000;
            c.single(&s, fit_samples(kind));
        }
    }
    // adiabatic: trajectories first
    for (runs, threads) in [(1, 1), (3, 2)] {
        if !c.mine() {
            continue;
        }
        let conf = Conf { runs, threads, dt: 0.25, log: false, ..Conf::default() };
        let mut s = Scn::new(format!("-A runs={} threads={}", runs, threads), &conf, &["-A", "1"]).curve(Curve { kind: 0, a: 0.1, b: 0.2 });
        s.full = true;
        s.fuel = 4_000_000_000;
        let f = prepared_runs(runs as usize, conf.beta, true, conf.clone(), true);
        c.single(&s, f);
    }
    crate::vary::c28(c, &modes);
    crate::large::c28(c);
    // under every schedule (with the sweeps shortened)
    let mut v: Vec<(Scn, Oracle)> = vec![];
    for (name, args, file_beta) in &modes {
        if *name == "profile" {
            continue;
        }
        for (runs, threads, b) in [(2, 2, 1), (3, 2, 0)] {
            let ssize = if *name == "lang" || *name == "hist-dyn" { 4 } else { 2 };
            let conf = Conf { runs, threads, offset: 2, ssize, hsize: 4, t: 0.2, log: false, ..Conf::default() };
            let s = Scn::new(format!("{} runs={} threads={}", name, runs, threads), &conf, args).bound(b);
            let beta = if *file_beta { conf.beta } else { infinite_chain_beta(conf.ednsty) };
            let n = if *name == "sweep" || *name == "hist-dyn" { 3 } else { runs as usize };
            v.push((s, Box::new(prepared_runs(n, beta, *name != "hist-dyn", conf.clone(), false))));
        }
    }
    c.deepen(v, if th { 4 } else { 2 });
    c.r.extra.insert("bounds".into(), json!({"modes": modes.len() + 12, "updates_per_trajectory_at_least": PER_TRAJECTORY, "per_sample": PER_SAMPLE, "per_histogram_sample": PER_HIST_SAMPLE, "per_fit_sample": PER_FIT_SAMPLE}));
}

// ---------------------------------------------------------------- C29
pub fn c29(c: &mut Ctx) {
    let th = c.r.thorough();
    let cv = Curve { kind: 1, a: 0.05, b: 0.9 };
    let scn = |tau: f64, div: f64, runs: i32, threads: usize, trel: f64| {
        let conf = Conf { ssize: 2, hsize: 4, log: false, beta: 0.9, tau: 33.0, dt: tau / div, runs, threads, trel, ..Conf::default() };
        let mut s = Scn::new(format!("-A {} dt={} runs={} threads={}", tau, conf.dt, runs, threads), &conf, &["-A", &tau.to_string()])
            .curve(cv)
            .with("beta.dat", b"1 2 3\n");
        s.fuel = 4_000_000_000;
        s.max_steps = 400_000;
        (s, conf)
    };
    for (tau, div) in [(1.0, 4.0), (2.0, 2.0), (0.5, 8.0), (3.0, 3.0), (10.0, 4.0), (1.0, 5.0), (0.7, 7.0), (1.5, 1.0), (0.3, 2.9999999999999996), (0.7, 6.999999999999999)] {
        for runs in 1..=if th { 6 } else { 4 } {
            for threads in 1..=if th { 4 } else { 3 } {
                for trel in [0.0, 1.0] {
                    if !c.mine() || (trel > 0.0 && (runs + threads as i32) % 2 == 0 && !th) {
                        continue;
                    }
                    if c.out_of_time() {
                        c.r.exhaustive = false;
                        return;
                    }
                    let (s, conf) = scn(tau, div, runs, threads, trel);
                    c.single(&s, fit_oracle("-A", cv, 0.0, tau, conf, None));
                }
            }
        }
    }
    crate::vary::c29(c);
    crate::large::c29(c);
    let mut v: Vec<(Scn, Oracle)> = vec![];
    for (runs, threads, b) in [(1, 1, 0), (2, 2, 0), (2, 1, 0), (3, 2, 0)] {
        let (s, conf) = scn(1.0, 2.0, runs, threads, 0.0);
        v.push((s.bound(b), Box::new(fit_oracle("-A", cv, 0.0, 1.0, conf, None))));
    }
    c.deepen(v, 2);
    c.r.extra.insert("bounds".into(), json!({"periods_and_steps": 8, "runs": if th { 6 } else { 4 }, "threads": if th { 4 } else { 3 }}));
}

// ---------------------------------------------------------------- C30
fn untouched(s: &Scn, o: &Out) -> Verdict {
    for (k, v) in &s.pre {
        match o.files.get(k) {
            None => return bad("file-removed", format!("{} is gone", k)),
            Some(x) if x != v => return bad("file-changed", format!("{} was changed", k)),
            _ => (),
        }
    }
    for k in o.files.keys() {
        if !s.pre.contains_key(k) {
            return bad("file-created", format!("{} was created", k));
        }
    }
    if let Some(e) = o.trace.iter().next() {
        let _ = e;
        return bad("worked", "it simulated something before it was refused");
    }
    Ok(())
}
fn refused(s: &Scn, o: &Out) -> Verdict {
    match &o.end {
        End::Exit(0) => bad("accepted", "it was accepted"),
        End::Exit(_) | End::Panic(_) => untouched(s, o),
        e => bad("endless", format!("it ended with {:?}", e)),
    }
}
fn only_told(s: &Scn, o: &Out) -> Verdict {
    match &o.end {
        End::Exit(0) => untouched(s, o),
        e => bad("exit-code", format!("it ended with {:?}", e)),
    }
}
fn c30_scn(name: String, conf: Option<&[u8]>, args: &[&str]) -> Scn {
    let mut s = Scn::new(name, &Conf { log: true, ..Conf::default() }, args);
    match conf {
        Some(b) => {
            s.pre.insert("config.toml".into(), b.to_vec());
        }
        None => {
            s.pre.remove("config.toml");
        }
    }
    for f in ["log0.dat", "log1.dat", "avg.dat", "two-point.dat", "mc_live.dat", "mc_profile.dat", "hist_mc.dat", "hist_dyn.dat", "hist_mc_magnus.dat", "dyn-hist-t-0.4.dat", "hist-st-t-0.4.dat", "evt1000.dat", "beta.dat", "betat.dat", "betat-rot.dat", "betat-maglab.dat", "dyn_profile-500-tau.dat", "dyn_profile-4000-tau.dat"] {
        s.pre.insert(f.into(), b"0 1 2 3\n0.1 2 3 4\n".to_vec());
    }
    s.max_steps = 4000;
    s.hist = true;
    s
}
/// What a setting of the wrong kind looks like, by kind of setting.
fn wrong(key: &str) -> Vec<&'static str> {
    match key {
        "hsize" | "ssize" | "runs" | "method" => vec!["1.5", "\"4\"", "true", "[4]", "99999999999", "x", ""],
        "threads" | "offset" | "mc_points" => vec!["1.5", "\"4\"", "-1", "true", "[4]", "x", ""],
        "t" | "dt" | "trel" | "tau" | "lambda" | "jvar" | "hvar" | "ednsty" | "beta" | "e" => vec!["\"0.5\"", "true", "[0.5]", "1.2.3", "0,5", "x", ""],
        "hfield" | "hs" => vec!["1.0", "\"0,0,0\"", "[\"a\", 0.0, 0.0]", "[0.0, 0.0", "true", ""],
        "strob" | "log" => vec!["1", "\"true\"", "yes", "True", ""],
        "file" => vec!["log", "1", "true", "\"log", "['log']", ""],
        _ => vec!["\"circular\"", "xyplane", "1", "\"XYPLANE\"", "\"\"", "true", ""],
    }
}
pub fn c30(c: &mut Ctx) {
    let th = c.r.thorough();
    let good = Conf::default().toml();
    // command lines
    let floats = ["x", "1.2.3", "1,5", "", "--", "0x10", "one", "1e", "1 2"];
    let ints = ["x", "-1", "1.5", "", "99999999999999999999999", "1e3", "two"];
    let mut lines: Vec<Vec<String>> = vec![];
    let mk = |a: &[&str]| a.iter().map(|x| x.to_string()).collect::<Vec<_>>();
    for (short, long, kind) in [
        ("-t", "--tau", 'f'), ("-b", "--beta", 'f'), ("-A", "--adiabatic", 'f'), ("-D", "--adiab_full", 'f'), ("-r", "--rot-frame", 'f'),
        ("-E", "--magnus-fit", 'f'), ("-f", "", 'f'), ("-F", "", 'f'), ("-H", "--high-freq", 'f'), ("-l", "--langevin", 'f'),
        ("-d", "--dynamic-histogram", 'i'), ("-s", "--trajectory", 'i'), ("", "--histogram", 'i'), ("", "--magnus-hist", 'i'),
        ("", "--steps", 'i'), ("-n", "--n-steps", 'l'),
    ] {
        let bads: Vec<&str> = match kind {
            'f' => floats.to_vec(),
            'i' => ints.to_vec(),
            _ => vec!["x", "1,x", "1,,2", "x,1", "1;2", "", "1,2,"],
        };
        for b in bads {
            for opt in [short, long] {
                if opt.is_empty() {
                    continue;
                }
                // with an = sign the value is this option's, whatever it looks like
                if opt.starts_with("--") {
                    lines.push(vec![format!("{}={}", opt, b)]);
                } else if !b.is_empty() {
                    lines.push(vec![format!("{}={}", opt, b)]);
                }
                if !b.is_empty() && !b.starts_with('-') {
                    lines.push(mk(&[opt, b]));
                }
            }
        }
        for opt in [short, long] {
            if opt.is_empty() || opt == "-l" || opt == "--langevin" || kind == 'i' && opt != "--steps" {
                continue;
            }
            // a value is required
            lines.push(mk(&[opt]));
        }
    }
    for a in [vec!["--no-such-option"], vec!["-z"], vec!["run"], vec!["1"], vec!["-a", "x"], vec!["--avg=1"], vec!["-m", "5"], vec!["--response=yes"], vec!["-t", "1", "-t", "2"], vec!["-b", "1", "--beta", "2"], vec!["-a", "-a"], vec!["-m", "--monte-carlo"], vec!["--Tau", "1"], vec!["-aq"], vec!["-am", "-q"], vec!["--two_point"], vec!["--steps", "1", "--steps", "2"], vec!["-l", "0.1", "-l", "0.2"]] {
        lines.push(mk(&a));
    }
    let also: Vec<Vec<&str>> = vec![vec![], vec!["-m"], vec!["-a"], vec!["-e"], vec!["--config-desc"], vec!["-l", "0.2"], vec!["-P"]];
    for (i, l) in lines.iter().enumerate() {
        for (j, more) in also.iter().enumerate() {
            for front in [false, true] {
                if (front && more.is_empty()) || !c.mine() || (!th && j > 0 && (i + j) % 3 != 0) {
                    continue;
                }
                // the same option twice is another matter
                if more.iter().any(|m| l.iter().any(|x| x.starts_with(m))) {
                    continue;
                }
                let mut a: Vec<&str> = l.iter().map(|x| x.as_str()).collect();
                if front {
                    a = more.iter().cloned().chain(a).collect();
                } else {
                    a.extend(more);
                }
                for conf in [Some(good.as_bytes()), None] {
                    // "-l" may take the next word
                    let s = c30_scn(format!("command line {:?}", a), conf, &a);
                    c.single(&s, refused);
                }
            }
        }
    }
    // asking for help
    for a in [vec!["--help"], vec!["-h"], vec!["--version"], vec!["-V"], vec!["-m", "--help"], vec!["-t", "3", "-h"], vec!["-e", "-V"], vec!["--help", "-a"]] {
        for conf in [Some(good.as_bytes()), None] {
            if c.mine() {
                let s = c30_scn(format!("command line {:?}", a), conf, &a);
                c.single(&s, only_told);
            }
        }
    }
    for a in [vec!["--config-desc"], vec!["--config-desc", "-t", "3"], vec!["-b", "0.5", "--config-desc"], vec!["--config-desc", "--steps", "4"]] {
        if c.mine() {
            let s = c30_scn(format!("command line {:?}", a), Some(good.as_bytes()), &a);
            c.single(&s, only_told);
        }
    }
    // configurations
    let modes: Vec<Vec<&str>> = vec![vec![], vec!["-e"], vec!["-m"], vec!["-a"], vec!["--two-point"], vec!["-l", "0.5"], vec!["--config-desc"], vec!["-s", "1"], vec!["-d", "1"], vec!["-t", "2", "-b", "1"], vec!["-p"], vec!["-P"], vec!["--response"], vec!["-n", "1"], vec!["-f", "-0.1"], vec!["--histogram", "1"]];
    let lines: Vec<String> = good.lines().map(|l| l.to_string()).collect();
    for (i, l) in lines.iter().enumerate() {
        let key = l.split('=').next().unwrap().trim().to_string();
        for w in wrong(&key) {
            for (k, m) in modes.iter().enumerate() {
                if !c.mine() || (!th && k > 3 && (i + k) % 5 != 0) {
                    continue;
                }
                if c.out_of_time() {
                    c.r.exhaustive = false;
                    return;
                }
                let mut t = lines.clone();
                t[i] = format!("{} = {}", key, w);
                let s = c30_scn(format!("{} = {}", key, w), Some((t.join("\n") + "\n").as_bytes()), m);
                c.single(&s, refused);
                // alone, too
                let s = c30_scn(format!("only {} = {}", key, w), Some(t[i].as_bytes()), m);
                c.single(&s, refused);
            }
        }
        // given twice
        if c.mine() {
            let s = c30_scn(format!("{} twice", key), Some(format!("{}{}\n", good, l).as_bytes()), &modes[i % modes.len()]);
            c.single(&s, refused);
        }
    }
    for junk in [&b"{}"[..], b"[", b"hsize", b"= 3", b"hsize = 4 ssize = 2", b"\"", b"\xff\xfe\x00", b"<config/>", b"hsize: 4\n", b"[hsize\n", b"tau = 1\0\n", b"# \xff\n", b"# \xe2\x82\n", b"\n# caf\xe9"] {
        for m in &modes {
            if c.mine() {
                let s = c30_scn(format!("config {:?}", String::from_utf8_lossy(junk)), Some(junk), m);
                c.single(&s, refused);
                let mut t = good.clone().into_bytes();
                t.extend_from_slice(junk);
                let s = c30_scn(format!("config followed by {:?}", String::from_utf8_lossy(junk)), Some(&t), m);
                c.single(&s, refused);
            }
        }
    }
    // cut short at every byte: either what is left is a configuration, or nothing happens
    for cut in 0..good.len() {
        if !c.mine() {
            continue;
        }
        let part = &good.as_bytes()[..cut];
        let text = String::from_utf8_lossy(part).into_owned();
        let whole = complete(&text);
        for m in [&modes[6], &modes[3]] {
            let s = c30_scn(format!("config cut at byte {}", cut), Some(part), m);
            c.single(&s, |s, o| {
                match &o.end {
                    End::Exit(0) if whole == Some(false) => return bad("accepted", "a configuration cut short was accepted"),
                    End::Exit(0) => {
                        if o.files.get("config.toml") != s.pre.get("config.toml") {
                            return bad("file-changed", "config.toml was changed");
                        }
                        return Ok(());
                    }
                    _ => (),
                }
                if whole == Some(true) {
                    return bad("refused", "a valid configuration was refused");
                }
                refused(s, o)
            });
        }
    }
    c.r.extra.insert("bounds".into(), json!({"settings": lines.len(), "modes": modes.len(), "cuts": good.len()}));
}
/// Is what is left of a configuration cut short still one? None: hard to say.
fn complete(t: &str) -> Option<bool> {
    let last = match t.rsplit_once('\n') {
        Some((_, l)) => l,
        None => t,
    };
    if last.trim().is_empty() {
        return Some(true);
    }
    match last.split_once('=') {
        None => Some(false),
        Some((_, v)) => {
            let v = v.trim();
            if v.is_empty() || v.ends_with('.') || v == "-" || (v.starts_with('[') && !v.ends_with(']')) || (v.starts_with('"') && (v.len() < 2 || !v.ends_with('"'))) {
                Some(false)
            } else {
                None
            }
        }
    }
}
