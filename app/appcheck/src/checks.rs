use crate::core::*;
use crate::obs;
use report::serde_json::json;
use report::Report;
use std::collections::{BTreeMap, BTreeSet};
use vhook::{Curve, Snap};
use vstd::rt::{CrashAt, End};

pub fn run(id: &str, c: &mut Ctx) {
    match id {
        "C15" => c15(c),
        "C16" => c16(c),
        "C17" => c17(c),
        "C18" => c18(c),
        "C19" => c19(c),
        "C20" => c20(c, false),
        "C21" => c20(c, true),
        "C22" => c22(c),
        "C24" => c24(c),
        "C25" => c25(c),
        "C27" => crate::checks2::c27(c),
        "C28" => crate::checks2::c28(c),
        "C29" => crate::checks2::c29(c),
        "C30" => crate::checks2::c30(c),
        _ => c26(c),
    }
}

pub fn ends_well(o: &Out) -> Verdict {
    match &o.end {
        End::Exit(0) if o.panics.is_empty() && !o.usage => Ok(()),
        End::Exit(0) if o.usage => bad("usage", "the command line was refused"),
        End::Exit(0) => bad("job-panic", "a job panicked"),
        End::Exit(n) => bad(if o.usage { "usage" } else { "exit-code" }, format!("ended with code {}", n)),
        End::Panic(m) => bad("panic", format!("panicked: {}", m)),
        End::Deadlock(w) => bad("deadlock", format!("never ends: {}", w)),
        End::Runaway => bad("endless", "never ends"),
        End::Crash => bad("crash", "crashed"),
    }
}
/// The part of `f` after what was there before, as rows of numbers.
pub fn appended(before: &Files, o: &Out, f: &str) -> Result<Vec<Vec<f64>>, (String, String)> {
    let old = before.get(f).cloned().unwrap_or_default();
    let now = match o.files.get(f) {
        Some(x) => x,
        None => return bad("no-file", format!("{} was not written", f)),
    };
    if now.len() < old.len() || now[..old.len()] != old[..] {
        return bad("clobbered", format!("earlier contents of {} are gone", f));
    }
    match rows(&String::from_utf8_lossy(&now[old.len()..])) {
        Some(r) => Ok(r),
        None => bad("torn-row", format!("{} has an incomplete or garbled row", f)),
    }
}
pub fn show(r: &[f64]) -> String {
    r.iter().map(|x| format!("{:.6}", x)).collect::<Vec<_>>().join(" ")
}

// ---------------------------------------------------------------- C15
pub fn mc_oracle(kind: &'static str, points: usize) -> impl Fn(&Scn, &Out) -> Verdict {
    move |s, o| {
        ends_well(o)?;
        let rows = appended(&s.pre, o, "mc_live.dat")?;
        if rows.len() != points {
            return bad("row-count", format!("{} rows instead of {}", rows.len(), points));
        }
        let mut cand = vec![];
        for (_, k, _, sn) in o.bursts() {
            if k == kind {
                cand.push(obs::mc_row(sn));
            }
        }
        match match_rows(&rows, &cand) {
            Ok(_) => Ok(()),
            Err(i) => bad("wrong-row", format!("row {} ({}) is not that of a sampled state of its own", i, show(&rows[i]))),
        }
    }
}
pub const MC: [(&str, &str); 2] = [("-m", "metropolis_update"), ("--monte-carlo-magnus", "metropolis_update_mag_full")];
pub fn mc_conf(threads: usize, points: usize) -> Conf {
    Conf { threads, mc_points: points, hsize: 4, ssize: 3, ..Conf::default() }
}
fn c15(c: &mut Ctx) {
    let th = c.r.thorough();
    // how points divide among threads: default schedule, larger numbers
    let (tm, pm) = if th { (12, 40) } else { (8, 17) };
    for threads in 1..=tm {
        for points in 1..=pm {
            for (flag, kind) in MC {
                if !c.mine() {
                    continue;
                }
                let mut s = Scn::new(format!("{} threads={} points={}", flag, threads, points), &mc_conf(threads, points), &[flag]);
                if points % 3 == 1 {
                    s = s.with("mc_live.dat", b"1 2 3 4 5 6 7 8 9 10 11\n");
                }
                s.seed = (threads * 100 + points) as u64;
                c.single(&s, mc_oracle(kind, points));
            }
        }
    }
    crate::vary::c15(c);
    crate::large::c15(c);
    let list = vec![(1, 1, 3), (1, 2, 3), (2, 1, 3), (2, 2, 2), (2, 3, 2), (3, 3, 1), (3, 2, 2), (2, 5, 1), (3, 4, 1), (1, 4, 2), (4, 4, 0)];
    let mut v: Vec<(Scn, Oracle)> = vec![];
    for (threads, points, b) in list {
        for (flag, kind) in MC {
            let s = Scn::new(format!("{} threads={} points={}", flag, threads, points), &mc_conf(threads, points), &[flag])
                .with("mc_live.dat", b"1 2 3 4 5 6 7 8 9 10 11\n")
                .bound(b);
            v.push((s, Box::new(mc_oracle(kind, points))));
        }
    }
    c.deepen(v, if th { 6 } else { 4 });
    c.r.extra.insert("bounds".into(), json!({"threads_grid": tm, "points_grid": pm}));
}

// ---------------------------------------------------------------- C16
pub fn hist_oracle(n: usize, t: f64, dt: f64, name: String) -> impl Fn(&Scn, &Out) -> Verdict {
    move |s, o| {
        ends_well(o)?;
        let rows = appended(&s.pre, o, &name)?;
        if rows.len() != n {
            return bad("row-count", format!("{} rows instead of {}", rows.len(), n));
        }
        let runs = o.runs();
        let mut cand = vec![];
        for r in &runs {
            let e = r.last();
            // sampled at the requested time (counted from the start where there is a relaxation time)
            if (e.t - t).abs() <= dt * 0.5 + 1e-9 || (e.t - r.start.t - t).abs() <= dt * 0.5 + 1e-9 {
                let m = obs::m(&e);
                cand.push(vec![m[0], m[1], m[2], obs::system(&e)]);
            }
        }
        let mut idx = BTreeSet::new();
        let mut body = vec![];
        for r in &rows {
            if r.len() != 5 {
                return bad("torn-row", format!("row with {} fields", r.len()));
            }
            idx.insert(r[0] as i64);
            body.push(r[1..].to_vec());
        }
        if idx.len() != n || idx.iter().any(|&i| i < 0 || i >= n as i64) {
            return bad("sample-number", "sample numbers are not each one of 0..N once".to_string());
        }
        match match_rows(&body, &cand) {
            Ok(_) => Ok(()),
            Err(i) => bad("wrong-row", format!("row {} ({}) is not the state of a trajectory of its own at t={}", i, show(&body[i]), t)),
        }
    }
}
fn sweep_dt(tau: f64) -> f64 {
    if tau < 10.0 { tau / 100.0 } else { 0.1 }
}
pub fn sweep_oracle(taus: Vec<f64>, steps: u32, beta: Option<f64>) -> impl Fn(&Scn, &Out) -> Verdict {
    move |s, o| {
        ends_well(o)?;
        let rows = appended(&s.pre, o, &format!("evt{}.dat", steps))?;
        if rows.len() != taus.len() {
            return bad("row-count", format!("{} rows instead of {}", rows.len(), taus.len()));
        }
        let mut want: Vec<f64> = taus.clone();
        let mut got: Vec<f64> = rows.iter().map(|r| r[0]).collect();
        want.sort_by(f64::total_cmp);
        got.sort_by(f64::total_cmp);
        if !near_row(&want, &got) {
            return bad("period", format!("rows for periods {:?} instead of {:?}", got, want));
        }
        let mut cand = vec![];
        for r in o.runs() {
            let e = r.last();
            let dt = sweep_dt(e.tau);
            let tf = steps as f64 * e.tau;
            if !near(e.dt, dt) {
                return bad("step", format!("period {} was run with dt={} instead of {}", e.tau, e.dt, dt));
            }
            // first step at or after the requested time (up to rounding in the accumulated time)
            if e.t < tf - 1e-6 || e.t > tf + dt + 1e-6 {
                return bad("final-time", format!("period {} ended at {} instead of {}", e.tau, e.t, tf));
            }
            if let (Some(b), Some(mc)) = (beta, r.mc) {
                if !near(mc.beta, b) {
                    return bad("beta", format!("prepared at beta={} instead of {}", mc.beta, b));
                }
            }
            if r.mc.is_none() {
                return bad("not-thermalised", "a trajectory started without thermalisation".to_string());
            }
            let m = obs::m(&e);
            cand.push(vec![e.tau, e.t, obs::total(&e), obs::system(&e), m[0], m[1], m[2]]);
        }
        if steps == 0 {
            // no dynamics: the rows are the thermalised states themselves
            for (_, _, _, e) in o.bursts() {
                let m = obs::m(e);
                cand.push(vec![e.tau, e.t, obs::total(e), obs::system(e), m[0], m[1], m[2]]);
            }
        }
        match match_rows(&rows, &cand) {
            Ok(_) => Ok(()),
            Err(i) => bad("wrong-row", format!("row {} ({}) is not the end of a trajectory of its own", i, show(&rows[i]))),
        }
    }
}
pub fn list(t: &[f64]) -> String {
    t.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(",")
}
fn c16(c: &mut Ctx) {
    let th = c.r.thorough();
    let (tm, nm) = if th { (8, 24) } else { (5, 11) };
    for threads in 1..=tm {
        for n in 1..=nm {
            for (t, dt) in [(0.4, 0.1), (0.9, 0.3), (2.0, 0.02), (0.7, 0.1)] {
                if !c.mine() {
                    continue;
                }
                let conf = Conf { threads, t, dt, ssize: 3, ..Conf::default() };
                let mut s = Scn::new(format!("-d {} threads={} t={} dt={}", n, threads, t, dt), &conf, &["-d", &n.to_string()]);
                let f = format!("dyn-hist-t-{}.dat", t);
                if n % 2 == 0 {
                    s = s.with(&f, b"0 1 1 1 1\n");
                }
                c.single(&s, hist_oracle(n, t, dt, f));
            }
        }
    }
    let sets: Vec<Vec<f64>> = vec![vec![1.0], vec![0.5, 2.0], vec![10.0, 9.99, 12.5], vec![3.0, 3.0], vec![0.3, 0.7, 1.1, 30.0], vec![1.0, 2.0, 3.0, 4.0, 5.0, 6.0, 7.0]];
    for threads in 1..=tm {
        for taus in &sets {
            for steps in [1u32, 3, 10] {
                if !c.mine() {
                    continue;
                }
                let conf = Conf { threads, ssize: 3, offset: 2, log: steps == 3, ..Conf::default() };
                let mut s = Scn::new(format!("-n {} --steps {} threads={}", list(taus), steps, threads), &conf, &["-n", &list(taus), "--steps", &steps.to_string()]);
                if steps == 1 {
                    s = s.with(&format!("evt{}.dat", steps), b"1 1 0 0 0 0 0\n");
                }
                c.single(&s, sweep_oracle(taus.clone(), steps, Some(conf.beta)));
            }
        }
    }
    crate::vary::c16(c);
    crate::large::c16(c);
    let lst = vec![(1, 1, 3), (1, 2, 3), (2, 2, 2), (1, 3, 2), (2, 3, 1), (3, 3, 1), (3, 2, 1), (2, 4, 0), (4, 4, 0)];
    let mut v: Vec<(Scn, Oracle)> = vec![];
    for (threads, n, b) in lst {
        let conf = Conf { threads, ssize: 3, t: 0.3, ..Conf::default() };
        let s = Scn::new(format!("-d {} threads={}", n, threads), &conf, &["-d", &n.to_string()])
            .with("dyn-hist-t-0.3.dat", b"0 1 1 1 1\n")
            .bound(b);
        v.push((s, Box::new(hist_oracle(n, 0.3, 0.1, "dyn-hist-t-0.3.dat".into()))));
        let taus: Vec<f64> = (0..n).map(|i| 0.5 + 0.25 * i as f64).collect();
        let s = Scn::new(format!("-n {} threads={}", list(&taus), threads), &Conf { log: false, ..conf.clone() }, &["-n", &list(&taus), "--steps", "1"])
            .with("evt1.dat", b"1 1 0 0 0 0 0\n")
            .bound(b);
        v.push((s, Box::new(sweep_oracle(taus, 1, None))));
    }
    c.deepen(v, if th { 6 } else { 4 });
    c.r.extra.insert("bounds".into(), json!({"threads_grid": tm, "samples_grid": nm}));
}

// ---------------------------------------------------------------- C17
fn profile_rows(o: &Out, f: &str, l: usize) -> Result<Vec<Vec<f64>>, (String, String)> {
    let rows = appended(&Files::new(), o, f)?;
    if rows.len() != l || rows.iter().enumerate().any(|(i, r)| r.len() != 5 || r[0] != i as f64) {
        return bad("sites", format!("{} does not have every site once and in order ({} rows)", f, rows.len()));
    }
    Ok(rows)
}
fn average_sites(snaps: &[Snap], l: usize) -> Vec<Vec<f64>> {
    (0..l).map(|n| {
        let mut a = vec![0.0; 4];
        for s in snaps {
            for (x, y) in a.iter_mut().zip(obs::site(s, n)) {
                *x += y / snaps.len() as f64;
            }
        }
        a
    }).collect()
}
pub fn mcprof_oracle(points: usize, l: usize) -> impl Fn(&Scn, &Out) -> Verdict {
    move |_s, o| {
        ends_well(o)?;
        let rows = profile_rows(o, "mc_profile.dat", l)?;
        let snaps: Vec<Snap> = o.bursts().into_iter().filter(|b| b.1 == "metropolis_update").map(|b| b.3.clone()).collect();
        if snaps.len() != points {
            return bad("sample-count", format!("{} samples were drawn instead of {}", snaps.len(), points));
        }
        let want = average_sites(&snaps, l);
        for n in 0..l {
            if !near_row(&rows[n][1..], &want[n]) {
                return bad("average", format!("site {}: {} instead of {}", n, show(&rows[n][1..]), show(&want[n])));
            }
        }
        Ok(())
    }
}
pub fn dynprof_oracle(conf: Conf) -> impl Fn(&Scn, &Out) -> Verdict {
    move |_s, o| {
        ends_well(o)?;
        let l = conf.hsize as usize;
        let runs = o.runs();
        if runs.len() != conf.runs as usize {
            return bad("sample-count", format!("{} trajectories instead of {}", runs.len(), conf.runs));
        }
        for k in 1..=8usize {
            let target = 500.0 * k as f64 * conf.tau;
            let f = format!("dyn_profile-{}-tau.dat", 500 * k);
            let rows = profile_rows(o, &f, l)?;
            let mut snaps = vec![];
            for r in &runs {
                if r.mc.is_none() {
                    return bad("not-thermalised", "a trajectory started without thermalisation".to_string());
                }
                if r.start.tau != conf.tau || r.start.dt != conf.dt {
                    return bad("settings", "a trajectory ran with another period or step".to_string());
                }
                // the step closest to the target time
                let i = (0..r.states.len()).min_by(|&a, &b| (r.states[a].0 - target).abs().total_cmp(&(r.states[b].0 - target).abs()));
                match i {
                    Some(i) if (r.states[i].0 - target).abs() <= 0.51 * conf.dt => snaps.push(r.snap(i)),
                    _ => return bad("stops-early", format!("a trajectory has no state at {} periods", 500 * k)),
                }
            }
            let want = average_sites(&snaps, l);
            for n in 0..l {
                if !near_row(&rows[n][1..], &want[n]) {
                    return bad("average", format!("{} site {}: {} instead of {}", f, n, show(&rows[n][1..]), show(&want[n])));
                }
            }
        }
        Ok(())
    }
}
/// A profile of an earlier, longer chain
const OLD_PROFILE: &[u8] = b"0 -0.123456789012345678 0.123456789012345678 -0.123456789012345678 -0.123456789012345678\n1 -0.123456789012345678 0.123456789012345678 -0.123456789012345678 -0.123456789012345678\n2 -0.123456789012345678 0.123456789012345678 -0.123456789012345678 -0.123456789012345678\n3 -0.123456789012345678 0.123456789012345678 -0.123456789012345678 -0.123456789012345678\n4 9 9 9 9\n5 9 9 9 9\n6 9 9 9 9\n7 9 9 9 9\n8 9 9 9 9\n9 9 9 9 9\n10 9 9 9 9\n11 9 9 9 9\n12 9 9 9 9\n13 9 9 9 9\n14 9 9 9 9\n";
fn c17(c: &mut Ctx) {
    let th = c.r.thorough();
    for threads in 1..=if th { 8 } else { 5 } {
        for points in 1..=if th { 20 } else { 11 } {
            for hsize in [2, 4, 6] {
                if !c.mine() {
                    continue;
                }
                let conf = Conf { threads, mc_points: points, hsize, ssize: 2, ..Conf::default() };
                let s = Scn::new(format!("-p threads={} points={} hsize={}", threads, points, hsize), &conf, &["-p"]).seed(points as u64);
                // (a profile of an earlier run is there already)
                let s = if (threads + points) % 2 == 0 { s.with("mc_profile.dat", OLD_PROFILE) } else { s };
                c.single(&s, mcprof_oracle(points, hsize as usize));
            }
        }
    }
    let mut grid = vec![];
    for (tau, dt) in [(1.0, 0.5), (0.6, 0.2), (1.0, 0.3), (0.7, 0.1), (2.0, 0.75), (3.0, 1.0), (0.9, 0.4)] {
        for (runs, threads) in [(1, 1), (2, 1), (2, 2), (3, 2), (4, 3)] {
            grid.push((tau, dt, runs, threads));
        }
    }
    if th {
        for (tau, dt) in [(1.0, 0.02), (10.0, 0.1), (0.3, 0.01), (5.0, 0.7), (1.3, 0.11)] {
            grid.push((tau, dt, 2, 2));
        }
    }
    for (tau, dt, runs, threads) in grid {
        for hsize in [2, 4] {
            if !c.mine() || c.out_of_time() {
                continue;
            }
            let conf = Conf { tau, dt, runs, threads, hsize, ssize: 2, offset: 3, ..Conf::default() };
            let mut s = Scn::new(format!("-P tau={} dt={} runs={} threads={} hsize={}", tau, dt, runs, threads, hsize), &conf, &["-P"]);
            for k in 1..=8 {
                s = s.with(&format!("dyn_profile-{}-tau.dat", 500 * k), OLD_PROFILE);
            }
            c.single(&s, dynprof_oracle(conf.clone()));
        }
    }
    crate::vary::c17(c);
    crate::large::c17(c);
    let mut v: Vec<(Scn, Oracle)> = vec![];
    for (threads, points, b) in vec![(1, 1, 3), (2, 2, 2), (2, 3, 1), (3, 2, 1), (3, 3, 1), (2, 5, 1), (4, 4, 0)] {
        let conf = Conf { threads, mc_points: points, hsize: 2, ssize: 2, ..Conf::default() };
        let s = Scn::new(format!("-p threads={} points={}", threads, points), &conf, &["-p"]).bound(b);
        v.push((s, Box::new(mcprof_oracle(points, 2))));
    }
    for (runs, threads, b) in vec![(1, 1, 1), (2, 2, 1), (2, 1, 1)] {
        let conf = Conf { runs, threads, hsize: 2, ssize: 2, tau: 1.0, dt: 1.0, ..Conf::default() };
        let s = Scn::new(format!("-P runs={} threads={}", runs, threads), &conf, &["-P"]).bound(b).delay();
        v.push((s, Box::new(dynprof_oracle(conf.clone()))));
    }
    c.deepen(v, if th { 4 } else { 2 });
}

// ---------------------------------------------------------------- C18 / C19
#[derive(Clone, Copy, PartialEq, Debug)]
pub enum Mode {
    Sim,
    Ext,
    Resp,
    Lang,
}
pub const MODES: [Mode; 4] = [Mode::Sim, Mode::Ext, Mode::Resp, Mode::Lang];
impl Mode {
    pub fn args(self) -> Vec<&'static str> {
        match self {
            Mode::Sim => vec![],
            Mode::Ext => vec!["-e"],
            Mode::Resp => vec!["--response"],
            Mode::Lang => vec!["-l", "0.3"],
        }
    }
}
pub fn whole(t: f64, tau: f64, dt: f64) -> bool {
    ((t / tau).round() * tau - t).abs() < 1e-6 * dt.min(tau)  + 1e-9 * t.abs()
}
/// Does the file hold exactly the records of this trajectory?
fn log_matches(text: &str, run: &Run, mode: Mode, strob: bool) -> Result<(), String> {
    if !text.is_empty() && !text.ends_with('\n') {
        return Err("its last line is incomplete".into());
    }
    let mut lines: Vec<Vec<f64>> = vec![];
    for l in text.lines() {
        if l.starts_with('#') || l.trim().is_empty() {
            continue;
        }
        match l.split_whitespace().map(|x| x.parse::<f64>().ok()).collect::<Option<Vec<f64>>>() {
            Some(v) => lines.push(v),
            None => return Err(format!("garbled line {:?}", l)),
        }
    }
    let first = match run.mc {
        Some(s) => s,
        None => return Err("its trajectory was not thermalised".into()),
    };
    let mut want: Vec<Vec<f64>> = vec![obs::log_row(first)];
    for i in 0..run.states.len() {
        let s = run.snap(i);
        if !strob || whole(s.t, s.tau, s.dt) {
            if mode == Mode::Ext {
                want.extend(obs::ext_rows(&s));
            } else {
                want.push(obs::log_row(&s));
            }
        }
    }
    let first_only = lines.first().map(|l| near_row(&l[..l.len().min(want[0].len())], &want[0])).unwrap_or(false);
    if !first_only {
        return Err("~first row".into());
    }
    if lines.len() != want.len() {
        let times = |v: &[Vec<f64>]| v.iter().take(12).map(|r| format!("{:.4}", r[0])).collect::<Vec<_>>().join(" ");
        return Err(format!("{} rows instead of {} (times {} instead of {})", lines.len(), want.len(), times(&lines), times(&want)));
    }
    for (a, b) in lines.iter().zip(&want) {
        let k = b.len();
        let full = if first.lang { 8 } else { k };
        if a.len() != full || !near_row(&a[..k], b) {
            return Err(format!("row at t={} is {} instead of {}", b[0], show(a), show(b)));
        }
    }
    Ok(())
}
pub fn is_log(name: &str, prefix: &str) -> bool {
    name.strip_prefix(prefix).and_then(|r| r.strip_suffix(".dat")).map(|d| !d.is_empty() && d.chars().all(|c| c.is_ascii_digit())).unwrap_or(false)
}
/// One invocation of a trajectory mode, from the files before it to the files after it.
pub fn traj_oracle(before: &Files, o: &Out, mode: Mode, tau: Option<f64>, beta: Option<f64>) -> Verdict {
    ends_well(o)?;
    let conf = keys(&String::from_utf8_lossy(&before["config.toml"])).unwrap();
    let after_txt = match o.text("config.toml") {
        Some(t) => t,
        None => return bad("config-lost", "config.toml is gone"),
    };
    let after = match keys(&after_txt) {
        Some(k) => k,
        None => return bad("config-garbled", "config.toml is garbled"),
    };
    let prefix = conf["file"].trim_matches('"').to_string();
    let off = num(&conf, "offset") as usize;
    let n = num(&conf, "runs") as usize;
    let strob = conf["strob"] == "true";
    // (none with logging switched off)
    let logged = conf["log"] == "true";
    let expected: Vec<String> = (0..if logged { n } else { 0 }).map(|i| format!("{}{}.dat", prefix, off + i)).collect();
    // nothing else is touched
    for (k, v) in before {
        if k != "config.toml" && !expected.contains(k) && o.files.get(k) != Some(v) {
            return bad("earlier-file", format!("{} of an earlier invocation was changed", k));
        }
    }
    for k in o.files.keys() {
        if !before.contains_key(k) && is_log(k, &prefix) && !expected.contains(k) {
            return bad("stray-log", format!("unexpected log {}", k));
        }
    }
    let runs = o.runs();
    if runs.len() != n {
        return bad("run-count", format!("{} trajectories instead of {}", runs.len(), n));
    }
    for r in &runs {
        let mc = match r.mc {
            Some(m) => m,
            None => return bad("not-thermalised", "a trajectory started without thermalisation"),
        };
        let want_tau = tau.unwrap_or(num(&conf, "tau"));
        if !near(r.start.tau, want_tau) {
            return bad("tau", format!("ran with period {} instead of {}", r.start.tau, want_tau));
        }
        if let Some(b) = beta {
            if !near(mc.beta, b) {
                return bad("beta", format!("prepared at beta={} instead of {}", mc.beta, b));
            }
        }
        let (t0, tt, dt) = (r.start.t, num(&conf, "t"), num(&conf, "dt"));
        let want0 = if mode == Mode::Resp { -tt } else { -num(&conf, "trel") };
        if !near(t0, want0) || !near(mc.t, -num(&conf, "trel")) {
            return bad("start-time", format!("starts at {} instead of {}", t0, want0));
        }
        let te = r.states.last().unwrap().0;
        if te < tt - 1e-6 || te > tt + dt + 1e-6 {
            return bad("end-time", format!("ends at {} instead of {}", te, tt));
        }
        let mut tp = t0;
        for (k, s) in r.kinds.iter().zip(r.states) {
            if tp == 0.0 || tp.abs() > dt * 0.5 {
                let want = if mode == Mode::Resp && tp >= 0.0 { "update_no_field" } else { "update" };
                if *k != want {
                    return bad("step-kind", format!("step at t={} is {} instead of {}", tp, k, want));
                }
            }
            if !near(s.0, tp + dt) {
                return bad("step", format!("step from {} to {} instead of {}", tp, s.0, dt));
            }
            tp = s.0;
        }
        if (mode == Mode::Lang) != r.start.lang {
            return bad("engine", "ran the wrong engine");
        }
    }
    if logged {
        let mut used = vec![false; runs.len()];
        for f in &expected {
            let text = match o.text(f) {
                Some(t) => t,
                None => return bad("no-log", format!("{} was not written", f)),
            };
            let mut why = String::from("it is none of this invocation's trajectories");
            let mut hit = None;
            for (i, r) in runs.iter().enumerate() {
                if used[i] {
                    continue;
                }
                match log_matches(&text, r, mode, strob) {
                    Ok(()) => {
                        hit = Some(i);
                        break;
                    }
                    Err(e) if e.starts_with('~') => (),
                    Err(e) => why = e,
                }
            }
            match hit {
                Some(i) => used[i] = true,
                None => return bad("log", format!("{} is not the record of one trajectory: {}", f, why)),
            }
        }
    }
    // configuration
    if num(&after, "offset") as usize != off + n {
        return bad("offset", format!("offset is {} afterwards instead of {}", after.get("offset").cloned().unwrap_or_default(), off + n));
    }
    for (k, v) in &conf {
        let got = match after.get(k) {
            Some(g) => g,
            None => return bad("setting-lost", format!("setting {} is gone", k)),
        };
        let ok = match k.as_str() {
            "offset" => true,
            "beta" => runs.iter().all(|r| near(r.mc.unwrap().beta, num(&after, "beta"))),
            "tau" => near(num(&after, "tau"), runs.first().map(|r| r.start.tau).unwrap_or(f64::NAN)) || runs.is_empty(),
            "hsize" if mode == Mode::Lang => true,
            _ => same_value(v, got),
        };
        if !ok {
            return bad("setting-changed", format!("setting {} is {} afterwards instead of {}", k, got, v));
        }
    }
    Ok(())
}
fn c18(c: &mut Ctx) {
    let th = c.r.thorough();
    // runs x threads x offsets x prefixes, default schedule
    for mode in MODES {
        for runs in 1..=if th { 8 } else { 5 } {
            for threads in 1..=if th { 6 } else { 4 } {
                for (offset, file, trel) in [(0u32, "log", 0.0), (7, "out-", 0.3), (9, "a.b", 0.0), (99, "log", 0.2)] {
                    if !c.mine() {
                        continue;
                    }
                    let conf = Conf { runs, threads, offset, trel, file: file.into(), ssize: 3, hsize: if mode == Mode::Lang { 4 } else { 6 }, ..Conf::default() };
                    let mut s = Scn::new(format!("{:?} runs={} threads={} offset={} file={}", mode, runs, threads, offset, file), &conf, &mode.args());
                    for k in 0..offset.min(12) {
                        s = s.with(&format!("{}{}.dat", file, k), format!("earlier log {}\n", k).as_bytes());
                    }
                    s = s.with(&format!("{}{}.dat", file, offset + runs as u32), b"a later log\n");
                    c.single(&s, |s, o| traj_oracle(&s.pre, o, mode, None, None));
                }
            }
        }
    }
    // overrides persist as the settings in effect
    for mode in MODES {
        for (t, b) in [(Some(2.5), None), (None, Some(0.7)), (Some(0.8), Some(3.3)), (Some(20.0), Some(0.01))] {
            if !c.mine() {
                continue;
            }
            let (ts, bs) = (t.map(|x: f64| x.to_string()), b.map(|x: f64| x.to_string()));
            let mut a = mode.args();
            if let Some(x) = &ts {
                a.extend(["-t", x]);
            }
            if let Some(x) = &bs {
                a.extend(["-b", x]);
            }
            let s = Scn::new(format!("{:?} overrides", mode), &Conf::default(), &a);
            c.single(&s, |s, o| traj_oracle(&s.pre, o, mode, t, b));
        }
    }
    crate::vary::traj(c, false);
    crate::large::c18(c);
    crate::large::c18_long(c);
    // histories of invocations
    let alphabet: Vec<(&str, Vec<&str>)> = vec![
        ("sim", vec![]), ("ext", vec!["-e"]), ("resp", vec!["--response"]), ("lang", vec!["-l", "0.3"]),
        ("sim-t", vec!["-t", "2"]), ("avg", vec!["-a"]), ("mc", vec!["-m"]), ("single", vec!["-s", "1"]),
        ("dyn", vec!["-d", "2"]), ("mcp", vec!["-p"]),
    ];
    let depth = if th { 4 } else { 3 };
    let mut seqs: Vec<Vec<usize>> = vec![vec![]];
    for _ in 0..depth {
        seqs = seqs.iter().flat_map(|s| (0..alphabet.len()).map(move |a| { let mut v = s.clone(); v.push(a); v })).collect();
    }
    for seq in seqs {
        if !c.mine() {
            continue;
        }
        if c.out_of_time() {
            c.r.exhaustive = false;
            break;
        }
        let conf = Conf { ssize: 3, runs: 2, t: 0.3, offset: 8, ..Conf::default() };
        let mut s = Scn::new(format!("history {:?}", seq.iter().map(|&i| alphabet[i].0).collect::<Vec<_>>()), &conf, &[]);
        s = s.with("log3.dat", b"earlier\nearlier\n");
        for (k, &i) in seq.iter().enumerate() {
            s.args = alphabet[i].1.iter().map(|x| x.to_string()).collect();
            s.seed = 10 + k as u64;
            let before = s.pre.clone();
            let o = c.single(&s, |s, o| {
                let mode = match i {
                    0 | 4 => Mode::Sim,
                    1 => Mode::Ext,
                    2 => Mode::Resp,
                    3 => Mode::Lang,
                    _ => {
                        ends_well(o)?;
                        return same_logs(&s.pre, o, "log");
                    }
                };
                // after a Langevin run the reservoir is gone: chains of 3 sites are not bipartite, so the engine is only
                // required to keep its books
                traj_oracle(&s.pre, o, mode, if i == 4 { Some(2.0) } else { None }, None)
            });
            let _ = before;
            s.pre = o.files;
        }
    }
    // schedules
    let mut v: Vec<(Scn, Oracle)> = vec![];
    for (runs, threads, b) in vec![(1, 1, 2), (2, 2, 1), (3, 2, 1), (2, 1, 2), (3, 3, 0), (4, 2, 0)] {
        for mode in MODES {
            let conf = Conf { runs, threads, ssize: 3, t: 0.2, offset: 1, ..Conf::default() };
            let s = Scn::new(format!("{:?} runs={} threads={}", mode, runs, threads), &conf, &mode.args()).with("log0.dat", b"earlier\n").bound(b);
            v.push((s, Box::new(move |s: &Scn, o: &Out| traj_oracle(&s.pre, o, mode, None, None))));
        }
    }
    c.deepen(v, if th { 4 } else { 3 });
    c.r.extra.insert("bounds".into(), json!({"history_depth": depth, "alphabet": alphabet.len()}));
}
pub fn same_logs(before: &Files, o: &Out, prefix: &str) -> Verdict {
    for (k, v) in before {
        if is_log(k, prefix) && o.files.get(k) != Some(v) {
            return bad("log-changed", format!("{} was changed", k));
        }
    }
    for k in o.files.keys() {
        if is_log(k, prefix) && !before.contains_key(k) {
            return bad("log-created", format!("{} was created", k));
        }
    }
    Ok(())
}

/// One sample per period after thirty of them.
pub fn single_oracle(n: usize, conf: Conf) -> impl Fn(&Scn, &Out) -> Verdict {
    let (tau, dt, trel) = (conf.tau, conf.dt, conf.trel);
    move |s, o| {
        ends_well(o)?;
        let rows = appended(&s.pre, o, &format!("hist-st-t-{}.dat", conf.t))?;
        let runs = o.runs();
        let mut want = vec![];
        for r in &runs {
            for i in 0..r.states.len() {
                let x = r.snap(i);
                let k = (x.t / tau).round();
                if whole(x.t, tau, dt) && k * tau > -trel + 30.0 * tau + 0.5 * dt && k <= (n + 30) as f64 {
                    let m = obs::m(&x);
                    want.push(vec![x.t, m[0], m[1], m[2], obs::system(&x)]);
                }
            }
        }
        let expect = n + (trel / tau).round() as usize;
        if rows.len() != expect {
            return bad("single-count", format!("{} samples instead of {}", rows.len(), expect));
        }
        if want.len() != rows.len() || rows.iter().zip(&want).any(|(a, b)| !near_row(a, b)) {
            return bad("single-row", format!("samples at {:?} instead of {:?}", rows.iter().map(|r| r[0]).collect::<Vec<_>>(), want.iter().map(|r| r[0]).collect::<Vec<_>>()));
        }
        Ok(())
    }
}
fn c19(c: &mut Ctx) {
    let th = c.r.thorough();
    let mut td = vec![(1.0, 0.1), (1.0, 0.25), (0.3, 0.1), (0.7, 0.07), (0.6, 0.2), (0.9, 0.3), (2.5, 0.5), (1.0, 1.0), (0.1, 0.02), (4.1, 0.1), (3.3, 0.03), (10.0, 0.02), (0.2, 0.1)];
    if th {
        for k in 1..=40 {
            td.push((k as f64 * 0.1, 0.1));
            td.push((k as f64 * 0.02, 0.02));
            td.push((k as f64 * 0.03, 0.03));
        }
        td.push((6.28, 0.01));
    }
    for mode in MODES {
        for &(tau, dt) in &td {
            for per in [0.5, 1.0, 2.5, 7.0, 31.0] {
                for trel in [0.0, tau, 2.0 * tau, 3.0 * dt] {
                    for strob in [true, false] {
                        if (!strob && per > 3.0) || !c.mine() {
                            continue;
                        }
                        if c.out_of_time() {
                            c.r.exhaustive = false;
                            return;
                        }
                        let conf = Conf { tau, dt, t: (per * tau / dt).round() * dt, trel, strob, runs: 1, threads: 1, ssize: if mode == Mode::Ext { 3 } else { 2 }, ..Conf::default() };
                        let s = Scn::new(format!("{:?} tau={} dt={} t={} trel={} strob={}", mode, tau, dt, conf.t, trel, strob), &conf, &mode.args());
                        c.single(&s, |s, o| traj_oracle(&s.pre, o, mode, None, None));
                    }
                }
            }
        }
    }
    for &(tau, dt) in &td {
        for n in [0usize, 1, 2, 5, 17] {
            for trel in [0.0, 2.0 * tau] {
                if !c.mine() {
                    continue;
                }
                let conf = Conf { tau, dt, trel, ..Conf::default() };
                let s = Scn::new(format!("-s {} tau={} dt={} trel={}", n, tau, dt, trel), &conf, &["-s", &n.to_string()]);
                c.single(&s, single_oracle(n, conf));
            }
        }
    }
    crate::vary::c19(c);
    crate::large::c18_long(c);
    c.r.extra.insert("bounds".into(), json!({"periods_and_steps": td.len(), "final_times": 5, "initial_times": 4}));
}

// ---------------------------------------------------------------- C20 / C21
fn c20(c: &mut Ctx, two: bool) {
    let th = c.r.thorough();
    let vals = [0.0, 1.5, -2.25, 3.0e-3, 7.0];
    // shapes: number of data rows in each file
    let maxrows = if th { 4 } else { 3 };
    let nfiles = if th { 4 } else { 3 };
    let mut shapes: Vec<Vec<usize>> = vec![vec![]];
    let mut all = vec![];
    for _ in 0..nfiles {
        shapes = shapes.iter().flat_map(|s| (0..=maxrows).map(move |r| { let mut v = s.clone(); v.push(r); v })).collect();
        all.extend(shapes.clone());
    }
    if !two {
        all.push(vec![]);
    }
    let names: [&[&str]; 3] = [&["0", "1", "2", "10"], &["10", "2", "33", "1"], &["9", "10", "100", "0"]];
    for shape in &all {
        for cols in [2usize, 3, 13] {
            for zero in 0..=maxrows {
                for variant in 0..3usize {
                    if !two && zero > 0 {
                        continue;
                    }
                    // two-point needs a t=0 row: line index `zero` (0 = the first, skipped line) must exist everywhere
                    if two && shape.iter().any(|&n| zero > n) {
                        continue;
                    }
                    if !c.mine() {
                        continue;
                    }
                    if c.out_of_time() {
                        c.r.exhaustive = false;
                        return;
                    }
                    let prefix = ["log", "run-", "set2"][variant];
                    let unit = if variant == 2 { 0.002 } else { 0.25 };
                    let conf = Conf { file: prefix.into(), ..Conf::default() };
                    let out = if two { "two-point.dat" } else { "avg.dat" };
                    let flag = if two { "--two-point" } else { "-a" };
                    let mut s = Scn::new(format!("{} rows={:?} cols={} zero-line={} variant={}", flag, shape, cols, zero, variant), &conf, &[flag]);
                    s = s.with("other.dat", b"x\n5 5 5\n").with("logx.txt", b"h\n1 1 1\n");
                    if variant == 2 {
                        s = s.with("set1.dat", b"x\n0 5 5 5 5 5 5 5 5 5 5 5 5\n0 5 5 5 5 5 5 5 5 5 5 5 5\n");
                    }
                    if variant == 2 {
                        s = s.with(out, b"old old\nold\nold\nold\nold\nold\nold\nold\n");
                    }
                    let mut data: Vec<Vec<Vec<f64>>> = vec![];
                    for (f, &n) in shape.iter().enumerate() {
                        let mut body = vec![];
                        let mut text = String::new();
                        for line in 0..=n {
                            let mut row = vec![];
                            // time: zero on line `zero`, otherwise distinct; sometimes shifted per file
                            let t = (line as f64 - zero as f64) * if variant == 0 { 0.25 } else { unit * (1.0 + 2.0 * f as f64) };
                            row.push(if two { t } else { line as f64 * 0.25 + if variant == 0 { 0.0 } else { 0.125 * f as f64 } });
                            for k in 1..cols {
                                row.push(vals[(line * 2 + k + f * 3) % vals.len()] + 0.5 * (f as f64) - k as f64 * 0.125);
                            }
                            // header line in the Langevin style
                            if line == 0 && variant == 1 && (!two || zero > 0) {
                                text.push_str("#t E_total E_sub\n");
                                row.clear();
                            } else {
                                text.push_str(&row.iter().map(|x| x.to_string()).collect::<Vec<_>>().join(" "));
                                text.push('\n');
                            }
                            body.push(row);
                        }
                        s = s.with(&format!("{}{}.dat", prefix, names[variant][f]), text.as_bytes());
                        data.push(body);
                    }
                    let mut want: Vec<Vec<f64>> = vec![];
                    for i in 0..*shape.iter().max().unwrap_or(&0) {
                        let mut acc = vec![0.0; cols];
                        let mut n = 0.0;
                        for d in &data {
                            if i + 1 < d.len() {
                                n += 1.0;
                                for k in 0..cols {
                                    acc[k] += if two && k > 0 { d[i + 1][k] * d[zero][k] } else { d[i + 1][k] };
                                }
                            }
                        }
                        want.push(acc.iter().map(|x| x / n).collect());
                    }
                    c.single(&s, |s, o| {
                        ends_well(o)?;
                        for (k, v) in &s.pre {
                            if k != out && o.files.get(k) != Some(v) {
                                return bad("file-changed", format!("{} was changed", k));
                            }
                        }
                        for k in o.files.keys() {
                            if k != out && !s.pre.contains_key(k) {
                                return bad("file-created", format!("{} was created", k));
                            }
                        }
                        let text = match o.text(out) {
                            Some(t) => t,
                            None => return bad("no-file", format!("{} was not written", out)),
                        };
                        let rows = match rows(&text) {
                            Some(r) => r,
                            None => return bad("torn-row", format!("{} has an incomplete or garbled row", out)),
                        };
                        if rows.len() != want.len() {
                            return bad("row-count", format!("{} rows instead of {}", rows.len(), want.len()));
                        }
                        for (i, (a, b)) in rows.iter().zip(&want).enumerate() {
                            if !near_row(a, b) {
                                return bad("mean", format!("row {}: {} instead of {}", i, show(a), show(b)));
                            }
                        }
                        Ok(())
                    });
                }
            }
        }
    }
    c.r.extra.insert("bounds".into(), json!({"files": nfiles, "rows": maxrows, "shapes": all.len()}));
}

// ---------------------------------------------------------------- C22
fn fit_args(mode: &str, x: f64) -> Vec<String> {
    vec![mode.to_string(), x.to_string()]
}
fn root(cv: &Curve, target: f64, lo: f64, hi: f64) -> f64 {
    if cv.e(lo) <= target {
        return lo;
    }
    if cv.e(hi) > target {
        return hi;
    }
    let (mut a, mut b) = (lo, hi);
    for _ in 0..200 {
        let m = 0.5 * (a + b);
        if cv.e(m) > target {
            a = m;
        } else {
            b = m;
        }
    }
    0.5 * (a + b)
}
pub fn fit_oracle(mode: &'static str, cv: Curve, target: f64, tau: f64, conf: Conf, b: Option<f64>) -> impl Fn(&Scn, &Out) -> Verdict {
    move |s, o| {
        ends_well(o)?;
        let file = match mode {
            "-f" | "-F" | "-H" => "betat.dat",
            "-r" => "betat-rot.dat",
            "-E" => "betat-maglab.dat",
            _ => "beta.dat",
        };
        let rows = appended(&s.pre, o, file)?;
        if rows.len() != 1 {
            return bad("row-count", format!("{} rows instead of 1 in {}", rows.len(), file));
        }
        let r = &rows[0];
        let want_len = match mode {
            "-D" => 3,
            "-A" => 8,
            _ => 7,
        };
        if r.len() != want_len {
            return bad("columns", format!("{} columns instead of {}", r.len(), want_len));
        }
        if !near(r[0], tau) {
            return bad("period", format!("recorded period {} instead of {}", r[0], tau));
        }
        let beta0 = b.unwrap_or(conf.beta);
        let (tgt, beta, res) = match mode {
            "-D" => {
                if !near(r[1], beta0) {
                    return bad("initial-beta", format!("recorded initial beta {} instead of {}", r[1], beta0));
                }
                // the configured energy density is the target
                (conf.ednsty, r[2], None)
            }
            "-A" => {
                if !near(r[1], beta0) {
                    return bad("initial-beta", format!("recorded initial beta {} instead of {}", r[1], beta0));
                }
                // the target is the mean over the trajectories of the energy once per period after the transient
                let per = (tau / conf.dt).round() as usize;
                let runs = o.runs();
                if runs.len() != conf.runs as usize {
                    return bad("trajectories", format!("{} trajectories instead of {}", runs.len(), conf.runs));
                }
                let mut ok = false;
                // a thousand periods, the last nine hundred of them sampled once each
                for r in &runs {
                    let n = r.states.len();
                    if n + per <= 1000 * per || n >= 1001 * per {
                        return bad("length", format!("a trajectory of {} steps of 1/{} period instead of a thousand periods", n, per));
                    }
                }
                for phase in [1, 0] {
                    for skip in [99usize, 100] {
                        if phase == 1 % per && skip == 100 && per > 1 {
                            continue;
                        }
                        let (mut n, mut sum) = (0.0, 0.0);
                        for run in &runs {
                            for i in 0..run.states.len() {
                                // step i+1 of the trajectory
                                if (i + 1) % per == phase % per && i > skip * per {
                                    n += 1.0;
                                    sum += obs::system(&run.snap(i));
                                }
                            }
                        }
                        if n > 0.0 && near(r[7], sum / n) {
                            ok = true;
                        }
                    }
                }
                if !ok {
                    return bad("mean-energy", format!("recorded mean energy {} is not that of the trajectories", r[7]));
                }
                (r[7], r[2], Some([r[3], r[4], r[5], r[6]]))
            }
            _ => {
                if !near(r[1], target) {
                    return bad("target", format!("recorded target {} instead of {}", r[1], target));
                }
                (target, r[2], Some([r[3], r[4], r[5], r[6]]))
            }
        };
        let lo = if mode == "-r" || mode == "-E" { 0.0001 } else { 0.01 };
        if mode != "-H" {
            let want = root(&cv, tgt, lo, 5.0);
            if !((beta - want).abs() <= 0.001) {
                return bad("not-converged", format!("result {} instead of {} (target {})", beta, want, tgt));
            }
        } else if !near(beta, beta0) {
            return bad("beta", format!("recorded beta {} instead of {}", beta, beta0));
        }
        if let Some(x) = res {
            // averages measured at the result
            let m = cv.m(beta);
            let e = match mode {
                "-f" | "-A" => cv.e(beta),
                "-r" | "-E" => cv.e(beta) - 2.0 * std::f64::consts::PI / tau * m[2] + m[0],
                _ => cv.e(beta) - 2.0 * std::f64::consts::PI / tau * m[2],
            };
            if !near_row(&x, &[e, m[0], m[1], m[2]]) {
                return bad("averages", format!("averages {} are not those at the result {}", show(&x), show(&[e, m[0], m[1], m[2]])));
            }
        }
        // ... over the whole chain
        if let (Some(_), Some(x)) = (res, o.bursts().last()) {
            if x.3.ssize != x.3.hsize {
                return bad("averages-over", format!("the averages are over {} sites of {}", x.3.ssize, x.3.hsize));
            }
        }
        // the fit samples the ensemble it is documented to
        let kind = match mode {
            "-r" => "metropolis_update_rot_magnus",
            "-E" => "metropolis_update_maglab",
            _ => "metropolis_update",
        };
        for (_, k, _, sn) in o.bursts() {
            if k != kind {
                return bad("ensemble", format!("sampled by {} instead of {}", k, kind));
            }
            if !near(sn.tau, tau) {
                return bad("period-used", format!("sampled with period {} instead of {}", sn.tau, tau));
            }
        }
        Ok(())
    }
}
fn c22(c: &mut Ctx) {
    let th = c.r.thorough();
    let curves = [
        Curve { kind: 0, a: 0.1, b: 0.2 },
        Curve { kind: 1, a: 0.0, b: 1.0 },
        Curve { kind: 2, a: 0.3, b: 1.4 },
        Curve { kind: 3, a: -0.1, b: 0.5 },
        Curve { kind: 4, a: 0.2, b: 0.6 },
        Curve { kind: 5, a: -0.2, b: 0.3 },
    ];
    let betas: Vec<f64> = if th {
        (0..60).map(|i| 0.005 + i as f64 * 0.087).collect()
    } else {
        vec![0.003, 0.0105, 0.02, 0.31, 1.3, 2.505, 2.88, 3.77, 4.7, 4.998, 5.6]
    };
    // the slow, cheap-to-explore fits first
    for mode in ["-f", "-F", "-D", "-r", "-E", "-H", "-A"] {
        for (ci, cv) in curves.iter().enumerate() {
            for (bi, &b) in betas.iter().enumerate() {
                for tau in [1.0, 10.0] {
                    // enough of the grid for every mode
                    if (mode == "-r" || mode == "-E") && !th && (tau > 2.0 || (bi + ci) % 2 == 1) {
                        continue;
                    }
                    if (mode == "-A" || mode == "-H") && (bi + ci) % 3 > 0 {
                        continue;
                    }
                    if tau > 2.0 && (bi + ci) % 2 == 0 {
                        continue;
                    }
                    if !c.mine() {
                        continue;
                    }
                    if c.out_of_time() {
                        c.r.exhaustive = false;
                        return;
                    }
                    // where the curve is too flat for the arithmetic to tell, nothing can be asked
                    if b > 0.001 && b < 5.0 && cv.e(b - 4e-4) - cv.e(b + 4e-4) < 1e-9 {
                        continue;
                    }
                    let target = cv.e(b);
                    let mut conf = Conf { ssize: 2, hsize: 4, log: false, beta: 0.9, tau, ..Conf::default() };
                    let explicit = if ci % 2 == 0 { Some(1.25) } else { None };
                    let mut args = match mode {
                        "-A" | "-D" => fit_args(mode, tau),
                        _ => fit_args(mode, target),
                    };
                    if mode == "-A" || mode == "-D" {
                        conf.tau = 33.0;
                        conf.ednsty = target;
                    }
                    if mode == "-A" {
                        conf.dt = tau / 4.0;
                        conf.runs = 1 + (bi % 2) as i32;
                    }
                    if let Some(x) = explicit {
                        args.extend(["-b".into(), x.to_string()]);
                    }
                    let a: Vec<&str> = args.iter().map(|x| x.as_str()).collect();
                    let mut s = Scn::new(format!("{} curve={} beta*={} tau={}", mode, ci, b, tau), &conf, &a).curve(*cv);
                    if bi % 2 == 0 {
                        for f in ["betat.dat", "betat-rot.dat", "betat-maglab.dat", "beta.dat"] {
                            s = s.with(f, b"1 2 3\n");
                        }
                    }
                    s.fuel = 2_000_000_000;
                    c.single(&s, fit_oracle(mode, *cv, target, tau, conf.clone(), explicit));
                }
            }
        }
    }
    crate::vary::c22(c);
    c.r.extra.insert("bounds".into(), json!({"curves": curves.len(), "targets": betas.len(), "modes": 7}));
}

// ---------------------------------------------------------------- C24
pub struct M {
    pub name: &'static str,
    pub args: &'static [&'static str],
    /// files it writes (prefix match), besides config.toml
    pub files: &'static [&'static str],
    /// does it advance the offset
    pub traj: bool,
    /// sampling kinds whose beta must be the override
    pub beta: bool,
    pub tau: bool,
}
pub const ALL: &[M] = &[
    M { name: "ext", args: &["-e"], files: &["log"], traj: true, beta: true, tau: true },
    M { name: "sweep", args: &["-n", "0.5", "--steps", "1"], files: &["evt1.dat", "log"], traj: false, beta: true, tau: false },
    M { name: "adiab2", args: &["-D", "1.5"], files: &["beta.dat"], traj: false, beta: false, tau: false },
    M { name: "rot", args: &["-r", "-0.3"], files: &["betat-rot.dat"], traj: false, beta: false, tau: true },
    M { name: "maglab", args: &["-E", "-0.3"], files: &["betat-maglab.dat"], traj: false, beta: false, tau: true },
    M { name: "fit", args: &["-f", "-0.3"], files: &["betat.dat"], traj: false, beta: false, tau: true },
    M { name: "fit-eff", args: &["-F", "-0.3"], files: &["betat.dat"], traj: false, beta: false, tau: true },
    M { name: "high-freq", args: &["-H", "-0.3"], files: &["betat.dat"], traj: false, beta: true, tau: true },
    M { name: "adiabatic", args: &["-A", "1.5"], files: &["beta.dat"], traj: false, beta: false, tau: false },
    M { name: "hist", args: &["--histogram", "2"], files: &["hist_mc.dat", "hist_dyn.dat"], traj: false, beta: true, tau: true },
    M { name: "dyn-hist", args: &["-d", "2"], files: &["dyn-hist-t-"], traj: false, beta: false, tau: true },
    M { name: "magnus-hist", args: &["--magnus-hist", "2"], files: &["hist_mc_magnus.dat"], traj: false, beta: true, tau: true },
    M { name: "single", args: &["-s", "2"], files: &["hist-st-t-"], traj: false, beta: false, tau: true },
    M { name: "avg", args: &["-a"], files: &["avg.dat"], traj: false, beta: false, tau: false },
    M { name: "two-point", args: &["--two-point"], files: &["two-point.dat"], traj: false, beta: false, tau: false },
    M { name: "mc", args: &["-m"], files: &["mc_live.dat"], traj: false, beta: true, tau: true },
    M { name: "mc-profile", args: &["-p"], files: &["mc_profile.dat"], traj: false, beta: true, tau: true },
    M { name: "dyn-profile", args: &["-P"], files: &["dyn_profile-"], traj: true, beta: true, tau: true },
    M { name: "mc-magnus", args: &["--monte-carlo-magnus"], files: &["mc_live.dat"], traj: false, beta: true, tau: true },
    M { name: "langevin", args: &["-l", "0.3"], files: &["log"], traj: true, beta: true, tau: true },
    M { name: "response", args: &["--response"], files: &["log"], traj: true, beta: true, tau: true },
    M { name: "config-desc", args: &["--config-desc"], files: &[], traj: false, beta: false, tau: false },
];
pub const LOG: &str = "0 1 1 1\n0.1 2 2 2\n0.2 3 3 3\n";
pub fn c24_conf() -> Conf {
    Conf { ssize: 3, hsize: 4, t: 0.4, dt: 0.1, tau: 0.4, runs: 2, threads: 2, mc_points: 2, offset: 5, beta: 1.7, ..Conf::default() }
}
pub fn changed(s: &Scn, o: &Out) -> Vec<String> {
    o.files.iter().filter(|(k, v)| s.pre.get(*k) != Some(v) && *k != "config.toml").map(|(k, _)| k.clone()).collect()
}
pub fn ran_oracle(sel: &[&M], tau: Option<f64>, beta: Option<f64>) -> impl Fn(&Scn, &Out) -> Verdict {
    let names: Vec<&'static str> = sel.iter().map(|m| m.name).collect();
    let mut files: Vec<&'static str> = sel.iter().flat_map(|m| m.files.iter().cloned()).collect();
    let mut trajs = sel.iter().filter(|m| m.traj).count();
    let single = if sel.len() == 1 { Some((sel[0].beta, sel[0].tau)) } else { None };
    let exact = sel.len() == 1;
    if sel.is_empty() {
        files.push("log");
        trajs = 1;
    }
    let none = sel.is_empty();
    move |s, o| {
        ends_well(o)?;
        let ch = changed(s, o);
        for f in &ch {
            if !files.iter().any(|p| f.starts_with(p)) {
                return bad("extra-mode", format!("{} was written, which {:?} do not", f, names));
            }
        }
        for p in &files {
            if !ch.iter().any(|f| f.starts_with(p)) {
                return bad("mode-skipped", format!("no {} was written by {:?}", p, names));
            }
        }
        let after = keys(&o.text("config.toml").unwrap_or_default()).unwrap_or_default();
        let before = keys(&String::from_utf8_lossy(&s.pre["config.toml"])).unwrap();
        let adv = num(&after, "offset") - num(&before, "offset");
        if adv != 2.0 * trajs as f64 {
            return bad("trajectory-modes", format!("the offset advanced by {} instead of {} for {:?}", adv, 2 * trajs, names));
        }
        if let Some(b) = beta {
            if none || matches!(single, Some((true, _))) {
                let bs: Vec<f64> = o.bursts().iter().map(|x| x.3.beta).collect();
                if bs.is_empty() || bs.iter().any(|x| !near(*x, b)) {
                    return bad("beta-override", format!("{:?} sampled at beta={:?} instead of {}", names, bs.first(), b));
                }
            }
        }
        if let Some(t) = tau {
            if none || matches!(single, Some((_, true))) {
                let mut ts: Vec<f64> = o.bursts().iter().map(|x| x.3.tau).collect();
                ts.extend(o.runs().iter().map(|r| r.start.tau));
                if ts.is_empty() || ts.iter().any(|x| !near(*x, t)) {
                    return bad("tau-override", format!("{:?} ran with tau={:?} instead of {}", names, ts.iter().find(|x| !near(**x, t)), t));
                }
            }
        }
        let _ = exact;
        Ok(())
    }
}
pub fn c24_scn(name: String, sel: &[&M], extra: &[&str]) -> Scn {
    let mut args: Vec<&str> = sel.iter().flat_map(|m| m.args.iter().cloned()).collect();
    args.extend(extra);
    // a mode's own option may be given only once
    let mut seen = BTreeSet::new();
    let mut a2: Vec<&str> = vec![];
    let mut skip = false;
    for (i, x) in args.iter().enumerate() {
        if skip {
            skip = false;
            continue;
        }
        if *x == "--steps" && !seen.insert("--steps") {
            skip = i + 1 < args.len();
            continue;
        }
        a2.push(x);
    }
    // the bath of the Langevin engine exists at positive temperature only, and the adiabatic fit's own target may not be
    let has = |n: &str| sel.iter().any(|m| m.name == n);
    if has("adiabatic") && has("langevin") && !a2.contains(&"-b") {
        a2.extend(["-b", "1.1"]);
    }
    let mut s = Scn::new(name, &c24_conf(), &a2);
    for k in 0..3 {
        s = s.with(&format!("log{}.dat", k), LOG.as_bytes());
    }
    s.hist = true;
    s.fuel = 2_000_000_000;
    if sel.iter().any(|m| matches!(m.name, "adiab2" | "rot" | "maglab" | "fit" | "fit-eff" | "adiabatic" | "high-freq")) {
        s.curve = Some(Curve { kind: 0, a: 0.1, b: 0.2 });
    }
    s
}
fn c24(c: &mut Ctx) {
    let th = c.r.thorough();
    // no mode requested
    for extra in [vec![], vec!["-t", "0.8"], vec!["-b", "0.6"], vec!["-b", "0"], vec!["-t", "0.2", "-b", "3.1"], vec!["--steps", "3"]] {
        if c.mine() {
            let s = c24_scn(format!("no mode {:?}", extra), &[], &extra);
            let t = extra.iter().position(|x| *x == "-t").map(|i| extra[i + 1].parse().unwrap());
            let b = extra.iter().position(|x| *x == "-b").map(|i| extra[i + 1].parse().unwrap());
            c.single(&s, ran_oracle(&[], t, b));
        }
    }
    // each mode alone, with every combination of overrides, short and long spellings
    for m in ALL {
        for (ex, t, b) in [
            (vec![], None, None),
            (vec!["-t", "0.8"], Some(0.8), None),
            (vec!["--tau", "1.2"], Some(1.2), None),
            (vec!["-t", "0.05"], Some(0.05), None),
            (vec!["-t", "25"], Some(25.0), None),
            (vec!["-b", "0.6"], None, Some(0.6)),
            (vec!["-b", "0"], None, Some(0.0)),
            (vec!["-b", "1"], None, Some(1.0)),
            (vec!["--beta", "0.001"], None, Some(0.001)),
            (vec!["--tau=0.4", "-b", "7.5"], Some(0.4), Some(7.5)),
            (vec!["-t0.8", "--beta=3"], Some(0.8), Some(3.0)),
        ] {
            // (the heat bath of the Langevin engine has no width at infinite temperature)
            if m.name == "langevin" && b == Some(0.0) {
                continue;
            }
            if !c.mine() {
                continue;
            }
            let s = c24_scn(format!("{} {:?}", m.name, ex), &[m], &ex);
            c.single(&s, ran_oracle(&[m], t, b));
        }
    }
    // ... at the start of a numbering, with and without logs
    for m in ALL {
        for (offset, log, strob) in [(0u32, true, false), (0, true, true), (1, false, true)] {
            if !c.mine() {
                continue;
            }
            let mut s = c24_scn(format!("{} offset={} log={} strob={}", m.name, offset, log, strob), &[m], &[]);
            s.pre.insert("config.toml".into(), Conf { offset, log, strob, ..c24_conf() }.toml().into_bytes());
            if log {
                c.single(&s, ran_oracle(&[m], None, None));
            } else {
                // no log from any of them
                let had: Vec<String> = s.pre.keys().cloned().collect();
                c.single(&s, |_s, o| {
                    ends_well(o)?;
                    match o.files.keys().find(|f| is_log(f, "log") && !had.contains(f)) {
                        Some(f) => bad("log-created", format!("{} appeared although logging is off", f)),
                        None => Ok(()),
                    }
                });
            }
        }
    }
    // every pair of modes (and every triple of the quick ones, in the thorough tier)
    for i in 0..ALL.len() {
        for j in i + 1..ALL.len() {
            if !c.mine() {
                continue;
            }
            if c.out_of_time() {
                c.r.exhaustive = false;
                return;
            }
            let sel = [&ALL[i], &ALL[j]];
            // two options of one name cannot both be given; fits at two targets are independent anyway
            let s = c24_scn(format!("{} + {}", ALL[i].name, ALL[j].name), &sel, &[]);
            c.single(&s, ran_oracle(&sel, None, None));
            if th {
                for k in j + 1..ALL.len() {
                    let sel = [&ALL[i], &ALL[j], &ALL[k]];
                    if sel.iter().any(|m| matches!(m.name, "rot" | "maglab" | "adiabatic")) || c.out_of_time() {
                        continue;
                    }
                    let s = c24_scn(format!("{} + {} + {}", sel[0].name, sel[1].name, sel[2].name), &sel, &[]);
                    c.single(&s, ran_oracle(&sel, None, None));
                }
            }
        }
    }
    // an inverse temperature given on the command line is the one of the modes after a fit, too
    for i in 0..ALL.len() {
        for j in i + 1..ALL.len() {
            let (a, b) = (&ALL[i], &ALL[j]);
            if !matches!(b.name, "hist" | "magnus-hist" | "mc" | "mc-profile" | "dyn-profile" | "mc-magnus" | "langevin" | "response") || !c.mine() {
                continue;
            }
            if c.out_of_time() {
                c.r.exhaustive = false;
                return;
            }
            let sel = [a, b];
            let s = c24_scn(format!("{} + {} -b", a.name, b.name), &sel, &["-b", "0.6173"]);
            let ran = ran_oracle(&sel, None, None);
            c.single(&s, |s, o| {
                ran(s, o)?;
                // (a fit's own samples are at whatever it tries)
                let fit = matches!(a.name, "adiab2" | "rot" | "maglab" | "fit" | "fit-eff" | "high-freq" | "adiabatic");
                let bs: Vec<f64> = o.bursts().iter().map(|x| x.3.beta).collect();
                let right = bs.iter().filter(|x| near(**x, 0.6173)).count();
                if right == 0 || (!fit && right < bs.len()) {
                    return bad("beta-override", format!("sampled at beta={:?} instead of 0.6173", bs.iter().find(|x| !near(**x, 0.6173))));
                }
                Ok(())
            });
        }
    }
    crate::vary::c24(c);
    // list of periods
    for (arg, want) in [("1", vec![1.0]), ("0.5,2", vec![0.5, 2.0]), ("0.5,2,10,12.5", vec![0.5, 2.0, 10.0, 12.5]), ("1e1,3", vec![10.0, 3.0])] {
        for form in 0..4 {
            for steps in [None, Some(0u32), Some(1), Some(2), Some(5)] {
                if (steps.is_none() && form > 0) || !c.mine() {
                    continue;
                }
                let mut a: Vec<String> = match form {
                    0 => vec!["-n".into(), arg.into()],
                    1 => vec!["--n-steps".into(), arg.into()],
                    2 => vec![format!("--n-steps={}", arg)],
                    _ => arg.split(',').flat_map(|x| ["-n".to_string(), x.to_string()]).collect(),
                };
                if let Some(n) = steps {
                    a.extend(["--steps".into(), n.to_string()]);
                }
                let ar: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
                let conf = Conf { log: false, ..c24_conf() };
                let s = Scn::new(format!("periods {} form {} steps {:?}", arg, form, steps), &conf, &ar);
                c.single(&s, sweep_oracle(want.clone(), steps.unwrap_or(1000), Some(conf.beta)));
            }
        }
    }
    // sample counts
    for (flags, file, default) in [
        (vec!["-d", "--dynamic-histogram"], "dyn-hist-t-0.4.dat", 1000usize),
        (vec!["-s", "--trajectory"], "hist-st-t-0.4.dat", 1000),
        (vec!["--histogram"], "hist_mc.dat", 8000),
        (vec!["--histogram"], "hist_dyn.dat", 8000),
        (vec!["--magnus-hist"], "hist_mc_magnus.dat", 8000),
    ] {
        for n in [None, Some(1usize), Some(2), Some(3), Some(9)] {
            for flag in &flags {
                if !c.mine() {
                    continue;
                }
                let ns = n.map(|x| x.to_string());
                let mut a = vec![*flag];
                if let Some(x) = &ns {
                    a.push(x);
                }
                // the number of points of the Monte-Carlo modes is another setting
                let conf = Conf { mc_points: [2, 9001, 0][n.unwrap_or(1) % 3], ..c24_conf() };
                let mut s = Scn::new(format!("{:?} mc_points={}", a, conf.mc_points), &conf, &a);
                s.hist = true;
                let want = n.unwrap_or(default);
                c.single(&s, |s, o| {
                    ends_well(o)?;
                    let r = appended(&s.pre, o, file)?;
                    if r.len() != want {
                        return bad("sample-count", format!("{} rows in {} instead of {}", r.len(), file, want));
                    }
                    Ok(())
                });
            }
        }
    }
    // histogram rows are the sampled states
    for (flag, kind, file) in [("--histogram", "metropolis_update", "hist_mc.dat"), ("--magnus-hist", "metropolis_update_magnus", "hist_mc_magnus.dat")] {
        for n in [1usize, 4] {
            if !c.mine() {
                continue;
            }
            let ns = n.to_string();
            let mut s = Scn::new(format!("{} {} rows", flag, n), &c24_conf(), &[flag, &ns]).with(file, b"0 1\n");
            s.hist = true;
            c.single(&s, |s, o| {
                ends_well(o)?;
                let r = appended(&s.pre, o, file)?;
                let cand: Vec<Vec<f64>> = o.bursts().iter().filter(|b| b.1 == kind).map(|b| {
                    let (x, y) = obs::quarter(b.3);
                    let m = obs::m(b.3);
                    vec![m[0], m[1], m[2], obs::system(b.3), x[0], x[1], x[2], y[0], y[1], y[2]]
                }).collect();
                let body: Vec<Vec<f64>> = r.iter().map(|x| x[1..].to_vec()).collect();
                if r.iter().enumerate().any(|(i, x)| x[0] != i as f64) {
                    return bad("hist-index", "samples are not numbered in order");
                }
                match match_rows(&body, &cand) {
                    Ok(_) => Ok(()),
                    Err(i) => bad("hist-row", format!("row {} is not a sampled state", i)),
                }
            });
        }
    }
    // damping
    for (a, g) in [(vec!["-l"], 1.0), (vec!["-l", "0.3"], 0.3), (vec!["--langevin=2.5"], 2.5), (vec!["--langevin", "0"], 0.0), (vec!["-l0.01"], 0.01), (vec!["-l", "20"], 20.0), (vec!["-l", "1e-4"], 1e-4)] {
        if !c.mine() {
            continue;
        }
        let s = Scn::new(format!("{:?}", a), &c24_conf(), &a);
        c.single(&s, |s, o| {
            traj_oracle(&s.pre, o, Mode::Lang, None, None)?;
            if o.runs().iter().any(|r| !near(r.start.gamma, g)) {
                return bad("gamma", format!("ran with gamma={:?} instead of {}", o.runs().first().map(|r| r.start.gamma), g));
            }
            Ok(())
        });
    }
    // negative targets in every spelling
    for (short, long) in [("-f", ""), ("-F", ""), ("-H", "--high-freq"), ("-r", "--rot-frame"), ("-E", "--magnus-fit")] {
        for e in ["-0.25", "-1e-1", "0.0625", "-.5"] {
            for form in 0..3 {
                if (form == 2 && long.is_empty()) || !c.mine() {
                    continue;
                }
                let a: Vec<String> = match form {
                    0 => vec![short.into(), e.into()],
                    1 => vec![format!("{}{}", short, e)],
                    _ => vec![long.into(), e.into()],
                };
                let ar: Vec<&str> = a.iter().map(|x| x.as_str()).collect();
                let cv = Curve { kind: 0, a: 0.1, b: 0.2 };
                let conf = Conf { log: false, ..c24_conf() };
                let mut s = Scn::new(format!("{:?}", a), &conf, &ar).curve(cv);
                s.fuel = 2_000_000_000;
                let mode: &'static str = match short {
                    "-f" => "-f",
                    "-F" => "-F",
                    "-H" => "-H",
                    "-r" => "-r",
                    _ => "-E",
                };
                // the beta used by -H is the configured one
                c.single(&s, fit_oracle(mode, cv, e.parse().unwrap(), conf.tau, conf.clone(), None));
            }
        }
    }
    // description of the configuration
    if c.mine() {
        let s = c24_scn("config-desc".into(), &[&ALL[ALL.len() - 1]], &[]);
        let desc = std::fs::read_to_string("/repo/src/config-desc.toml").unwrap_or_default();
        c.single(&s, |_s, o| {
            ends_well(o)?;
            for k in keys(&Conf::default().toml()).unwrap().keys() {
                if k != "log" && k != "mc_points" && !o.stdout.contains(k.as_str()) {
                    return bad("config-desc", format!("the description does not mention {}", k));
                }
            }
            let _ = &desc;
            Ok(())
        });
    }
    c.r.extra.insert("bounds".into(), json!({"modes": ALL.len(), "combinations": if th { "all pairs, most triples" } else { "all pairs" }}));
}

// ---------------------------------------------------------------- C25
fn c25(c: &mut Ctx) {
    let th = c.r.thorough();
    let mut cases: Vec<(String, Vec<&str>, bool, usize, usize)> = vec![];
    for (name, a) in [("sim", vec![]), ("ext", vec!["-e"]), ("response", vec!["--response"]), ("langevin", vec!["-l"]), ("dyn-profile", vec!["-P"]), ("sim -t", vec!["-t", "3.5", "-b", "0.4"])] {
        for (runs, threads) in if th { vec![(1, 1), (2, 1), (2, 2), (3, 2)] } else { vec![(1, 1), (2, 2)] } {
            cases.push((name.to_string(), a.clone(), true, runs, threads));
        }
    }
    // first invocation ever: the default configuration is written
    for a in [vec!["--config-desc"], vec!["-a"], vec!["-s", "0"]] {
        cases.push((format!("first {:?}", a), a, false, 2, 2));
    }
    cases.push(("sim, long configuration".to_string(), vec![], true, 2, 2));
    // settings of many digits, and the next invocation without them
    for a in [vec!["-t", "0.30000000000000004"], vec!["-t", "1.1234567890123456", "-b", "0.12345678901234567"], vec!["--response", "-t", "123.45678901234567"]] {
        cases.push((format!("many digits {:?}", a), a, true, 2, 2));
    }
    for (name, args, has_conf, runs, threads) in cases {
        let long = name.contains("long");
        let conf = Conf { runs: runs as i32, threads, t: 0.2, tau: 1.0, dt: if args == ["-P"] { 1.0 } else { 0.1 }, hsize: 2, ssize: 2, offset: 3, ..Conf::default() };
        let mut s = Scn::new(format!("crash during {} runs={} threads={}", name, runs, threads), &conf, &args);
        for k in 0..3 {
            s = s.with(&format!("log{}.dat", k), LOG.as_bytes());
        }
        if !has_conf {
            s.pre.remove("config.toml");
        }
        if long {
            // commented at length by its user
            let t = format!("{}{}", "# as in the paper, see the notes\n".repeat(300), conf.toml());
            s = s.with("config.toml", t.as_bytes());
        }
        // reference execution, without a crash
        let (full, _) = run_once(&s, &[], &BTreeSet::new(), None);
        if let Err((k, m)) = ends_well(&full) {
            c.report(&s, &full, bad(&k, m), json!(null));
            continue;
        }
        let old = s.pre.get("config.toml").cloned();
        let new = full.files.get("config.toml").cloned();
        for (k, (path, _what, len)) in full.ops.iter().enumerate() {
            let conf_op = path.to_string_lossy().contains("config");
            let mut torn = vec![0usize];
            if *len > 1 {
                if conf_op {
                    torn.extend((1..*len).step_by(if th { 1 } else { 7 }));
                    torn.push(len - 1);
                } else {
                    torn.push(len / 2);
                }
            }
            if !conf_op && full.ops.len() > 60 && k % (full.ops.len() / 60) != 0 {
                continue;
            }
            for t in torn {
                if !c.mine() {
                    continue;
                }
                if c.out_of_time() {
                    c.r.exhaustive = false;
                    return;
                }
                crash_case(c, &s, CrashAt { op: k, torn: t }, &old, &new);
            }
        }
    }
    // repeated crashes: every pair of crash points in two successive invocations, then a normal one
    let conf = Conf { runs: 2, threads: 1, t: 0.1, hsize: 2, ssize: 2, offset: 3, ..Conf::default() };
    let s0 = Scn::new("two crashes", &conf, &[]);
    let (full, _) = run_once(&s0, &[], &BTreeSet::new(), None);
    if ends_well(&full).is_ok() {
        for k1 in 0..full.ops.len() {
            for t1 in [0usize, 3] {
                if !c.mine() {
                    continue;
                }
                if c.out_of_time() {
                    c.r.exhaustive = false;
                    return;
                }
                let (o1, _) = run_once(&s0, &[], &BTreeSet::new(), Some(CrashAt { op: k1, torn: t1 }));
                let mut s1 = s0.clone();
                s1.pre = o1.files.clone();
                let old = s1.pre.get("config.toml").cloned();
                let (f1, _) = run_once(&s1, &[], &BTreeSet::new(), None);
                let v = ends_well(&f1);
                if v.is_err() {
                    c.report(&s1, &f1, bad("stuck-after-crash", format!("after a crash the next invocation fails: {:?}", f1.end)), json!({"crash": k1}));
                    continue;
                }
                let new = f1.files.get("config.toml").cloned();
                for k2 in 0..f1.ops.len() {
                    crash_case(c, &s1, CrashAt { op: k2, torn: t1 }, &old, &new);
                }
            }
        }
    }
}
fn crash_case(c: &mut Ctx, s: &Scn, at: CrashAt, old: &Option<Vec<u8>>, new: &Option<Vec<u8>>) {
    let (o, _) = run_once(s, &[], &BTreeSet::new(), Some(at));
    c.account_from(&o, 0);
    let extra = json!({"crash_at_file_operation": at.op, "bytes_of_it_done": at.torn, "operation": format!("{:?}", o.ops.last())});
    if o.end != End::Crash {
        return;
    }
    let now = o.files.get("config.toml").cloned();
    let parse = |b: &Option<Vec<u8>>| b.as_ref().and_then(|x| keys(&String::from_utf8_lossy(x)));
    let (ko, kn, kx) = (parse(old), parse(new), parse(&now));
    let is_new = now == *new || (kx.is_some() && kx == kn);
    if now != *old && !is_new && !(kx.is_some() && kx == ko) {
        let what = match &now {
            None => "gone".to_string(),
            Some(b) => format!("{} bytes: {:?}...", b.len(), String::from_utf8_lossy(&b[..b.len().min(40)])),
        };
        c.report(s, &o, bad("torn-config", format!("killed in {:?}, config.toml is neither the old nor the new one ({})", o.ops.last(), what)), extra);
        return;
    }
    // finished logs are intact
    let off = kx.as_ref().map(|k| num(k, "offset")).unwrap_or(f64::NAN);
    let first = ko.as_ref().map(|k| num(k, "offset")).unwrap_or(0.0);
    for (f, v) in &s.pre {
        if is_log(f, "log") {
            let n: f64 = f[3..f.len() - 4].parse().unwrap();
            if n < first && o.files.get(f) != Some(v) {
                c.report(s, &o, bad("log-damaged", format!("{} of a finished invocation was damaged", f)), extra);
                return;
            }
        }
    }
    // the next invocation goes on from there without touching the finished logs
    let mut s2 = s.clone();
    s2.name = format!("{}, then again", s.name);
    s2.pre = o.files.clone();
    s2.seed = 77;
    if now.is_none() {
        // nothing there yet: the next invocation creates the default (long) configuration; only look at that
        s2.args = vec!["--config-desc".into()];
    }
    let digits = s.name.contains("many digits");
    if digits {
        s2.args.retain(|a| a == "--response");
    }
    let (o2, _) = run_once(&s2, &[], &BTreeSet::new(), None);
    c.account_from(&o2, 0);
    if let Err((k, m)) = ends_well(&o2) {
        c.report(&s2, &o2, bad("stuck-after-crash", format!("the next invocation fails ({} {})", k, m)), extra);
        return;
    }
    if digits {
        // ... and what it leaves behind is read by the one after it
        let mut s3 = s2.clone();
        s3.name = format!("{}, and again", s2.name);
        s3.pre = o2.files.clone();
        s3.args = vec!["--config-desc".into()];
        let (o3, _) = run_once(&s3, &[], &BTreeSet::new(), None);
        c.account_from(&o3, 0);
        if let Err((k, m)) = ends_well(&o3) {
            c.report(&s3, &o3, bad("garbled-after-crash", format!("the configuration left after a crash and another invocation is refused ({} {})", k, m)), extra);
            return;
        }
    }
    for (f, v) in &s2.pre {
        if is_log(f, "log") {
            let n: f64 = f[3..f.len() - 4].parse().unwrap();
            if n < off && o2.files.get(f) != Some(v) {
                c.report(&s2, &o2, bad("log-overwritten", format!("the next invocation changed {} of a finished one", f)), extra);
                return;
            }
        }
    }
    if !off.is_nan() {
        let k2 = parse(&o2.files.get("config.toml").cloned()).unwrap_or_default();
        for (k, v) in kx.as_ref().unwrap() {
            if !matches!(k.as_str(), "offset" | "beta" | "tau" | "hsize" | "t") && k2.get(k).map(|x| same_value(v, x)) != Some(true) {
                c.report(&s2, &o2, bad("settings-lost", format!("setting {} did not survive", k)), extra);
                return;
            }
        }
    }
}

// ---------------------------------------------------------------- C26
fn c26(c: &mut Ctx) {
    let th = c.r.thorough();
    let logfree = ["adiab2", "rot", "maglab", "fit", "fit-eff", "high-freq", "adiabatic", "hist", "dyn-hist", "magnus-hist", "single", "avg", "two-point", "mc", "mc-profile", "dyn-profile", "mc-magnus", "config-desc"];
    let sel: Vec<&M> = ALL.iter().filter(|m| logfree.contains(&m.name)).collect();
    fn check(s: &Scn, o: &Out, avg: bool, prefix: &str) -> Verdict {
        ends_well(o)?;
        same_logs(&s.pre, o, prefix)?;
        if avg {
            for f in changed(s, o) {
                if f != "avg.dat" && f != "two-point.dat" {
                    return bad("file-changed", format!("{} was changed by averaging", f));
                }
            }
            if o.files.get("config.toml") != s.pre.get("config.toml") {
                return bad("config-changed", "averaging changed the configuration");
            }
            for f in s.pre.keys() {
                if !o.files.contains_key(f) {
                    return bad("file-removed", format!("{} was removed by averaging", f));
                }
            }
        }
        Ok(())
    }
    for m in &sel {
        for (offset, threads, runs, prefix) in [(0u32, 1usize, 1, "log"), (0, 2, 2, "log"), (2, 3, 2, "log"), (0, 4, 3, "run-"), (5, 2, 4, "log")] {
            for log in [true, false] {
                if !log && !th && threads != 2 {
                    continue;
                }
                if !c.mine() {
                    continue;
                }
                let mut s = c24_scn(format!("{} offset={} threads={} prefix={} log={}", m.name, offset, threads, prefix, log), &[m], &[]);
                let conf = Conf { offset, threads, runs, file: prefix.into(), mc_points: 5, log, ..c24_conf() };
                s.pre.retain(|k, _| !k.starts_with("log"));
                for k in 0..6 {
                    if k != 4 {
                        s = s.with(&format!("{}{}.dat", prefix, k), format!("{}{} 4 5 6\n", LOG, k).as_bytes());
                    }
                }
                s = s.with("config.toml", conf.toml().as_bytes());
                let avg = m.name == "avg" || m.name == "two-point";
                c.single(&s, |s, o| check(s, o, avg, prefix));
            }
        }
    }
    // a sweep over periods keeps to the numbers from the offset on
    for offset in [1u32, 3, 7] {
        for threads in [1usize, 3] {
            for args in [&["-n", "0.5", "--steps", "1"][..], &["-n", "0.5,1,2", "--steps", "1"]] {
                if !c.mine() {
                    continue;
                }
                let conf = Conf { offset, threads, ..c24_conf() };
                let mut s = Scn::new(format!("{:?} offset={} threads={}", args, offset, threads), &conf, args);
                for k in 0..offset {
                    s = s.with(&format!("log{}.dat", k), format!("{}{} 4 5 6\n", LOG, k).as_bytes());
                }
                c.single(&s, |s, o| {
                    ends_well(o)?;
                    for (f, b) in &s.pre {
                        if f.starts_with("log") && o.files.get(f) != Some(b) {
                            return bad("log-changed", format!("{} of an earlier run was changed by a sweep from offset {}", f, offset));
                        }
                    }
                    Ok(())
                });
            }
        }
    }
    crate::vary::c26(c, &logfree, check);
    crate::large::c26(c, &["mc", "mc-magnus", "mc-profile", "dyn-profile", "dyn-hist", "adiabatic", "avg", "two-point"], check);
    // pairs: one mode must not prepare damage by the next
    for a in &sel {
        for b in &sel {
            if a.name == b.name || !c.mine() {
                continue;
            }
            if c.out_of_time() {
                c.r.exhaustive = false;
                return;
            }
            let heavy = |m: &M| matches!(m.name, "rot" | "maglab");
            if !th && heavy(a) && heavy(b) {
                continue;
            }
            let s = c24_scn(format!("{} + {}", a.name, b.name), &[a, b], &[]).with("log5.dat", LOG.as_bytes());
            c.single(&s, |s, o| check(s, o, false, "log"));
        }
    }
    // under every schedule
    for (name, b) in [("mc", 2), ("mc-magnus", 2), ("dyn-hist", 2), ("mc-profile", 1)] {
        let m = ALL.iter().find(|m| m.name == name).unwrap();
        let s = c24_scn(format!("{} all schedules", name), &[m], &[]).bound(if th { b + 1 } else { b });
        c.explore(&s, |s, o| check(s, o, false, "log"));
    }
}

// ---------------------------------------------------------------- conformance
/// Run the real program on a few of the same invocations and compare what can be compared: exit status, the files
/// left behind, their numbers of rows and columns, and the configuration.
pub fn conformance(id: &str, r: &mut Report) {
    let bin = match std::env::var("SC_BIN") {
        Ok(b) => b,
        Err(_) => return,
    };
    let d = Conf::default;
    let th = r.thorough();
    let mut cases: Vec<(Vec<&str>, Conf)> = match id {
        "C15" => {
            let mut v = vec![];
            for (t, p) in [(1, 1), (2, 3), (4, 2), (3, 7), (8, 8), (5, 11)] {
                v.push((vec!["-m"], mc_conf(t, p)));
                v.push((vec!["--monte-carlo-magnus"], mc_conf(t, p)));
            }
            v
        }
        "C16" => vec![(vec!["-d", "3"], d()), (vec!["-d", "1"], Conf { threads: 3, ..d() }), (vec!["-d", "7"], Conf { threads: 3, ..d() }), (vec!["-n", "0.5,1.5,0.7", "--steps", "2"], d())],
        "C17" => vec![(vec!["-p"], mc_conf(2, 3)), (vec!["-p"], mc_conf(1, 1)), (vec!["-p"], mc_conf(3, 7)), (vec!["-P"], Conf { tau: 0.2, dt: 0.1, ..d() })],
        "C18" => vec![(vec![], d()), (vec!["-e"], Conf { ssize: 3, ..d() })],
        "C19" => vec![(vec![], Conf { strob: true, t: 3.0, runs: 1, ..d() }), (vec!["-s", "3"], d())],
        "C20" => vec![(vec!["-a"], d())],
        "C21" => vec![(vec!["--two-point"], d())],
        "C22" | "C28" | "C29" => vec![],
        "C27" => vec![(vec!["--magnus-hist", "3"], d()), (vec!["--magnus-hist", "1", "-b", "0.5"], Conf { hsize: 2, ..d() })],
        "C25" => vec![(vec!["--response"], d())],
        "C26" => vec![(vec!["-m", "-a"], d()), (vec!["-d", "2", "--two-point"], d())],
        _ => vec![(vec!["--config-desc"], d()), (vec!["-a"], d()), (vec!["--two-point"], d()), (vec!["-s", "3"], d()), (vec!["-f", "x"], d()), (vec!["-n"], d()), (vec!["-d", "2", "-a"], d()), (vec!["--no-such-option"], d()), (vec!["-n", "1.0,x"], d()), (vec!["-n", "1,2.5", "--steps", "1", "-t", "3", "-b", "0.1"], d())],
    };
    if th && id == "C18" {
        cases.push((vec!["--response", "-b", "2"], d()));
        cases.push((vec!["-l", "0.5", "-t", "0.6"], d()));
    }
    let mut ok = 0u64;
    for (args, conf) in cases {
        let mut s = Scn::new("replay on the program", &conf, &args);
        for k in 0..3 {
            s = s.with(&format!("log{}.dat", k + 40), format!("{}{}", LOG, if k == 1 { "0.3 4 4 4\n" } else { "" }).as_bytes());
        }
        s.hist = false;
        let (o, _) = run_once(&s, &[], &BTreeSet::new(), None);
        let model_code = match o.end {
            End::Exit(n) => n,
            End::Panic(_) => 101,
            _ => -1,
        };
        prepare(&s.pre);
        let dir = scratch_dir();
        let child = std::process::Command::new(&bin).args(&args).current_dir(&dir).stdin(std::process::Stdio::null())
            .stdout(std::process::Stdio::null()).stderr(std::process::Stdio::null()).spawn();
        let mut child = match child {
            Ok(x) => x,
            Err(_) => continue,
        };
        let t = std::time::Instant::now();
        let code = loop {
            match child.try_wait() {
                Ok(Some(x)) => break x.code().unwrap_or(-2),
                _ if t.elapsed().as_secs() > 60 => {
                    let _ = child.kill();
                    let _ = child.wait();
                    break -3;
                }
                _ => std::thread::sleep(std::time::Duration::from_millis(5)),
            }
        };
        if std::env::var("VERIF_DEBUG").is_ok() {
            eprintln!("{:?}: {:.1}s", args, t.elapsed().as_secs_f64());
        }
        if code == -3 {
            // too slow here to say anything
            r.exhaustive = false;
            r.extra.insert(format!("program_too_slow_on_{:?}", args), json!(1));
            continue;
        }
        let real = vstd::rt::snapshot(std::path::Path::new(&dir));
        // the number of rows and columns of what holds random samples, everything of the rest
        let shape = |f: &Files| -> BTreeMap<String, String> {
            f.iter().map(|(k, v)| {
                let t = String::from_utf8_lossy(v);
                let fixed = matches!(k.as_str(), "config.toml" | "avg.dat" | "two-point.dat") || s.pre.contains_key(k);
                let mut c: Vec<String> = if fixed {
                    t.lines().map(|l| l.to_string()).collect()
                } else {
                    t.lines().map(|l| l.split_whitespace().count().to_string()).collect()
                };
                if !fixed {
                    c.sort();
                }
                (k.clone(), c.join("\n"))
            }).collect()
        };
        let (a, b) = (shape(&o.files), shape(&real));
        if code == model_code && a == b {
            ok += 1;
        } else {
            let diff = a.keys().chain(b.keys()).find(|k| a.get(*k) != b.get(*k)).cloned().unwrap_or_default();
            r.violation("program", format!("the program run with {:?} ended with code {} (explored model: {}){}", args, code, model_code,
                if diff.is_empty() { String::new() } else { format!(", and {} differs: {:?} instead of {:?}", diff, b.get(&diff), a.get(&diff)) }),
                json!({"scenario": s.describe()}));
        }
    }
    r.traces += ok;
    r.extra.insert("invocations_replayed_on_the_real_program".into(), json!(ok));
    cleanup();
}
