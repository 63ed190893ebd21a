//! Large counts: what is right for a few samples, runs, threads or periods must stay right for hundreds and thousands of
//! them. One schedule each.
use crate::checks::*;
use crate::checks2::*;
use crate::core::*;
use vhook::Curve;

fn big(mut s: Scn) -> Scn {
    s.max_steps = 20_000_000;
    s.fuel = 4_000_000_000;
    s
}
pub fn c15(c: &mut Ctx) {
    let th = c.r.thorough();
    let mut v = vec![(1, 300), (2, 700), (3, 2100), (9, 1100), (16, 64), (20, 45), (33, 100), (64, 65), (1, 1500), (7, 1025)];
    if th {
        v.extend([(1, 5000), (13, 4100), (100, 250), (2, 70_000 / 16), (256, 300)]);
    }
    for (threads, points) in v {
        for (flag, kind) in MC {
            if !c.mine() {
                continue;
            }
            let conf = Conf { hsize: 4, ssize: 2, ..mc_conf(threads, points) };
            let s = big(Scn::new(format!("{} threads={} points={}", flag, threads, points), &conf, &[flag]).with("mc_live.dat", b"1 2 3 4 5 6 7 8 9 10 11\n"));
            c.single(&s, mc_oracle(kind, points));
        }
    }
}
pub fn c16(c: &mut Ctx) {
    let th = c.r.thorough();
    let mut v = vec![(1, 260), (2, 700), (5, 1100), (12, 130), (20, 40), (33, 70), (1, 1030)];
    if th {
        v.extend([(3, 4100), (64, 500), (256, 300)]);
    }
    for (threads, n) in v {
        if !c.mine() {
            continue;
        }
        let conf = Conf { threads, ssize: 2, hsize: 4, t: 0.2, ..Conf::default() };
        let s = big(Scn::new(format!("-d {} threads={}", n, threads), &conf, &["-d", &n.to_string()]).with("dyn-hist-t-0.2.dat", b"0 1 1 1 1\n"));
        c.single(&s, hist_oracle(n, 0.2, 0.1, "dyn-hist-t-0.2.dat".into()));
    }
    // late times, long names
    for (t, dt) in [(1000.0, 0.5), (123.5, 0.5), (33.3, 0.1), (1025.0, 1.0), (0.05, 0.05), (12345.0, 5.0)] {
        if !c.mine() {
            continue;
        }
        let conf = Conf { threads: 2, ssize: 2, t, dt, ..Conf::default() };
        let f = format!("dyn-hist-t-{}.dat", t);
        let s = big(Scn::new(format!("-d 3 t={} dt={}", t, dt), &conf, &["-d", "3"]).with(&f, b"0 1 1 1 1\n"));
        c.single(&s, hist_oracle(3, t, dt, f));
    }
    // many periods, many cycles
    for (n, steps, threads) in [(130usize, 1u32, 3usize), (300, 1, 2), (40, 2, 12), (3, 300, 2), (2, 1200, 1), (2, 10_007, 2), (1, 12_345, 1), (20, 3, 20)] {
        if !c.mine() {
            continue;
        }
        let taus: Vec<f64> = if steps > 100 { (0..n).map(|i| 0.2 + 0.05 * i as f64).collect() } else { (0..n).map(|i| 0.5 + 0.25 * (i % 150) as f64).collect() };
        let conf = Conf { threads, ssize: 2, ..Conf::default() };
        let f = format!("evt{}.dat", steps);
        let s = big(Scn::new(format!("-n of {} periods --steps {} threads={}", n, steps, threads), &conf, &["-n", &list(&taus), "--steps", &steps.to_string()]).with(&f, b"1 1 0 0 0 0 0\n"));
        c.single(&s, sweep_oracle(taus, steps, Some(conf.beta)));
    }
}
pub fn c17(c: &mut Ctx) {
    let th = c.r.thorough();
    let mut v = vec![(1, 300, 4), (2, 1600, 4), (3, 2500, 2), (9, 513, 4), (16, 64, 2), (33, 70, 4), (2, 5, 40), (3, 2, 130), (1, 3, 257)];
    if th {
        v.extend([(5, 6000, 2), (256, 300, 2), (2, 3, 1026)]);
    }
    for (threads, points, hsize) in v {
        if !c.mine() {
            continue;
        }
        let conf = Conf { threads, mc_points: points, hsize, ssize: 2, ..Conf::default() };
        let s = big(Scn::new(format!("-p threads={} points={} hsize={}", threads, points, hsize), &conf, &["-p"]));
        c.single(&s, mcprof_oracle(points, hsize as usize));
    }
    // many runs; steps longer than 500 periods; long chains
    for (tau, dt, runs, threads, hsize) in [(0.01, 0.1, 130, 3, 2), (0.01, 0.1, 20, 12, 4), (0.001, 0.7, 3, 2, 4), (0.0008, 0.7, 2, 1, 2), (0.002, 1.0, 2, 2, 4), (0.02, 0.5, 2, 2, 66), (0.01, 0.25, 300, 2, 2)] {
        if !c.mine() {
            continue;
        }
        let conf = Conf { tau, dt, runs, threads, hsize, ssize: 2, ..Conf::default() };
        let s = big(Scn::new(format!("-P tau={} dt={} runs={} threads={} hsize={}", tau, dt, runs, threads, hsize), &conf, &["-P"]));
        c.single(&s, dynprof_oracle(conf.clone()));
    }
}
pub fn c18(c: &mut Ctx) {
    for mode in MODES {
        for (runs, threads, offset) in [(2, 2, 255u32), (2, 2, 256), (3, 2, 998), (2, 1, 1000), (2, 2, 9_998), (2, 2, 65_535), (2, 3, 70_000), (2, 2, 1_000_000), (2, 1, 4_000_000_000), (12, 20, 0), (40, 7, 90), (140, 3, 0), (260, 2, 0), (1030, 2, 0)] {
            if !c.mine() || (runs > 1000 && mode != Mode::Sim) {
                continue;
            }
            let conf = Conf { runs, threads, offset, t: 0.2, ssize: 2, hsize: 4, ..Conf::default() };
            let mut s = big(Scn::new(format!("{:?} runs={} threads={} offset={}", mode, runs, threads, offset), &conf, &mode.args()));
            let mut earlier = vec![offset.wrapping_sub(1), offset % 256, offset % 1000, offset % 10_000, offset % 65_536, offset + runs as u32];
            earlier.retain(|&k| k < offset || (k >= offset + runs as u32 && k < u32::MAX));
            for k in earlier {
                s = s.with(&format!("log{}.dat", k), format!("another log {}\n", k).as_bytes());
            }
            c.single(&s, |s, o| traj_oracle(&s.pre, o, mode, None, None));
        }
    }
}
/// Many periods: trajectories hundreds and thousands of periods or steps long, from start to end.
pub fn c18_long(c: &mut Ctx) {
    for mode in MODES {
        for (tau, dt, t, trel) in [(0.2, 0.1, 30.0, 0.0), (0.25, 0.25, 270.0, 0.0), (0.5, 0.25, 4.0, 120.0), (1.0, 0.25, 1100.0, 0.0), (0.125, 0.0625, 64.5, 33.0), (40.0, 0.5, 520.0, 0.0)] {
            for strob in [true, false] {
                if !c.mine() {
                    continue;
                }
                let conf = Conf { tau, dt, t, trel, strob, runs: 2, threads: 2, ssize: 2, hsize: 4, ..Conf::default() };
                let s = big(Scn::new(format!("{:?} tau={} dt={} t={} trel={} strob={}", mode, tau, dt, t, trel, strob), &conf, &mode.args()));
                c.single(&s, |s, o| traj_oracle(&s.pre, o, mode, None, None));
            }
        }
    }
}
pub fn c26(c: &mut Ctx, modes: &[&'static str], check: fn(&Scn, &Out, bool, &str) -> Verdict) {
    for m in modes {
        let m = ALL.iter().find(|x| x.name == *m).unwrap();
        for (threads, runs, points) in [(12usize, 11, 30usize), (20, 20, 20), (40, 3, 40)] {
            if !c.mine() {
                continue;
            }
            let conf = Conf { threads, runs, mc_points: points, ..c24_conf() };
            let mut s = big(c24_scn(format!("{} threads={} runs={} points={}", m.name, threads, runs, points), &[m], &[]));
            if m.name == "dyn-hist" {
                s.args = vec!["-d".into(), "24".into()];
            }
            s.pre.retain(|k, _| !k.starts_with("log"));
            for k in 0..30 {
                if k != 4 && k != 13 {
                    s = s.with(&format!("log{}.dat", k), format!("{}{} 4 5 6\n", LOG, k).as_bytes());
                }
            }
            s = s.with("config.toml", conf.toml().as_bytes());
            c.single(&s, |s, o| check(s, o, m.name == "avg" || m.name == "two-point", "log"));
        }
    }
}
pub fn c28(c: &mut Ctx) {
    for (name, args) in [("sim", vec![]), ("ext", vec!["-e"]), ("resp", vec!["--response"]), ("lang", vec!["-l", "0.3"]), ("profile", vec!["-P"])] {
        for (runs, threads, jvar, hvar) in [(7, 2, 0.2, 0.0), (12, 12, 0.0, 0.2), (20, 3, 0.1, 0.1)] {
            if !c.mine() {
                continue;
            }
            let dt = if name == "profile" { 1.0 } else { 0.1 };
            let conf = Conf { runs, threads, jvar, hvar, dt, t: 2.0 * dt, tau: if name == "profile" { 0.01 } else { 1.0 }, ssize: if name == "lang" { 4 } else { 2 }, hsize: 4, ..Conf::default() };
            let mut s = big(Scn::new(format!("{} runs={} threads={} jvar={} hvar={}", name, runs, threads, jvar, hvar), &conf, &args));
            s.full = true;
            let beta = if name == "ext" { conf.beta } else { infinite_chain_beta(conf.ednsty) };
            c.single(&s, prepared_runs(runs as usize, beta, true, conf.clone(), true));
        }
    }
    for (flag, kind) in MC {
        for (threads, points) in [(11, 24), (24, 24), (1, 40)] {
            if !c.mine() {
                continue;
            }
            let conf = Conf { threads, mc_points: points, hsize: 4, ssize: 2, ..Conf::default() };
            let mut s = big(Scn::new(format!("{} threads={} points={}", flag, threads, points), &conf, &[flag]));
            s.full = true;
            c.single(&s, prepared_samples("mc_live.dat", kind, crate::obs::mc_row, 0, PER_SAMPLE));
            if flag == "-m" {
                s.args[0] = "-p".into();
                s.name = s.name.replace("-m", "-p");
                c.single(&s, profile_samples(points));
            }
        }
    }
}
pub fn c29(c: &mut Ctx) {
    let cv = Curve { kind: 1, a: 0.05, b: 0.9 };
    for (tau, div, runs, threads) in [(1.0, 4.0, 9, 2), (1.0, 2.0, 25, 3), (10.0, 40.0, 2, 2), (0.5, 2.0, 140, 2), (2.0, 50.0, 3, 1), (1.0, 2.0, 12, 12)] {
        if !c.mine() {
            continue;
        }
        let conf = Conf { ssize: 2, hsize: 4, log: false, beta: 0.9, tau: 33.0, dt: tau / div, runs, threads, ..Conf::default() };
        let s = big(Scn::new(format!("-A {} dt={} runs={} threads={}", tau, conf.dt, runs, threads), &conf, &["-A", &tau.to_string()]).curve(cv).with("beta.dat", b"1 2 3\n"));
        c.single(&s, fit_oracle("-A", cv, 0.0, tau, conf, None));
    }
}
