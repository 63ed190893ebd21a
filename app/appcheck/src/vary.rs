//! Variations of a configuration: every setting on its own, and every two of them together.
use crate::checks::*;
use crate::core::*;
use crate::checks2::*;
use crate::obs;
use report::serde_json::json;
use std::collections::BTreeMap;
use vhook::{Curve, Ev, Snap};

pub type Tweak = (&'static str, fn(&mut Conf));
/// One setting each, away from its usual value.
pub const TWEAKS: &[Tweak] = &[
    ("lambda=0", |c| c.lambda = 0.0),
    ("lambda=-1.3", |c| c.lambda = -1.3),
    ("lambda=1", |c| c.lambda = 1.0),
    ("no hfield", |c| c.hfield = [0.0; 3]),
    ("hfield=-z", |c| c.hfield = [0.0, 0.0, -1.5]),
    ("no hs", |c| c.hs = [0.0; 3]),
    ("hs=x", |c| c.hs = [1.0, 0.0, 0.0]),
    ("hs=-", |c| c.hs = [-0.7, -0.2, -0.4]),
    ("jvar=0", |c| c.jvar = 0.0),
    ("jvar=0.5", |c| c.jvar = 0.5),
    ("hvar=0", |c| c.hvar = 0.0),
    ("hvar=0.5", |c| c.hvar = 0.5),
    ("no disorder", |c| {
        c.jvar = 0.0;
        c.hvar = 0.0
    }),
    ("ednsty=-0.9", |c| c.ednsty = -0.9),
    ("ednsty=-0.05", |c| c.ednsty = -0.05),
    ("beta=0.02", |c| c.beta = 0.02),
    ("beta=9", |c| c.beta = 9.0),
    ("trel=0.3", |c| c.trel = 0.3),
    ("trel=2", |c| c.trel = 2.0),
    ("trel=6", |c| c.trel = 6.0),
    ("strob", |c| c.strob = true),
    ("xyelliptic", |c| c.drive = "xyelliptic".into()),
    ("uniaxial", |c| c.drive = "uniaxial".into()),
    ("staticfield", |c| c.drive = "staticfield".into()),
    ("no drive", |c| c.drive = "none".into()),
    ("e=0", |c| c.e = 0.0),
    ("e=2.5", |c| c.e = 2.5),
    ("e=-1", |c| c.e = -1.0),
    ("no log", |c| c.log = false),
    ("offset=1000", |c| c.offset = 1000),
    ("offset=3", |c| c.offset = 3),
    ("tau=0.4", |c| c.tau = 0.4),
    ("tau=12", |c| c.tau = 12.0),
    ("t=0.1", |c| c.t = 0.1),
    ("t=2.5", |c| c.t = 2.5),
    ("t=1", |c| c.t = 1.0),
    ("dt=0.05", |c| c.dt = 0.05),
    ("dt=0.2", |c| c.dt = 0.2),
    ("8 of 8", |c| (c.hsize, c.ssize) = (8, 8)),
    ("4 of 12", |c| (c.hsize, c.ssize) = (12, 4)),
    ("2 of 2", |c| (c.hsize, c.ssize) = (2, 2)),
    ("6 of 20", |c| (c.hsize, c.ssize) = (20, 6)),
    ("1 run", |c| c.runs = 1),
    ("5 runs", |c| c.runs = 5),
    ("1 thread", |c| c.threads = 1),
    ("3 threads", |c| c.threads = 3),
    ("7 points", |c| c.mc_points = 7),
    ("other file", |c| c.file = "run_".into()),
];
/// Every single variation, and every pair (of different settings, or the later of the same ones).
pub fn variations(base: &Conf, pairs: bool) -> Vec<(String, Conf)> {
    let mut v = vec![("as is".to_string(), base.clone())];
    for (i, (n, f)) in TWEAKS.iter().enumerate() {
        let mut c = base.clone();
        f(&mut c);
        v.push((n.to_string(), c));
        if pairs {
            for (m, g) in &TWEAKS[i + 1..] {
                let mut c = base.clone();
                f(&mut c);
                g(&mut c);
                v.push((format!("{}, {}", n, m), c));
            }
        }
    }
    v
}
fn vector(k: &BTreeMap<String, String>, key: &str) -> Vec<f64> {
    k.get(key).map(|s| s.trim_matches(|c| c == '[' || c == ']').split(',').filter_map(|x| x.parse().ok()).collect()).unwrap_or_default()
}
/// The chain has the configured size, couplings, fields, step and drive. (Normal deviations beyond ten widths do not
/// happen.)
pub fn settings_ok(sn: &Snap, k: &BTreeMap<String, String>, drive: Option<&str>) -> Verdict {
    let n = num(k, "ssize") as usize;
    let l = if sn.lang { n } else { num(k, "hsize") as usize };
    if k.contains_key("any_ssize") && sn.ssize == l {
        let mut k = k.clone();
        k.insert("ssize".into(), l.to_string());
        k.remove("any_ssize");
        return settings_ok(sn, &k, drive);
    }
    if sn.ssize != n || sn.hsize != l || sn.spins.len() != l {
        return bad("size", format!("ran with {} of {} sites ({} spins) instead of {} of {}", sn.ssize, sn.hsize, sn.spins.len(), n, l));
    }
    if k.contains_key("dt") && !near(sn.dt, num(k, "dt")) {
        return bad("step", format!("ran with dt={} instead of {}", sn.dt, num(k, "dt")));
    }
    let d = drive.map(|d| d.to_string()).unwrap_or_else(|| k["drive"].trim_matches('"').to_string());
    if sn.drive != d {
        return bad("drive", format!("ran with drive {} instead of {}", sn.drive, d));
    }
    if d == "xyelliptic" && !near(sn.e, num(k, "e")) {
        return bad("drive", format!("ran with e={} instead of {}", sn.e, num(k, "e")));
    }
    let (hf, hs, lambda) = (vector(k, "hfield"), vector(k, "hs"), num(k, "lambda"));
    if !near_row(&sn.hs, &hs) {
        return bad("subsystem-field", format!("ran with hs={:?} instead of {:?}", sn.hs, hs));
    }
    let (jv, hv) = (num(k, "jvar"), num(k, "hvar"));
    for (i, j) in sn.j.iter().enumerate().take(l) {
        for (a, w) in j.iter().zip([1.0, 1.0, lambda]) {
            if !((a - w).abs() <= 10.0 * jv + 1e-9) {
                return bad("couplings", format!("bond {} has couplings {:?} for lambda={} jvar={}", i, j, lambda, jv));
            }
        }
    }
    for (i, h) in sn.h.iter().enumerate().take(l) {
        for x in 0..3 {
            let w = hf[x] + if i < n { hs[x] } else { 0.0 };
            if !((h[x] - w).abs() <= 10.0 * hv + 1e-9) {
                return bad("fields", format!("site {} has field {:?} for hfield={:?} hs={:?} hvar={}", i, h, hf, hs, hv));
            }
        }
    }
    if l > 1 && jv > 0.0 && sn.j.len() > 1 && sn.j.windows(2).all(|w| w[0] == w[1]) {
        return bad("couplings", "every bond has the same couplings in spite of the disorder");
    }
    if l > 1 && hv > 0.0 && sn.h.len() > 1 && n != 1 && sn.h[..n].windows(2).all(|w| w[0] == w[1]) {
        return bad("fields", "every site has the same field in spite of the disorder");
    }
    Ok(())
}
/// The same of everything an invocation sampled or ran.
pub fn settings_all(s: &Scn, o: &Out, drive: Option<&str>) -> Verdict {
    let k = keys(&String::from_utf8_lossy(&s.pre["config.toml"])).unwrap();
    for (_, _, _, sn) in o.bursts() {
        settings_ok(sn, &k, drive)?;
    }
    for r in o.runs() {
        settings_ok(r.start, &k, drive)?;
    }
    Ok(())
}

fn is_whole(x: f64, unit: f64) -> bool {
    (x / unit - (x / unit).round()).abs() < 1e-9
}
/// Are the times such that stroboscopic records fall on steps?
fn on_steps(c: &Conf, start: f64) -> bool {
    !c.strob || (is_whole(c.tau, c.dt) && is_whole(start, c.dt))
}
pub type Both = Box<dyn Fn(&Scn, &Out) -> Verdict>;
fn both(a: impl Fn(&Scn, &Out) -> Verdict + 'static, drive: Option<&'static str>) -> Both {
    Box::new(move |s, o| {
        a(s, o)?;
        settings_all(s, o, drive)
    })
}
/// Settings to be found in the chains, other than those of the file.
fn with_settings(a: impl Fn(&Scn, &Out) -> Verdict + 'static, runs: bool, change: &'static [(&'static str, Option<&'static str>)], extra: Vec<(&'static str, String)>, drive: Option<&'static str>) -> Both {
    Box::new(move |s, o| {
        a(s, o)?;
        let mut k = keys(&String::from_utf8_lossy(&s.pre["config.toml"])).unwrap();
        for (key, v) in change {
            match v {
                Some(v) => {
                    k.insert(key.to_string(), v.to_string());
                }
                None => {
                    k.remove(*key);
                }
            }
        }
        for (key, v) in &extra {
            k.insert(key.to_string(), v.clone());
        }
        if !runs {
            for (_, _, _, sn) in o.bursts() {
                settings_ok(sn, &k, drive)?;
            }
        }
        for r in o.runs() {
            settings_ok(r.start, &k, drive)?;
        }
        Ok(())
    })
}
impl Ctx {
    /// Each of these scenarios once, shared out among the workers.
    fn each(&mut self, label: &str, v: impl Iterator<Item = (Scn, Both)>) {
        let mut n = 0u64;
        for (s, f) in v {
            n += 1;
            if !self.mine() {
                continue;
            }
            if self.out_of_time() {
                self.r.exhaustive = false;
                let k = format!("unfinished: {}", label);
                *self.r.extra.entry(k).or_insert(json!(0)) = json!(1);
                return;
            }
            self.single(&s, f);
        }
        if self.shard == 0 {
            self.r.extra.insert(format!("variations: {}", label), json!(n));
        }
    }
}

pub fn c15(c: &mut Ctx) {
    for (flag, kind) in MC {
        let v = variations(&mc_conf(2, 3), true);
        c.each(flag, v.into_iter().map(move |(n, conf)| {
            let s = Scn::new(format!("{} {}", flag, n), &conf, &[flag]).with("mc_live.dat", b"1 2 3 4 5 6 7 8 9 10 11\n");
            (s, both(mc_oracle(kind, conf.mc_points), None))
        }));
    }
}
pub fn c16(c: &mut Ctx) {
    let base = Conf { ssize: 3, t: 0.3, ..Conf::default() };
    c.each("-d", variations(&base, true).into_iter().map(|(n, conf)| {
        let f = format!("dyn-hist-t-{}.dat", conf.t);
        let s = Scn::new(format!("-d 3 {}", n), &conf, &["-d", "3"]);
        (s, both(hist_oracle(3, conf.t, conf.dt, f), None))
    }));
    let th = c.r.thorough();
    c.each("-n", variations(&base, th).into_iter().flat_map(|(n, conf)| {
        [(vec![0.3, 1.1], 1u32), (vec![2.0], 2), (vec![10.0, 0.2, 0.2], 1)].into_iter().map(move |(taus, steps)| {
            let s = Scn::new(format!("-n {} --steps {} {}", list(&taus), steps, n), &conf, &["-n", &list(&taus), "--steps", &steps.to_string()]);
            (s, with_settings(sweep_oracle(taus, steps, Some(conf.beta)), false, &[("dt", None)], vec![], None))
        })
    }));
}
pub fn c17(c: &mut Ctx) {
    let th = c.r.thorough();
    c.each("-p", variations(&mc_conf(2, 3), true).into_iter().map(|(n, conf)| {
        let s = Scn::new(format!("-p {}", n), &conf, &["-p"]);
        (s, both(mcprof_oracle(conf.mc_points, conf.hsize as usize), None))
    }));
    let base = Conf { tau: 0.5, dt: 0.25, hsize: 4, ssize: 2, ..Conf::default() };
    c.each("-P", variations(&base, th).into_iter().filter(|(_, c)| c.tau / c.dt < 9.0).map(|(n, conf)| {
        let s = Scn::new(format!("-P {}", n), &conf, &["-P"]);
        (s, both(dynprof_oracle(conf), None))
    }));
}
/// Trajectory modes.
pub fn traj(c: &mut Ctx, strob: bool) {
    for mode in MODES {
        let base = Conf { strob, ssize: 4, hsize: 6, t: if strob { 3.0 } else { 0.4 }, ..Conf::default() };
        c.each(&format!("{:?}", mode), variations(&base, true).into_iter().filter(move |(_, c)| on_steps(c, if mode == Mode::Resp { c.t } else { c.trel })).map(move |(n, conf)| {
            let mut s = Scn::new(format!("{:?} {}", mode, n), &conf, &mode.args());
            for k in 0..2 {
                s = s.with(&format!("{}{}.dat", conf.file, k), format!("earlier log {}\n", k).as_bytes());
            }
            s = s.with(&format!("{}{}.dat", conf.file, conf.offset + conf.runs as u32), b"a later log\n");
            (s, both(move |s: &Scn, o: &Out| traj_oracle(&s.pre, o, mode, None, None), None))
        }));
    }
}
pub fn c19(c: &mut Ctx) {
    traj(c, true);
    let th = c.r.thorough();
    let base = Conf::default();
    c.each("-s", variations(&base, th).into_iter().filter(|(_, c)| is_whole(c.tau, c.dt) && is_whole(c.trel, c.tau)).flat_map(|(n, conf)| {
        [1usize, 4].into_iter().map(move |k| {
            let s = Scn::new(format!("-s {} {}", k, n), &conf, &["-s", &k.to_string()]);
            (s, both(single_oracle(k, conf.clone()), None))
        })
    }));
}
fn vec_text(v: [f64; 3]) -> String {
    format!("[{:?},{:?},{:?}]", v[0], v[1], v[2])
}
pub fn c22(c: &mut Ctx) {
    let th = c.r.thorough();
    let cv = Curve { kind: 0, a: 0.1, b: 0.2 };
    for mode in ["-f", "-F", "-D", "-r", "-E", "-H", "-A"] {
        let base = Conf { ssize: 2, hsize: 4, log: false, beta: 0.9, tau: 2.0, dt: 0.5, t: 2.0, ..Conf::default() };
        let heavy = matches!(mode, "-r" | "-E");
        c.each(mode, variations(&base, th && !heavy).into_iter().filter(move |(n, c)| {
            // whole periods in the trajectories of -A, and not too many steps
            (mode != "-A" || (is_whole(2.0, c.dt) && is_whole(c.trel, 2.0) && c.dt > 0.1)) && !(heavy && n.contains("of") && c.hsize > 12)
        }).map(move |(n, mut conf)| {
            let target = match mode {
                "-D" => {
                    conf.ednsty = cv.e(1.3);
                    conf.ednsty
                }
                "-A" => 0.0,
                _ => cv.e(1.3),
            };
            let tau = if mode == "-D" || mode == "-A" { 2.0 } else { conf.tau };
            let arg = if mode == "-D" || mode == "-A" { tau } else { target };
            let mut s = Scn::new(format!("{} {}", mode, n), &conf, &[mode, &arg.to_string()]).curve(cv);
            s.fuel = 4_000_000_000;
            s.max_steps = 400_000;
            let w = 2.0 * std::f64::consts::PI / tau;
            let l = conf.hsize.to_string();
            // the ensembles: a unit field along x on the driven sites and a field -omega along z
            let (mut extra, any) = match mode {
                "-D" | "-F" => (vec![("hs", vec_text([1.0, 0.0, 0.0])), ("hfield", vec_text([0.0, 0.0, -w]))], true),
                "-f" => (vec![("hs", vec_text([1.0, 0.0, 0.0])), ("hfield", vec_text([0.0, 0.0, -w])), ("hsize", conf.ssize.to_string())], false),
                "-H" => (vec![("hfield", vec_text([0.0, 0.0, -tau / (4.0 * std::f64::consts::PI)]))], true),
                _ => (vec![], true),
            };
            if any {
                extra.push(("any_ssize", l.clone()));
            }
            let a = fit_oracle(mode, cv, target, tau, conf.clone(), None);
            let f: Both = if mode == "-A" {
                // the trajectories have the configured fields, the fit after them that of the rotating frame
                let t = with_settings(a, true, &[], vec![], None);
                let hs = vec_text([1.0, 0.0, -w]);
                Box::new(move |s, o| {
                    t(s, o)?;
                    let mut k = keys(&String::from_utf8_lossy(&s.pre["config.toml"])).unwrap();
                    k.insert("hs".into(), hs.clone());
                    k.insert("any_ssize".into(), l.clone());
                    let from = o.trace.iter().rposition(|e| matches!(e, Ev::Run { .. })).map_or(0, |i| i + 1);
                    for e in &o.trace[from..] {
                        if let Ev::Mc { snap, .. } = e {
                            settings_ok(snap, &k, None)?;
                        }
                    }
                    Ok(())
                })
            } else {
                with_settings(a, false, &[], extra, None)
            };
            (s, f)
        }));
    }
}
pub fn c24(c: &mut Ctx) {
    for m in ALL {
        for (ex, t, b) in [(vec!["-t", "0.8"], Some(0.8), None), (vec!["-b", "0.6"], None, Some(0.6))] {
            let (ex, t, b) = (ex, t, b);
            c.each(&format!("{} {:?}", m.name, ex), variations(&c24_conf(), false).into_iter().filter(|(_, c)| m.name != "dyn-profile" || c.dt * 100.0 > 9.0).filter_map(|(n, conf)| {
                if conf.runs != 2 || conf.file != "log" || !conf.log {
                    return None;
                }
                let mut s = c24_scn(format!("{} {:?} {}", m.name, ex, n), &[m], &ex);
                s.pre.insert("config.toml".into(), conf.toml().into_bytes());
                let f: Both = Box::new(ran_oracle(&[m], t, b));
                Some((s, f))
            }));
        }
    }
}
pub fn c26(c: &mut Ctx, names: &[&'static str], check: fn(&Scn, &Out, bool, &str) -> Verdict) {
    let th = c.r.thorough();
    for m in ALL.iter().filter(|m| names.contains(&m.name)) {
        let pairs = th && !matches!(m.name, "rot" | "maglab" | "dyn-profile" | "adiabatic");
        c.each(m.name, variations(&c24_conf(), pairs).into_iter().filter(|(_, c)| m.name != "dyn-profile" || c.tau / c.dt < 9.0).map(|(n, conf)| {
            let mut s = c24_scn(format!("{} {}", m.name, n), &[m], &[]);
            s.pre.retain(|k, _| !k.starts_with("log"));
            for k in [0, 1, 2, 3, 5, 1000] {
                s = s.with(&format!("{}{}.dat", conf.file, k), format!("{}{} 4 5 6\n", LOG, k).as_bytes());
            }
            s.pre.insert("config.toml".into(), conf.toml().into_bytes());
            let avg = m.name == "avg" || m.name == "two-point";
            let f: Both = Box::new(move |s, o| check(s, o, avg, &conf.file));
            (s, f)
        }));
    }
}
pub fn c27(c: &mut Ctx) {
    let base = Conf { ssize: 4, hsize: 6, ..Conf::default() };
    for flag in ["--histogram", "--magnus-hist"] {
        c.each(flag, variations(&base, true).into_iter().map(move |(n, conf)| {
            let mut s = Scn::new(format!("{} 2 {}", flag, n), &conf, &[flag, "2"]);
            s.hist = true;
            let f = if flag == "--histogram" {
                s.script = vec![(0.02, [0.0; 3]), (0.0, [0.0, 0.0, -0.02])];
                both(histogram_oracle(2), Some("none"))
            } else {
                both(magnus_oracle(2), Some("none"))
            };
            (s, f)
        }));
    }
}
pub fn c28(c: &mut Ctx, modes: &[(&'static str, Vec<&'static str>, bool)]) {
    let th = c.r.thorough();
    for (name, args, file_beta) in modes {
        let (name, file_beta) = (*name, *file_beta);
        let base = Conf { runs: 3, threads: 2, ssize: 4, hsize: 4, dt: if name == "profile" { 1.0 } else { 0.1 }, log: name != "sweep", ..Conf::default() };
        // single settings with the sweeps at full length, pairs with short ones (and, in the thorough tier, full ones)
        for full in [true, false] {
            let pairs = th || (!full && name != "profile");
            c.each(&format!("{} {}", name, full), variations(&base, pairs).into_iter().filter(|(_, c)| {
                // histories of -P are long, and the engine of -l has no other sites
                (name != "profile" || c.tau / c.dt < 9.0) && (name != "lang" || c.hsize == c.ssize)
            }).map(move |(n, conf)| {
                let mut s = Scn::new(format!("{} {}", name, n), &conf, args);
                s.full = full;
                s.fuel = 2_000_000_000;
                let beta = if file_beta { conf.beta } else { infinite_chain_beta(conf.ednsty) };
                let n = if name == "sweep" || name == "hist-dyn" { 3 } else { conf.runs as usize };
                let oracle = prepared_runs(n, beta, name != "hist-dyn", conf.clone(), full);
                let f = if name == "sweep" { with_settings(oracle, false, &[("dt", None)], vec![], None) } else { both(oracle, None) };
                (s, f)
            }));
        }
    }
    for (flag, kind) in MC {
        c.each(flag, variations(&mc_conf(2, 3), th).into_iter().map(move |(n, conf)| {
            let mut s = Scn::new(format!("{} {}", flag, n), &conf, &[flag]);
            s.full = true;
            (s, both(prepared_samples("mc_live.dat", kind, obs::mc_row, 0, PER_SAMPLE), None))
        }));
    }
    c.each("-p", variations(&mc_conf(2, 3), th).into_iter().map(|(n, conf)| {
        let mut s = Scn::new(format!("-p {}", n), &conf, &["-p"]);
        s.full = true;
        (s, both(profile_samples(conf.mc_points), None))
    }));
    for (flag, file, kind) in [("--histogram", "hist_mc.dat", "metropolis_update"), ("--magnus-hist", "hist_mc_magnus.dat", "metropolis_update_magnus")] {
        c.each(flag, variations(&Conf::default(), th).into_iter().map(move |(n, conf)| {
            let mut s = Scn::new(format!("{} {}", flag, n), &conf, &[flag, "2"]);
            s.full = true;
            s.hist = true;
            (s, both(prepared_samples(file, kind, hist_row, 1, PER_HIST_SAMPLE), Some("none")))
        }));
    }
    for (mode, kind) in [("-f", "metropolis_update"), ("-F", "metropolis_update"), ("-D", "metropolis_update"), ("-r", "metropolis_update_rot_magnus"), ("-E", "metropolis_update_maglab"), ("-H", "metropolis_update")] {
        c.each(mode, variations(&Conf { log: false, ..Conf::default() }, false).into_iter().filter(|(_, c)| c.hsize <= 12).map(move |(n, conf)| {
            let x = if mode == "-D" { "1.5" } else { "-0.3" };
            let mut s = Scn::new(format!("{} {}", mode, n), &conf, &[mode, x]).curve(Curve { kind: 0, a: 0.1, b: 0.2 });
            s.full = true;
            s.fuel = 4_000_000_000;
            let f: Both = Box::new(fit_samples(kind));
            (s, f)
        }));
    }
}
pub fn c29(c: &mut Ctx) {
    let cv = Curve { kind: 1, a: 0.05, b: 0.9 };
    let base = Conf { ssize: 2, hsize: 4, log: false, beta: 0.9, tau: 33.0, t: 2.0, dt: 0.5, runs: 3, threads: 2, ..Conf::default() };
    let th = c.r.thorough();
    c.each("-A", variations(&base, th).into_iter().filter(|(_, c)| is_whole(2.0, c.dt) && is_whole(c.trel, 2.0) && c.dt > 0.1).map(move |(n, conf)| {
        let mut s = Scn::new(format!("-A 2 {}", n), &conf, &["-A", "2"]).curve(cv).with("beta.dat", b"1 2 3\n");
        s.fuel = 4_000_000_000;
        s.max_steps = 400_000;
        (s, with_settings(fit_oracle("-A", cv, 0.0, 2.0, conf, None), true, &[], vec![], None))
    }));
}
