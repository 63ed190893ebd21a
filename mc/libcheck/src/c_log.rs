use crate::c_obs::infer_j;
use crate::util::*;
use sc::spinchain::SpinChain;

fn rows(path: &str) -> Result<Vec<Vec<f64>>, String> {
    let s = std::fs::read_to_string(path).map_err(|e| e.to_string())?;
    if !s.is_empty() && !s.ends_with('\n') {
        return Err("file does not end with a newline".into());
    }
    s.lines()
        .map(|l| l.split(' ').filter(|x| !x.is_empty()).map(|x| x.parse::<f64>().map_err(|e| format!("{:?}: {}", x, e))).collect())
        .collect()
}

pub fn c13(r: &mut Report) {
    let th = r.thorough();
    let depth = if th { 7 } else { 5 };
    let mut items = vec![];
    for (l, ss) in [(4usize, 2usize), (4, 4), (6, 3), (8, 8), (8, 5), (6, 6), (16, 9), (16, 16), (30, 29), (200, 130)] {
        for d in 0..5 {
            items.push((l, ss, d));
        }
    }
    // every sequence of {update, log, log_ext} up to the depth: rows appear exactly for the logs, in order
    parallel(r, &items, |r, &(l, ss, d)| {
        let mut c = conf(l, ss);
        c.drive = drive(d);
        c.log = true;
        c.tau = 3.0;
        c.lambda = 0.7;
        c.dt = 0.037;
        c.trel = 0.5;
        c.jvar = 0.2;
        c.hvar = 0.3;
        c.hs = vec![0.3, -0.4, 0.5];
        let fail = |r: &mut Report, k: &str, m: String, seq: &Vec<usize>| r.violation(k, format!("L={} ss={} {}: {} after {:?}", l, ss, DRIVES[d], m, seq), json!({"L": l, "ssize": ss, "drive": DRIVES[d], "ops": seq}));
        // long chains: a prefix of the histories
        let depth = if l > 20 { 3 } else { depth };
        for code in 0..3usize.pow(depth as u32) {
            let mut x = code;
            let seq: Vec<usize> = (0..depth).map(|_| { let o = x % 3; x /= 3; o }).collect();
            c.file = scratch();
            tape::free_mild(code as u64 + 1);
            let num = code % 13;
            let mut ch = SpinChain::new(c.clone(), num);
            let path = format!("{}{}.dat", c.file, num);
            let sys = Sys { j: ch.j_couple.clone(), h: ch.static_h.clone(), c: c.clone() };
            let mut want: Vec<Option<Vec<f64>>> = vec![];
            let mut bad = None;
            for &o in &seq {
                r.transitions += 1;
                match o {
                    0 => ch.update(),
                    1 => {
                        let s = spins_of(&ch.spins);
                        let t = ch.t;
                        let sf = ss as f64;
                        let m = s[..ss].iter().fold([0.0; 3], |a, b| add(&a, b));
                        let mt = s.iter().fold([0.0; 3], |a, b| add(&a, b));
                        let e = (0..ss - 1).map(|n| sys.bond(&s, n) + dot(&s[n], &sys.field(n, t))).sum::<f64>() / (sf - 1.0);
                        let a = s[ss / 4];
                        let b = s[3 * ss / 4];
                        want.push(Some(vec![t, sys.e_ring(&s, t) / l as f64, e, m[0] / sf, m[1] / sf, m[2] / sf, mt[2] / l as f64, a[0], a[1], a[2], b[0], b[1], b[2]]));
                        if let Err(m) = guard(|| ch.log()) {
                            bad = Some(m);
                        }
                    }
                    _ => {
                        let s = spins_of(&ch.spins);
                        let t = ch.t;
                        for j in 1..ss.min(l - 1) {
                            let e = 0.5 * (sys.bond(&s, j - 1) + sys.bond(&s, j)) + dot(&s[j], &sys.field(j, t));
                            want.push(Some(vec![t, j as f64, e, s[j][0], s[j][1], s[j][2]]));
                        }
                        want.push(None);
                        if let Err(m) = guard(|| ch.log_ext()) {
                            bad = Some(m);
                        }
                    }
                }
                // what is in the file right now, before anything else happens
                match rows(&path) {
                    Ok(g) => {
                        if g.len() != want.len() {
                            bad = Some(format!("{} rows in the log instead of {}", g.len(), want.len()));
                        } else {
                            for (a, b) in g.iter().zip(&want) {
                                let b = b.clone().unwrap_or_default();
                                if a.len() != b.len() || a.iter().zip(&b).any(|(x, y)| !near(*x, *y, 1e-12)) || (!b.is_empty() && a[0] != b[0]) {
                                    bad = Some(format!("row {:?} instead of {:?}", a, b));
                                }
                            }
                        }
                    }
                    Err(m) => bad = Some(m),
                }
                if !sys.intact(&ch) {
                    bad = Some("logging changed the chain".into());
                }
                if bad.is_some() {
                    break;
                }
            }
            r.states += 1;
            r.traces += 1;
            if let Some(m) = bad {
                fail(r, "chain-log", m, &seq);
            }
            drop(ch);
            let _ = std::fs::remove_file(&path);
            // logging off: no file, nothing written
            if code % 9 == 4 {
                let mut cc = c.clone();
                cc.log = false;
                cc.file = scratch();
                let mut ch = SpinChain::new(cc.clone(), 3);
                for &o in &seq {
                    match o {
                        0 => ch.update(),
                        1 => ch.log(),
                        _ => ch.log_ext(),
                    }
                }
                if std::path::Path::new(&format!("{}3.dat", cc.file)).exists() || ch.file.is_some() {
                    fail(r, "log-disabled", "a log exists although logging is off".into(), &seq);
                }
            }
        }
    });
    // full precision at extreme states and times
    {
        let mut c = conf(4, 4);
        c.log = true;
        c.file = scratch();
        let mut ch = SpinChain::new(c.clone(), 0);
        let mut ts = vec![];
        for t in [0.1 + 0.2, 1e-9, 1.0 / 3.0, -123456.789012345, 1e15 + 0.5] {
            ch.t = t;
            ts.push(t);
            ch.log();
            r.transitions += 1;
        }
        let g = rows(&format!("{}0.dat", c.file)).unwrap_or_default();
        if g.len() != ts.len() || g.iter().zip(&ts).any(|(a, b)| a[0] != *b) {
            r.violation("precision", format!("times {:?} were logged as {:?}", ts, g.iter().map(|x| x[0]).collect::<Vec<_>>()), json!(ts));
        }
        if g.iter().any(|x| x.len() != 13 || x[7..10] != ch.spins[1].dir || x[10..13] != ch.spins[3].dir) {
            r.violation("precision", "probe spins are not logged at full precision".into(), json!(g));
        }
    }
    // Langevin
    let mut items = vec![];
    for (l, ss) in [(2usize, 2usize), (4, 4), (4, 3), (6, 6), (6, 2), (8, 8), (8, 5), (30, 30), (140, 90)] {
        for d in 0..5 {
            items.push((l, ss, d));
        }
    }
    parallel(r, &items, |r, &(l, ss, d)| {
        let mut c = conf(l, ss);
        c.log = true;
        c.drive = drive(d);
        c.tau = 3.0;
        c.trel = 0.5;
        c.jvar = if l > 2 { 0.2 } else { 0.0 };
        c.hvar = 0.3;
        c.hs = vec![0.3, -0.4, 0.5];
        let depth = if l > 20 { 3 } else { depth };
        for code in 0..2usize.pow(depth as u32) {
            c.file = scratch();
            tape::free_mild(code as u64 + 5);
            let mut lv = sc::spinchain_langevin::SpinChainLangevin::new(c.clone(), 4, 0.2);
            let path = format!("{}4.dat", c.file);
            let j = if l > 2 { infer_j(&mut lv) } else { vec![[1.0, 1.0, c.lambda]; 2] };
            let sys = Sys { j, h: lv.static_h.clone(), c: c.clone() };
            let mut want: Vec<Vec<f64>> = vec![];
            let mut bad = None;
            for b in 0..depth {
                r.transitions += 1;
                if (code >> b) & 1 == 0 {
                    tape::free_mild(b as u64);
                    lv.update();
                } else {
                    let s = spins_of(&lv.spins);
                    let t = lv.t;
                    let (lf, sf) = (l as f64, ss as f64);
                    let e = (0..ss - 1).map(|n| sys.bond(&s, n) + dot(&s[n], &sys.field(n, t))).sum::<f64>() / (sf - 1.0);
                    let m = s[..ss].iter().fold([0.0; 3], |a, b| add(&a, b));
                    let mt = s.iter().fold([0.0; 3], |a, b| add(&a, b));
                    want.push(vec![t, e, e, m[0] / sf, m[1] / sf, m[2] / sf, mt[2] / lf, lv.boundary_term()]);
                    lv.log();
                }
            }
            let text = std::fs::read_to_string(&path).unwrap_or_default();
            let ls: Vec<&str> = text.lines().collect();
            if ls.is_empty() || !ls[0].starts_with('#') || !text.ends_with('\n') {
                bad = Some("no header line".to_string());
            } else {
                let g: Vec<Vec<f64>> = ls[1..].iter().map(|l| l.split_whitespace().map(|x| x.parse().unwrap_or(f64::NAN)).collect()).collect();
                if g.len() != want.len() || g.iter().zip(&want).any(|(a, b)| a.len() != b.len() || a.iter().zip(b).any(|(x, y)| !near(*x, *y, 1e-12))) {
                    bad = Some(format!("rows {:?} instead of {:?}", g, want));
                }
            }
            r.states += 1;
            r.traces += 1;
            if let Some(m) = bad {
                r.violation("langevin-log", format!("L={} ss={} {}: {} (history {:b})", l, ss, DRIVES[d], m, code), json!({"L": l, "ssize": ss, "drive": DRIVES[d], "history": code}));
            }
            let _ = std::fs::remove_file(&path);
            // logging off: no file is created, and one of an earlier run is left alone
            if code % 3 == 1 {
                let mut cc = c.clone();
                cc.log = false;
                cc.file = scratch();
                for old in [None, Some("0 1 2 3 4 5 6 7\n")] {
                    let path = format!("{}4.dat", cc.file);
                    if let Some(t) = old {
                        std::fs::write(&path, t).unwrap();
                    }
                    let mut lv = sc::spinchain_langevin::SpinChainLangevin::new(cc.clone(), 4, 0.2);
                    for b in 0..depth {
                        if (code >> b) & 1 == 0 {
                            lv.update();
                        } else {
                            lv.log();
                        }
                    }
                    r.transitions += depth as u64;
                    if std::fs::read_to_string(&path).ok().as_deref() != old {
                        r.violation("langevin-log-disabled", format!("L={} ss={}: a log was {} although logging is off", l, ss, if old.is_none() { "created" } else { "changed" }), json!({"L": l, "ssize": ss, "history": code}));
                    }
                    let _ = std::fs::remove_file(&path);
                }
            }
        }
    });
    r.sample(json!({"L": 6, "ssize": 3, "drive": "xyplane", "ops": ["log", "update", "log_ext", "log"]}));
    r.extra.insert("bounds".into(), json!({"history_depth": depth, "alphabet": ["update", "log", "log_ext"]}));
}
