use crate::util::*;
use sc::config::Config;
use sc::spinchain::SpinChain;
use sc::spinchain_langevin::SpinChainLangevin;

/// Every documented key, two non-default spellings of its value, and how the value shows in the configuration.
fn keys() -> Vec<(&'static str, [&'static str; 2], [fn(&mut Config); 2])> {
    use sc::config::DriveType as D;
    vec![
        ("hsize", ["64", "6"], [|c| c.hsize = 64, |c| c.hsize = 6]),
        ("ssize", ["3", "5"], [|c| c.ssize = 3, |c| c.ssize = 5]),
        ("t", ["12.5", "1e3"], [|c| c.t = 12.5, |c| c.t = 1e3]),
        ("dt", ["0.005", "0.1"], [|c| c.dt = 0.005, |c| c.dt = 0.1]),
        ("runs", ["7", "0"], [|c| c.runs = 7, |c| c.runs = 0]),
        ("trel", ["3.25", "-1.5"], [|c| c.trel = 3.25, |c| c.trel = -1.5]),
        ("threads", ["5", "1"], [|c| c.threads = 5, |c| c.threads = 1]),
        ("tau", ["2.5", "0.1"], [|c| c.tau = 2.5, |c| c.tau = 0.1]),
        ("lambda", ["0.5", "-1.0"], [|c| c.lambda = 0.5, |c| c.lambda = -1.0]),
        ("hfield", ["[0.1, 0.2, 0.3]", "[-1.0, 0.0, 2.5]"], [|c| c.hfield = vec![0.1, 0.2, 0.3], |c| c.hfield = vec![-1.0, 0.0, 2.5]]),
        ("hs", ["[0.4, 0.5, 0.6]", "[0.0, -3.0, 0.25]"], [|c| c.hs = vec![0.4, 0.5, 0.6], |c| c.hs = vec![0.0, -3.0, 0.25]]),
        ("jvar", ["0.25", "0.0"], [|c| c.jvar = 0.25, |c| c.jvar = 0.0]),
        ("hvar", ["0.75", "1e-3"], [|c| c.hvar = 0.75, |c| c.hvar = 1e-3]),
        ("method", ["4", "1"], [|c| c.method = 4, |c| c.method = 1]),
        ("ednsty", ["-0.9", "0.3"], [|c| c.ednsty = -0.9, |c| c.ednsty = 0.3]),
        ("file", ["\"run-\"", "\"a b\""], [|c| c.file = "run-".into(), |c| c.file = "a b".into()]),
        ("strob", ["true", "true"], [|c| c.strob = true, |c| c.strob = true]),
        ("offset", ["17", "4000000000"], [|c| c.offset = 17, |c| c.offset = 4000000000]),
        ("beta", ["1.75", "-2.0"], [|c| c.beta = 1.75, |c| c.beta = -2.0]),
        ("mc_points", ["123", "1"], [|c| c.mc_points = 123, |c| c.mc_points = 1]),
        ("e", ["0.4", "-0.5"], [|c| c.e = 0.4, |c| c.e = -0.5]),
        ("drive", ["\"uniaxial\"", "\"none\""], [|c| c.drive = D::uniaxial, |c| c.drive = D::none]),
        ("drivetype", ["\"staticfield\"", "\"xyelliptic\""], [|c| c.drive = D::staticfield, |c| c.drive = D::xyelliptic]),
        ("log", ["false", "false"], [|c| c.log = false, |c| c.log = false]),
    ]
}
fn documented_default() -> Config {
    use sc::config::DriveType as D;
    Config {
        hsize: 512, ssize: 8, t: 256.0, dt: 0.02, runs: 2, threads: 2, trel: 0.0, tau: 10.0, lambda: 1.0,
        hfield: vec![0.0; 3], hs: vec![0.0; 3], jvar: 0.001, hvar: 0.0, method: 2, ednsty: -0.66, file: "log".into(),
        strob: false, offset: 0, beta: 2.88, e: 0.9, mc_points: 1000, drive: D::xyplane, log: true,
    }
}
fn read(lang: bool, path: &str) -> Result<Config, String> {
    guard(|| if lang { SpinChainLangevin::read_config(path) } else { SpinChain::read_config(path) })
}

pub fn c23(r: &mut Report) {
    let dir = format!("{}/conf", scratch_root());
    std::fs::create_dir_all(&dir).unwrap();
    let old = std::env::current_dir().unwrap();
    std::env::set_current_dir(&dir).unwrap();
    let ks = keys();
    let n = ks.len();
    let try_file = |r: &mut Report, text: &str, want: Option<&Config>, key: &str| {
        for lang in [false, true] {
            std::fs::write("c.toml", text).unwrap();
            let got = read(lang, "c.toml");
            r.transitions += 1;
            let ok = match (&got, want) {
                (Ok(g), Some(w)) => cstr(g) == cstr(w),
                (Err(_), None) => true,
                _ => false,
            };
            let same = std::fs::read_to_string("c.toml").unwrap() == text;
            if !ok || !same || std::path::Path::new("config.toml").exists() {
                r.violation(key, format!("file {:?} read as {:?}, expected {:?}{}", text, got.as_ref().map(cstr), want.map(cstr), if same { "" } else { "; the file was changed" }), json!({ "file": text }));
                let _ = std::fs::remove_file("config.toml");
            }
        }
        r.states += 1;
        r.traces += 1;
    };
    let mk = |sel: &[(usize, usize)]| -> (String, Config) {
        let mut c = documented_default();
        let mut t = String::new();
        for &(k, v) in sel {
            t += &format!("{} = {}\n", ks[k].0, ks[k].1[v]);
            ks[k].2[v](&mut c);
        }
        (t, c)
    };
    let keyname = |sel: &[(usize, usize)]| if sel.iter().any(|s| ks[s.0].0 == "drivetype") { "drivetype" } else { "keys" };
    let clash = |a: usize, b: usize| a == b || (ks[a].0.starts_with("drive") && ks[b].0.starts_with("drive"));
    // nothing, one key, every ordered pair, (every ordered triple when thorough), all keys in every rotation and reversed
    try_file(r, "", Some(&documented_default()), "defaults");
    try_file(r, "# only a comment\n", Some(&documented_default()), "defaults");
    for a in 0..n {
        for va in 0..2 {
            let s = [(a, va)];
            let (t, c) = mk(&s);
            try_file(r, &t, Some(&c), keyname(&s));
            for b in 0..n {
                if clash(a, b) {
                    continue;
                }
                let s = [(a, va), (b, (va + b) % 2)];
                let (t, c) = mk(&s);
                try_file(r, &t, Some(&c), keyname(&s));
                if r.thorough() {
                    for d in 0..n {
                        if clash(a, d) || clash(b, d) {
                            continue;
                        }
                        let s = [(a, va), (b, (va + b) % 2), (d, (va + d) % 2)];
                        let (t, c) = mk(&s);
                        try_file(r, &t, Some(&c), keyname(&s));
                    }
                }
            }
        }
    }
    for dk in ["drive", "drivetype"] {
        let all: Vec<usize> = (0..n).filter(|&k| !ks[k].0.starts_with("drive") || ks[k].0 == dk).collect();
        for v in 0..2 {
            for rot in 0..all.len() {
                for rev in [false, true] {
                    let mut s: Vec<(usize, usize)> = (0..all.len()).map(|i| (all[(i + rot) % all.len()], v)).collect();
                    if rev {
                        s.reverse();
                    }
                    let (t, c) = mk(&s);
                    try_file(r, &t, Some(&c), keyname(&s));
                }
            }
        }
    }
    // every drive type by name
    for d in 0..5 {
        let mut c = documented_default();
        c.drive = drive(d);
        try_file(r, &format!("drive = \"{}\"\n", DRIVES[d]), Some(&c), "keys");
        try_file(r, &format!("drivetype = \"{}\"\n", DRIVES[d]), Some(&c), "drivetype");
    }
    // malformed and ill-typed files are refused, whichever key is wrong
    let mut bads: Vec<String> = vec!["hsize = \n".into(), "hsize 12\n".into(), "= 3\n".into(), "hsize = 4\nhsize = 6\n".into(), "[[[\n".into(), "drive = \"sideways\"\n".into(), "\u{0}\n".into(), "tau = 1.0 2.0\n".into()];
    for (k, _, _) in &ks {
        for w in ["\"oops\"", "[1, 2", "{ a = 1 }", "tru", "1979-05-27"] {
            if (*k == "file") && w == "\"oops\"" {
                continue;
            }
            bads.push(format!("{} = {}\n", k, w));
            bads.push(format!("lambda = 0.5\n{} = {}\nbeta = 1.0\n", if *k == "lambda" || *k == "beta" { "tau" } else { k }, w));
        }
    }
    for k in ["threads", "offset", "mc_points"] {
        bads.push(format!("{} = -1\n", k));
        bads.push(format!("{} = 1.5\n", k));
    }
    for k in ["hsize", "ssize", "runs", "method"] {
        bads.push(format!("{} = 1.5\n", k));
    }
    for k in ["strob", "log"] {
        bads.push(format!("{} = 1\n", k));
    }
    for t in &bads {
        let key = if t.contains("drivetype") { "drivetype" } else { "refused" };
        try_file(r, t, None, key);
    }
    // not even text: refused and left alone
    for lang in [false, true] {
        for name in ["c.toml", "config.toml"] {
            for bytes in [&b"\xff\xfe\x00"[..], &b"hsize = 4\nfile = \"\xe9\"\n"[..], &b"# \xc3\nhsize = 4\n"[..]] {
                std::fs::write(name, bytes).unwrap();
                let got = read(lang, name);
                r.transitions += 1;
                if got.is_ok() || std::fs::read(name).unwrap() != bytes || (name == "c.toml" && std::path::Path::new("config.toml").exists()) {
                    r.violation("not-text", format!("bytes {:?} read as {:?}", bytes, got.map(|c| cstr(&c))), json!({ "bytes": bytes }));
                }
                let _ = std::fs::remove_file("config.toml");
            }
        }
    }
    // a missing file: defaults, and they are written
    for lang in [false, true] {
        let _ = std::fs::remove_file("config.toml");
        let got = read(lang, "config.toml");
        r.transitions += 1;
        let again = read(lang, "config.toml");
        if got.as_ref().map(cstr) != Ok(cstr(&documented_default())) || again.as_ref().map(cstr) != Ok(cstr(&documented_default())) || !std::path::Path::new("config.toml").exists() {
            r.violation("missing", format!("missing file: {:?} then {:?}", got.map(|c| cstr(&c)), again.map(|c| cstr(&c))), json!({ "langevin": lang }));
        }
        let _ = std::fs::remove_file("config.toml");
    }
    // write and read back: every key singly and jointly, and awkward numbers
    let mut all: Vec<Config> = vec![documented_default(), Config::default()];
    for a in 0..n {
        for v in 0..2 {
            let mut c = documented_default();
            ks[a].2[v](&mut c);
            all.push(c);
        }
    }
    for v in [0.1 + 0.2, 1e-300, 1e300, 5e-324, -0.0, 123456789.123456789, 1.0, -7.0, 1e21] {
        let mut c = documented_default();
        c.t = v;
        c.dt = v;
        c.trel = v;
        c.tau = v;
        c.lambda = v;
        c.hfield = vec![v, -v, v];
        c.hs = vec![v, v, -v];
        c.jvar = v;
        c.hvar = v;
        c.ednsty = v;
        c.beta = v;
        c.e = v;
        c.file = "we\"ird\\n\u{e9} =#".into();
        all.push(c);
    }
    for c in &all {
        let t = toml::to_string(c).unwrap();
        std::fs::write("c.toml", &t).unwrap();
        let got = read(false, "c.toml");
        // and as the program itself writes it
        let written = c.write("c.toml").map_err(|e| e.to_string()).and_then(|_| read(true, "c.toml"));
        r.transitions += 2;
        r.states += 1;
        if written.as_ref().map(cstr) != Ok(cstr(c)) {
            r.violation("roundtrip", format!("{:?} written by the program and read back as {:?}", cstr(c), written.map(|c| cstr(&c))), json!({ "file": t }));
        }
        if got.as_ref().map(cstr) != Ok(cstr(c)) {
            r.violation("roundtrip", format!("{:?} written and read back as {:?}", cstr(c), got.map(|c| cstr(&c))), json!({ "file": t }));
        }
    }
    // the shipped description covers every key
    let d = sc::config::CS;
    let missing: Vec<&str> = ks.iter().map(|k| k.0).filter(|k| *k != "drivetype" && !d.lines().any(|l| l.split(|c: char| !c.is_alphanumeric() && c != '_').any(|w| w == *k || (*k == "drive" && w == "drivetype")))).collect();
    r.transitions += 1;
    if !missing.is_empty() {
        r.violation("description", format!("the description printed for the user does not mention {:?}", missing), json!(missing));
    }
    std::env::set_current_dir(old).unwrap();
    r.sample(json!({"file": "tau = 2.5\ndrivetype = \"staticfield\"\n"}));
    r.extra.insert("bounds".into(), json!({"keys": n, "combinations": "none, singles, ordered pairs, all (every rotation, both directions)", "invalid_files": bads.len()}));
}
