#![allow(dead_code)]
//! Exhaustive bounded exploration of the numerical library `sc` (spins, chains, samplers, logs, configuration).
mod util;
mod c_spin;
mod c_dyn;
mod c_obs;
mod c_mc;
mod c_init;
mod c_lang;
mod c_log;
mod c_conf;

use report::Report;

fn main() {
    util::quiet_panics();
    let id = std::env::args().nth(1).unwrap_or_default();
    let mut r = Report::new(&id);
    let f: fn(&mut Report) = match id.as_str() {
        "C01" => c_spin::c01,
        "C02" => c_spin::c02,
        "C03" => c_dyn::c03,
        "C04" => c_dyn::c04,
        "C05" => c_obs::c05,
        "C06" => c_obs::c06,
        "C07" => c_mc::c07,
        "C08" => c_mc::c08,
        "C09" => c_init::c09,
        "C10" => c_init::c10,
        "C11" => c_lang::c11,
        "C12" => c_lang::c12,
        "C13" => c_log::c13,
        "C14" => c_obs::c14,
        "C23" => c_conf::c23,
        _ => {
            eprintln!("unknown property {:?}", id);
            std::process::exit(3)
        }
    };
    watch(&id);
    if let Err(m) = util::guard(|| f(&mut r)) {
        r.violation("panic", format!("panic outside an enumerated case: {}", m), report::serde_json::json!({ "panic": m }));
    }
    let code = r.finish();
    util::cleanup();
    std::process::exit(code);
}

/// The quick tier needs well below 60 s of processor time. A call of the library which never returns cannot be interrupted
/// from within; at many times that budget it is called what it is. (Processor time: a busy machine is no excuse.)
fn watch(id: &str) {
    let r = Report::new(id);
    if r.thorough() {
        return;
    }
    std::thread::spawn(move || loop {
        std::thread::sleep(std::time::Duration::from_secs(1));
        let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
        let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        let ticks = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
        if (ticks(11) + ticks(12)) / 100.0 > 500.0 {
            let mut r = r;
            r.exhaustive = false;
            r.violation("endless", "a call of the library does not return".to_string(), report::serde_json::json!({}));
            std::process::exit(r.finish());
        }
    });
}
