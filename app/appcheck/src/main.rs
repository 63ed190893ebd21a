mod checks;
mod checks2;
mod core;
mod large;
mod obs;
mod vary;
use crate::core::*;
use report::serde_json::{json, Value};
use report::Report;

pub const IDS: [&str; 15] = ["C15", "C16", "C17", "C18", "C19", "C20", "C21", "C22", "C24", "C25", "C26", "C27", "C28", "C29", "C30"];

fn main() {
    std::panic::set_hook(Box::new(|i| {
        if std::env::var("VERIF_DEBUG").is_ok() {
            eprintln!("{}", i);
        }
    }));
    let a: Vec<String> = std::env::args().collect();
    let id = a.get(1).cloned().unwrap_or_default();
    if !IDS.contains(&id.as_str()) {
        eprintln!("usage: appcheck ID");
        std::process::exit(2);
    }
    let mut r = Report::new(&id);
    r.level_assumptions();
    let (budget, hard) = if r.thorough() { (600.0, 600.0) } else { (45.0, 240.0) };
    if a.len() > 4 && a[2] == "--shard" {
        let mut c = Ctx {
            r,
            shard: a[3].parse().unwrap(),
            nshard: a[4].parse().unwrap(),
            budget,
            hard,
            required: true,
            scn: 0,
            schedules: 0,
        };
        watch::start();
        checks::run(&id, &mut c);
        cleanup();
        let n = c.schedules;
        c.r.extra.insert("schedules".into(), json!(n));
        println!("SHARD {}", c.r.to_json());
        return;
    }
    let n = std::thread::available_parallelism().map(|n| n.get()).unwrap_or(4).clamp(1, 16);
    let me = std::env::current_exe().unwrap();
    let kids: Vec<_> = (0..n)
        .map(|i| {
            std::process::Command::new(&me)
                .args([&id, "--shard", &i.to_string(), &n.to_string()])
                .stdin(std::process::Stdio::null())
                .stdout(std::process::Stdio::piped())
                .spawn()
                .expect("worker")
        })
        .collect();
    let pids: Vec<u32> = kids.iter().map(|k| k.id()).collect();
    // a worker stuck in a loop without any visible operation is stopped and its share counts as unexplored
    let deadline = std::time::Duration::from_secs_f64(hard + 120.0);
    let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    let d2 = done.clone();
    let p2 = pids.clone();
    std::thread::spawn(move || {
        let t = std::time::Instant::now();
        while t.elapsed() < deadline {
            std::thread::sleep(std::time::Duration::from_millis(200));
            if d2.load(std::sync::atomic::Ordering::SeqCst) {
                return;
            }
        }
        for p in p2 {
            let _ = std::process::Command::new("kill").args(["-9", &p.to_string()]).status();
        }
    });
    let outs: Vec<_> = kids.into_iter().map(|k| std::thread::spawn(move || k.wait_with_output())).collect();
    let mut failed = 0;
    for o in outs {
        let o = o.join().unwrap();
        let got = o.ok().and_then(|o| {
            String::from_utf8_lossy(&o.stdout).lines().rev().find_map(|l| l.strip_prefix("SHARD ").map(|s| s.to_string()))
        });
        match got.and_then(|s| report::serde_json::from_str::<Value>(&s).ok()) {
            Some(v) => r.merge_json(&v),
            None => failed += 1,
        }
    }
    done.store(true, std::sync::atomic::Ordering::SeqCst);
    for p in pids {
        let _ = std::fs::remove_dir_all(format!("/dev/shm/verif-app-{}", p));
        let _ = std::fs::remove_dir_all(format!("{}/verif-app-{}", std::env::temp_dir().display(), p));
    }
    if failed > 0 {
        r.exhaustive = false;
        r.extra.insert("workers_lost".into(), json!(failed));
        eprintln!("{} worker(s) gave no answer", failed);
    }
    checks::conformance(&id, &mut r);
    std::process::exit(r.finish());
}
