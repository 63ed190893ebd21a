//! Running one invocation of the application under a plan, and exploring all plans within a bound.
use report::serde_json::{json, Value};
use report::Report;
use std::collections::{BTreeMap, BTreeSet};
use std::path::PathBuf;
use std::sync::atomic::Ordering::SeqCst;
use vhook::{Curve, Ev};
use vstd::rt::{self, CrashAt, End, Plan};

pub type Files = BTreeMap<String, Vec<u8>>;

#[derive(Clone, Default)]
pub struct Scn {
    pub name: String,
    pub pre: Files,
    pub args: Vec<String>,
    pub curve: Option<Curve>,
    pub hist: bool,
    /// writes take at most so many bytes at a time
    pub chop: usize,
    /// what the histogram mode sees of its attempts at a starting state
    pub script: Vec<vhook::Attempt>,
    /// sweep counts as they are in the source
    pub full: bool,
    /// how many preemptive (or, with `delay`, any non-default) scheduling choices
    pub bound: usize,
    /// also count choices made when the running thread cannot go on
    pub delay: bool,
    pub seed: u64,
    pub max_steps: usize,
    pub fuel: u64,
}
impl Scn {
    pub fn new(name: impl Into<String>, conf: &Conf, args: &[&str]) -> Scn {
        let mut pre = Files::new();
        pre.insert("config.toml".into(), conf.toml().into_bytes());
        Scn {
            name: name.into(),
            pre,
            args: args.iter().map(|s| s.to_string()).collect(),
            seed: 1,
            max_steps: 40_000,
            fuel: 300_000_000,
            ..Default::default()
        }
    }
    pub fn bound(mut self, b: usize) -> Scn {
        self.bound = b;
        self
    }
    pub fn delay(mut self) -> Scn {
        self.delay = true;
        self
    }
    pub fn with(mut self, name: &str, data: &[u8]) -> Scn {
        self.pre.insert(name.into(), data.to_vec());
        self
    }
    pub fn curve(mut self, c: Curve) -> Scn {
        self.curve = Some(c);
        self
    }
    pub fn seed(mut self, s: u64) -> Scn {
        self.seed = s;
        self
    }
    pub fn describe(&self) -> Value {
        json!({"scenario": self.name, "args": self.args, "bytes_per_write": self.chop,
            "config.toml": self.pre.get("config.toml").map(|b| String::from_utf8_lossy(b).into_owned()),
            "files_before": self.pre.keys().cloned().collect::<Vec<_>>()})
    }
}

pub struct Out {
    pub end: End,
    pub usage: bool,
    pub files: Files,
    pub trace: Vec<Ev>,
    pub stdout: String,
    pub panics: Vec<String>,
    pub ops: Vec<(PathBuf, &'static str, usize)>,
    pub points: Vec<rt::Point>,
    pub threads: usize,
    pub steps: usize,
    pub attempts: Vec<(usize, u64)>,
}
impl Out {
    pub fn text(&self, f: &str) -> Option<String> {
        self.files.get(f).map(|b| String::from_utf8_lossy(b).into_owned())
    }
    pub fn bursts(&self) -> Vec<(usize, &'static str, u64, &vhook::Snap)> {
        self.trace.iter().filter_map(|e| match e {
            Ev::Mc { th, kind, calls, snap } => Some((*th, *kind, *calls, snap)),
            _ => None,
        }).collect()
    }
    pub fn runs(&self) -> Vec<Run<'_>> {
        let mut v = vec![];
        let mut last: BTreeMap<usize, &vhook::Snap> = BTreeMap::new();
        for e in &self.trace {
            match e {
                Ev::Mc { th, snap, .. } => {
                    last.insert(*th, snap);
                }
                Ev::Run { th, start, kinds, states } => {
                    v.push(Run { start, kinds, states, mc: last.remove(th) })
                }
            }
        }
        v
    }
}
pub struct Run<'a> {
    pub start: &'a vhook::Snap,
    pub kinds: &'a Vec<&'static str>,
    pub states: &'a Vec<(f64, Vec<[f64; 3]>)>,
    /// the Monte-Carlo burst that prepared it
    pub mc: Option<&'a vhook::Snap>,
}
impl Run<'_> {
    pub fn snap(&self, i: usize) -> vhook::Snap {
        let mut s = self.start.clone();
        s.t = self.states[i].0;
        s.spins = self.states[i].1.clone();
        s
    }
    pub fn last(&self) -> vhook::Snap {
        self.snap(self.states.len() - 1)
    }
}

pub fn scratch_dir() -> String {
    let base = if std::fs::metadata("/dev/shm").map(|m| m.is_dir()).unwrap_or(false)
        && std::fs::create_dir_all(format!("/dev/shm/verif-app-{}", std::process::id())).is_ok()
    {
        "/dev/shm".to_string()
    } else {
        std::env::temp_dir().display().to_string()
    };
    format!("{}/verif-app-{}", base, std::process::id())
}

pub fn prepare(pre: &Files) {
    let d = scratch_dir();
    let _ = std::fs::create_dir_all(&d);
    std::env::set_current_dir(&d).expect("scratch directory");
    for e in std::fs::read_dir(".").unwrap().flatten() {
        let p = e.path();
        if p.is_dir() {
            let _ = std::fs::remove_dir_all(p);
        } else {
            let _ = std::fs::remove_file(p);
        }
    }
    for (k, v) in pre {
        if let Some((dir, _)) = k.rsplit_once('/') {
            let _ = std::fs::create_dir_all(dir);
        }
        std::fs::write(k, v).unwrap();
    }
}
pub fn cleanup() {
    let _ = std::env::set_current_dir("/");
    let _ = std::fs::remove_dir_all(scratch_dir());
}

pub fn run_once(s: &Scn, prefix: &[usize], shared: &BTreeSet<PathBuf>, crash: Option<CrashAt>) -> (Out, rt::Result) {
    prepare(&s.pre);
    vhook::reset(s.fuel);
    vhook::set_curve(s.curve);
    vhook::HIST.store(s.hist, SeqCst);
    vhook::CHOP.store(s.chop, SeqCst);
    vhook::set_script(s.script.clone());
    let mut args = vec!["sc".to_string()];
    args.extend(s.args.iter().cloned());
    let plan = Plan {
        args,
        prefix: prefix.to_vec(),
        crash,
        shared: shared.clone(),
        max_steps: s.max_steps,
        seed: s.seed,
    };
    watch::begin(s);
    let mut r = rt::execute(plan, if s.full { appfull::verif_main } else { app::verif_main });
    watch::end();
    let o = Out {
        end: r.end.clone().unwrap_or(End::Runaway),
        usage: r.usage,
        files: std::mem::take(&mut r.files),
        trace: vhook::take_trace(),
        stdout: vhook::take_stdout(),
        panics: std::mem::take(&mut r.panics),
        ops: std::mem::take(&mut r.ops),
        points: std::mem::take(&mut r.points),
        threads: r.threads,
        steps: r.steps,
        attempts: vhook::script_seen(),
    };
    (o, r)
}

pub type Oracle = Box<dyn Fn(&Scn, &Out) -> Verdict>;
pub type Verdict = Result<(), (String, String)>;
pub fn bad<T>(key: &str, msg: impl Into<String>) -> Result<T, (String, String)> {
    Err((key.to_string(), msg.into()))
}

pub struct Ctx {
    pub r: Report,
    pub shard: usize,
    pub nshard: usize,
    /// seconds after which schedules are not explored any deeper
    pub budget: f64,
    /// seconds after which even what is required is given up
    pub hard: f64,
    /// is what is being explored required?
    pub required: bool,
    pub scn: usize,
    pub schedules: u64,
}
impl Ctx {
    pub fn out_of_time(&self) -> bool {
        let t = self.r.elapsed();
        t > self.hard || (t > self.budget && (!self.required || self.r.nviol() > 0))
    }
    /// For scenarios distributed whole: is the next one ours?
    pub fn mine(&mut self) -> bool {
        self.scn += 1;
        self.scn % self.nshard == self.shard
    }
    fn account(&mut self, o: &Out) {
        self.account_from(o, 0)
    }
    /// New nodes of the schedule tree and file-system states reached, visible operations carried out, executions.
    pub fn account_from(&mut self, o: &Out, prefix: usize) {
        self.r.states += 1 + (o.points.len().saturating_sub(prefix)) as u64 + o.ops.len() as u64;
        self.r.transitions += (o.steps + o.ops.len()) as u64;
        self.r.traces += 1;
    }
    pub fn report(&mut self, s: &Scn, o: &Out, v: Verdict, extra: Value) {
        if let Err((k, m)) = v {
            let ch: Vec<usize> = o.points.iter().map(|p| p.chosen).collect();
            self.r.violation(&k, format!("{}: {} (args {:?}, end {:?}{})", s.name, m, s.args, o.end,
                if o.panics.is_empty() { String::new() } else { format!(", panics {:?}", o.panics) }),
                json!({"scenario": s.describe(), "schedule": ch, "extra": extra}));
        }
    }
    /// One execution with the default schedule.
    pub fn single(&mut self, s: &Scn, oracle: impl Fn(&Scn, &Out) -> Verdict) -> Out {
        // every third scenario on a file system that takes only a few bytes per write
        let t = Scn { chop: if self.scn % 3 == 0 { 16 } else { 0 }, ..s.clone() };
        let s = &t;
        let (o, _) = run_once(s, &[], &BTreeSet::new(), None);
        self.account(&o);
        let v = oracle(s, &o);
        self.report(s, &o, v, json!(null));
        o
    }
    /// Every scenario under every schedule with 0, 1, .. preemptions: at least up to the scenario's own bound, then
    /// deeper and deeper while there is time.
    pub fn deepen(&mut self, v: Vec<(Scn, Oracle)>, max: usize) {
        for required in [true, false] {
            self.required = required;
            for b in 0..=max {
                for (s, o) in &v {
                    if required != (b <= s.bound) || (!required && self.out_of_time()) {
                        continue;
                    }
                    let e = self.r.exhaustive;
                    let mut t = s.clone();
                    t.bound = b;
                    self.explore(&t, o);
                    if !required {
                        self.r.exhaustive = e;
                    }
                }
            }
            if required && self.shard == 0 {
                let t = self.r.elapsed();
                self.r.extra.insert("required_bounds_done_after_s".into(), json!(t));
            }
        }
        self.required = true;
    }
    /// Every schedule within the scenario's bound (this shard's part of them).
    pub fn explore(&mut self, s: &Scn, oracle: impl Fn(&Scn, &Out) -> Verdict) {
        let mut shared: BTreeSet<PathBuf> = BTreeSet::new();
        let before = self.r.nviol();
        let count0 = self.schedules;
        'restart: loop {
            let mut stack: Vec<Vec<usize>> = vec![vec![]];
            let mut n = 0u64;
            let mut level1 = 0usize;
            while let Some(p) = stack.pop() {
                if self.out_of_time() {
                    self.r.exhaustive = false;
                    let k = format!("unfinished: {} ({} preemptions)", s.name, s.bound);
                    *self.r.extra.entry(k).or_insert(json!(0)) = json!(1);
                    break 'restart;
                }
                let (o, r) = run_once(s, &p, &shared, None);
                if r.diverged {
                    self.r.exhaustive = false;
                    *self.r.extra.entry("diverged").or_insert(json!(0)) = json!(1);
                }
                // files written by several threads become scheduling points; start over when one is found
                let mut grew = false;
                for (f, w) in &r.writers {
                    if w.len() > 1 && shared.insert(f.clone()) {
                        grew = true;
                    }
                }
                if grew {
                    self.schedules = count0;
                    continue 'restart;
                }
                self.account_from(&o, p.len());
                n += 1;
                if !(p.is_empty() && self.shard != 0) {
                    self.schedules += 1;
                    let v = oracle(s, &o);
                    self.report(s, &o, v, json!(null));
                }
                if self.r.nviol() > before + 20 {
                    break 'restart;
                }
                // children: deviate at every later point
                let chosen: Vec<usize> = o.points.iter().map(|x| x.chosen).collect();
                let cost = |i: usize, alt: usize| -> usize {
                    if alt == 0 { 0 } else if o.points[i].preempt || s.delay { 1 } else { 0 }
                };
                let mut spent: usize = (0..p.len().min(chosen.len())).map(|i| cost(i, chosen[i])).sum();
                for i in p.len()..o.points.len() {
                    for alt in 1..o.points[i].n {
                        if spent + cost(i, alt) <= s.bound {
                            if p.is_empty() {
                                level1 += 1;
                                if level1 % self.nshard != self.shard {
                                    continue;
                                }
                            }
                            let mut c = chosen[..i].to_vec();
                            c.push(alt);
                            stack.push(c);
                        }
                    }
                    spent += cost(i, chosen[i]);
                }
            }
            let k = format!("schedules: {} ({} preemptions)", s.name, s.bound);
            let n = if self.shard == 0 { n } else { n - 1 };
            *self.r.extra.entry(k).or_insert(json!(0)) = json!(n);
            break;
        }
        if std::env::var("VERIF_DEBUG").is_ok() && self.shard == 0 {
            eprintln!("{:.1}s after {} bound {} ({} schedules here)", self.r.elapsed(), s.name, s.bound, self.schedules);
        }
        if self.shard == 0 {
            self.r.sample(json!({"scenario": s.name, "args": s.args, "bound": s.bound}));
        }
    }
}

// ---------- configuration ----------
#[derive(Clone, Debug)]
pub struct Conf {
    pub hsize: i32,
    pub ssize: i32,
    pub t: f64,
    pub dt: f64,
    pub runs: i32,
    pub threads: usize,
    pub trel: f64,
    pub tau: f64,
    pub lambda: f64,
    pub hfield: [f64; 3],
    pub hs: [f64; 3],
    pub jvar: f64,
    pub hvar: f64,
    pub ednsty: f64,
    pub file: String,
    pub strob: bool,
    pub offset: u32,
    pub beta: f64,
    pub mc_points: usize,
    pub e: f64,
    pub drive: String,
    pub log: bool,
}
impl Default for Conf {
    fn default() -> Conf {
        Conf {
            hsize: 4, ssize: 2, t: 0.4, dt: 0.1, runs: 2, threads: 2, trel: 0.0, tau: 1.0, lambda: 0.8,
            hfield: [0.05, -0.1, 0.2], hs: [0.3, 0.1, -0.2], jvar: 0.1, hvar: 0.1, ednsty: -0.4, file: "log".into(),
            strob: false, offset: 0, beta: 1.7, mc_points: 2, e: 0.9, drive: "xyplane".into(), log: true,
        }
    }
}
fn fl(x: f64) -> String {
    let s = format!("{:?}", x);
    s
}
impl Conf {
    pub fn toml(&self) -> String {
        let v = |a: &[f64; 3]| format!("[{}, {}, {}]", fl(a[0]), fl(a[1]), fl(a[2]));
        format!("hsize = {}\nssize = {}\nt = {}\ndt = {}\nruns = {}\ntrel = {}\nthreads = {}\ntau = {}\nlambda = {}\nhfield = {}\nhs = {}\njvar = {}\nhvar = {}\nmethod = 2\nednsty = {}\nfile = \"{}\"\nstrob = {}\noffset = {}\nbeta = {}\nmc_points = {}\ne = {}\ndrive = \"{}\"\nlog = {}\n",
            self.hsize, self.ssize, fl(self.t), fl(self.dt), self.runs, fl(self.trel), self.threads, fl(self.tau), fl(self.lambda), v(&self.hfield), v(&self.hs), fl(self.jvar), fl(self.hvar), fl(self.ednsty), self.file, self.strob, self.offset, fl(self.beta), self.mc_points, fl(self.e), self.drive, self.log)
    }
}
/// A configuration file as key -> value (TOML scalar text).
pub fn keys(text: &str) -> Option<BTreeMap<String, String>> {
    let mut m = BTreeMap::new();
    let mut acc = String::new();
    for l in text.lines() {
        let l = l.trim();
        if acc.is_empty() && (l.is_empty() || l.starts_with('#')) {
            continue;
        }
        acc.push_str(l);
        if acc.matches('[').count() > acc.matches(']').count() {
            acc.push(' ');
            continue;
        }
        let (k, v) = acc.split_once('=')?;
        let v: String = v.trim().chars().filter(|c| !c.is_whitespace()).collect();
        m.insert(k.trim().to_string(), v.replace(",]", "]"));
        acc.clear();
    }
    if acc.is_empty() {
        Some(m)
    } else {
        None
    }
}
pub fn num(m: &BTreeMap<String, String>, k: &str) -> f64 {
    m.get(k).and_then(|v| v.parse().ok()).unwrap_or(f64::NAN)
}
/// Same settings: values compared as numbers where they are numbers.
pub fn same_value(a: &str, b: &str) -> bool {
    if a == b {
        return true;
    }
    let p = |s: &str| -> Option<Vec<f64>> {
        s.trim_matches(|c| c == '[' || c == ']').split(',').map(|x| x.parse::<f64>().ok()).collect()
    };
    matches!((p(a), p(b)), (Some(x), Some(y)) if x == y)
}

// ---------- rows ----------
/// Complete data lines of a file; None if the last line is not terminated or a field is not a number.
pub fn rows(text: &str) -> Option<Vec<Vec<f64>>> {
    if !text.is_empty() && !text.ends_with('\n') {
        return None;
    }
    text.lines().map(|l| l.split_whitespace().map(|x| x.parse::<f64>().ok()).collect::<Option<Vec<f64>>>()).collect()
}
pub fn near(a: f64, b: f64) -> bool {
    (a - b).abs() <= 1e-11 + 1e-11 * a.abs().max(b.abs())
}
pub fn near_row(a: &[f64], b: &[f64]) -> bool {
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y))
}
/// Injective matching of rows to candidates (greedy: candidates are generic, so equal ones are interchangeable).
pub fn match_rows(rows: &[Vec<f64>], cand: &[Vec<f64>]) -> Result<Vec<usize>, usize> {
    let mut used = vec![false; cand.len()];
    let mut out = vec![];
    for (i, r) in rows.iter().enumerate() {
        match (0..cand.len()).find(|&k| !used[k] && near_row(r, &cand[k])) {
            Some(k) => {
                used[k] = true;
                out.push(k);
            }
            None => return Err(i),
        }
    }
    Ok(out)
}

/// A single execution which burns processor time without a visible operation or a chain operation never ends: nothing
/// inside it can notice, so a separate thread does. (Processor time, so that a busy machine is no excuse for an alarm.)
pub mod watch {
    use super::*;
    use std::sync::atomic::AtomicBool;
    use std::sync::Mutex;
    static RUNNING: AtomicBool = AtomicBool::new(false);
    static WHAT: Mutex<Option<Scn>> = Mutex::new(None);
    static SINCE: Mutex<f64> = Mutex::new(0.0);
    const LIMIT: f64 = 100.0;

    /// Seconds of processor time used by this process
    fn cpu() -> f64 {
        let s = std::fs::read_to_string("/proc/self/stat").unwrap_or_default();
        let f: Vec<&str> = s.rsplit(')').next().unwrap_or("").split_whitespace().collect();
        let ticks = |i: usize| f.get(i).and_then(|x| x.parse::<f64>().ok()).unwrap_or(0.0);
        (ticks(11) + ticks(12)) / 100.0
    }
    fn progress() -> (u64, u64) {
        (vhook::FUEL.load(SeqCst), rt::progress())
    }
    pub fn begin(s: &Scn) {
        *WHAT.lock().unwrap() = Some(s.clone());
        *SINCE.lock().unwrap() = -1.0;
        RUNNING.store(true, SeqCst);
    }
    pub fn end() {
        RUNNING.store(false, SeqCst);
    }
    pub fn start() {
        std::thread::spawn(|| {
            let mut last = progress();
            loop {
                std::thread::sleep(std::time::Duration::from_millis(500));
                let now = cpu();
                let p = progress();
                let mut since = SINCE.lock().unwrap();
                if p != last || *since < 0.0 || !RUNNING.load(SeqCst) {
                    *since = now;
                    last = p;
                    continue;
                }
                if now - *since < LIMIT {
                    continue;
                }
                if let Some(s) = WHAT.lock().unwrap().clone() {
                    let msg = format!("{}: never ends: no operation for {} s of processor time (args {:?})", s.name, LIMIT, s.args);
                    println!(
                        "SHARD {}",
                        json!({"states": 0, "transitions": 0, "traces": 0, "exhaustive": false, "samples": [], "extra": {},
                            "viol": [["endless", 1, msg, {"scenario": s.describe(), "schedule": [], "extra": null}]]})
                    );
                    cleanup();
                    std::process::exit(0);
                }
            }
        });
    }
}
