//! Recording hooks placed by gen.py at the entry points of the two chain engines, and the bookkeeping shared with
//! the controlled `vstd`.
use std::cell::{Cell, RefCell};
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering::SeqCst};
use std::sync::Mutex;

/// Payload used to unwind threads of an execution which is over.
pub struct Abort;
pub static ABORT: AtomicBool = AtomicBool::new(false);
pub static RUNAWAY: AtomicBool = AtomicBool::new(false);
/// Chain operations left in this execution before it is called non-terminating.
pub static FUEL: AtomicU64 = AtomicU64::new(0);

/// What a chain looks like after an operation.
#[derive(Clone, Debug, Default)]
pub struct Snap {
    pub lang: bool,
    pub t: f64,
    pub tau: f64,
    pub dt: f64,
    pub tt: f64,
    pub beta: f64,
    pub gamma: f64,
    pub e: f64,
    pub hsize: usize,
    pub ssize: usize,
    pub strob: bool,
    pub trel: f64,
    pub hs: Vec<f64>,
    pub drive: String,
    pub file: String,
    pub spins: Vec<[f64; 3]>,
    pub j: Vec<[f64; 3]>,
    pub h: Vec<[f64; 3]>,
}

#[derive(Clone, Debug)]
pub enum Ev {
    /// A burst of Monte-Carlo calls without observation in between, and the chain at its end.
    Mc { th: usize, kind: &'static str, calls: u64, snap: Snap },
    /// An uninterrupted sequence of time steps: chain before the first, kind of each, (t, spins) after each.
    Run { th: usize, start: Snap, kinds: Vec<&'static str>, states: Vec<(f64, Vec<[f64; 3]>)> },
}

struct Tl {
    th: usize,
    kind: &'static str,
    snap: Option<Snap>,
    run: Option<(Snap, Vec<&'static str>, Vec<(f64, Vec<[f64; 3]>)>)>,
    out: Vec<Ev>,
}

thread_local! {
    static N: Cell<u64> = const { Cell::new(0) };
    static DEPTH: Cell<u32> = const { Cell::new(0) };
    static TL: RefCell<Tl> = const { RefCell::new(Tl { th: usize::MAX, kind: "", snap: None, run: None, out: Vec::new() }) };
}
static TRACE: Mutex<Vec<Ev>> = Mutex::new(Vec::new());
static STDOUT: Mutex<String> = Mutex::new(String::new());

pub fn reset(fuel: u64) {
    ABORT.store(false, SeqCst);
    RUNAWAY.store(false, SeqCst);
    FUEL.store(fuel, SeqCst);
    TRACE.lock().unwrap().clear();
    STDOUT.lock().unwrap().clear();
}
pub fn set_thread(th: usize) {
    N.with(|n| n.set(0));
    DEPTH.with(|d| d.set(0));
    TL.with(|t| {
        *t.borrow_mut() = Tl { th, kind: "", snap: None, run: None, out: vec![] };
    });
}
/// Moves this thread's records to the execution's trace.
pub fn flush() {
    close_mc();
    close_run();
    TL.with(|t| {
        let mut t = t.borrow_mut();
        TRACE.lock().unwrap().append(&mut t.out);
    });
}
pub fn take_trace() -> Vec<Ev> {
    std::mem::take(&mut TRACE.lock().unwrap())
}
pub fn take_stdout() -> String {
    std::mem::take(&mut STDOUT.lock().unwrap())
}
pub fn abort_point() {
    if ABORT.load(SeqCst) && !std::thread::panicking() {
        std::panic::resume_unwind(Box::new(Abort));
    }
}
fn spend(n: u64) {
    let left = FUEL.load(SeqCst);
    if left < n {
        RUNAWAY.store(true, SeqCst);
        if !std::thread::panicking() {
            std::panic::resume_unwind(Box::new(Abort));
        }
    } else {
        FUEL.store(left - n, SeqCst);
    }
}

fn close_mc() {
    let calls = N.with(|n| n.replace(0));
    TL.with(|t| {
        let mut t = t.borrow_mut();
        if let Some(s) = t.snap.take() {
            let (th, kind) = (t.th, t.kind);
            BURSTS.fetch_add(1, SeqCst);
            t.out.push(Ev::Mc { th, kind, calls, snap: s });
        }
    });
}
fn close_run() {
    TL.with(|t| {
        let mut t = t.borrow_mut();
        if let Some((start, kinds, states)) = t.run.take() {
            let th = t.th;
            t.out.push(Ev::Run { th, start, kinds, states });
        }
    });
}

/// An observable was read (or a row was sent): the current Monte-Carlo burst is over.
#[inline]
pub fn touch() {
    if DEPTH.with(|d| d.get()) > 0 {
        return;
    }
    let n = N.with(|n| n.get());
    if n > 0 {
        spend(n);
        close_mc();
    }
}

/// True when this Monte-Carlo call is to be skipped (fast-forward).
#[inline]
pub fn mc_skip() -> bool {
    N.with(|c| {
        let n = c.get();
        c.set(n + 1);
        n >= 8 && n & 0xfffff != 0
    })
}
pub struct Deep(bool);
impl Drop for Deep {
    fn drop(&mut self) {
        DEPTH.with(|d| d.set(d.get() - 1));
    }
}
/// Enter a hooked operation.
pub fn deep() -> Deep {
    abort_point();
    Deep(DEPTH.with(|d| {
        d.set(d.get() + 1);
        d.get() == 1
    }))
}
impl Deep {
    pub fn outer(&self) -> bool {
        self.0
    }
}
pub fn mc_done(kind: &'static str, snap: impl FnOnce() -> Snap) {
    if N.with(|n| n.get()) & 0xfffff == 1 {
        spend(0);
    }
    close_run();
    TL.with(|t| {
        let mut t = t.borrow_mut();
        t.kind = kind;
        t.snap = Some(snap());
    });
}
pub fn upd_before(spins: impl Iterator<Item = [f64; 3]>, snap: impl FnOnce() -> Snap) {
    touch();
    spend(1);
    // spins other than those the last step left: another chain
    let other = DEPTH.with(|d| d.get()) == 0
        && TL.with(|t| {
            t.borrow().run.as_ref().is_some_and(|(start, _, states)| {
                let last = states.last().map_or(&start.spins, |s| &s.1);
                !spins.map(|v| v.map(f64::to_bits)).eq(last.iter().map(|v| v.map(f64::to_bits)))
            })
        });
    if other {
        close_run();
    }
    TL.with(|t| {
        let mut t = t.borrow_mut();
        if t.run.is_none() {
            t.run = Some((snap(), vec![], vec![]));
        }
    });
}
pub fn upd_done(kind: &'static str, t: f64, spins: Vec<[f64; 3]>) {
    TL.with(|tl| {
        let mut tl = tl.borrow_mut();
        if let Some(r) = tl.run.as_mut() {
            r.1.push(kind);
            r.2.push((t, spins));
        }
    });
}
/// A new chain: whatever was recorded before belongs to another one.
pub fn fresh() {
    touch();
    close_run();
}

// --- controlled energies for the temperature fits ---
#[derive(Clone, Copy, Debug)]
pub struct Curve {
    pub kind: u32,
    pub a: f64,
    pub b: f64,
}
impl Curve {
    /// Strictly decreasing mean energy as a function of inverse temperature.
    pub fn e(&self, beta: f64) -> f64 {
        match self.kind {
            0 => self.a - self.b * beta,
            1 => self.a - self.b * (1.0 / beta.max(1e-9).tanh() - 1.0 / beta.max(1e-9)),
            2 => self.a - self.b * (beta / (1.0 + beta)),
            // steep near the cold end
            3 => self.a - self.b * (beta / 5.0).powi(6),
            // steep near the hot end
            4 => self.a - self.b * beta.max(0.0).sqrt().sqrt(),
            _ => self.a - self.b * ((beta - 2.0) * 8.0).tanh() - 1e-3 * beta,
        }
    }
    pub fn m(&self, beta: f64) -> [f64; 3] {
        [-0.11 - 0.01 * beta, 0.07 + 0.003 * beta, -0.2 - 0.02 * beta]
    }
}
static CURVE: Mutex<Option<Curve>> = Mutex::new(None);
static CURVED: AtomicBool = AtomicBool::new(false);
pub fn set_curve(c: Option<Curve>) {
    CURVED.store(c.is_some(), SeqCst);
    *CURVE.lock().unwrap() = c;
}
fn curve() -> Option<Curve> {
    if CURVED.load(SeqCst) && DEPTH.with(|d| d.get()) == 0 {
        *CURVE.lock().unwrap()
    } else {
        None
    }
}
pub fn ov_e(name: &str, beta: f64, tau: f64) -> Option<f64> {
    curve().map(|c| match name {
        "mc_system_energy" => c.e(beta) - 2.0 * std::f64::consts::PI / tau * c.m(beta)[2],
        _ => c.e(beta),
    })
}
pub fn ov_m(beta: f64, s: f64) -> Option<[f64; 3]> {
    curve().map(|c| c.m(beta).map(|x| x * s))
}
/// The histogram mode waits for a state with given energy and no magnetisation: let it have one, either at once
/// (empty script) or after the attempts of the script, each (energy - target, magnetisation).
pub static HIST: AtomicBool = AtomicBool::new(false);
/// Writes take at most so many bytes (0: all of them), as a file system may.
pub static CHOP: AtomicUsize = AtomicUsize::new(0);
pub type Attempt = (f64, [f64; 3]);
struct Script {
    at: Vec<Attempt>,
    next: usize,
    /// Monte-Carlo bursts closed when the current attempt was first looked at
    burst: Option<u64>,
    /// what was answered, per attempt: chain as it then was
    seen: Vec<(usize, u64)>,
}
static SCRIPT: Mutex<Script> = Mutex::new(Script { at: vec![], next: 0, burst: None, seen: vec![] });
static BURSTS: AtomicU64 = AtomicU64::new(0);
pub fn set_script(at: Vec<Attempt>) {
    *SCRIPT.lock().unwrap() = Script { at, next: 0, burst: None, seen: vec![] };
    BURSTS.store(0, SeqCst);
}
/// The attempts answered so far: (index in the script, number of Monte-Carlo bursts before it).
pub fn script_seen() -> Vec<(usize, u64)> {
    SCRIPT.lock().unwrap().seen.clone()
}
fn attempt() -> Attempt {
    let mut s = SCRIPT.lock().unwrap();
    let b = BURSTS.load(SeqCst);
    if s.burst != Some(b) {
        if s.burst.is_some() {
            s.next += 1;
        }
        s.burst = Some(b);
        let n = s.next;
        s.seen.push((n, b));
    }
    s.at.get(s.next).copied().unwrap_or((0.0, [0.0; 3]))
}
pub fn ov_hist_e(e: f64) -> Option<f64> {
    (HIST.load(SeqCst) && DEPTH.with(|d| d.get()) == 0).then(|| e + attempt().0)
}
pub fn ov_hist_m(n: f64) -> Option<[f64; 3]> {
    (HIST.load(SeqCst) && DEPTH.with(|d| d.get()) == 0).then(|| attempt().1.map(|x| x * n))
}

pub fn out(s: String) {
    let mut o = STDOUT.lock().unwrap();
    if o.len() < 1 << 16 {
        o.push_str(&s);
    }
}
#[macro_export]
macro_rules! vprintln {
    () => { $crate::out("\n".to_string()) };
    ($($a:tt)*) => {{ let mut s = format!($($a)*); s.push('\n'); $crate::out(s) }};
}
#[macro_export]
macro_rules! vprint {
    ($($a:tt)*) => { $crate::out(format!($($a)*)) };
}
#[macro_export]
macro_rules! veprint {
    () => { () };
    ($($a:tt)*) => {{ let _ = format!($($a)*); }};
}
