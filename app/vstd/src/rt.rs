//! The scheduler: real threads passing one token; every choice of who goes next is taken from a prescribed prefix
//! and recorded.
use std::cell::Cell;
use std::collections::{BTreeMap, BTreeSet};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Condvar, Mutex, MutexGuard};
use vhook::{Abort, ABORT, RUNAWAY};

#[derive(Clone, Debug, PartialEq)]
pub enum End {
    /// main returned, or the process exited with this code
    Exit(i32),
    /// the main thread panicked
    Panic(String),
    /// no thread can move
    Deadlock(String),
    /// the bound on steps was exceeded
    Runaway,
    /// killed before/inside file operation k
    Crash,
}

#[derive(Clone, Debug)]
pub struct Point {
    pub n: usize,
    pub chosen: usize,
    pub preempt: bool,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum S {
    Run,
    Blocked(usize),
    Done,
}

struct Th {
    s: S,
    cv: Arc<Condvar>,
    what: String,
}

/// Crash at the `op`-th file mutation: `torn` = how many bytes of it (None: before it, all of nothing)
#[derive(Clone, Copy, Debug)]
pub struct CrashAt {
    pub op: usize,
    pub torn: usize,
}

#[derive(Default)]
pub struct Plan {
    pub args: Vec<String>,
    pub prefix: Vec<usize>,
    pub crash: Option<CrashAt>,
    pub shared: BTreeSet<PathBuf>,
    pub max_steps: usize,
    pub seed: u64,
}

#[derive(Default, Debug)]
pub struct Result {
    pub end: Option<End>,
    pub files: BTreeMap<String, Vec<u8>>,
    pub points: Vec<Point>,
    pub steps: usize,
    pub threads: usize,
    pub usage: bool,
    pub panics: Vec<String>,
    pub writers: BTreeMap<PathBuf, BTreeSet<usize>>,
    /// (path, what, length) of each file mutation
    pub ops: Vec<(PathBuf, &'static str, usize)>,
    pub diverged: bool,
}

struct St {
    th: Vec<Th>,
    cur: usize,
    run_len: usize,
    plan: Plan,
    res: Result,
}

static RT: Mutex<Option<St>> = Mutex::new(None);
thread_local! { static ME: Cell<usize> = const { Cell::new(usize::MAX) }; }
thread_local! { pub static SILENT: Cell<bool> = const { Cell::new(false) }; }

fn lock() -> MutexGuard<'static, Option<St>> {
    RT.lock().unwrap_or_else(|e| e.into_inner())
}
pub fn me() -> usize {
    ME.with(|m| m.get())
}
pub fn aborting() -> bool {
    ABORT.load(std::sync::atomic::Ordering::SeqCst)
}
pub fn args() -> Vec<String> {
    lock().as_ref().map(|s| s.plan.args.clone()).unwrap_or_default()
}
pub fn note_usage() {
    if let Some(s) = lock().as_mut() {
        s.res.usage = true;
    }
}

fn unwind() {
    if !std::thread::panicking() {
        std::panic::resume_unwind(Box::new(Abort));
    }
}

impl St {
    /// Who goes next. None: nobody can.
    fn choose(&mut self, me: usize, me_enabled: bool, yielding: bool) -> Option<usize> {
        let others: Vec<usize> = (0..self.th.len()).filter(|&i| i != me && self.th[i].s == S::Run).collect();
        let (opts, preempt) = if me_enabled && !yielding {
            let mut v = vec![me];
            v.extend(others);
            (v, true)
        } else if others.is_empty() {
            if !me_enabled {
                return None;
            }
            (vec![me], false)
        } else if yielding {
            // round robin, so that a polling loop cannot starve the one it waits for
            let mut v = others.clone();
            let k = v.iter().position(|&i| i > me).unwrap_or(0);
            v.rotate_left(k);
            (v, false)
        } else {
            (others, false)
        };
        if opts.len() == 1 {
            return Some(opts[0]);
        }
        let pos = self.res.points.len();
        let mut idx = if pos < self.plan.prefix.len() { self.plan.prefix[pos] } else { 0 };
        if idx >= opts.len() {
            self.res.diverged = true;
            idx = 0;
        }
        self.res.points.push(Point { n: opts.len(), chosen: idx, preempt });
        Some(opts[idx])
    }
    fn finish(&mut self, end: End) {
        if self.res.end.is_none() {
            self.res.files = snapshot(Path::new("."));
            self.res.end = Some(end);
        }
        ABORT.store(true, std::sync::atomic::Ordering::SeqCst);
        for t in &self.th {
            t.cv.notify_all();
        }
    }
}

pub fn snapshot(dir: &Path) -> BTreeMap<String, Vec<u8>> {
    let mut m = BTreeMap::new();
    if let Ok(rd) = std::fs::read_dir(dir) {
        for e in rd.flatten() {
            let p = e.path();
            let name = e.file_name().to_string_lossy().into_owned();
            if p.is_dir() {
                for (k, v) in snapshot(&p) {
                    m.insert(format!("{}/{}", name, k), v);
                }
            } else if let Ok(b) = std::fs::read(&p) {
                m.insert(name, b);
            }
        }
    }
    m
}

fn wait_turn(mut g: MutexGuard<'static, Option<St>>, me: usize) {
    loop {
        let st = match g.as_mut() {
            Some(s) => s,
            None => return,
        };
        if aborting() {
            drop(g);
            unwind();
            return;
        }
        if st.cur == me {
            st.th[me].s = S::Run;
            return;
        }
        let cv = st.th[me].cv.clone();
        g = cv.wait(g).unwrap_or_else(|e| e.into_inner());
    }
}

fn switch(yielding: bool) {
    let me = me();
    if me == usize::MAX {
        return;
    }
    if aborting() {
        unwind();
        return;
    }
    let mut g = lock();
    let st = g.as_mut().unwrap();
    st.res.steps += 1;
    STEPS.fetch_add(1, std::sync::atomic::Ordering::SeqCst);
    if st.res.steps > st.plan.max_steps {
        st.finish(End::Runaway);
        drop(g);
        unwind();
        return;
    }
    st.run_len += 1;
    // a thread which polls without ever giving way is made to, eventually
    let y = yielding || st.run_len > 2000;
    let next = st.choose(me, true, y).unwrap();
    if next != me {
        st.run_len = 0;
        st.cur = next;
        st.th[next].cv.notify_all();
        wait_turn(g, me);
    }
}

/// A scheduling point before (or after) a visible operation.
pub fn point() {
    switch(false)
}
/// sleep / yield_now / failed polls: others first.
pub fn yield_point() {
    switch(true)
}

/// Block the current thread until `wake(key)`; returns when it is scheduled again. False when the execution is over
/// and the caller is already unwinding.
pub fn block(key: usize, what: &str) -> bool {
    let me = me();
    if me == usize::MAX {
        std::thread::yield_now();
        return true;
    }
    if aborting() {
        unwind();
        return false;
    }
    let mut g = lock();
    let st = g.as_mut().unwrap();
    st.th[me].s = S::Blocked(key);
    st.th[me].what = what.to_string();
    st.run_len = 0;
    st.res.steps += 1;
    match st.choose(me, false, false) {
        Some(next) => {
            st.cur = next;
            st.th[next].cv.notify_all();
            wait_turn(g, me);
            !aborting()
        }
        None => {
            let w: Vec<String> = st.th.iter().enumerate().filter(|(_, t)| matches!(t.s, S::Blocked(_)))
                .map(|(i, t)| format!("thread {} in {}", i, t.what)).collect();
            st.finish(End::Deadlock(w.join(", ")));
            drop(g);
            unwind();
            false
        }
    }
}
/// Make every thread blocked on `key` runnable.
pub fn wake(key: usize) {
    if let Some(st) = lock().as_mut() {
        for t in st.th.iter_mut() {
            if t.s == S::Blocked(key) {
                t.s = S::Run;
            }
        }
    }
}
pub fn wake_one(key: usize) {
    if let Some(st) = lock().as_mut() {
        if let Some(t) = st.th.iter_mut().find(|t| t.s == S::Blocked(key)) {
            t.s = S::Run;
        }
    }
}
pub fn new_key() -> usize {
    use std::sync::atomic::{AtomicUsize, Ordering};
    static K: AtomicUsize = AtomicUsize::new(1 << 32);
    K.fetch_add(1, Ordering::SeqCst)
}
pub fn thread_key(id: usize) -> usize {
    id
}
pub fn is_done(id: usize) -> bool {
    lock().as_ref().map(|s| s.th[id].s == S::Done).unwrap_or(true)
}

pub fn end_process(end: End) -> ! {
    if let Some(st) = lock().as_mut() {
        st.finish(end);
    }
    // (never unwinding here already: callers are ordinary code)
    std::panic::resume_unwind(Box::new(Abort));
}

pub fn panic_text(p: &(dyn std::any::Any + Send)) -> String {
    if let Some(s) = p.downcast_ref::<&str>() {
        s.to_string()
    } else if let Some(s) = p.downcast_ref::<String>() {
        s.clone()
    } else {
        "panic".into()
    }
}

static STEPS: std::sync::atomic::AtomicU64 = std::sync::atomic::AtomicU64::new(0);
/// Visible operations so far, in all executions
pub fn progress() -> u64 {
    STEPS.load(std::sync::atomic::Ordering::SeqCst)
}
static HANDLES: Mutex<Vec<std::thread::JoinHandle<()>>> = Mutex::new(Vec::new());

/// Register and start a controlled thread; `body` runs when it is first scheduled.
pub fn spawn_raw(body: Box<dyn FnOnce() -> bool + Send>) -> usize {
    let id;
    let seed;
    {
        let mut g = lock();
        let st = g.as_mut().expect("thread spawned outside of a controlled execution");
        id = st.th.len();
        seed = st.plan.seed;
        st.th.push(Th { s: S::Run, cv: Arc::new(Condvar::new()), what: String::new() });
        st.res.threads += 1;
    }
    let h = std::thread::Builder::new()
        .stack_size(2 << 20)
        .spawn(move || {
            ME.with(|m| m.set(id));
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                {
                    let g = lock();
                    wait_turn(g, id);
                }
                vhook::set_thread(id);
                rand::tape::free_mild(seed.wrapping_mul(1_000_003).wrapping_add(id as u64));
                body()
            }));
            let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(vhook::flush));
            let mut g = lock();
            if let Some(st) = g.as_mut() {
                if let Err(p) = &r {
                    if !p.is::<Abort>() {
                        st.res.panics.push(panic_text(p.as_ref()));
                    }
                }
                if RUNAWAY.load(std::sync::atomic::Ordering::SeqCst) {
                    st.finish(End::Runaway);
                }
                st.th[id].s = S::Done;
                for t in st.th.iter_mut() {
                    if t.s == S::Blocked(thread_key(id)) {
                        t.s = S::Run;
                    }
                }
                if !aborting() {
                    st.run_len = 0;
                    match st.choose(id, false, false) {
                        Some(n) => {
                            st.cur = n;
                            st.th[n].cv.notify_all();
                        }
                        None => {
                            let w: Vec<String> = st.th.iter().enumerate().filter(|(_, t)| matches!(t.s, S::Blocked(_)))
                                .map(|(i, t)| format!("thread {} in {}", i, t.what)).collect();
                            st.finish(End::Deadlock(w.join(", ")));
                        }
                    }
                }
            }
        })
        .unwrap();
    HANDLES.lock().unwrap().push(h);
    id
}

/// Run `main` under the plan in the current directory, to its end. The trace is left in vhook.
pub fn execute(plan: Plan, main: fn()) -> Result {
    execute_with(plan, Box::new(main))
}
pub fn execute_with(plan: Plan, main: Box<dyn FnOnce() + Send>) -> Result {
    *lock() = Some(St { th: vec![], cur: 0, run_len: 0, plan, res: Result::default() });
    spawn_raw(Box::new(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
            main();
            point();
        }));
        if aborting() {
            return true;
        }
        let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(vhook::touch));
        match r {
            Ok(()) => end_process(End::Exit(0)),
            Err(p) => {
                if p.is::<Abort>() {
                    // runaway: recorded by the thread wrapper
                    return true;
                }
                // the panic message is out, then the process dies: others may go on until then
                let t = panic_text(p.as_ref());
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(point));
                end_process(End::Panic(t))
            }
        }
    }));
    loop {
        let h = HANDLES.lock().unwrap().pop();
        match h {
            Some(h) => {
                let _ = h.join();
            }
            None => break,
        }
    }
    let st = lock().take().unwrap();
    st.res
}

// --- files ---
/// Called for every mutation of a file. Returns how many bytes of it to carry out, None for all of it.
/// Some(n) means: carry out n bytes, then call `crash`.
pub fn file_op(path: &Path, what: &'static str, len: usize) -> Option<usize> {
    let me = me();
    if me == usize::MAX {
        return None;
    }
    let shared;
    {
        let mut g = lock();
        let st = match g.as_mut() {
            Some(s) => s,
            None => return None,
        };
        shared = st.plan.shared.contains(path);
    }
    if shared {
        point();
    }
    let mut g = lock();
    let st = g.as_mut().unwrap();
    if !aborting() {
        st.res.writers.entry(path.to_path_buf()).or_default().insert(me);
        let k = st.res.ops.len();
        st.res.ops.push((path.to_path_buf(), what, len));
        if let Some(c) = st.plan.crash {
            if c.op == k {
                return Some(c.torn.min(len));
            }
        }
    }
    None
}
pub fn crash() -> ! {
    end_process(End::Crash)
}
