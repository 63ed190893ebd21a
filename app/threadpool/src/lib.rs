//! threadpool 1.8.1 under the controlled scheduler: jobs start in submission order, at most `n` at a time, each on a
//! controlled thread of its own; a panicking job does not take the pool down.
use std::collections::VecDeque;
use std::sync::{Arc, Mutex, MutexGuard};
use vstd::rt;

type Job = Box<dyn FnOnce() + Send + 'static>;
struct St {
    q: VecDeque<Job>,
    active: usize,
    max: usize,
    panics: usize,
}
struct Sh {
    m: Mutex<St>,
    key: usize,
}
impl Sh {
    fn l(&self) -> MutexGuard<'_, St> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
}
#[derive(Clone)]
pub struct ThreadPool {
    s: Arc<Sh>,
}
#[derive(Default)]
pub struct Builder {
    n: Option<usize>,
}
impl Builder {
    pub fn new() -> Builder {
        Builder { n: None }
    }
    pub fn num_threads(mut self, n: usize) -> Builder {
        assert!(n > 0);
        self.n = Some(n);
        self
    }
    pub fn thread_name(self, _n: String) -> Builder {
        self
    }
    pub fn thread_stack_size(self, _n: usize) -> Builder {
        self
    }
    pub fn build(self) -> ThreadPool {
        ThreadPool::new(self.n.unwrap_or(4))
    }
}
impl ThreadPool {
    pub fn new(n: usize) -> ThreadPool {
        assert!(n > 0);
        ThreadPool {
            s: Arc::new(Sh {
                m: Mutex::new(St { q: VecDeque::new(), active: 0, max: n, panics: 0 }),
                key: rt::new_key(),
            }),
        }
    }
    pub fn with_name(_name: String, n: usize) -> ThreadPool {
        ThreadPool::new(n)
    }
    pub fn execute<F: FnOnce() + Send + 'static>(&self, job: F) {
        self.s.l().q.push_back(Box::new(job));
        pump(&self.s);
    }
    pub fn queued_count(&self) -> usize {
        rt::yield_point();
        self.s.l().q.len()
    }
    pub fn active_count(&self) -> usize {
        rt::yield_point();
        self.s.l().active
    }
    pub fn max_count(&self) -> usize {
        self.s.l().max
    }
    pub fn panic_count(&self) -> usize {
        rt::yield_point();
        self.s.l().panics
    }
    pub fn set_num_threads(&mut self, n: usize) {
        assert!(n > 0);
        self.s.l().max = n;
        pump(&self.s);
    }
    pub fn join(&self) {
        loop {
            {
                let s = self.s.l();
                if s.q.is_empty() && s.active == 0 {
                    return;
                }
            }
            if !rt::block(self.s.key, "pool join") {
                return;
            }
        }
    }
}
/// Start queued jobs while there are idle workers.
fn pump(s: &Arc<Sh>) {
    loop {
        let job = {
            let mut st = s.l();
            if rt::aborting() || st.active >= st.max {
                return;
            }
            match st.q.pop_front() {
                Some(j) => {
                    st.active += 1;
                    j
                }
                None => return,
            }
        };
        let s2 = s.clone();
        rt::spawn_raw(Box::new(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(job));
            {
                let mut st = s2.l();
                st.active -= 1;
                if r.is_err() {
                    st.panics += 1;
                }
            }
            pump(&s2);
            rt::wake(s2.key);
            if let Err(p) = r {
                std::panic::resume_unwind(p);
            }
            true
        }));
    }
}
