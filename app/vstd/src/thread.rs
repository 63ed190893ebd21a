pub use std::thread::*;
use crate::rt;
use std::sync::{Arc, Mutex};

pub struct JoinHandle<T> {
    id: usize,
    slot: Arc<Mutex<Option<std::thread::Result<T>>>>,
}
impl<T> JoinHandle<T> {
    pub fn join(self) -> std::thread::Result<T> {
        while !rt::is_done(self.id) {
            if !rt::block(rt::thread_key(self.id), "join") {
                return Err(Box::new("aborted"));
            }
        }
        let r = self.slot.lock().unwrap_or_else(|e| e.into_inner()).take();
        r.unwrap_or_else(|| Err(Box::new("aborted")))
    }
    pub fn is_finished(&self) -> bool {
        rt::yield_point();
        rt::is_done(self.id)
    }
    pub fn thread(&self) -> std::thread::Thread {
        std::thread::current()
    }
}

pub fn spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T + Send + 'static,
    T: Send + 'static,
{
    let slot = Arc::new(Mutex::new(None));
    let s2 = slot.clone();
    let id = rt::spawn_raw(Box::new(move || {
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
        let ok = r.is_ok();
        let again = match &r {
            Err(p) if !p.is::<vhook::Abort>() => Some(rt::panic_text(p.as_ref())),
            _ => None,
        };
        *s2.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
        if let Some(t) = again {
            std::panic::resume_unwind(Box::new(t));
        }
        ok
    }));
    JoinHandle { id, slot }
}

#[derive(Default, Debug)]
pub struct Builder {
    _name: Option<String>,
}
impl Builder {
    pub fn new() -> Builder {
        Builder::default()
    }
    pub fn name(self, n: String) -> Builder {
        Builder { _name: Some(n) }
    }
    pub fn stack_size(self, _n: usize) -> Builder {
        self
    }
    pub fn spawn<F, T>(self, f: F) -> std::io::Result<JoinHandle<T>>
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send + 'static,
    {
        Ok(spawn(f))
    }
}

pub fn sleep(_d: std::time::Duration) {
    rt::yield_point();
}
pub fn yield_now() {
    rt::yield_point();
}

pub struct Scope<'scope, 'env: 'scope> {
    ids: Mutex<Vec<usize>>,
    bad: std::sync::atomic::AtomicBool,
    _s: std::marker::PhantomData<&'scope mut &'scope ()>,
    _e: std::marker::PhantomData<&'env mut &'env ()>,
}
pub struct ScopedJoinHandle<'scope, T> {
    h: JoinHandle<T>,
    _s: std::marker::PhantomData<&'scope ()>,
}
impl<'scope, T> ScopedJoinHandle<'scope, T> {
    pub fn join(self) -> std::thread::Result<T> {
        self.h.join()
    }
    pub fn is_finished(&self) -> bool {
        self.h.is_finished()
    }
}
impl<'scope, 'env> Scope<'scope, 'env> {
    pub fn spawn<F, T>(&'scope self, f: F) -> ScopedJoinHandle<'scope, T>
    where
        F: FnOnce() -> T + Send + 'scope,
        T: Send + 'scope,
    {
        let slot: Arc<Mutex<Option<std::thread::Result<T>>>> = Arc::new(Mutex::new(None));
        let s2 = slot.clone();
        let body: Box<dyn FnOnce() -> bool + Send + 'scope> = Box::new(move || {
            let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(f));
            let ok = r.is_ok();
            *s2.lock().unwrap_or_else(|e| e.into_inner()) = Some(r);
            ok
        });
        // joined before the scope ends, as std's own scope does
        let body: Box<dyn FnOnce() -> bool + Send + 'static> = unsafe { std::mem::transmute(body) };
        let id = rt::spawn_raw(body);
        self.ids.lock().unwrap().push(id);
        ScopedJoinHandle { h: JoinHandle { id, slot }, _s: std::marker::PhantomData }
    }
}
pub fn scope<'env, F, T>(f: F) -> T
where
    F: for<'scope> FnOnce(&'scope Scope<'scope, 'env>) -> T,
{
    let s = Scope {
        ids: Mutex::new(vec![]),
        bad: Default::default(),
        _s: std::marker::PhantomData,
        _e: std::marker::PhantomData,
    };
    let _ = &s.bad;
    let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f(&s)));
    let ids = s.ids.lock().unwrap().clone();
    for id in ids {
        while !rt::is_done(id) {
            if rt::aborting() {
                std::thread::yield_now();
            } else {
                let _ = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| rt::block(rt::thread_key(id), "scope")));
            }
        }
    }
    match r {
        Ok(x) => x,
        Err(p) => std::panic::resume_unwind(p),
    }
}
