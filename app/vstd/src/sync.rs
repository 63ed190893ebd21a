pub use std::sync::*;
pub mod atomic;
pub mod mpsc;
use crate::rt;
use std::ops::{Deref, DerefMut};

fn addr<T: ?Sized>(x: &T) -> usize {
    // (above every thread id)
    (x as *const T as *const u8 as usize) | 1 << 62
}

// --- Mutex ---
#[derive(Debug, Default)]
pub struct Mutex<T: ?Sized> {
    m: std::sync::Mutex<T>,
}
pub struct MutexGuard<'a, T: ?Sized> {
    g: Option<std::sync::MutexGuard<'a, T>>,
    owner: &'a Mutex<T>,
}
impl<T> Mutex<T> {
    pub const fn new(t: T) -> Mutex<T> {
        Mutex { m: std::sync::Mutex::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.m.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        vhook::touch();
        rt::point();
        self.lock_now()
    }
    fn lock_now(&self) -> LockResult<MutexGuard<'_, T>> {
        loop {
            match self.m.try_lock() {
                Ok(g) => return Ok(MutexGuard { g: Some(g), owner: self }),
                Err(TryLockError::Poisoned(p)) => {
                    return Err(PoisonError::new(MutexGuard { g: Some(p.into_inner()), owner: self }))
                }
                Err(TryLockError::WouldBlock) => {
                    if !rt::block(addr(&self.m), "lock") {
                        std::thread::yield_now();
                    }
                }
            }
        }
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        vhook::touch();
        rt::point();
        match self.m.try_lock() {
            Ok(g) => Ok(MutexGuard { g: Some(g), owner: self }),
            Err(TryLockError::Poisoned(p)) => {
                Err(TryLockError::Poisoned(PoisonError::new(MutexGuard { g: Some(p.into_inner()), owner: self })))
            }
            Err(TryLockError::WouldBlock) => {
                rt::yield_point();
                Err(TryLockError::WouldBlock)
            }
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.m.is_poisoned()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        self.m.get_mut()
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(t: T) -> Self {
        Mutex::new(t)
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.g = None;
        rt::wake(addr(&self.owner.m));
    }
}
impl<T: ?Sized + std::fmt::Debug> std::fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        (**self).fmt(f)
    }
}

// --- Condvar ---
#[derive(Debug, Default)]
pub struct Condvar {
    x: u8,
}
impl Condvar {
    pub const fn new() -> Condvar {
        Condvar { x: 0 }
    }
    pub fn wait<'a, T: ?Sized>(&self, mut g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        let owner = g.owner;
        g.g = None;
        rt::wake(addr(&owner.m));
        std::mem::forget(g);
        rt::block(addr(&self.x), "condvar");
        owner.lock_now()
    }
    pub fn wait_while<'a, T: ?Sized, F: FnMut(&mut T) -> bool>(
        &self,
        mut g: MutexGuard<'a, T>,
        mut c: F,
    ) -> LockResult<MutexGuard<'a, T>> {
        while c(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        rt::point();
        rt::wake_one(addr(&self.x));
    }
    pub fn notify_all(&self) {
        rt::point();
        rt::wake(addr(&self.x));
    }
}

// --- RwLock ---
#[derive(Debug, Default)]
pub struct RwLock<T: ?Sized> {
    m: std::sync::RwLock<T>,
}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    g: Option<std::sync::RwLockReadGuard<'a, T>>,
    owner: &'a RwLock<T>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    g: Option<std::sync::RwLockWriteGuard<'a, T>>,
    owner: &'a RwLock<T>,
}
impl<T> RwLock<T> {
    pub const fn new(t: T) -> RwLock<T> {
        RwLock { m: std::sync::RwLock::new(t) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        self.m.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        vhook::touch();
        rt::point();
        loop {
            match self.m.try_read() {
                Ok(g) => return Ok(RwLockReadGuard { g: Some(g), owner: self }),
                Err(TryLockError::Poisoned(p)) => {
                    return Err(PoisonError::new(RwLockReadGuard { g: Some(p.into_inner()), owner: self }))
                }
                Err(TryLockError::WouldBlock) => {
                    if !rt::block(addr(&self.m), "read lock") {
                        std::thread::yield_now();
                    }
                }
            }
        }
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        vhook::touch();
        rt::point();
        loop {
            match self.m.try_write() {
                Ok(g) => return Ok(RwLockWriteGuard { g: Some(g), owner: self }),
                Err(TryLockError::Poisoned(p)) => {
                    return Err(PoisonError::new(RwLockWriteGuard { g: Some(p.into_inner()), owner: self }))
                }
                Err(TryLockError::WouldBlock) => {
                    if !rt::block(addr(&self.m), "write lock") {
                        std::thread::yield_now();
                    }
                }
            }
        }
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        self.g.as_ref().unwrap()
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        self.g.as_mut().unwrap()
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.g = None;
        rt::wake(addr(&self.owner.m));
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.g = None;
        rt::wake(addr(&self.owner.m));
    }
}

// --- Barrier ---
#[derive(Debug)]
pub struct Barrier {
    n: usize,
    s: std::sync::Mutex<(usize, usize)>,
}
pub struct BarrierWaitResult(bool);
impl BarrierWaitResult {
    pub fn is_leader(&self) -> bool {
        self.0
    }
}
impl Barrier {
    pub const fn new(n: usize) -> Barrier {
        Barrier { n, s: std::sync::Mutex::new((0, 0)) }
    }
    pub fn wait(&self) -> BarrierWaitResult {
        rt::point();
        let gen = {
            let mut s = self.s.lock().unwrap();
            s.0 += 1;
            if s.0 >= self.n {
                s.0 = 0;
                s.1 += 1;
                drop(s);
                rt::wake(addr(&self.s));
                return BarrierWaitResult(true);
            }
            s.1
        };
        while self.s.lock().unwrap().1 == gen {
            if !rt::block(addr(&self.s), "barrier") {
                break;
            }
        }
        BarrierWaitResult(false)
    }
}
