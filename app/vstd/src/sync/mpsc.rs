pub use std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use crate::rt;
use std::collections::VecDeque;
use std::sync::{Arc, Mutex};
use std::time::Duration;

struct Ch<T> {
    q: VecDeque<T>,
    senders: usize,
    rx: bool,
    cap: Option<usize>,
    /// rendezvous: how many items have been taken
    taken: usize,
    put: usize,
}
struct Shared<T> {
    m: Mutex<Ch<T>>,
    rkey: usize,
    skey: usize,
}
impl<T> Shared<T> {
    fn l(&self) -> std::sync::MutexGuard<'_, Ch<T>> {
        self.m.lock().unwrap_or_else(|e| e.into_inner())
    }
}
fn mk<T>(cap: Option<usize>) -> Arc<Shared<T>> {
    Arc::new(Shared {
        m: Mutex::new(Ch { q: VecDeque::new(), senders: 1, rx: true, cap, taken: 0, put: 0 }),
        rkey: rt::new_key(),
        skey: rt::new_key(),
    })
}
pub struct Sender<T>(Arc<Shared<T>>);
pub struct SyncSender<T>(Arc<Shared<T>>);
pub struct Receiver<T>(Arc<Shared<T>>);
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let s = mk(None);
    (Sender(s.clone()), Receiver(s))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let s = mk(Some(n));
    (SyncSender(s.clone()), Receiver(s))
}
macro_rules! sender {
    ($n:ident) => {
        impl<T> Clone for $n<T> {
            fn clone(&self) -> Self {
                self.0.l().senders += 1;
                $n(self.0.clone())
            }
        }
        impl<T> Drop for $n<T> {
            fn drop(&mut self) {
                let last = {
                    let mut c = self.0.l();
                    c.senders -= 1;
                    c.senders == 0
                };
                if last {
                    rt::wake(self.0.rkey);
                }
            }
        }
        impl<T> std::fmt::Debug for $n<T> {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str(stringify!($n))
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);
impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        vhook::touch();
        rt::point();
        {
            let mut c = self.0.l();
            if !c.rx {
                return Err(SendError(t));
            }
            c.q.push_back(t);
        }
        rt::wake(self.0.rkey);
        Ok(())
    }
}
impl<T> SyncSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        vhook::touch();
        rt::point();
        let cap;
        loop {
            let c = self.0.l();
            if !c.rx {
                return Err(SendError(t));
            }
            if c.q.len() < c.cap.unwrap_or(0).max(1) {
                cap = c.cap.unwrap_or(0);
                break;
            }
            drop(c);
            if !rt::block(self.0.skey, "send") {
                return Err(SendError(t));
            }
        }
        let n = {
            let mut c = self.0.l();
            c.q.push_back(t);
            c.put += 1;
            c.put
        };
        rt::wake(self.0.rkey);
        if cap == 0 {
            loop {
                {
                    let mut c = self.0.l();
                    if c.taken >= n {
                        break;
                    }
                    if !c.rx {
                        return match c.q.pop_back() {
                            Some(t) => Err(SendError(t)),
                            None => Ok(()),
                        };
                    }
                }
                if !rt::block(self.0.skey, "send") {
                    break;
                }
            }
        }
        Ok(())
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        vhook::touch();
        rt::point();
        {
            let mut c = self.0.l();
            if !c.rx {
                return Err(TrySendError::Disconnected(t));
            }
            if c.q.len() >= c.cap.unwrap_or(0) {
                return Err(TrySendError::Full(t));
            }
            c.q.push_back(t);
            c.put += 1;
        }
        rt::wake(self.0.rkey);
        Ok(())
    }
}
impl<T> Receiver<T> {
    fn pop(&self) -> Result<T, TryRecvError> {
        let r = {
            let mut c = self.0.l();
            match c.q.pop_front() {
                Some(t) => {
                    c.taken += 1;
                    Ok(t)
                }
                None if c.senders == 0 => Err(TryRecvError::Disconnected),
                None => Err(TryRecvError::Empty),
            }
        };
        if r.is_ok() {
            rt::wake(self.0.skey);
        }
        r
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        loop {
            match self.pop() {
                Ok(t) => {
                    // the receiver may be slow to act on it
                    rt::point();
                    return Ok(t);
                }
                Err(TryRecvError::Disconnected) => return Err(RecvError),
                Err(TryRecvError::Empty) => {
                    if !rt::block(self.0.rkey, "recv") {
                        return Err(RecvError);
                    }
                }
            }
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        rt::point();
        let r = self.pop();
        if let Err(TryRecvError::Empty) = r {
            rt::yield_point();
        }
        r
    }
    pub fn recv_timeout(&self, _d: Duration) -> Result<T, RecvTimeoutError> {
        rt::point();
        match self.pop() {
            Ok(t) => Ok(t),
            Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected),
            Err(TryRecvError::Empty) => {
                rt::yield_point();
                match self.pop() {
                    Ok(t) => Ok(t),
                    Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected),
                    Err(TryRecvError::Empty) => Err(RecvTimeoutError::Timeout),
                }
            }
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
impl<T> std::fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Receiver")
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        let q = {
            let mut c = self.0.l();
            c.rx = false;
            std::mem::take(&mut c.q)
        };
        drop(q);
        rt::wake(self.0.skey);
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
pub struct TryIter<'a, T>(&'a Receiver<T>);
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
