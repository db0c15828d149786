//! Channels on the explorer's mutex and condition variable.
pub use real::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use crate::prims::{Condvar, Mutex};
use real::collections::VecDeque;
use real::prelude::v1::*;
use real::sync::Arc;
use real::time::Duration;

struct Ch<T> {
    m: Mutex<St<T>>,
    cv: Condvar,
    cap: usize,
}
struct St<T> {
    q: VecDeque<T>,
    senders: usize,
    receiver: bool,
}
pub struct Sender<T>(Arc<Ch<T>>);
pub struct SyncSender<T>(Arc<Ch<T>>);
pub struct Receiver<T>(Arc<Ch<T>>);

pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = Arc::new(Ch { m: Mutex::new(St { q: VecDeque::new(), senders: 1, receiver: true }), cv: Condvar::new(), cap: usize::MAX });
    (Sender(c.clone()), Receiver(c))
}
pub fn sync_channel<T>(n: usize) -> (SyncSender<T>, Receiver<T>) {
    let c = Arc::new(Ch { m: Mutex::new(St { q: VecDeque::new(), senders: 1, receiver: true }), cv: Condvar::new(), cap: n.max(1) });
    (SyncSender(c.clone()), Receiver(c))
}
impl<T> Ch<T> {
    fn send(&self, t: T) -> Result<(), SendError<T>> {
        let mut g = self.m.lock().unwrap();
        loop {
            if !g.receiver {
                return Err(SendError(t));
            }
            if g.q.len() < self.cap {
                g.q.push_back(t);
                self.cv.notify_all();
                return Ok(());
            }
            g = self.cv.wait(g).unwrap();
        }
    }
}
macro_rules! sender {
    ($s:ident) => {
        impl<T> Clone for $s<T> {
            fn clone(&self) -> Self {
                self.0.m.lock().unwrap().senders += 1;
                $s(self.0.clone())
            }
        }
        impl<T> Drop for $s<T> {
            fn drop(&mut self) {
                if let Ok(mut g) = self.0.m.lock() {
                    g.senders -= 1;
                }
                self.0.cv.notify_all();
            }
        }
        impl<T> $s<T> {
            pub fn send(&self, t: T) -> Result<(), SendError<T>> {
                self.0.send(t)
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);
impl<T> SyncSender<T> {
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        let mut g = self.0.m.lock().unwrap();
        if !g.receiver {
            return Err(TrySendError::Disconnected(t));
        }
        if g.q.len() >= self.0.cap {
            return Err(TrySendError::Full(t));
        }
        g.q.push_back(t);
        self.0.cv.notify_all();
        Ok(())
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        if let Ok(mut g) = self.0.m.lock() {
            g.receiver = false;
        }
        self.0.cv.notify_all();
    }
}
impl<T> Receiver<T> {
    pub fn recv(&self) -> Result<T, RecvError> {
        let mut g = self.0.m.lock().unwrap();
        loop {
            if let Some(t) = g.q.pop_front() {
                self.0.cv.notify_all();
                return Ok(t);
            }
            if g.senders == 0 {
                return Err(RecvError);
            }
            g = self.0.cv.wait(g).unwrap();
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        let mut g = self.0.m.lock().unwrap();
        if let Some(t) = g.q.pop_front() {
            self.0.cv.notify_all();
            return Ok(t);
        }
        if g.senders == 0 {
            return Err(TryRecvError::Disconnected);
        }
        Err(TryRecvError::Empty)
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        let mut g = self.0.m.lock().unwrap();
        let mut waited = false;
        loop {
            if let Some(t) = g.q.pop_front() {
                self.0.cv.notify_all();
                return Ok(t);
            }
            if g.senders == 0 {
                return Err(RecvTimeoutError::Disconnected);
            }
            if waited {
                return Err(RecvTimeoutError::Timeout);
            }
            let (g2, r) = self.0.cv.wait_timeout(g, d).unwrap();
            g = g2;
            waited = r.timed_out() || vx::active();
        }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
pub struct TryIter<'a, T>(&'a Receiver<T>);
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        Iter(self)
    }
}
