pub use ::std::sync::mpsc::{RecvError, RecvTimeoutError, SendError, TryRecvError, TrySendError};
use ::std::{
    collections::VecDeque,
    fmt,
    sync::{Arc, Mutex as RealMutex},
    time::Duration,
};

use crate::mc;

struct St<T> {
    q: VecDeque<T>,
    senders: usize,
    receiver: bool,
    cap: Option<usize>,
}
struct Chan<T>(RealMutex<St<T>>);
impl<T> Chan<T> {
    fn with<R>(&self, f: impl FnOnce(&mut St<T>) -> R) -> R {
        f(&mut self.0.lock().unwrap_or_else(|p| p.into_inner()))
    }
}

pub struct Sender<T>(Arc<Chan<T>>);
pub struct SyncSender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>, core::marker::PhantomData<::std::cell::Cell<()>>);

fn make<T>(cap: Option<usize>) -> Arc<Chan<T>> {
    Arc::new(Chan(RealMutex::new(St { q: VecDeque::new(), senders: 1, receiver: true, cap })))
}
pub fn channel<T>() -> (Sender<T>, Receiver<T>) {
    let c = make(None);
    (Sender(c.clone()), Receiver(c, Default::default()))
}
pub fn sync_channel<T>(bound: usize) -> (SyncSender<T>, Receiver<T>) {
    assert!(bound > 0, "mcstd: rendezvous channels are not modelled");
    let c = make(Some(bound));
    (SyncSender(c.clone()), Receiver(c, Default::default()))
}

impl<T> Sender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        mc::point();
        self.0.with(|s| {
            if !s.receiver {
                return Err(SendError(t));
            }
            s.q.push_back(t);
            Ok(())
        })
    }
}
impl<T> SyncSender<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        mc::wait_until(&|| self.0.with(|s| !s.receiver || s.q.len() < s.cap.unwrap()), None);
        self.0.with(|s| {
            if !s.receiver {
                return Err(SendError(t));
            }
            s.q.push_back(t);
            Ok(())
        })
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        mc::point();
        self.0.with(|s| {
            if !s.receiver {
                Err(TrySendError::Disconnected(t))
            } else if s.q.len() >= s.cap.unwrap() {
                Err(TrySendError::Full(t))
            } else {
                s.q.push_back(t);
                Ok(())
            }
        })
    }
}
macro_rules! sender {
    ($n:ident) => {
        impl<T> Clone for $n<T> {
            fn clone(&self) -> Self {
                self.0.with(|s| s.senders += 1);
                $n(self.0.clone())
            }
        }
        impl<T> Drop for $n<T> {
            fn drop(&mut self) {
                mc::point();
                self.0.with(|s| s.senders -= 1);
            }
        }
        impl<T> fmt::Debug for $n<T> {
            fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
                f.write_str(concat!(stringify!($n), " { .. }"))
            }
        }
    };
}
sender!(Sender);
sender!(SyncSender);
unsafe impl<T: Send> Send for Receiver<T> {}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Receiver { .. }")
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        mc::point();
        let q = self.0.with(|s| {
            s.receiver = false;
            ::std::mem::take(&mut s.q)
        });
        drop(q);
    }
}
impl<T> Receiver<T> {
    fn ready(&self) -> bool {
        self.0.with(|s| !s.q.is_empty() || s.senders == 0)
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        mc::wait_until(&|| self.ready(), None);
        self.0.with(|s| s.q.pop_front()).ok_or(RecvError)
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        mc::point();
        self.0.with(|s| {
            s.q.pop_front().ok_or(if s.senders == 0 { TryRecvError::Disconnected } else { TryRecvError::Empty })
        })
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        // As in std: a message already there is returned even if d is zero.
        if mc::wait_until(&|| self.ready(), Some(mc::deadline(d))) {
            return self.0.with(|s| s.q.pop_front()).ok_or(RecvTimeoutError::Disconnected);
        }
        // timed out: std makes one last attempt
        self.0.with(|s| {
            s.q.pop_front().ok_or(if s.senders == 0 { RecvTimeoutError::Disconnected } else { RecvTimeoutError::Timeout })
        })
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct IntoIter<T>(Receiver<T>);
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> IntoIterator for Receiver<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        IntoIter(self)
    }
}
impl<'a, T> IntoIterator for &'a Receiver<T> {
    type Item = T;
    type IntoIter = Iter<'a, T>;
    fn into_iter(self) -> Iter<'a, T> {
        self.iter()
    }
}
