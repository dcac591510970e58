//! crossbeam-channel subset.
use crate::rt;
use std::cell::UnsafeCell;
use std::collections::VecDeque;
use std::fmt;
use std::sync::Arc;
use std::time::Duration;

struct Inner<T> {
    q: VecDeque<T>,
    cap: Option<usize>,
    snd: usize,
    rcv: usize,
    commute: bool,
    weight: usize,
}
struct Chan<T>(UnsafeCell<Inner<T>>);
unsafe impl<T: Send> Send for Chan<T> {}
unsafe impl<T: Send> Sync for Chan<T> {}
impl<T> Chan<T> {
    fn i(&self) -> &mut Inner<T> {
        unsafe { &mut *self.0.get() }
    }
    fn a(&self) -> usize {
        self as *const Self as usize
    }
    fn wr(&self) {
        rt::ev_write(self.a(), true, true, true)
    }
    fn rd(&self) {
        rt::ev_read(self.a(), true)
    }
    fn push_ev(&self) {
        if self.i().commute {
            rt::ev_commuting_write(self.a())
        } else {
            self.wr()
        }
    }
}
pub struct Sender<T>(Arc<Chan<T>>);
pub struct Receiver<T>(Arc<Chan<T>>);
impl<T> std::panic::UnwindSafe for Sender<T> {}
impl<T> std::panic::RefUnwindSafe for Sender<T> {}
impl<T> std::panic::UnwindSafe for Receiver<T> {}
impl<T> std::panic::RefUnwindSafe for Receiver<T> {}

pub fn make<T>(cap: Option<usize>) -> (Sender<T>, Receiver<T>) {
    let is = |n: &str| rt::active() && cap.is_some() && std::any::type_name::<T>().contains(n);
    let weight = if is("WriteOp") {
        rt::opts().chan_weight
    } else if is("ReadOp") {
        rt::opts().read_weight
    } else {
        1
    };
    let commute = rt::active()
        && rt::opts().read_chan_commutes
        && weight == 1
        && std::any::type_name::<T>().contains("ReadOp");
    let c = Arc::new(Chan(UnsafeCell::new(Inner { q: VecDeque::new(), cap, snd: 1, rcv: 1, commute, weight })));
    (Sender(c.clone()), Receiver(c))
}
pub fn bounded<T>(cap: usize) -> (Sender<T>, Receiver<T>) {
    make(Some(cap))
}
pub fn unbounded<T>() -> (Sender<T>, Receiver<T>) {
    make(None)
}

#[derive(PartialEq, Eq, Clone, Copy)]
pub struct SendError<T>(pub T);
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TrySendError<T> {
    Full(T),
    Disconnected(T),
}
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum SendTimeoutError<T> {
    Timeout(T),
    Disconnected(T),
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub struct RecvError;
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum TryRecvError {
    Empty,
    Disconnected,
}
#[derive(PartialEq, Eq, Clone, Copy, Debug)]
pub enum RecvTimeoutError {
    Timeout,
    Disconnected,
}
impl<T> fmt::Debug for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("SendError(..)")
    }
}
impl<T> fmt::Debug for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            TrySendError::Full(_) => f.write_str("Full(..)"),
            TrySendError::Disconnected(_) => f.write_str("Disconnected(..)"),
        }
    }
}
impl<T> fmt::Display for TrySendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl<T> fmt::Display for SendError<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl<T> TrySendError<T> {
    pub fn into_inner(self) -> T {
        match self {
            TrySendError::Full(t) | TrySendError::Disconnected(t) => t,
        }
    }
    pub fn is_full(&self) -> bool {
        matches!(self, TrySendError::Full(_))
    }
    pub fn is_disconnected(&self) -> bool {
        matches!(self, TrySendError::Disconnected(_))
    }
}
impl<T> SendError<T> {
    pub fn into_inner(self) -> T {
        self.0
    }
}
impl TryRecvError {
    pub fn is_empty(&self) -> bool {
        *self == TryRecvError::Empty
    }
    pub fn is_disconnected(&self) -> bool {
        *self == TryRecvError::Disconnected
    }
}

impl<T> Sender<T> {
    fn full(&self) -> bool {
        let i = self.0.i();
        i.cap.map_or(false, |c| (i.q.len() + 1) * i.weight > c)
    }
    pub fn try_send(&self, t: T) -> Result<(), TrySendError<T>> {
        rt::point();
        if self.0.i().rcv == 0 {
            self.0.rd();
            return Err(TrySendError::Disconnected(t));
        }
        if self.full() {
            self.0.rd();
            return Err(TrySendError::Full(t));
        }
        self.0.push_ev();
        self.0.i().q.push_back(t);
        Ok(())
    }
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        rt::block_until(|| self.0.i().rcv == 0 || !self.full());
        if self.0.i().rcv == 0 {
            self.0.rd();
            return Err(SendError(t));
        }
        self.0.push_ev();
        self.0.i().q.push_back(t);
        Ok(())
    }
    pub fn send_timeout(&self, t: T, d: Duration) -> Result<(), SendTimeoutError<T>> {
        match self.try_send(t) {
            Ok(()) => Ok(()),
            Err(TrySendError::Disconnected(t)) => Err(SendTimeoutError::Disconnected(t)),
            Err(TrySendError::Full(t)) => {
                rt::sleep(d);
                match self.try_send(t) {
                    Ok(()) => Ok(()),
                    Err(TrySendError::Disconnected(t)) => Err(SendTimeoutError::Disconnected(t)),
                    Err(TrySendError::Full(t)) => Err(SendTimeoutError::Timeout(t)),
                }
            }
        }
    }
    pub fn len(&self) -> usize {
        rt::point();
        self.0.rd();
        self.0.i().q.len() * self.0.i().weight
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        rt::point();
        self.0.rd();
        self.full()
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.i().cap
    }
    pub fn same_channel(&self, o: &Sender<T>) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
}
impl<T> Receiver<T> {
    fn take(&self) -> Option<T> {
        if self.0.i().q.is_empty() {
            self.0.rd();
            None
        } else {
            self.0.wr();
            self.0.i().q.pop_front()
        }
    }
    pub fn try_recv(&self) -> Result<T, TryRecvError> {
        rt::point();
        match self.take() {
            Some(t) => Ok(t),
            None if self.0.i().snd == 0 => Err(TryRecvError::Disconnected),
            None => Err(TryRecvError::Empty),
        }
    }
    pub fn recv(&self) -> Result<T, RecvError> {
        rt::block_until(|| !self.0.i().q.is_empty() || self.0.i().snd == 0);
        self.take().ok_or(RecvError)
    }
    pub fn recv_timeout(&self, d: Duration) -> Result<T, RecvTimeoutError> {
        match self.try_recv() {
            Ok(t) => Ok(t),
            Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected),
            Err(TryRecvError::Empty) => {
                rt::sleep(d);
                match self.try_recv() {
                    Ok(t) => Ok(t),
                    Err(TryRecvError::Disconnected) => Err(RecvTimeoutError::Disconnected),
                    Err(TryRecvError::Empty) => Err(RecvTimeoutError::Timeout),
                }
            }
        }
    }
    pub fn len(&self) -> usize {
        rt::point();
        self.0.rd();
        self.0.i().q.len() * self.0.i().weight
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
    pub fn is_full(&self) -> bool {
        let n = self.len();
        self.0.i().cap.map_or(false, |c| n >= c)
    }
    pub fn capacity(&self) -> Option<usize> {
        self.0.i().cap
    }
    pub fn try_iter(&self) -> TryIter<'_, T> {
        TryIter(self)
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter(self)
    }
    pub fn same_channel(&self, o: &Receiver<T>) -> bool {
        Arc::ptr_eq(&self.0, &o.0)
    }
}
pub struct TryIter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for TryIter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.try_recv().ok()
    }
}
pub struct Iter<'a, T>(&'a Receiver<T>);
impl<T> Iterator for Iter<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.recv().ok()
    }
}
impl<T> Clone for Sender<T> {
    fn clone(&self) -> Self {
        self.0.i().snd += 1;
        Sender(self.0.clone())
    }
}
impl<T> Clone for Receiver<T> {
    fn clone(&self) -> Self {
        self.0.i().rcv += 1;
        Receiver(self.0.clone())
    }
}
impl<T> Drop for Sender<T> {
    fn drop(&mut self) {
        self.0.i().snd -= 1;
    }
}
impl<T> Drop for Receiver<T> {
    fn drop(&mut self) {
        self.0.i().rcv -= 1;
        if self.0.i().rcv == 0 {
            // crossbeam discards undelivered messages when the last receiver goes away
            let q = std::mem::take(&mut self.0.i().q);
            drop(q);
        }
    }
}
impl<T> fmt::Debug for Sender<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Sender { .. }")
    }
}
impl<T> fmt::Debug for Receiver<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Receiver { .. }")
    }
}
