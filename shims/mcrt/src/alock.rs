//! async-lock subset. Unlocking wakes every waiter; each retries when polled, so every
//! acquisition order the real (eventually fair) locks allow is explored.
use crate::rt;
use std::cell::UnsafeCell;
use std::fmt;
use std::future::Future;
use std::ops::{Deref, DerefMut};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

fn reg(v: &mut Vec<Waker>, cx: &Context<'_>) {
    if !v.iter().any(|w| w.will_wake(cx.waker())) {
        v.push(cx.waker().clone());
    }
}
fn wake_all(v: &mut Vec<Waker>) {
    for w in std::mem::take(v) {
        w.wake();
    }
}
fn block_on_unit<F: Future>(f: F) -> F::Output {
    crate::fut::block_on(f)
}

pub struct Mutex<T: ?Sized> {
    s: UnsafeCell<(bool, Vec<Waker>)>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized>(&'a Mutex<T>);
unsafe impl<T: ?Sized + Send> Send for MutexGuard<'_, T> {}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuard<'_, T> {}
pub struct MutexGuardArc<T: ?Sized>(Arc<Mutex<T>>);
unsafe impl<T: ?Sized + Send> Send for MutexGuardArc<T> {}
unsafe impl<T: ?Sized + Sync> Sync for MutexGuardArc<T> {}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { s: UnsafeCell::new((false, Vec::new())), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    fn st(&self) -> &mut (bool, Vec<Waker>) {
        unsafe { &mut *self.s.get() }
    }
    fn a(&self) -> usize {
        self.s.get() as *const u8 as usize
    }
    fn acquire(&self) -> bool {
        rt::point();
        if self.st().0 {
            rt::ev_write(self.a(), true, false, false); // registers a waker
            false
        } else {
            rt::ev_write(self.a(), true, true, false);
            self.st().0 = true;
            true
        }
    }
    fn release(&self) {
        rt::point();
        rt::ev_write(self.a(), true, false, true);
        self.st().0 = false;
        wake_all(&mut self.st().1);
    }
    pub fn lock(&self) -> Lock<'_, T> {
        Lock(self)
    }
    pub fn lock_blocking(&self) -> MutexGuard<'_, T> {
        block_on_unit(self.lock())
    }
    pub fn lock_arc(self: &Arc<Self>) -> LockArc<T> {
        LockArc(self.clone())
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        rt::point();
        if self.st().0 {
            rt::ev_read(self.a(), false);
            None
        } else {
            rt::ev_write(self.a(), true, true, false);
            self.st().0 = true;
            Some(MutexGuard(self))
        }
    }
    pub fn try_lock_arc(self: &Arc<Self>) -> Option<MutexGuardArc<T>> {
        self.try_lock().map(|g| {
            std::mem::forget(g);
            MutexGuardArc(self.clone())
        })
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
}
pub struct Lock<'a, T: ?Sized>(&'a Mutex<T>);
unsafe impl<T: ?Sized + Send> Send for Lock<'_, T> {}
unsafe impl<T: ?Sized + Send> Sync for Lock<'_, T> {}
impl<'a, T: ?Sized> Future for Lock<'a, T> {
    type Output = MutexGuard<'a, T>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.0.acquire() {
            Poll::Ready(MutexGuard(self.0))
        } else {
            reg(&mut self.0.st().1, cx);
            Poll::Pending
        }
    }
}
pub struct LockArc<T: ?Sized>(Arc<Mutex<T>>);
impl<T: ?Sized> Unpin for LockArc<T> {}
unsafe impl<T: ?Sized + Send> Send for LockArc<T> {}
impl<T: ?Sized> Future for LockArc<T> {
    type Output = MutexGuardArc<T>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        if self.0.acquire() {
            Poll::Ready(MutexGuardArc(self.0.clone()))
        } else {
            reg(&mut self.0.st().1, cx);
            Poll::Pending
        }
    }
}
impl<'a, T: ?Sized> MutexGuard<'a, T> {
    pub fn source(g: &Self) -> &'a Mutex<T> {
        g.0
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.0.release()
    }
}
impl<T: ?Sized> Deref for MutexGuardArc<T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuardArc<T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuardArc<T> {
    fn drop(&mut self) {
        self.0.release()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}

struct RwState {
    readers: usize,
    writer: bool, // a writer holds or is waiting (write-preferring)
    wk: Vec<Waker>,
}
pub struct RwLock<T: ?Sized> {
    s: UnsafeCell<RwState>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized>(&'a RwLock<T>);
pub struct RwLockWriteGuard<'a, T: ?Sized>(&'a RwLock<T>);
unsafe impl<T: ?Sized + Send + Sync> Send for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLockReadGuard<'_, T> {}
unsafe impl<T: ?Sized + Send + Sync> Send for RwLockWriteGuard<'_, T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLockWriteGuard<'_, T> {}
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock {
            s: UnsafeCell::new(RwState { readers: 0, writer: false, wk: Vec::new() }),
            v: UnsafeCell::new(v),
        }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    fn st(&self) -> &mut RwState {
        unsafe { &mut *self.s.get() }
    }
    fn a(&self) -> usize {
        self.s.get() as *const u8 as usize
    }
    pub fn read(&self) -> Read<'_, T> {
        Read(self)
    }
    pub fn write(&self) -> Write<'_, T> {
        Write { l: self, bit: false }
    }
    pub fn read_blocking(&self) -> RwLockReadGuard<'_, T> {
        block_on_unit(self.read())
    }
    pub fn write_blocking(&self) -> RwLockWriteGuard<'_, T> {
        block_on_unit(self.write())
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        rt::point();
        if self.st().writer {
            rt::ev_read(self.a(), false);
            return None;
        }
        rt::ev_write(self.a(), true, true, false);
        self.st().readers += 1;
        Some(RwLockReadGuard(self))
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        rt::point();
        if self.st().writer || self.st().readers > 0 {
            rt::ev_read(self.a(), false);
            return None;
        }
        rt::ev_write(self.a(), true, true, false);
        self.st().writer = true;
        Some(RwLockWriteGuard(self))
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
}
pub struct Read<'a, T: ?Sized>(&'a RwLock<T>);
unsafe impl<T: ?Sized + Send + Sync> Send for Read<'_, T> {}
impl<'a, T: ?Sized> Future for Read<'a, T> {
    type Output = RwLockReadGuard<'a, T>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        rt::point();
        rt::ev_write(self.0.a(), true, true, false);
        let s = self.0.st();
        if s.writer {
            reg(&mut s.wk, cx);
            Poll::Pending
        } else {
            s.readers += 1;
            Poll::Ready(RwLockReadGuard(self.0))
        }
    }
}
pub struct Write<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    bit: bool,
}
unsafe impl<T: ?Sized + Send + Sync> Send for Write<'_, T> {}
impl<'a, T: ?Sized> Future for Write<'a, T> {
    type Output = RwLockWriteGuard<'a, T>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        rt::point();
        rt::ev_write(self.l.a(), true, true, false);
        let s = self.l.st();
        if !self.bit {
            if s.writer {
                reg(&mut s.wk, cx);
                return Poll::Pending;
            }
            s.writer = true;
            self.bit = true;
        }
        if s.readers > 0 {
            reg(&mut s.wk, cx);
            return Poll::Pending;
        }
        self.bit = false;
        Poll::Ready(RwLockWriteGuard(self.l))
    }
}
impl<T: ?Sized> Drop for Write<'_, T> {
    fn drop(&mut self) {
        if self.bit {
            rt::point();
            rt::ev_write(self.l.a(), true, false, true);
            self.l.st().writer = false;
            wake_all(&mut self.l.st().wk);
        }
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.0.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.0.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        rt::point();
        rt::ev_write(self.0.a(), true, false, true);
        let s = self.0.st();
        s.readers -= 1;
        if s.readers == 0 {
            wake_all(&mut s.wk);
        }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        rt::point();
        rt::ev_write(self.0.a(), true, false, true);
        let s = self.0.st();
        s.writer = false;
        wake_all(&mut s.wk);
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(g: Self) -> RwLockReadGuard<'a, T> {
        let l = g.0;
        std::mem::forget(g);
        rt::point();
        rt::ev_write(l.a(), true, false, true);
        l.st().writer = false;
        l.st().readers = 1;
        wake_all(&mut l.st().wk);
        RwLockReadGuard(l)
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(v: T) -> Self {
        RwLock::new(v)
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
