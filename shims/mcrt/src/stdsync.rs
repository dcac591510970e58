//! std-flavoured Mutex / RwLock / Condvar with poisoning.
use crate::pl::{RawMutex, RawRw};
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use std::sync::{LockResult, PoisonError, TryLockError, TryLockResult};

pub struct Mutex<T: ?Sized> {
    raw: RawMutex,
    poison: Cell<bool>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    panicking: bool,
    _p: PhantomData<*mut ()>,
}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { raw: RawMutex::new(), poison: Cell::new(false), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        let p = self.poison.get();
        let v = self.v.into_inner();
        if p {
            Err(PoisonError::new(v))
        } else {
            Ok(v)
        }
    }
}
impl<T: ?Sized> Mutex<T> {
    fn guard(&self) -> LockResult<MutexGuard<'_, T>> {
        let g = MutexGuard { m: self, panicking: std::thread::panicking(), _p: PhantomData };
        if self.poison.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
        self.raw.lock();
        self.guard()
    }
    pub fn try_lock(&self) -> TryLockResult<MutexGuard<'_, T>> {
        if self.raw.try_lock() {
            self.guard().map_err(TryLockError::Poisoned)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.poison.get()
    }
    pub fn clear_poison(&self) {
        self.poison.set(false)
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.v.get_mut())
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        if !self.panicking && std::thread::panicking() {
            self.m.poison.set(true);
        }
        self.m.raw.unlock()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}

pub struct RwLock<T: ?Sized> {
    raw: RawRw,
    poison: Cell<bool>,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _p: PhantomData<*mut ()>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _p: PhantomData<*mut ()>,
}
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { raw: RawRw::new(), poison: Cell::new(false), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> LockResult<T> {
        Ok(self.v.into_inner())
    }
}
impl<T: ?Sized> RwLock<T> {
    fn wrap<G>(&self, g: G) -> LockResult<G> {
        if self.poison.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
        self.raw.read();
        self.wrap(RwLockReadGuard { l: self, _p: PhantomData })
    }
    pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
        self.raw.write();
        self.wrap(RwLockWriteGuard { l: self, _p: PhantomData })
    }
    pub fn try_read(&self) -> TryLockResult<RwLockReadGuard<'_, T>> {
        if self.raw.try_read() {
            self.wrap(RwLockReadGuard { l: self, _p: PhantomData }).map_err(TryLockError::Poisoned)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn try_write(&self) -> TryLockResult<RwLockWriteGuard<'_, T>> {
        if self.raw.try_write() {
            self.wrap(RwLockWriteGuard { l: self, _p: PhantomData }).map_err(TryLockError::Poisoned)
        } else {
            Err(TryLockError::WouldBlock)
        }
    }
    pub fn is_poisoned(&self) -> bool {
        self.poison.get()
    }
    pub fn get_mut(&mut self) -> LockResult<&mut T> {
        Ok(self.v.get_mut())
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.unlock_read()
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        if std::thread::panicking() {
            self.l.poison.set(true);
        }
        self.l.raw.unlock_write()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}

#[derive(Debug, Default)]
pub struct Condvar(crate::pl::Condvar);
impl Condvar {
    pub const fn new() -> Self {
        Condvar(crate::pl::Condvar::new())
    }
    pub fn wait<'a, T>(&self, g: MutexGuard<'a, T>) -> LockResult<MutexGuard<'a, T>> {
        self.0.raw_wait(&g.m.raw);
        if g.m.poison.get() {
            Err(PoisonError::new(g))
        } else {
            Ok(g)
        }
    }
    pub fn wait_while<'a, T, F: FnMut(&mut T) -> bool>(&self, mut g: MutexGuard<'a, T>, mut f: F) -> LockResult<MutexGuard<'a, T>> {
        while f(&mut *g) {
            g = self.wait(g)?;
        }
        Ok(g)
    }
    pub fn notify_one(&self) {
        self.0.notify_one();
    }
    pub fn notify_all(&self) {
        self.0.notify_all();
    }
}
