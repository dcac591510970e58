//! parking_lot-like locks (no poisoning). `RawMutex`/`RawRw` also back the std flavour.
use crate::rt;
use std::cell::UnsafeCell;
use std::fmt;
use std::marker::PhantomData;
use std::ops::{Deref, DerefMut};
use std::time::Duration;

pub struct RawMutex {
    locked: UnsafeCell<bool>,
}
impl RawMutex {
    pub const fn new() -> Self {
        RawMutex { locked: UnsafeCell::new(false) }
    }
    #[inline]
    fn a(&self) -> usize {
        self as *const Self as usize
    }
    #[inline]
    fn l(&self) -> &mut bool {
        unsafe { &mut *self.locked.get() }
    }
    pub fn lock(&self) {
        rt::block_until(|| !*self.l());
        rt::ev_write(self.a(), true, true, false);
        *self.l() = true;
    }
    pub fn try_lock(&self) -> bool {
        rt::point();
        if *self.l() {
            rt::ev_read(self.a(), false);
            false
        } else {
            rt::ev_write(self.a(), true, true, false);
            *self.l() = true;
            true
        }
    }
    pub fn unlock(&self) {
        rt::point();
        rt::ev_write(self.a(), true, false, true);
        *self.l() = false;
    }
    pub fn is_locked(&self) -> bool {
        rt::point();
        rt::ev_read(self.a(), false);
        *self.l()
    }
    pub fn peek(&self) -> bool {
        *self.l()
    }
}

/// Readers-writer lock in which a waiting writer blocks new readers (as parking_lot's does).
pub struct RawRw {
    s: UnsafeCell<(u32, bool)>, // readers, writer bit
}
impl RawRw {
    pub const fn new() -> Self {
        RawRw { s: UnsafeCell::new((0, false)) }
    }
    fn a(&self) -> usize {
        self as *const Self as usize
    }
    fn st(&self) -> &mut (u32, bool) {
        unsafe { &mut *self.s.get() }
    }
    pub fn read(&self) {
        rt::block_until(|| !self.st().1);
        rt::ev_write(self.a(), true, true, false);
        self.st().0 += 1;
    }
    pub fn try_read(&self) -> bool {
        rt::point();
        if self.st().1 {
            rt::ev_read(self.a(), false);
            return false;
        }
        rt::ev_write(self.a(), true, true, false);
        self.st().0 += 1;
        true
    }
    pub fn unlock_read(&self) {
        rt::point();
        rt::ev_write(self.a(), true, false, true);
        self.st().0 -= 1;
    }
    pub fn write(&self) {
        rt::block_until(|| !self.st().1);
        rt::ev_write(self.a(), true, true, false);
        self.st().1 = true;
        if self.st().0 > 0 {
            rt::block_until(|| self.st().0 == 0);
            rt::ev_write(self.a(), true, true, false);
        }
    }
    pub fn try_write(&self) -> bool {
        rt::point();
        let s = self.st();
        if s.1 || s.0 > 0 {
            rt::ev_read(self.a(), false);
            return false;
        }
        rt::ev_write(self.a(), true, true, false);
        s.1 = true;
        true
    }
    pub fn unlock_write(&self) {
        rt::point();
        rt::ev_write(self.a(), true, false, true);
        self.st().1 = false;
    }
    pub fn downgrade(&self) {
        rt::point();
        rt::ev_write(self.a(), true, false, true);
        *self.st() = (1, false);
    }
    pub fn locked(&self) -> (u32, bool) {
        rt::point();
        rt::ev_read(self.a(), false);
        *self.st()
    }
}

// ------------------------------------------------------------------ Mutex
pub struct Mutex<T: ?Sized> {
    raw: RawMutex,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for Mutex<T> {}
unsafe impl<T: ?Sized + Send> Sync for Mutex<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for Mutex<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for Mutex<T> {}
pub struct MutexGuard<'a, T: ?Sized> {
    m: &'a Mutex<T>,
    _p: PhantomData<*mut ()>,
}
pub const fn const_mutex<T>(v: T) -> Mutex<T> {
    Mutex::new(v)
}
impl<T> Mutex<T> {
    pub const fn new(v: T) -> Self {
        Mutex { raw: RawMutex::new(), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.raw.lock();
        MutexGuard { m: self, _p: PhantomData }
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        if self.raw.try_lock() {
            Some(MutexGuard { m: self, _p: PhantomData })
        } else {
            None
        }
    }
    pub fn try_lock_for(&self, _d: Duration) -> Option<MutexGuard<'_, T>> {
        self.try_lock()
    }
    pub fn is_locked(&self) -> bool {
        self.raw.is_locked()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
    pub fn data_ptr(&self) -> *mut T {
        self.v.get()
    }
    pub unsafe fn force_unlock(&self) {
        self.raw.unlock()
    }
}
impl<'a, T: ?Sized> MutexGuard<'a, T> {
    pub fn unlock_fair(s: Self) {
        drop(s)
    }
    pub fn bump(_: &mut Self) {
        rt::yield_now()
    }
    pub fn unlocked<R>(s: &mut Self, f: impl FnOnce() -> R) -> R {
        s.m.raw.unlock();
        let r = f();
        s.m.raw.lock();
        r
    }
    pub fn mutex(s: &Self) -> &'a Mutex<T> {
        s.m
    }
}
impl<T: ?Sized> Deref for MutexGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.m.v.get() }
    }
}
impl<T: ?Sized> DerefMut for MutexGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.m.v.get() }
    }
}
impl<T: ?Sized> Drop for MutexGuard<'_, T> {
    fn drop(&mut self) {
        self.m.raw.unlock()
    }
}
impl<T: ?Sized + fmt::Debug> fmt::Debug for MutexGuard<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        (**self).fmt(f)
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T> From<T> for Mutex<T> {
    fn from(v: T) -> Self {
        Mutex::new(v)
    }
}
impl<T: ?Sized> fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Mutex { .. }")
    }
}

// ------------------------------------------------------------------ RwLock
pub struct RwLock<T: ?Sized> {
    raw: RawRw,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized + Send> Send for RwLock<T> {}
unsafe impl<T: ?Sized + Send + Sync> Sync for RwLock<T> {}
impl<T: ?Sized> std::panic::UnwindSafe for RwLock<T> {}
impl<T: ?Sized> std::panic::RefUnwindSafe for RwLock<T> {}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _p: PhantomData<*mut ()>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
    _p: PhantomData<*mut ()>,
}
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        RwLock { raw: RawRw::new(), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        self.raw.read();
        RwLockReadGuard { l: self, _p: PhantomData }
    }
    pub fn read_recursive(&self) -> RwLockReadGuard<'_, T> {
        self.read()
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        self.raw.write();
        RwLockWriteGuard { l: self, _p: PhantomData }
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        if self.raw.try_read() {
            Some(RwLockReadGuard { l: self, _p: PhantomData })
        } else {
            None
        }
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        if self.raw.try_write() {
            Some(RwLockWriteGuard { l: self, _p: PhantomData })
        } else {
            None
        }
    }
    pub fn is_locked(&self) -> bool {
        let s = self.raw.locked();
        s.1 || s.0 > 0
    }
    pub fn is_locked_exclusive(&self) -> bool {
        self.raw.locked().1
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
    pub fn data_ptr(&self) -> *mut T {
        self.v.get()
    }
}
impl<'a, T: ?Sized> RwLockWriteGuard<'a, T> {
    pub fn downgrade(s: Self) -> RwLockReadGuard<'a, T> {
        let l = s.l;
        std::mem::forget(s);
        l.raw.downgrade();
        RwLockReadGuard { l, _p: PhantomData }
    }
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.unlock_read()
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.l.raw.unlock_write()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T> From<T> for RwLock<T> {
    fn from(v: T) -> Self {
        RwLock::new(v)
    }
}
impl<T: ?Sized> fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("RwLock { .. }")
    }
}

// ------------------------------------------------------------------ Condvar, Once
#[derive(Debug, Default, PartialEq, Eq, Clone, Copy)]
pub struct WaitTimeoutResult(bool);
impl WaitTimeoutResult {
    pub fn timed_out(self) -> bool {
        self.0
    }
}
#[derive(Debug)]
pub struct Condvar {
    seq: UnsafeCell<(u64, u64)>, // (tickets issued, tickets served)
}
unsafe impl Send for Condvar {}
unsafe impl Sync for Condvar {}
impl Default for Condvar {
    fn default() -> Self {
        Self::new()
    }
}
impl Condvar {
    pub const fn new() -> Self {
        Condvar { seq: UnsafeCell::new((0, 0)) }
    }
    fn s(&self) -> &mut (u64, u64) {
        unsafe { &mut *self.seq.get() }
    }
    pub fn raw_wait(&self, m: &RawMutex) {
        let t = self.s().0;
        self.s().0 += 1;
        rt::ev_write(self as *const _ as usize, true, false, false);
        m.unlock();
        rt::block_until(|| self.s().1 > t);
        rt::ev_write(self as *const _ as usize, true, true, false);
        m.lock();
    }
    pub fn wait<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>) {
        self.raw_wait(&g.m.raw)
    }
    pub fn wait_while<T: ?Sized>(&self, g: &mut MutexGuard<'_, T>, mut f: impl FnMut(&mut T) -> bool) {
        while f(&mut **g) {
            self.wait(g)
        }
    }
    pub fn notify_one(&self) -> bool {
        rt::point();
        rt::ev_write(self as *const _ as usize, true, false, true);
        let s = self.s();
        if s.1 < s.0 {
            s.1 += 1;
            true
        } else {
            false
        }
    }
    pub fn notify_all(&self) -> usize {
        rt::point();
        rt::ev_write(self as *const _ as usize, true, false, true);
        let s = self.s();
        let n = s.0 - s.1;
        s.1 = s.0;
        n as usize
    }
}
pub struct Once {
    s: UnsafeCell<u8>,
}
unsafe impl Send for Once {}
unsafe impl Sync for Once {}
impl Once {
    pub const fn new() -> Self {
        Once { s: UnsafeCell::new(0) }
    }
    pub fn call_once(&self, f: impl FnOnce()) {
        let s = unsafe { &mut *self.s.get() };
        rt::block_until(|| unsafe { *self.s.get() } != 1);
        rt::ev_write(self as *const _ as usize, true, true, true);
        if *s == 0 {
            *s = 1;
            f();
            rt::ev_write(self as *const _ as usize, true, true, true);
            *s = 2;
        }
    }
}
