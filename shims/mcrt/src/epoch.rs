//! crossbeam-epoch with the most aggressive legal reclamation: a deferred destruction runs as
//! soon as every thread that was pinned when it was deferred has unpinned.
use crate::atomic::{is_acq, is_rel};
use crate::rt::{self, MAXT};
use std::cell::{Cell, UnsafeCell};
use std::fmt;
use std::marker::PhantomData;
use std::mem::{align_of, ManuallyDrop};
use std::ops::{Deref, DerefMut};
use std::sync::atomic::{AtomicUsize, Ordering};

static mut PINS: [u32; MAXT] = [0; MAXT];
struct Garbage {
    mask: u32,
    f: ManuallyDrop<Box<dyn FnOnce()>>,
}
static mut GARBAGE: Vec<Garbage> = Vec::new();

pub(crate) fn reset() {
    unsafe {
        PINS = [0; MAXT];
        // contents live in the arena that has just been reset
        for g in GARBAGE.drain(..) {
            std::mem::forget(g);
        }
    }
}
pub(crate) fn pending() -> usize {
    unsafe { GARBAGE.len() }
}
pub fn pinned_count() -> u32 {
    unsafe { PINS.iter().sum() }
}

fn pin_obj() -> usize {
    &rt::PIN_OBJ as *const u64 as usize
}

fn unpin_collect(tid: usize) {
    unsafe {
        if GARBAGE.is_empty() {
            return;
        }
        rt::ev_write(pin_obj(), true, false, false);
        let mut ready: Vec<Garbage> = Vec::new();
        let mut i = 0;
        while i < GARBAGE.len() {
            GARBAGE[i].mask &= !(1 << tid);
            if GARBAGE[i].mask == 0 {
                let g = crate::alloc::sys(|| GARBAGE.remove(i));
                ready.push(g);
            } else {
                i += 1;
            }
        }
        // the collector of the real library synchronizes with every earlier unpin
        rt::no_race_check(|| {
            for g in ready {
                (ManuallyDrop::into_inner(g.f))();
            }
        });
    }
}

pub struct Guard {
    real: Cell<bool>,
    tid: usize,
    _p: PhantomData<*mut ()>,
}
struct SyncGuard(Guard);
unsafe impl Sync for SyncGuard {}
static UNPROTECTED: SyncGuard = SyncGuard(Guard { real: Cell::new(false), tid: 0, _p: PhantomData });

pub fn pin() -> Guard {
    let tid = rt::cur();
    rt::ev_read(pin_obj(), false);
    unsafe { PINS[tid] += 1 };
    Guard { real: Cell::new(true), tid, _p: PhantomData }
}
pub fn is_pinned() -> bool {
    unsafe { PINS[rt::cur()] > 0 }
}
pub unsafe fn unprotected() -> &'static Guard {
    &UNPROTECTED.0
}
impl Guard {
    pub fn defer<F: FnOnce() -> R + Send + 'static, R>(&self, f: F) {
        unsafe { self.defer_unchecked(f) }
    }
    pub unsafe fn defer_unchecked<F: FnOnce() -> R, R>(&self, f: F) {
        if !self.real.get() {
            drop(f());
            return;
        }
        rt::ev_write(pin_obj(), true, false, false);
        let b: Box<dyn FnOnce() + '_> = Box::new(move || {
            drop(f());
        });
        let b: Box<dyn FnOnce()> = std::mem::transmute(b);
        let mut mask = 0u32;
        for i in 0..MAXT {
            if PINS[i] > 0 {
                mask |= 1 << i;
            }
        }
        if mask == 0 {
            b();
            return;
        }
        crate::alloc::sys(|| GARBAGE.push(Garbage { mask, f: ManuallyDrop::new(b) }));
    }
    pub unsafe fn defer_destroy<T>(&self, p: Shared<'_, T>) {
        let raw = p.data;
        self.defer_unchecked(move || drop(Owned::<T>::from_data(raw)));
    }
    pub fn flush(&self) {}
    pub fn repin(&mut self) {
        self.repin_after(|| ())
    }
    pub fn repin_after<F: FnOnce() -> R, R>(&mut self, f: F) -> R {
        if self.real.get() {
            unsafe {
                PINS[self.tid] -= 1;
                if PINS[self.tid] == 0 {
                    unpin_collect(self.tid);
                }
            }
        }
        let r = f();
        if self.real.get() {
            unsafe { PINS[self.tid] += 1 };
        }
        r
    }
}
impl Drop for Guard {
    fn drop(&mut self) {
        if self.real.get() {
            unsafe {
                PINS[self.tid] -= 1;
                if PINS[self.tid] == 0 {
                    unpin_collect(self.tid);
                }
            }
        }
    }
}
impl fmt::Debug for Guard {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Guard { .. }")
    }
}

#[inline]
fn low<T>() -> usize {
    (1usize << align_of::<T>().trailing_zeros()) - 1
}

pub trait Pointer<T> {
    /// the pointer hands over a new object
    const OWNED: bool = false;
    fn into_usize(self) -> usize;
    unsafe fn from_usize(d: usize) -> Self;
}

// ---------------------------------------------------------------- Owned
pub struct Owned<T> {
    data: usize,
    _p: PhantomData<Box<T>>,
}
impl<T> Owned<T> {
    pub fn new(v: T) -> Owned<T> {
        Owned { data: Box::into_raw(Box::new(v)) as usize, _p: PhantomData }
    }
    pub fn init(v: T) -> Owned<T> {
        Self::new(v)
    }
    unsafe fn from_data(data: usize) -> Self {
        Owned { data, _p: PhantomData }
    }
    pub unsafe fn from_raw(r: *mut T) -> Owned<T> {
        Owned { data: r as usize, _p: PhantomData }
    }
    pub fn into_box(self) -> Box<T> {
        let d = self.data;
        std::mem::forget(self);
        unsafe { Box::from_raw((d & !low::<T>()) as *mut T) }
    }
    pub fn into_shared<'g>(self, _: &'g Guard) -> Shared<'g, T> {
        let d = self.data;
        std::mem::forget(self);
        Shared { data: d, _p: PhantomData }
    }
    pub fn tag(&self) -> usize {
        self.data & low::<T>()
    }
    pub fn with_tag(self, t: usize) -> Owned<T> {
        let d = self.data;
        std::mem::forget(self);
        Owned { data: (d & !low::<T>()) | (t & low::<T>()), _p: PhantomData }
    }
}
impl<T> Drop for Owned<T> {
    fn drop(&mut self) {
        let p = self.data & !low::<T>();
        if rt::active() && !crate::alloc::is_live(p) {
            rt::fail_str("double free: a table object is destroyed twice");
        }
        unsafe { drop(Box::from_raw(p as *mut T)) }
    }
}
impl<T> Deref for Owned<T> {
    type Target = T;
    fn deref(&self) -> &T {
        let p = self.data & !low::<T>();
        rt::deref(p);
        unsafe { &*(p as *const T) }
    }
}
impl<T> DerefMut for Owned<T> {
    fn deref_mut(&mut self) -> &mut T {
        let p = self.data & !low::<T>();
        unsafe { &mut *(p as *mut T) }
    }
}
impl<T> From<T> for Owned<T> {
    fn from(v: T) -> Self {
        Owned::new(v)
    }
}
impl<T> From<Box<T>> for Owned<T> {
    fn from(b: Box<T>) -> Self {
        unsafe { Owned::from_raw(Box::into_raw(b)) }
    }
}
impl<T> AsRef<T> for Owned<T> {
    fn as_ref(&self) -> &T {
        self
    }
}
impl<T> fmt::Debug for Owned<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Owned { .. }")
    }
}
impl<T> Pointer<T> for Owned<T> {
    const OWNED: bool = true;
    fn into_usize(self) -> usize {
        let d = self.data;
        std::mem::forget(self);
        d
    }
    unsafe fn from_usize(d: usize) -> Self {
        Owned::from_data(d)
    }
}

// ---------------------------------------------------------------- Shared
pub struct Shared<'g, T: 'g> {
    data: usize,
    _p: PhantomData<(&'g (), *const T)>,
}
impl<T> Clone for Shared<'_, T> {
    fn clone(&self) -> Self {
        *self
    }
}
impl<T> Copy for Shared<'_, T> {}
impl<'g, T> Shared<'g, T> {
    pub fn null() -> Self {
        Shared { data: 0, _p: PhantomData }
    }
    pub fn is_null(&self) -> bool {
        self.data & !low::<T>() == 0
    }
    pub fn as_raw(&self) -> *const T {
        (self.data & !low::<T>()) as *const T
    }
    pub unsafe fn deref(&self) -> &'g T {
        let p = self.data & !low::<T>();
        rt::deref(p);
        &*(p as *const T)
    }
    pub unsafe fn deref_mut(&mut self) -> &'g mut T {
        let p = self.data & !low::<T>();
        rt::deref(p);
        &mut *(p as *mut T)
    }
    pub unsafe fn as_ref(&self) -> Option<&'g T> {
        if self.is_null() {
            None
        } else {
            Some(self.deref())
        }
    }
    pub unsafe fn into_owned(self) -> Owned<T> {
        Owned::from_data(self.data)
    }
    pub unsafe fn try_into_owned(self) -> Option<Owned<T>> {
        if self.is_null() {
            None
        } else {
            Some(Owned::from_data(self.data))
        }
    }
    pub fn tag(&self) -> usize {
        self.data & low::<T>()
    }
    pub fn with_tag(&self, t: usize) -> Shared<'g, T> {
        Shared { data: (self.data & !low::<T>()) | (t & low::<T>()), _p: PhantomData }
    }
}
impl<T> From<*const T> for Shared<'_, T> {
    fn from(p: *const T) -> Self {
        Shared { data: p as usize, _p: PhantomData }
    }
}
impl<T> PartialEq for Shared<'_, T> {
    fn eq(&self, o: &Self) -> bool {
        self.data == o.data
    }
}
impl<T> Eq for Shared<'_, T> {}
impl<T> PartialOrd for Shared<'_, T> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> {
        self.data.partial_cmp(&o.data)
    }
}
impl<T> Ord for Shared<'_, T> {
    fn cmp(&self, o: &Self) -> std::cmp::Ordering {
        self.data.cmp(&o.data)
    }
}
impl<T> Default for Shared<'_, T> {
    fn default() -> Self {
        Self::null()
    }
}
impl<T> fmt::Debug for Shared<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "Shared({:#x})", self.data)
    }
}
impl<T> fmt::Pointer for Shared<'_, T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Pointer::fmt(&self.as_raw(), f)
    }
}
impl<T> Pointer<T> for Shared<'_, T> {
    fn into_usize(self) -> usize {
        self.data
    }
    unsafe fn from_usize(d: usize) -> Self {
        Shared { data: d, _p: PhantomData }
    }
}

// ---------------------------------------------------------------- Atomic
/// Null is all zeros, as in crossbeam-epoch.
#[repr(transparent)]
pub struct Atomic<T> {
    data: AtomicUsize,
    _p: PhantomData<*mut T>,
}
unsafe impl<T: Send + Sync> Send for Atomic<T> {}
unsafe impl<T: Send + Sync> Sync for Atomic<T> {}
impl<T> std::panic::UnwindSafe for Atomic<T> {}
impl<T> std::panic::RefUnwindSafe for Atomic<T> {}

pub struct CompareExchangeError<'g, T: 'g, P: Pointer<T>> {
    pub current: Shared<'g, T>,
    pub new: P,
}
pub type CompareAndSetError<'g, T, P> = CompareExchangeError<'g, T, P>;
impl<T, P: Pointer<T>> fmt::Debug for CompareExchangeError<'_, T, P> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("CompareExchangeError { .. }")
    }
}

impl<T> Atomic<T> {
    pub fn new(v: T) -> Atomic<T> {
        Self::from(Owned::new(v))
    }
    pub fn init(v: T) -> Atomic<T> {
        Self::new(v)
    }
    pub const fn null() -> Atomic<T> {
        Atomic { data: AtomicUsize::new(0), _p: PhantomData }
    }
    fn a(&self) -> usize {
        self as *const Self as usize
    }
    pub fn load<'g>(&self, o: Ordering, _: &'g Guard) -> Shared<'g, T> {
        rt::point();
        rt::ev_read(self.a(), is_acq(o));
        Shared { data: self.data.load(Ordering::SeqCst), _p: PhantomData }
    }
    pub fn load_consume<'g>(&self, g: &'g Guard) -> Shared<'g, T> {
        self.load(Ordering::Acquire, g)
    }
    fn publ<P: Pointer<T>>(d: usize) {
        let p = d & !low::<T>();
        if P::OWNED && p != 0 {
            rt::publish(p);
        }
    }
    pub fn store<P: Pointer<T>>(&self, n: P, o: Ordering) {
        rt::point();
        let d = n.into_usize();
        Self::publ::<P>(d);
        rt::ev_write(self.a(), false, false, is_rel(o));
        self.data.store(d, Ordering::SeqCst);
    }
    pub fn swap<'g, P: Pointer<T>>(&self, n: P, o: Ordering, _: &'g Guard) -> Shared<'g, T> {
        rt::point();
        let d = n.into_usize();
        Self::publ::<P>(d);
        rt::ev_write(self.a(), true, is_acq(o), is_rel(o));
        Shared { data: self.data.swap(d, Ordering::SeqCst), _p: PhantomData }
    }
    pub fn compare_exchange<'g, P: Pointer<T>>(
        &self,
        cur: Shared<'_, T>,
        new: P,
        s: Ordering,
        f: Ordering,
        _: &'g Guard,
    ) -> Result<Shared<'g, T>, CompareExchangeError<'g, T, P>> {
        rt::point();
        let d = new.into_usize();
        match self.data.compare_exchange(cur.data, d, Ordering::SeqCst, Ordering::SeqCst) {
            Ok(_) => {
                Self::publ::<P>(d);
                rt::ev_write(self.a(), true, is_acq(s), is_rel(s));
                Ok(Shared { data: d, _p: PhantomData })
            }
            Err(c) => {
                rt::ev_read(self.a(), is_acq(f));
                Err(CompareExchangeError {
                    current: Shared { data: c, _p: PhantomData },
                    new: unsafe { P::from_usize(d) },
                })
            }
        }
    }
    pub fn compare_exchange_weak<'g, P: Pointer<T>>(
        &self,
        cur: Shared<'_, T>,
        new: P,
        s: Ordering,
        f: Ordering,
        g: &'g Guard,
    ) -> Result<Shared<'g, T>, CompareExchangeError<'g, T, P>> {
        if rt::active() && rt::opts().weak_cas && rt::choose_fault(2) == 1 {
            rt::point();
            rt::ev_read(self.a(), is_acq(f));
            return Err(CompareExchangeError {
                current: Shared { data: self.data.load(Ordering::SeqCst), _p: PhantomData },
                new,
            });
        }
        self.compare_exchange(cur, new, s, f, g)
    }
    fn fetch<'g>(&self, o: Ordering, g: impl Fn(usize) -> usize) -> Shared<'g, T> {
        rt::point();
        rt::ev_write(self.a(), true, is_acq(o), is_rel(o));
        let old = self.data.load(Ordering::SeqCst);
        self.data.store(g(old), Ordering::SeqCst);
        Shared { data: old, _p: PhantomData }
    }
    pub fn fetch_and<'g>(&self, v: usize, o: Ordering, _: &'g Guard) -> Shared<'g, T> {
        self.fetch(o, |x| x & (v | !low::<T>()))
    }
    pub fn fetch_or<'g>(&self, v: usize, o: Ordering, _: &'g Guard) -> Shared<'g, T> {
        self.fetch(o, |x| x | (v & low::<T>()))
    }
    pub fn fetch_xor<'g>(&self, v: usize, o: Ordering, _: &'g Guard) -> Shared<'g, T> {
        self.fetch(o, |x| x ^ (v & low::<T>()))
    }
    pub fn fetch_update<'g, F>(&self, s: Ordering, f: Ordering, g: &'g Guard, mut func: F) -> Result<Shared<'g, T>, Shared<'g, T>>
    where
        F: FnMut(Shared<'g, T>) -> Option<Shared<'g, T>>,
    {
        let mut prev = self.load(f, g);
        while let Some(n) = func(prev) {
            match self.compare_exchange_weak(prev, n, s, f, g) {
                Ok(x) => return Ok(x),
                Err(e) => prev = e.current,
            }
        }
        Err(prev)
    }
    pub unsafe fn into_owned(self) -> Owned<T> {
        Owned::from_data(self.data.into_inner())
    }
    pub unsafe fn try_into_owned(self) -> Option<Owned<T>> {
        let d = self.data.into_inner();
        if d & !low::<T>() == 0 {
            None
        } else {
            Some(Owned::from_data(d))
        }
    }
}
impl<T> Clone for Atomic<T> {
    fn clone(&self) -> Self {
        Atomic { data: AtomicUsize::new(self.data.load(Ordering::SeqCst)), _p: PhantomData }
    }
}
impl<T> Default for Atomic<T> {
    fn default() -> Self {
        Self::null()
    }
}
impl<T> From<Owned<T>> for Atomic<T> {
    fn from(o: Owned<T>) -> Self {
        let d = o.into_usize();
        Self::publ::<Owned<T>>(d);
        Atomic { data: AtomicUsize::new(d), _p: PhantomData }
    }
}
impl<T> From<T> for Atomic<T> {
    fn from(v: T) -> Self {
        Self::new(v)
    }
}
impl<T> From<Shared<'_, T>> for Atomic<T> {
    fn from(s: Shared<'_, T>) -> Self {
        Atomic { data: AtomicUsize::new(s.data), _p: PhantomData }
    }
}
impl<T> fmt::Debug for Atomic<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Atomic { .. }")
    }
}

// Explicit collectors, for code that does not use the default one.
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct Collector;
impl Collector {
    pub fn new() -> Self {
        Collector
    }
    pub fn register(&self) -> LocalHandle {
        LocalHandle
    }
}
#[derive(Debug)]
pub struct LocalHandle;
impl LocalHandle {
    pub fn pin(&self) -> Guard {
        pin()
    }
    pub fn is_pinned(&self) -> bool {
        is_pinned()
    }
}
pub fn default_collector() -> &'static Collector {
    static C: Collector = Collector;
    &C
}
#[allow(dead_code)]
struct _Unused(UnsafeCell<()>);
