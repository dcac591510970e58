//! Intercepted atomics with the `std::sync::atomic` interface. Values are sequentially
//! consistent; the orderings feed the happens-before clocks.
use crate::rt;
pub use std::sync::atomic::Ordering;
use std::sync::atomic::Ordering::*;

#[inline(always)]
pub fn is_acq(o: Ordering) -> bool {
    matches!(o, Acquire | AcqRel | SeqCst)
}
#[inline(always)]
pub fn is_rel(o: Ordering) -> bool {
    matches!(o, Release | AcqRel | SeqCst)
}

/// Reference counts of the crate's own `Arc` are scheduling points only on request.
#[inline(always)]
fn skip(file: &'static str) -> bool {
    rt::active() && !rt::opts().arc_points && file.ends_with("/arc.rs")
}

macro_rules! common {
    ($name:ident, $t:ty, $std:ty, [$($track:meta)?], $skip:expr) => {
        #[repr(transparent)]
        pub struct $name($std);
        impl $name {
            #[inline(always)]
            pub const fn new(v: $t) -> Self {
                Self(<$std>::new(v))
            }
            #[inline(always)]
            fn a(&self) -> usize {
                self as *const Self as usize
            }
            pub fn get_mut(&mut self) -> &mut $t {
                self.0.get_mut()
            }
            pub fn into_inner(self) -> $t {
                self.0.into_inner()
            }
            pub fn as_ptr(&self) -> *mut $t {
                self.0.as_ptr()
            }
            pub fn is_lock_free() -> bool {
                true
            }
            $(#[$track])?
            #[inline]
            pub fn load(&self, o: Ordering) -> $t {
                if $skip { return self.0.load(SeqCst); }
                assert!(!matches!(o, Release | AcqRel), "there is no such thing as a release load");
                rt::point();
                rt::ev_read(self.a(), is_acq(o));
                self.0.load(SeqCst)
            }
            $(#[$track])?
            #[inline]
            pub fn store(&self, v: $t, o: Ordering) {
                if $skip { return self.0.store(v, SeqCst); }
                assert!(!matches!(o, Acquire | AcqRel), "there is no such thing as an acquire store");
                rt::point();
                rt::ev_write(self.a(), false, false, is_rel(o));
                self.0.store(v, SeqCst)
            }
            $(#[$track])?
            #[inline]
            pub fn swap(&self, v: $t, o: Ordering) -> $t {
                if $skip { return self.0.swap(v, SeqCst); }
                rt::point();
                rt::ev_write(self.a(), true, is_acq(o), is_rel(o));
                self.0.swap(v, SeqCst)
            }
            $(#[$track])?
            #[inline]
            pub fn compare_exchange(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                if $skip { return self.0.compare_exchange(c, n, SeqCst, SeqCst); }
                rt::point();
                let r = self.0.compare_exchange(c, n, SeqCst, SeqCst);
                match r {
                    Ok(_) => rt::ev_write(self.a(), true, is_acq(s), is_rel(s)),
                    Err(_) => rt::ev_read(self.a(), is_acq(f)),
                }
                r
            }
            $(#[$track])?
            #[inline]
            pub fn compare_exchange_weak(&self, c: $t, n: $t, s: Ordering, f: Ordering) -> Result<$t, $t> {
                if $skip { return self.0.compare_exchange(c, n, SeqCst, SeqCst); }
                if rt::active() && rt::opts().weak_cas && rt::choose_fault(2) == 1 {
                    rt::point();
                    rt::ev_read(self.a(), is_acq(f));
                    return Err(self.0.load(SeqCst));
                }
                self.compare_exchange(c, n, s, f)
            }
            pub fn compare_and_swap(&self, c: $t, n: $t, o: Ordering) -> $t {
                match self.compare_exchange(c, n, o, SeqCst) { Ok(x) | Err(x) => x }
            }
            pub fn fetch_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, mut g: F) -> Result<$t, $t> {
                let mut prev = self.load(f);
                while let Some(next) = g(prev) {
                    match self.compare_exchange_weak(prev, next, s, f) {
                        x @ Ok(_) => return x,
                        Err(p) => prev = p,
                    }
                }
                Err(prev)
            }
            pub fn try_update<F: FnMut($t) -> Option<$t>>(&self, s: Ordering, f: Ordering, g: F) -> Result<$t, $t> {
                self.fetch_update(s, f, g)
            }
            pub fn update<F: FnMut($t) -> $t>(&self, s: Ordering, f: Ordering, mut g: F) -> $t {
                self.fetch_update(s, f, |x| Some(g(x))).unwrap()
            }
        }
        impl From<$t> for $name {
            fn from(v: $t) -> Self { Self::new(v) }
        }
        impl std::fmt::Debug for $name {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                std::fmt::Debug::fmt(&self.0, f)
            }
        }
        impl std::panic::RefUnwindSafe for $name {}
    };
}

macro_rules! rmw {
    ($t:ty, $skip:expr, $($f:ident)*) => {
        $(
            #[track_caller]
            #[inline]
            pub fn $f(&self, v: $t, o: Ordering) -> $t {
                if $skip { return self.0.$f(v, SeqCst); }
                rt::point();
                rt::ev_write(self.a(), true, is_acq(o), is_rel(o));
                self.0.$f(v, SeqCst)
            }
        )*
    };
}

macro_rules! int {
    ($name:ident, $t:ty, $std:ty) => {
        common!($name, $t, $std, [], false);
        impl $name {
            rmw!($t, false, fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_nand fetch_max fetch_min);
            // portable-atomic extensions
            pub fn add(&self, v: $t, o: Ordering) { self.fetch_add(v, o); }
            pub fn sub(&self, v: $t, o: Ordering) { self.fetch_sub(v, o); }
            pub fn and(&self, v: $t, o: Ordering) { self.fetch_and(v, o); }
            pub fn or(&self, v: $t, o: Ordering) { self.fetch_or(v, o); }
            pub fn xor(&self, v: $t, o: Ordering) { self.fetch_xor(v, o); }
        }
        impl Default for $name { fn default() -> Self { Self::new(0) } }
    };
}

int!(AtomicU8, u8, std::sync::atomic::AtomicU8);
int!(AtomicU16, u16, std::sync::atomic::AtomicU16);
int!(AtomicU64, u64, std::sync::atomic::AtomicU64);
int!(AtomicUsize, usize, std::sync::atomic::AtomicUsize);
int!(AtomicI8, i8, std::sync::atomic::AtomicI8);
int!(AtomicI16, i16, std::sync::atomic::AtomicI16);
int!(AtomicI32, i32, std::sync::atomic::AtomicI32);
int!(AtomicI64, i64, std::sync::atomic::AtomicI64);
int!(AtomicIsize, isize, std::sync::atomic::AtomicIsize);

common!(AtomicU32, u32, std::sync::atomic::AtomicU32, [track_caller], skip(std::panic::Location::caller().file()));
impl AtomicU32 {
    rmw!(u32, skip(std::panic::Location::caller().file()),
        fetch_add fetch_sub fetch_and fetch_or fetch_xor fetch_nand fetch_max fetch_min);
}
impl Default for AtomicU32 {
    fn default() -> Self {
        Self::new(0)
    }
}

common!(AtomicBool, bool, std::sync::atomic::AtomicBool, [], false);
impl AtomicBool {
    rmw!(bool, false, fetch_and fetch_or fetch_xor fetch_nand);
    pub fn fetch_not(&self, o: Ordering) -> bool {
        self.fetch_xor(true, o)
    }
}
impl Default for AtomicBool {
    fn default() -> Self {
        Self::new(false)
    }
}

#[repr(transparent)]
pub struct AtomicPtr<T>(std::sync::atomic::AtomicPtr<T>);
impl<T> AtomicPtr<T> {
    pub const fn new(p: *mut T) -> Self {
        Self(std::sync::atomic::AtomicPtr::new(p))
    }
    fn a(&self) -> usize {
        self as *const Self as usize
    }
    pub fn get_mut(&mut self) -> &mut *mut T {
        self.0.get_mut()
    }
    pub fn into_inner(self) -> *mut T {
        self.0.into_inner()
    }
    pub fn load(&self, o: Ordering) -> *mut T {
        rt::point();
        rt::ev_read(self.a(), is_acq(o));
        self.0.load(SeqCst)
    }
    pub fn store(&self, p: *mut T, o: Ordering) {
        rt::point();
        rt::ev_write(self.a(), false, false, is_rel(o));
        self.0.store(p, SeqCst)
    }
    pub fn swap(&self, p: *mut T, o: Ordering) -> *mut T {
        rt::point();
        rt::ev_write(self.a(), true, is_acq(o), is_rel(o));
        self.0.swap(p, SeqCst)
    }
    pub fn compare_exchange(&self, c: *mut T, n: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
        rt::point();
        let r = self.0.compare_exchange(c, n, SeqCst, SeqCst);
        match r {
            Ok(_) => rt::ev_write(self.a(), true, is_acq(s), is_rel(s)),
            Err(_) => rt::ev_read(self.a(), is_acq(f)),
        }
        r
    }
    pub fn compare_exchange_weak(&self, c: *mut T, n: *mut T, s: Ordering, f: Ordering) -> Result<*mut T, *mut T> {
        self.compare_exchange(c, n, s, f)
    }
}
impl<T> Default for AtomicPtr<T> {
    fn default() -> Self {
        Self::new(std::ptr::null_mut())
    }
}
impl<T> std::fmt::Debug for AtomicPtr<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        std::fmt::Debug::fmt(&self.0, f)
    }
}

pub fn fence(o: Ordering) {
    rt::ev_fence(is_acq(o), is_rel(o));
}
pub fn compiler_fence(_: Ordering) {}
pub fn spin_loop_hint() {
    rt::yield_now();
}

/// `crossbeam_utils::atomic::AtomicCell`
pub struct AtomicCell<T> {
    v: std::cell::UnsafeCell<T>,
}
unsafe impl<T: Send> Send for AtomicCell<T> {}
unsafe impl<T: Send> Sync for AtomicCell<T> {}
impl<T> std::panic::UnwindSafe for AtomicCell<T> {}
impl<T> std::panic::RefUnwindSafe for AtomicCell<T> {}
impl<T> AtomicCell<T> {
    pub const fn new(v: T) -> Self {
        AtomicCell { v: std::cell::UnsafeCell::new(v) }
    }
    fn a(&self) -> usize {
        self as *const Self as usize
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
    pub const fn is_lock_free() -> bool {
        true
    }
    pub fn as_ptr(&self) -> *mut T {
        self.v.get()
    }
    pub fn store(&self, v: T) {
        drop(self.swap(v));
    }
    pub fn swap(&self, v: T) -> T {
        rt::point();
        rt::ev_write(self.a(), true, true, true);
        unsafe { std::mem::replace(&mut *self.v.get(), v) }
    }
}
impl<T: Copy> AtomicCell<T> {
    pub fn load(&self) -> T {
        rt::point();
        rt::ev_read(self.a(), true);
        unsafe { *self.v.get() }
    }
}
impl<T: Default> AtomicCell<T> {
    pub fn take(&self) -> T {
        self.swap(T::default())
    }
}
impl<T: Copy + Eq> AtomicCell<T> {
    pub fn compare_exchange(&self, c: T, n: T) -> Result<T, T> {
        rt::point();
        let o = unsafe { *self.v.get() };
        if o == c {
            rt::ev_write(self.a(), true, true, true);
            unsafe { *self.v.get() = n };
            Ok(o)
        } else {
            rt::ev_read(self.a(), true);
            Err(o)
        }
    }
    pub fn compare_and_swap(&self, c: T, n: T) -> T {
        match self.compare_exchange(c, n) {
            Ok(x) | Err(x) => x,
        }
    }
    pub fn fetch_update<F: FnMut(T) -> Option<T>>(&self, mut f: F) -> Result<T, T> {
        let mut cur = self.load();
        while let Some(n) = f(cur) {
            match self.compare_exchange(cur, n) {
                x @ Ok(_) => return x,
                Err(c) => cur = c,
            }
        }
        Err(cur)
    }
}
macro_rules! cell_int {
    ($($t:ty)*) => { $(
        impl AtomicCell<$t> {
            fn rmw(&self, f: impl FnOnce($t) -> $t) -> $t {
                rt::point();
                rt::ev_write(self.a(), true, true, true);
                unsafe { let o = *self.v.get(); *self.v.get() = f(o); o }
            }
            pub fn fetch_add(&self, v: $t) -> $t { self.rmw(|o| o.wrapping_add(v)) }
            pub fn fetch_sub(&self, v: $t) -> $t { self.rmw(|o| o.wrapping_sub(v)) }
            pub fn fetch_and(&self, v: $t) -> $t { self.rmw(|o| o & v) }
            pub fn fetch_or(&self, v: $t) -> $t { self.rmw(|o| o | v) }
            pub fn fetch_xor(&self, v: $t) -> $t { self.rmw(|o| o ^ v) }
            pub fn fetch_max(&self, v: $t) -> $t { self.rmw(|o| o.max(v)) }
            pub fn fetch_min(&self, v: $t) -> $t { self.rmw(|o| o.min(v)) }
        }
    )* };
}
cell_int!(u8 i8 u16 i16 u32 i32 u64 i64 u128 i128 usize isize);
impl<T: Default> Default for AtomicCell<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
impl<T> From<T> for AtomicCell<T> {
    fn from(v: T) -> Self {
        Self::new(v)
    }
}
impl<T: Copy + std::fmt::Debug> std::fmt::Debug for AtomicCell<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.debug_struct("AtomicCell").field("value", unsafe { &*self.v.get() }).finish()
    }
}
