//! A minimal executor (one task per model thread) and the futures-util subset moka uses.
use crate::rt;
use std::any::Any;
use std::cell::UnsafeCell;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Wake, Waker};

struct Flag {
    set: UnsafeCell<bool>,
    dead: UnsafeCell<bool>,
}
unsafe impl Send for Flag {}
unsafe impl Sync for Flag {}
impl Flag {
    fn a(&self) -> usize {
        self.set.get() as usize
    }
    fn fire(&self) {
        if rt::active() {
            rt::point();
            rt::ev_write(self.a(), true, false, true);
        }
        unsafe { *self.set.get() = true };
    }
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.fire()
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.fire()
    }
}

/// Run a future to completion on the current model thread.
pub fn block_on<F: Future>(f: F) -> F::Output {
    match block_on_cancel(f, |_| false) {
        Some(x) => x,
        None => unreachable!(),
    }
}

/// As `block_on`, but after every `Pending` (the n-th, from 0) `cancel(n)` decides whether the
/// future is dropped instead of being polled again.
pub fn block_on_cancel<F: Future>(f: F, mut cancel: impl FnMut(usize) -> bool) -> Option<F::Output> {
    let flag = Arc::new(Flag { set: UnsafeCell::new(false), dead: UnsafeCell::new(false) });
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = Box::pin(f);
    let mut n = 0;
    loop {
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) {
            unsafe { *flag.dead.get() = true };
            return Some(x);
        }
        if cancel(n) {
            drop(f);
            return None;
        }
        n += 1;
        rt::block_until(|| unsafe { *flag.set.get() });
        rt::ev_write(flag.a(), true, true, false);
        unsafe { *flag.set.get() = false };
    }
}

/// A future that stays pending until another thread has run (or forever if `n` is huge).
pub struct YieldFuture(pub usize);
impl Future for YieldFuture {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.0 == 0 {
            Poll::Ready(())
        } else {
            self.0 -= 1;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
}

// ------------------------------------------------------------------ futures-util
pub type BoxFuture<'a, T> = Pin<Box<dyn Future<Output = T> + Send + 'a>>;
pub type LocalBoxFuture<'a, T> = Pin<Box<dyn Future<Output = T> + 'a>>;

enum SState<F: Future> {
    Idle(Pin<Box<F>>),
    Polling,
    Done(F::Output),
    Poisoned,
}
struct SInner<F: Future> {
    st: UnsafeCell<SState<F>>,
    wk: UnsafeCell<Vec<(u64, Option<Waker>)>>,
    next: UnsafeCell<u64>,
    woken: UnsafeCell<bool>,
}
unsafe impl<F: Future + Send> Send for SInner<F> {}
unsafe impl<F: Future + Send> Sync for SInner<F> {}

/// `futures_util::future::Shared`
pub struct Shared<F: Future> {
    i: Option<Arc<SInner<F>>>,
    key: u64,
}
impl<F: Future> Unpin for Shared<F> {}
unsafe impl<F: Future + Send> Send for Shared<F> where F::Output: Send + Sync {}
unsafe impl<F: Future + Send> Sync for Shared<F> where F::Output: Send + Sync {}
impl<F: Future> std::panic::UnwindSafe for Shared<F> {}
impl<F: Future> std::panic::RefUnwindSafe for Shared<F> {}

impl<F: Future> SInner<F> {
    fn a(&self) -> usize {
        self.woken.get() as usize
    }
    fn wake_all(&self) {
        let v = unsafe { &mut *self.wk.get() };
        let ws: Vec<Waker> = v.iter_mut().filter_map(|x| x.1.take()).collect();
        for w in ws {
            w.wake();
        }
    }
}
// The inner future is polled with a waker that wakes every clone of the Shared.
fn vt<F: Future>() -> &'static RawWakerVTable {
    trait V {
        const T: RawWakerVTable;
    }
    struct G<F>(std::marker::PhantomData<F>);
    impl<F: Future> V for G<F> {
        const T: RawWakerVTable = RawWakerVTable::new(cl::<F>, wk::<F>, wr::<F>, dr::<F>);
    }
    unsafe fn cl<F: Future>(p: *const ()) -> RawWaker {
        Arc::increment_strong_count(p as *const SInner<F>);
        RawWaker::new(p, vt::<F>())
    }
    unsafe fn wk<F: Future>(p: *const ()) {
        wr::<F>(p);
        dr::<F>(p);
    }
    unsafe fn wr<F: Future>(p: *const ()) {
        let s = &*(p as *const SInner<F>);
        rt::point();
        rt::ev_write(s.a(), true, true, true);
        *s.woken.get() = true;
        s.wake_all();
    }
    unsafe fn dr<F: Future>(p: *const ()) {
        Arc::decrement_strong_count(p as *const SInner<F>);
    }
    &<G<F> as V>::T
}

impl<F: Future> Shared<F> {
    fn new(f: F) -> Self {
        Shared {
            i: Some(Arc::new(SInner {
                st: UnsafeCell::new(SState::Idle(Box::pin(f))),
                wk: UnsafeCell::new(Vec::new()),
                next: UnsafeCell::new(1),
                woken: UnsafeCell::new(false),
            })),
            key: 0,
        }
    }
    pub fn peek(&self) -> Option<&F::Output> {
        let i = self.i.as_ref()?;
        rt::point();
        rt::ev_read(i.a(), true);
        match unsafe { &*i.st.get() } {
            SState::Done(x) => Some(x),
            _ => None,
        }
    }
    pub fn strong_count(&self) -> Option<usize> {
        self.i.as_ref().map(Arc::strong_count)
    }
    pub fn ptr_eq(&self, o: &Self) -> bool {
        match (&self.i, &o.i) {
            (Some(a), Some(b)) => Arc::ptr_eq(a, b),
            _ => false,
        }
    }
}
impl<F: Future> Clone for Shared<F> {
    fn clone(&self) -> Self {
        Shared { i: self.i.clone(), key: 0 }
    }
}
impl<F: Future> Drop for Shared<F> {
    fn drop(&mut self) {
        if let Some(i) = &self.i {
            if self.key != 0 {
                let v = unsafe { &mut *i.wk.get() };
                v.retain(|x| x.0 != self.key);
            }
        }
    }
}
impl<F: Future> Future for Shared<F>
where
    F::Output: Clone,
{
    type Output = F::Output;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        let i = self.i.clone().expect("Shared future polled again after completion");
        rt::point();
        rt::ev_write(i.a(), true, true, true);
        if let SState::Done(x) = unsafe { &*i.st.get() } {
            let x = x.clone();
            if self.key != 0 {
                let k = self.key;
                unsafe { (*i.wk.get()).retain(|x| x.0 != k) };
            }
            self.i = None;
            return Poll::Ready(x);
        }
        // record waker
        unsafe {
            if self.key == 0 {
                self.key = *i.next.get();
                *i.next.get() += 1;
                (*i.wk.get()).push((self.key, None));
            }
            let k = self.key;
            if let Some(e) = (*i.wk.get()).iter_mut().find(|x| x.0 == k) {
                e.1 = Some(cx.waker().clone());
            }
        }
        let mut f = match std::mem::replace(unsafe { &mut *i.st.get() }, SState::Polling) {
            SState::Idle(f) => f,
            SState::Polling => return Poll::Pending,
            SState::Poisoned => {
                unsafe { *i.st.get() = SState::Poisoned };
                panic!("inner future panicked during poll")
            }
            SState::Done(_) => unreachable!(),
        };
        struct Reset<'a, F: Future>(&'a SInner<F>, bool);
        impl<F: Future> Drop for Reset<'_, F> {
            fn drop(&mut self) {
                if !self.1 {
                    unsafe { *self.0.st.get() = SState::Poisoned };
                    self.0.wake_all();
                }
            }
        }
        loop {
            unsafe { *i.woken.get() = false };
            let waker = unsafe {
                Arc::increment_strong_count(Arc::as_ptr(&i));
                Waker::from_raw(RawWaker::new(Arc::as_ptr(&i) as *const (), vt::<F>()))
            };
            let mut rs = Reset(&*i, false);
            let r = f.as_mut().poll(&mut Context::from_waker(&waker));
            rs.1 = true;
            drop(rs);
            rt::point();
            rt::ev_write(i.a(), true, true, true);
            match r {
                Poll::Ready(x) => {
                    let out = x.clone();
                    unsafe { *i.st.get() = SState::Done(x) };
                    drop(f);
                    i.wake_all();
                    let k = self.key;
                    unsafe { (*i.wk.get()).retain(|x| x.0 != k) };
                    self.i = None;
                    return Poll::Ready(out);
                }
                Poll::Pending => {
                    // woken while polling: our own waker has been fired already, so the caller
                    // will poll again
                    unsafe { *i.st.get() = SState::Idle(f) };
                    return Poll::Pending;
                }
            }
        }
    }
}

pub struct CatchUnwind<F>(F);
impl<F: Future> Future for CatchUnwind<F> {
    type Output = Result<F::Output, Box<dyn Any + Send>>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let f = unsafe { self.map_unchecked_mut(|s| &mut s.0) };
        match catch_unwind(AssertUnwindSafe(|| f.poll(cx))) {
            Ok(Poll::Pending) => Poll::Pending,
            Ok(Poll::Ready(x)) => Poll::Ready(Ok(x)),
            Err(e) => Poll::Ready(Err(e)),
        }
    }
}
pub struct Map<F, G>(F, Option<G>);
impl<F: Future, T, G: FnOnce(F::Output) -> T> Future for Map<F, G> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        let s = unsafe { self.get_unchecked_mut() };
        match unsafe { Pin::new_unchecked(&mut s.0) }.poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(x) => Poll::Ready((s.1.take().unwrap())(x)),
        }
    }
}
pub trait FutureExt: Future {
    fn shared(self) -> Shared<Self>
    where
        Self: Sized,
        Self::Output: Clone,
    {
        Shared::new(self)
    }
    fn boxed<'a>(self) -> BoxFuture<'a, Self::Output>
    where
        Self: Sized + Send + 'a,
    {
        Box::pin(self)
    }
    fn boxed_local<'a>(self) -> LocalBoxFuture<'a, Self::Output>
    where
        Self: Sized + 'a,
    {
        Box::pin(self)
    }
    fn catch_unwind(self) -> CatchUnwind<Self>
    where
        Self: Sized + std::panic::UnwindSafe,
    {
        CatchUnwind(self)
    }
    fn map<T, G: FnOnce(Self::Output) -> T>(self, g: G) -> Map<Self, G>
    where
        Self: Sized,
    {
        Map(self, Some(g))
    }
    fn now_or_never(self) -> Option<Self::Output>
    where
        Self: Sized,
    {
        let mut f = Box::pin(self);
        let w = Waker::noop();
        match f.as_mut().poll(&mut Context::from_waker(w)) {
            Poll::Ready(x) => Some(x),
            Poll::Pending => None,
        }
    }
    fn poll_unpin(&mut self, cx: &mut Context<'_>) -> Poll<Self::Output>
    where
        Self: Unpin,
    {
        Pin::new(self).poll(cx)
    }
}
impl<F: Future + ?Sized> FutureExt for F {}

pub struct JoinAll<F: Future>(Vec<Result<F::Output, Pin<Box<F>>>>);
impl<F: Future> Unpin for JoinAll<F> {}
impl<F: Future> Future for JoinAll<F> {
    type Output = Vec<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut all = true;
        for x in self.0.iter_mut() {
            if let Err(f) = x {
                match f.as_mut().poll(cx) {
                    Poll::Ready(v) => *x = Ok(v),
                    Poll::Pending => all = false,
                }
            }
        }
        if all {
            Poll::Ready(std::mem::take(&mut self.0).into_iter().map(|x| x.ok().unwrap()).collect())
        } else {
            Poll::Pending
        }
    }
}
pub fn join_all<I>(i: I) -> JoinAll<I::Item>
where
    I: IntoIterator,
    I::Item: Future,
{
    JoinAll(i.into_iter().map(|f| Err(Box::pin(f))).collect())
}

/// `futures_util::future::select`
pub enum Either<A, B> {
    Left(A),
    Right(B),
}
pub struct Select<A, B>(Option<(A, B)>);
pub fn select<A: Future + Unpin, B: Future + Unpin>(a: A, b: B) -> Select<A, B> {
    Select(Some((a, b)))
}
impl<A: Unpin, B: Unpin> Unpin for Select<A, B> {}
impl<A: Future + Unpin, B: Future + Unpin> Future for Select<A, B> {
    type Output = Either<(A::Output, B), (B::Output, A)>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let (a, b) = self.0.as_mut().expect("cannot poll Select twice");
        if let Poll::Ready(v) = Pin::new(a).poll(cx) {
            return Poll::Ready(Either::Left((v, self.0.take().unwrap().1)));
        }
        if let Poll::Ready(v) = Pin::new(b).poll(cx) {
            return Poll::Ready(Either::Right((v, self.0.take().unwrap().0)));
        }
        Poll::Pending
    }
}
