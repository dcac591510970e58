pub mod atomic {
    pub use mcrt::atomic::AtomicCell;
}
#[derive(Clone, Copy, Default, Hash, PartialEq, Eq, Debug)]
#[repr(align(128))]
pub struct CachePadded<T> {
    value: T,
}
impl<T> CachePadded<T> {
    pub const fn new(value: T) -> Self {
        Self { value }
    }
    pub fn into_inner(self) -> T {
        self.value
    }
}
impl<T> std::ops::Deref for CachePadded<T> {
    type Target = T;
    fn deref(&self) -> &T {
        &self.value
    }
}
impl<T> std::ops::DerefMut for CachePadded<T> {
    fn deref_mut(&mut self) -> &mut T {
        &mut self.value
    }
}
impl<T> From<T> for CachePadded<T> {
    fn from(v: T) -> Self {
        Self::new(v)
    }
}
#[derive(Default, Debug)]
pub struct Backoff(std::cell::Cell<u32>);
impl Backoff {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn reset(&self) {
        self.0.set(0)
    }
    pub fn spin(&self) {
        self.0.set(self.0.get() + 1);
        mcrt::rt::yield_now()
    }
    pub fn snooze(&self) {
        self.spin()
    }
    pub fn is_completed(&self) -> bool {
        self.0.get() > 10
    }
}
pub mod sync {
    pub use std::sync::Arc;
}
