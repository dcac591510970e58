//! Virtual `std::time::Instant`.
use crate::rt;
use std::ops::{Add, AddAssign, Sub, SubAssign};
pub use std::time::Duration;

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(Duration);

// std's Instant holds signed 64-bit seconds
const MAX: Duration = Duration::from_secs(i64::MAX as u64);

impl Instant {
    pub fn now() -> Self {
        Instant(rt::now())
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.0.saturating_sub(o.0)
    }
    pub fn checked_duration_since(&self, o: Instant) -> Option<Duration> {
        self.0.checked_sub(o.0)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).filter(|x| *x < MAX).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
    /// Nanoseconds since the model clock's origin (harness use).
    pub fn mc_since_origin(&self) -> Duration {
        self.0.saturating_sub(rt::CLOCK_ORIGIN)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        self.checked_add(d).expect("overflow when adding duration to instant")
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d;
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        self.checked_sub(d).expect("overflow when subtracting duration from instant")
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d;
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
