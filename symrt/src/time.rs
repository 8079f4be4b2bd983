//! std::time with a clock that only moves when the harness lets time pass.
pub use std::time::{Duration, UNIX_EPOCH};
use std::cell::Cell;
use std::ops::{Add, AddAssign, Sub, SubAssign};

thread_local! { static NOW: Cell<Duration> = const { Cell::new(Duration::ZERO) }; }

pub fn reset_clock() {
    NOW.with(|n| n.set(Duration::from_secs(1_000_000)))
}
pub fn pass(d: Duration) {
    NOW.with(|n| n.set(n.get() + d))
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(Duration);
impl Instant {
    pub fn now() -> Instant {
        Instant(NOW.with(|n| n.get()))
    }
    pub fn elapsed(&self) -> Duration {
        Self::now().duration_since(*self)
    }
    pub fn duration_since(&self, e: Instant) -> Duration {
        self.0.saturating_sub(e.0)
    }
    pub fn saturating_duration_since(&self, e: Instant) -> Duration {
        self.duration_since(e)
    }
    pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> {
        self.0.checked_sub(e.0)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d)
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, e: Instant) -> Duration {
        self.duration_since(e)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SystemTime(Instant);
pub type SystemTimeError = std::convert::Infallible;
impl SystemTime {
    pub fn now() -> SystemTime {
        SystemTime(Instant::now())
    }
    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
        Ok(self.0.elapsed())
    }
    pub fn duration_since(&self, e: SystemTime) -> Result<Duration, SystemTimeError> {
        Ok(self.0.duration_since(e.0))
    }
}
