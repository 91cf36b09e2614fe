use core::ops::{Add, AddAssign, Sub, SubAssign};
pub use ::std::time::{Duration, SystemTimeError, TryFromFloatSecsError};

use crate::mc;

/// Virtual monotonic clock: nanoseconds since the start of the execution (plus one hour, so that
/// code may subtract).
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(Duration);

impl Instant {
    pub fn now() -> Instant {
        Instant(Duration::from_secs(3600) + Duration::from_nanos(mc::now()))
    }
    pub fn duration_since(&self, earlier: Instant) -> Duration {
        self.0.saturating_sub(earlier.0)
    }
    pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
        self.0.checked_sub(earlier.0)
    }
    pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
        self.0.saturating_sub(earlier.0)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().0.saturating_sub(self.0)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
    /// mc only
    pub fn mc_nanos(&self) -> u64 {
        (self.0.saturating_sub(Duration::from_secs(3600))).as_nanos() as u64
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        self.checked_add(d).expect("overflow when adding duration to instant")
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d;
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        self.checked_sub(d).expect("overflow when subtracting duration from instant")
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d;
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}

/// Virtual wall clock; 2023-11-14T22:13:20Z at the start of the execution.
#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct SystemTime(::std::time::SystemTime);

pub const UNIX_EPOCH: SystemTime = SystemTime(::std::time::UNIX_EPOCH);
pub const MC_WALL_START_SECS: u64 = 1_700_000_000;

impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = UNIX_EPOCH;
    pub fn now() -> SystemTime {
        SystemTime(
            ::std::time::UNIX_EPOCH
                + Duration::from_secs(MC_WALL_START_SECS)
                + Duration::from_nanos(mc::now()),
        )
    }
    pub fn duration_since(&self, earlier: SystemTime) -> Result<Duration, SystemTimeError> {
        self.0.duration_since(earlier.0)
    }
    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
        SystemTime::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<SystemTime> {
        self.0.checked_add(d).map(SystemTime)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<SystemTime> {
        self.0.checked_sub(d).map(SystemTime)
    }
}
impl Add<Duration> for SystemTime {
    type Output = SystemTime;
    fn add(self, d: Duration) -> SystemTime {
        SystemTime(self.0 + d)
    }
}
impl AddAssign<Duration> for SystemTime {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d;
    }
}
impl Sub<Duration> for SystemTime {
    type Output = SystemTime;
    fn sub(self, d: Duration) -> SystemTime {
        SystemTime(self.0 - d)
    }
}
impl SubAssign<Duration> for SystemTime {
    fn sub_assign(&mut self, d: Duration) {
        self.0 -= d;
    }
}
impl From<::std::time::SystemTime> for SystemTime {
    fn from(t: ::std::time::SystemTime) -> Self {
        SystemTime(t)
    }
}
impl From<SystemTime> for ::std::time::SystemTime {
    fn from(t: SystemTime) -> Self {
        t.0
    }
}
