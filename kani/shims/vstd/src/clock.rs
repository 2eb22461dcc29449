//! Virtual clock. Time stands still unless the harness moves it.
use std::fmt;
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::time::Duration;

/// One static, marked: Kani lets a static share storage with constants of the same content.
struct State {
    _mark: u64,
    mono: Duration,
    wall: Duration,
    hook: Option<fn()>,
}
static mut STATE: State =
    State { _mark: 0x5afe_c10c_0000_0001, mono: Duration::ZERO, wall: Duration::ZERO, hook: None };

/// Sets the monotonic clock (may be set backwards by a harness that models a broken clock).
pub fn set(d: Duration) {
    unsafe { STATE.mono = d }
}
pub fn advance(d: Duration) {
    unsafe {
        STATE.mono += d;
        STATE.wall += d;
    }
}
/// Sets the wall clock, as time since the Unix epoch.
pub fn set_wall(d: Duration) {
    unsafe { STATE.wall = d }
}
/// Called before every reading of a clock.
pub fn on_read(f: fn()) {
    unsafe { STATE.hook = Some(f) }
}
fn mono() -> Duration {
    unsafe {
        if let Some(f) = STATE.hook {
            f()
        }
        STATE.mono
    }
}
fn wall() -> Duration {
    unsafe {
        if let Some(f) = STATE.hook {
            f()
        }
        STATE.wall
    }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant(Duration);
impl fmt::Debug for Instant {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl Instant {
    pub fn now() -> Self {
        Instant(mono())
    }
    /// For harnesses: the instant at this reading of the virtual clock.
    pub fn at(d: Duration) -> Self {
        Instant(d)
    }
    pub fn duration_since(&self, earlier: Instant) -> Duration {
        self.0.saturating_sub(earlier.0)
    }
    pub fn checked_duration_since(&self, earlier: Instant) -> Option<Duration> {
        self.0.checked_sub(earlier.0)
    }
    pub fn saturating_duration_since(&self, earlier: Instant) -> Duration {
        self.0.saturating_sub(earlier.0)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(d).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(d).map(Instant)
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0 - d)
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        self.0 -= d
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}

#[derive(Copy, Clone, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct SystemTime(Duration);
pub const UNIX_EPOCH: SystemTime = SystemTime(Duration::ZERO);
#[derive(Clone, Debug)]
pub struct SystemTimeError(Duration);
impl SystemTimeError {
    pub fn duration(&self) -> Duration {
        self.0
    }
}
impl fmt::Display for SystemTimeError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("second time provided was later than self")
    }
}
impl std::error::Error for SystemTimeError {}
impl fmt::Debug for SystemTime {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
impl SystemTime {
    pub const UNIX_EPOCH: SystemTime = UNIX_EPOCH;
    pub fn now() -> Self {
        SystemTime(wall())
    }
    pub fn duration_since(&self, earlier: SystemTime) -> Result<Duration, SystemTimeError> {
        if self.0 >= earlier.0 {
            Ok(self.0 - earlier.0)
        } else {
            Err(SystemTimeError(earlier.0 - self.0))
        }
    }
    pub fn elapsed(&self) -> Result<Duration, SystemTimeError> {
        SystemTime::now().duration_since(*self)
    }
    pub fn checked_add(&self, d: Duration) -> Option<SystemTime> {
        self.0.checked_add(d).map(SystemTime)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<SystemTime> {
        self.0.checked_sub(d).map(SystemTime)
    }
}
impl Add<Duration> for SystemTime {
    type Output = SystemTime;
    fn add(self, d: Duration) -> SystemTime {
        SystemTime(self.0 + d)
    }
}
impl AddAssign<Duration> for SystemTime {
    fn add_assign(&mut self, d: Duration) {
        self.0 += d
    }
}
impl Sub<Duration> for SystemTime {
    type Output = SystemTime;
    fn sub(self, d: Duration) -> SystemTime {
        SystemTime(self.0 - d)
    }
}
impl From<SystemTime> for std::time::SystemTime {
    fn from(s: SystemTime) -> Self {
        std::time::UNIX_EPOCH + s.0
    }
}
