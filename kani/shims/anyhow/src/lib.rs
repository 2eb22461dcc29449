//! `anyhow` without the messages: an error is only the fact that there is one.
pub struct Error(());
#[cfg(kani)]
struct State {
    _mark: u64,
    expect_ok: bool,
}
#[cfg(kani)]
static mut STATE: State = State { _mark: 0x5afe_a477_0000_0001, expect_ok: false };
/// From now on the solver does not follow runs in which an error is made. (For harnesses about valid input;
/// that valid input gives no error is left to other harnesses.)
pub fn expect_ok() {
    #[cfg(kani)]
    unsafe {
        STATE.expect_ok = true;
    }
}
pub type Result<T, E = Error> = core::result::Result<T, E>;
impl Error {
    fn made() -> Self {
        #[cfg(kani)]
        if unsafe { STATE.expect_ok } {
            kani::assume(false);
        }
        Error(())
    }
    pub fn new<E>(e: E) -> Self {
        core::mem::forget(e);
        Error::made()
    }
    pub fn msg<M>(m: M) -> Self {
        core::mem::forget(m);
        Error::made()
    }
    pub fn bare() -> Self {
        Error::made()
    }
    pub fn context<C>(self, c: C) -> Self {
        core::mem::forget(c);
        self
    }
}
impl core::fmt::Display for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("error")
    }
}
impl core::fmt::Debug for Error {
    fn fmt(&self, f: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        f.write_str("error")
    }
}
impl<E: std::error::Error> From<E> for Error {
    fn from(e: E) -> Self {
        core::mem::forget(e);
        Error::made()
    }
}
pub trait Context<T> {
    fn context<C>(self, c: C) -> Result<T, Error>;
    fn with_context<C, F: FnOnce() -> C>(self, f: F) -> Result<T, Error>;
}
impl<T, E> Context<T> for core::result::Result<T, E> {
    fn context<C>(self, c: C) -> Result<T, Error> {
        match self {
            Result::Ok(v) => Result::Ok(v),
            Err(e) => {
                core::mem::forget(e);
                Err(Error::made())
            }
        }
    }
    fn with_context<C, F: FnOnce() -> C>(self, _f: F) -> Result<T, Error> {
        match self {
            Result::Ok(v) => Result::Ok(v),
            Err(e) => {
                core::mem::forget(e);
                Err(Error::made())
            }
        }
    }
}
impl<T> Context<T> for Option<T> {
    fn context<C>(self, _c: C) -> Result<T, Error> {
        match self {
            Some(v) => Result::Ok(v),
            None => Err(Error::made()),
        }
    }
    fn with_context<C, F: FnOnce() -> C>(self, _f: F) -> Result<T, Error> {
        match self {
            Some(v) => Result::Ok(v),
            None => Err(Error::made()),
        }
    }
}
#[allow(non_snake_case)]
pub fn Ok<T>(t: T) -> Result<T> {
    Result::Ok(t)
}
#[macro_export]
macro_rules! anyhow {
    ($m:literal $(, $($t:tt)*)?) => {{
        let _ = || {
            let _ = ::core::format_args!($m $(, $($t)*)?);
        };
        $crate::Error::bare()
    }};
    ($e:expr $(,)?) => { $crate::Error::msg($e) };
    ($f:expr, $($t:tt)*) => { $crate::Error::bare() };
}
#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return ::core::result::Result::Err($crate::anyhow!($($t)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr $(,)?) => { if !$c { return ::core::result::Result::Err($crate::Error::bare()); } };
    ($c:expr, $($t:tt)*) => { if !$c { return ::core::result::Result::Err($crate::anyhow!($($t)*)); } };
}
