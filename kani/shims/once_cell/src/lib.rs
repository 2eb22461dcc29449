//! Lazily initialised values (single thread).
macro_rules! lazy {
    () => {
        use std::cell::UnsafeCell;
        pub struct Lazy<T, F = fn() -> T> {
            v: UnsafeCell<Option<T>>,
            f: UnsafeCell<Option<F>>,
        }
        unsafe impl<T, F> Sync for Lazy<T, F> {}
        impl<T, F: FnOnce() -> T> Lazy<T, F> {
            pub const fn new(f: F) -> Self {
                Lazy { v: UnsafeCell::new(None), f: UnsafeCell::new(Some(f)) }
            }
            pub fn force(this: &Self) -> &T {
                unsafe {
                    if (*this.v.get()).is_none() {
                        let f = (*this.f.get()).take().unwrap();
                        *this.v.get() = Some(f());
                    }
                    (*this.v.get()).as_ref().unwrap()
                }
            }
        }
        impl<T, F: FnOnce() -> T> std::ops::Deref for Lazy<T, F> {
            type Target = T;
            fn deref(&self) -> &T {
                Lazy::force(self)
            }
        }
        /// Marked with its place: Kani lets a static share storage with constants of the same content.
        pub struct OnceCell<T> {
            _mark: u64,
            v: UnsafeCell<Option<T>>,
        }
        unsafe impl<T> Sync for OnceCell<T> {}
        impl<T> OnceCell<T> {
            #[track_caller]
            pub const fn new() -> Self {
                let at = std::panic::Location::caller();
                OnceCell { _mark: 0x5afe_0ce1_0000_0000 + at.line() as u64 * 256 + at.column() as u64, v: UnsafeCell::new(None) }
            }
            pub fn get(&self) -> Option<&T> {
                unsafe { (*self.v.get()).as_ref() }
            }
            pub fn set(&self, t: T) -> Result<(), T> {
                if self.get().is_some() {
                    return Err(t);
                }
                unsafe { *self.v.get() = Some(t) };
                Ok(())
            }
            pub fn get_or_init<F: FnOnce() -> T>(&self, f: F) -> &T {
                if self.get().is_none() {
                    unsafe { *self.v.get() = Some(f()) };
                }
                self.get().unwrap()
            }
        }
    };
}
pub mod sync {
    lazy!();
}
pub mod unsync {
    lazy!();
}
