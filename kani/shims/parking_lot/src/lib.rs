//! Locks of a single thread: taking a lock that is held is reported instead of waiting for ever.
use std::cell::{Cell, UnsafeCell};
use std::ops::{Deref, DerefMut};

pub struct RwLock<T: ?Sized> {
    readers: Cell<u32>,
    writer: Cell<bool>,
    /// Kani lets a static share storage with constants of the same content.
    _mark: u64,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized> Sync for RwLock<T> {}
unsafe impl<T: ?Sized> Send for RwLock<T> {}
impl<T> RwLock<T> {
    pub const fn new(v: T) -> Self {
        let _mark = 0x5afe_10c4_0000_0001;
        RwLock { _mark, readers: Cell::new(0), writer: Cell::new(false), v: UnsafeCell::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
}
impl<T: ?Sized> RwLock<T> {
    pub fn read(&self) -> RwLockReadGuard<'_, T> {
        assert!(!self.writer.get(), "deadlock: lock held for writing");
        self.readers.set(self.readers.get() + 1);
        RwLockReadGuard { l: self }
    }
    pub fn write(&self) -> RwLockWriteGuard<'_, T> {
        assert!(!self.writer.get() && self.readers.get() == 0, "deadlock: lock held");
        self.writer.set(true);
        RwLockWriteGuard { l: self }
    }
    pub fn try_read(&self) -> Option<RwLockReadGuard<'_, T>> {
        if self.writer.get() { None } else { Some(self.read()) }
    }
    pub fn try_write(&self) -> Option<RwLockWriteGuard<'_, T>> {
        if self.writer.get() || self.readers.get() > 0 { None } else { Some(self.write()) }
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
}
impl<T: Default> Default for RwLock<T> {
    fn default() -> Self {
        RwLock::new(T::default())
    }
}
impl<T: ?Sized> std::fmt::Debug for RwLock<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("RwLock")
    }
}
pub struct RwLockReadGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
}
pub struct RwLockWriteGuard<'a, T: ?Sized> {
    l: &'a RwLock<T>,
}
impl<T: ?Sized> Deref for RwLockReadGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockReadGuard<'_, T> {
    fn drop(&mut self) {
        self.l.readers.set(self.l.readers.get() - 1)
    }
}
impl<T: ?Sized> Deref for RwLockWriteGuard<'_, T> {
    type Target = T;
    fn deref(&self) -> &T {
        unsafe { &*self.l.v.get() }
    }
}
impl<T: ?Sized> DerefMut for RwLockWriteGuard<'_, T> {
    fn deref_mut(&mut self) -> &mut T {
        unsafe { &mut *self.l.v.get() }
    }
}
impl<T: ?Sized> Drop for RwLockWriteGuard<'_, T> {
    fn drop(&mut self) {
        self.l.writer.set(false)
    }
}

pub struct Mutex<T: ?Sized> {
    l: RwLock<T>,
}
pub type MutexGuard<'a, T> = RwLockWriteGuard<'a, T>;
impl<T> Mutex<T> {
    #[track_caller]
    pub const fn new(v: T) -> Self {
        Mutex { l: RwLock::new(v) }
    }
    pub fn into_inner(self) -> T {
        self.l.into_inner()
    }
}
impl<T: ?Sized> Mutex<T> {
    pub fn lock(&self) -> MutexGuard<'_, T> {
        self.l.write()
    }
    pub fn try_lock(&self) -> Option<MutexGuard<'_, T>> {
        self.l.try_write()
    }
}
impl<T: Default> Default for Mutex<T> {
    fn default() -> Self {
        Mutex::new(T::default())
    }
}
impl<T: ?Sized> std::fmt::Debug for Mutex<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Mutex")
    }
}
