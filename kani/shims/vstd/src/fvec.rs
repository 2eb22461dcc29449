//! A vector of fixed capacity stored in place: the solver sees plain typed elements instead of heap
//! bytes. Going beyond the capacity is reported, never cut off silently.
use std::mem::MaybeUninit;

pub const CAP: usize = if cfg!(any(feature = "boxed", feature = "cap4")) {
    4
} else if cfg!(feature = "cap40") {
    40
} else if cfg!(feature = "cap16") {
    16
} else {
    8
};

/// Elements that contain the collection itself need the elements behind a pointer.
#[cfg(feature = "boxed")]
type Store<T> = Box<[MaybeUninit<T>; CAP]>;
#[cfg(not(feature = "boxed"))]
type Store<T> = [MaybeUninit<T>; CAP];

pub struct FVec<T> {
    a: Store<T>,
    n: usize,
}

impl<T> FVec<T> {
    #[cfg(not(feature = "boxed"))]
    pub const fn new() -> Self {
        FVec { a: [const { MaybeUninit::uninit() }; CAP], n: 0 }
    }
    #[cfg(feature = "boxed")]
    pub fn new() -> Self {
        FVec { a: Box::new([const { MaybeUninit::uninit() }; CAP]), n: 0 }
    }
    pub fn len(&self) -> usize {
        self.n
    }
    pub fn is_empty(&self) -> bool {
        self.n == 0
    }
    fn slot(&self, i: usize) -> &MaybeUninit<T> {
        // a choice between fixed places is far cheaper than a computed address
        match i {
            0 => &self.a[0],
            1 => &self.a[1],
            2 => &self.a[2],
            3 => &self.a[3],
            #[cfg(not(any(feature = "boxed", feature = "cap4")))]
            4 => &self.a[4],
            #[cfg(not(any(feature = "boxed", feature = "cap4")))]
            5 => &self.a[5],
            #[cfg(not(any(feature = "boxed", feature = "cap4")))]
            6 => &self.a[6],
            #[cfg(not(any(feature = "boxed", feature = "cap4")))]
            7 => &self.a[7],
            _ => &self.a[i],
        }
    }
    fn slot_mut(&mut self, i: usize) -> &mut MaybeUninit<T> {
        match i {
            0 => &mut self.a[0],
            1 => &mut self.a[1],
            2 => &mut self.a[2],
            3 => &mut self.a[3],
            #[cfg(not(any(feature = "boxed", feature = "cap4")))]
            4 => &mut self.a[4],
            #[cfg(not(any(feature = "boxed", feature = "cap4")))]
            5 => &mut self.a[5],
            #[cfg(not(any(feature = "boxed", feature = "cap4")))]
            6 => &mut self.a[6],
            #[cfg(not(any(feature = "boxed", feature = "cap4")))]
            7 => &mut self.a[7],
            _ => &mut self.a[i],
        }
    }
    pub fn at(&self, i: usize) -> &T {
        assert!(i < self.n);
        unsafe { self.slot(i).assume_init_ref() }
    }
    pub fn at_mut(&mut self, i: usize) -> &mut T {
        assert!(i < self.n);
        unsafe { self.slot_mut(i).assume_init_mut() }
    }
    pub fn push(&mut self, x: T) {
        assert!(self.n < CAP, "bound: a collection of the model is full");
        let n = self.n;
        *self.slot_mut(n) = MaybeUninit::new(x);
        self.n += 1;
    }
    pub fn insert(&mut self, at: usize, x: T) {
        assert!(self.n < CAP && at <= self.n, "bound: a collection of the model is full");
        let mut i = CAP - 1;
        while i > 0 {
            if i > at && i <= self.n {
                let y = unsafe { self.a[i - 1].assume_init_read() };
                self.a[i] = MaybeUninit::new(y);
            }
            i -= 1;
        }
        *self.slot_mut(at) = MaybeUninit::new(x);
        self.n += 1;
    }
    pub fn remove(&mut self, at: usize) -> T {
        assert!(at < self.n);
        let x = unsafe { self.slot(at).assume_init_read() };
        let mut i = 0;
        while i + 1 < CAP {
            if i >= at && i + 1 < self.n {
                let y = unsafe { self.a[i + 1].assume_init_read() };
                self.a[i] = MaybeUninit::new(y);
            }
            i += 1;
        }
        self.n -= 1;
        x
    }
    pub fn pop(&mut self) -> Option<T> {
        if self.n == 0 {
            None
        } else {
            self.n -= 1;
            Some(unsafe { self.slot(self.n).assume_init_read() })
        }
    }
    pub fn clear(&mut self) {
        while let Some(x) = self.pop() {
            drop(x);
        }
    }
    pub fn retain<F: FnMut(&mut T) -> bool>(&mut self, mut f: F) {
        let n = self.n;
        let mut k = 0;
        let mut i = 0;
        while i < CAP && i < n {
            let mut x = unsafe { self.a[i].assume_init_read() };
            if f(&mut x) {
                *self.slot_mut(k) = MaybeUninit::new(x);
                k += 1;
            } else {
                drop(x);
            }
            i += 1;
        }
        self.n = k;
    }
    pub fn as_slice(&self) -> &[T] {
        unsafe { std::slice::from_raw_parts(self.a.as_ptr() as *const T, self.n) }
    }
    pub fn as_mut_slice(&mut self) -> &mut [T] {
        unsafe { std::slice::from_raw_parts_mut(self.a.as_mut_ptr() as *mut T, self.n) }
    }
    pub fn iter(&self) -> Iter<'_, T> {
        Iter { v: self, i: 0, j: self.n }
    }
    pub fn iter_mut(&mut self) -> std::slice::IterMut<'_, T> {
        self.as_mut_slice().iter_mut()
    }
    pub fn first(&self) -> Option<&T> {
        if self.n == 0 { None } else { Some(self.at(0)) }
    }
    pub fn last(&self) -> Option<&T> {
        if self.n == 0 { None } else { Some(self.at(self.n - 1)) }
    }
    pub fn capacity(&self) -> usize {
        CAP
    }
    pub fn split_off(&mut self, at: usize) -> Self {
        let mut r = Self::new();
        let mut i = 0;
        while i < CAP && i < self.n {
            if i >= at {
                r.push(unsafe { self.a[i].assume_init_read() });
            }
            i += 1;
        }
        if at < self.n {
            self.n = at;
        }
        r
    }
    pub fn range_iter(&self, i: usize, j: usize) -> Iter<'_, T> {
        Iter { v: self, i, j }
    }
}
impl<T> Drop for FVec<T> {
    fn drop(&mut self) {
        if std::mem::needs_drop::<T>() {
            let mut i = 0;
            while i < CAP && i < self.n {
                unsafe { self.a[i].assume_init_drop() };
                i += 1;
            }
        }
    }
}
impl<T: Clone> Clone for FVec<T> {
    fn clone(&self) -> Self {
        let mut r = Self::new();
        let mut i = 0;
        while i < CAP && i < self.n {
            r.a[i] = MaybeUninit::new(unsafe { self.a[i].assume_init_ref() }.clone());
            i += 1;
        }
        r.n = self.n;
        r
    }
}
impl<T: PartialEq> PartialEq for FVec<T> {
    fn eq(&self, o: &Self) -> bool {
        if self.n != o.n {
            return false;
        }
        let mut i = 0;
        while i < CAP && i < self.n {
            if self.at(i) != o.at(i) {
                return false;
            }
            i += 1;
        }
        true
    }
}
impl<T> std::ops::Index<usize> for FVec<T> {
    type Output = T;
    fn index(&self, i: usize) -> &T {
        self.at(i)
    }
}
impl<T> std::ops::IndexMut<usize> for FVec<T> {
    fn index_mut(&mut self, i: usize) -> &mut T {
        self.at_mut(i)
    }
}
pub struct Iter<'a, T> {
    v: &'a FVec<T>,
    i: usize,
    j: usize,
}
impl<'a, T> Clone for Iter<'a, T> {
    fn clone(&self) -> Self {
        Iter { v: self.v, i: self.i, j: self.j }
    }
}
impl<'a, T> Iterator for Iter<'a, T> {
    type Item = &'a T;
    fn next(&mut self) -> Option<&'a T> {
        if self.i < CAP && self.i < self.j {
            self.i += 1;
            Some(self.v.at(self.i - 1))
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.j - self.i, Some(self.j - self.i))
    }
}
impl<'a, T> DoubleEndedIterator for Iter<'a, T> {
    fn next_back(&mut self) -> Option<&'a T> {
        if self.i < self.j {
            self.j -= 1;
            Some(self.v.at(self.j))
        } else {
            None
        }
    }
}
impl<'a, T> ExactSizeIterator for Iter<'a, T> {}

pub struct IntoIter<T> {
    v: std::mem::ManuallyDrop<FVec<T>>,
    i: usize,
    j: usize,
}
impl<T> IntoIterator for FVec<T> {
    type Item = T;
    type IntoIter = IntoIter<T>;
    fn into_iter(self) -> IntoIter<T> {
        let j = self.n;
        IntoIter { v: std::mem::ManuallyDrop::new(self), i: 0, j }
    }
}
impl<T> Iterator for IntoIter<T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        if self.i < CAP && self.i < self.j {
            self.i += 1;
            Some(unsafe { self.v.slot(self.i - 1).assume_init_read() })
        } else {
            None
        }
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.j - self.i, Some(self.j - self.i))
    }
}
impl<T> DoubleEndedIterator for IntoIter<T> {
    fn next_back(&mut self) -> Option<T> {
        if self.i < self.j {
            self.j -= 1;
            Some(unsafe { self.v.slot(self.j).assume_init_read() })
        } else {
            None
        }
    }
}
impl<T> ExactSizeIterator for IntoIter<T> {}
impl<T> Drop for IntoIter<T> {
    fn drop(&mut self) {
        if std::mem::needs_drop::<T>() {
            while let Some(x) = self.next() {
                drop(x);
            }
        }
    }
}
