//! Stand-in for `rand`: every draw is a symbolic choice within the requested range, so a harness
//! covers all outcomes of the generator.
use std::ops::{Range, RangeInclusive};

pub trait RngCore {
    fn next_u32(&mut self) -> u32;
    fn next_u64(&mut self) -> u64;
    fn fill_bytes(&mut self, dest: &mut [u8]);
}
pub trait CryptoRng: RngCore {}
pub trait SeedableRng: Sized {
    type Seed;
    fn seed_from_u64(_: u64) -> Self;
    fn from_seed(_: Self::Seed) -> Self;
    fn from_os_rng() -> Self;
    fn from_entropy() -> Self;
    fn from_rng<R: RngCore>(_: &mut R) -> Self;
}

macro_rules! rng_type {
    ($($n:ident),*) => {$(
        #[derive(Clone, Debug, Default)]
        pub struct $n;
        impl super::RngCore for $n {
            fn next_u32(&mut self) -> u32 { nd::u32() }
            fn next_u64(&mut self) -> u64 { nd::u64() }
            fn fill_bytes(&mut self, dest: &mut [u8]) {
                let mut i = 0;
                while i < dest.len() { dest[i] = nd::u8(); i += 1; }
            }
        }
        impl super::CryptoRng for $n {}
        impl super::SeedableRng for $n {
            type Seed = [u8; 32];
            fn seed_from_u64(_: u64) -> Self { $n }
            fn from_seed(_: [u8; 32]) -> Self { $n }
            fn from_os_rng() -> Self { $n }
            fn from_entropy() -> Self { $n }
            fn from_rng<R: super::RngCore>(_: &mut R) -> Self { $n }
        }
    )*};
}
pub mod rngs {
    rng_type!(ThreadRng, StdRng, SmallRng, OsRng);
}
pub use rngs::ThreadRng;
impl<R: RngCore + ?Sized> RngCore for &mut R {
    fn next_u32(&mut self) -> u32 {
        (**self).next_u32()
    }
    fn next_u64(&mut self) -> u64 {
        (**self).next_u64()
    }
    fn fill_bytes(&mut self, dest: &mut [u8]) {
        (**self).fill_bytes(dest)
    }
}

pub fn rng() -> ThreadRng {
    rngs::ThreadRng
}
pub fn thread_rng() -> ThreadRng {
    rngs::ThreadRng
}
pub fn random<T: Draw>() -> T {
    T::draw()
}
pub fn random_range<T, R: DrawRange<T>>(r: R) -> T {
    r.draw()
}
pub fn random_bool(p: f64) -> bool {
    rng().random_bool(p)
}

pub trait Draw {
    fn draw() -> Self;
}
pub trait DrawRange<T> {
    fn draw(self) -> T;
    fn is_empty_range(&self) -> bool;
}
macro_rules! ints {
    ($($t:ident),*) => {$(
        impl Draw for $t { fn draw() -> $t { nd::$t() } }
        impl DrawRange<$t> for Range<$t> {
            fn draw(self) -> $t {
                assert!(self.start < self.end, "cannot sample empty range");
                let x = nd::$t();
                nd::assume(self.start <= x && x < self.end);
                x
            }
            fn is_empty_range(&self) -> bool { !(self.start < self.end) }
        }
        impl DrawRange<$t> for RangeInclusive<$t> {
            fn draw(self) -> $t {
                assert!(self.start() <= self.end(), "cannot sample empty range");
                let x = nd::$t();
                nd::assume(*self.start() <= x && x <= *self.end());
                x
            }
            fn is_empty_range(&self) -> bool { !(self.start() <= self.end()) }
        }
    )*};
}
ints!(u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
impl Draw for bool {
    fn draw() -> bool {
        nd::bool()
    }
}
impl<const N: usize> Draw for [u8; N] {
    fn draw() -> [u8; N] {
        nd::arr()
    }
}
impl Draw for f64 {
    fn draw() -> f64 {
        nd::u32() as f64 / 4294967296.0
    }
}
impl DrawRange<f64> for Range<f64> {
    fn draw(self) -> f64 {
        assert!(self.start < self.end, "cannot sample empty range");
        self.start + (self.end - self.start) * f64::draw()
    }
    fn is_empty_range(&self) -> bool {
        !(self.start < self.end)
    }
}

pub trait Fill {
    fn fill_it(&mut self);
}
impl Fill for [u8] {
    fn fill_it(&mut self) {
        let mut i = 0;
        while i < self.len() {
            self[i] = nd::u8();
            i += 1;
        }
    }
}
impl<const N: usize> Fill for [u8; N] {
    fn fill_it(&mut self) {
        self[..].fill_it()
    }
}

pub trait Rng: RngCore {
    fn random<T: Draw>(&mut self) -> T {
        T::draw()
    }
    fn r#gen<T: Draw>(&mut self) -> T {
        T::draw()
    }
    fn random_range<T, R: DrawRange<T>>(&mut self, r: R) -> T {
        r.draw()
    }
    fn gen_range<T, R: DrawRange<T>>(&mut self, r: R) -> T {
        r.draw()
    }
    fn random_bool(&mut self, p: f64) -> bool {
        assert!((0.0..=1.0).contains(&p), "p={p:?} is outside range [0.0, 1.0]");
        if p <= 0.0 {
            false
        } else if p >= 1.0 {
            true
        } else {
            nd::bool()
        }
    }
    fn gen_bool(&mut self, p: f64) -> bool {
        self.random_bool(p)
    }
    fn random_ratio(&mut self, a: u32, b: u32) -> bool {
        assert!(a <= b && b > 0);
        if a == 0 {
            false
        } else if a == b {
            true
        } else {
            nd::bool()
        }
    }
    fn fill<T: Fill + ?Sized>(&mut self, d: &mut T) {
        d.fill_it()
    }
}
impl<R: RngCore + ?Sized> Rng for R {}

pub mod seq {
    use super::RngCore;
    use std::ops::{Index, IndexMut};

    fn idx(n: usize) -> usize {
        let x = nd::usize();
        nd::assume(x < n);
        x
    }
    fn pick<T>(mut pool: Vec<T>, amount: usize) -> Vec<T> {
        let mut out = Vec::new();
        while out.len() < amount && !pool.is_empty() {
            let i = idx(pool.len());
            out.push(pool.swap_remove(i));
        }
        out
    }

    pub mod index {
        pub struct IndexVec(pub(crate) Vec<usize>);
        impl IndexVec {
            pub fn into_vec(self) -> Vec<usize> {
                self.0
            }
            pub fn len(&self) -> usize {
                self.0.len()
            }
            pub fn iter(&self) -> std::iter::Copied<std::slice::Iter<'_, usize>> {
                self.0.iter().copied()
            }
        }
        impl IntoIterator for IndexVec {
            type Item = usize;
            type IntoIter = std::vec::IntoIter<usize>;
            fn into_iter(self) -> Self::IntoIter {
                self.0.into_iter()
            }
        }
        pub fn sample<R: super::RngCore + ?Sized>(_: &mut R, length: usize, amount: usize) -> IndexVec {
            assert!(amount <= length, "amount must be <= length");
            IndexVec(super::pick((0..length).collect(), amount))
        }
    }

    pub trait IteratorRandom: Iterator + Sized {
        fn choose<R: RngCore + ?Sized>(self, _: &mut R) -> Option<Self::Item> {
            let mut v: Vec<_> = self.collect();
            if v.is_empty() {
                None
            } else {
                let i = idx(v.len());
                Some(v.swap_remove(i))
            }
        }
        fn choose_stable<R: RngCore + ?Sized>(self, r: &mut R) -> Option<Self::Item> {
            self.choose(r)
        }
        fn choose_multiple<R: RngCore + ?Sized>(self, _: &mut R, amount: usize) -> Vec<Self::Item> {
            pick(self.collect(), amount)
        }
    }
    impl<I: Iterator> IteratorRandom for I {}

    pub trait IndexedRandom {
        type Output;
        fn items(&self) -> &[Self::Output];
        fn choose<R: RngCore + ?Sized>(&self, _: &mut R) -> Option<&Self::Output> {
            let s = self.items();
            if s.is_empty() {
                None
            } else {
                Some(&s[idx(s.len())])
            }
        }
        fn choose_multiple<R: RngCore + ?Sized>(
            &self,
            _: &mut R,
            amount: usize,
        ) -> std::vec::IntoIter<&Self::Output> {
            pick(self.items().iter().collect(), amount).into_iter()
        }
        /// Weighted draws: any item with a positive weight may come out, the order is free.
        fn choose_multiple_weighted<R, F, X>(
            &self,
            _: &mut R,
            amount: usize,
            weight: F,
        ) -> Result<std::vec::IntoIter<&Self::Output>, WeightError>
        where
            R: RngCore + ?Sized,
            F: Fn(&Self::Output) -> X,
            X: Into<f64>,
        {
            let mut pool = Vec::new();
            for x in self.items() {
                let w: f64 = weight(x).into();
                if !(w >= 0.0) {
                    return Err(WeightError::InvalidWeight);
                }
                if w > 0.0 {
                    pool.push(x);
                }
            }
            Ok(pick(pool, amount).into_iter())
        }
        fn choose_weighted<R, F, X>(&self, _: &mut R, weight: F) -> Result<&Self::Output, WeightError>
        where
            R: RngCore + ?Sized,
            F: Fn(&Self::Output) -> X,
            X: Into<f64>,
        {
            let mut pool = Vec::new();
            for x in self.items() {
                let w: f64 = weight(x).into();
                if !(w >= 0.0) {
                    return Err(WeightError::InvalidWeight);
                }
                if w > 0.0 {
                    pool.push(x);
                }
            }
            if pool.is_empty() {
                return Err(WeightError::InsufficientNonZero);
            }
            let i = idx(pool.len());
            Ok(pool[i])
        }
    }
    impl<T> IndexedRandom for [T] {
        type Output = T;
        fn items(&self) -> &[T] {
            self
        }
    }
    impl<T> IndexedRandom for Vec<T> {
        type Output = T;
        fn items(&self) -> &[T] {
            self
        }
    }
    #[derive(Debug, Clone, Copy, PartialEq, Eq)]
    pub enum WeightError {
        InvalidInput,
        InvalidWeight,
        InsufficientNonZero,
        Overflow,
    }
    impl std::fmt::Display for WeightError {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("weight error")
        }
    }
    impl std::error::Error for WeightError {}

    pub trait SliceRandom {
        fn shuffle<R: RngCore + ?Sized>(&mut self, _: &mut R);
    }
    impl<T> SliceRandom for [T] {
        fn shuffle<R: RngCore + ?Sized>(&mut self, _: &mut R) {
            let mut i = self.len();
            while i > 1 {
                let j = idx(i);
                i -= 1;
                self.swap(i, j);
            }
        }
    }
}

pub mod prelude {
    pub use super::rngs::{SmallRng, StdRng, ThreadRng};
    pub use super::seq::{IndexedRandom, IteratorRandom, SliceRandom};
    pub use super::{random, rng, CryptoRng, Rng, RngCore, SeedableRng};
}
