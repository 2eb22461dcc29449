//! The few adaptors of `itertools` that the encoded code uses.
pub trait HomogeneousTuple<T>: Sized {
    fn collect<I: Iterator<Item = T>>(i: I) -> Option<Self>;
}
impl<T> HomogeneousTuple<T> for (T, T) {
    fn collect<I: Iterator<Item = T>>(mut i: I) -> Option<Self> {
        let r = (i.next()?, i.next()?);
        if i.next().is_some() {
            return None;
        }
        Some(r)
    }
}
impl<T> HomogeneousTuple<T> for (T, T, T) {
    fn collect<I: Iterator<Item = T>>(mut i: I) -> Option<Self> {
        let r = (i.next()?, i.next()?, i.next()?);
        if i.next().is_some() {
            return None;
        }
        Some(r)
    }
}
pub trait Itertools: Iterator {
    fn collect_tuple<T: HomogeneousTuple<Self::Item>>(self) -> Option<T>
    where
        Self: Sized,
    {
        T::collect(self)
    }
    /// Stable, like the sorting methods of slices.
    fn sorted_by_cached_key<K: Ord, F: FnMut(&Self::Item) -> K>(self, mut f: F) -> std::vec::IntoIter<Self::Item>
    where
        Self: Sized,
    {
        let mut keys: Vec<K> = Vec::with_capacity(8);
        let mut v: Vec<Self::Item> = Vec::with_capacity(8);
        for x in self {
            keys.push(f(&x));
            v.push(x);
        }
        let n = v.len();
        let mut i = 1;
        while i < n {
            let mut j = i;
            while j > 0 && keys[j] < keys[j - 1] {
                keys.swap(j, j - 1);
                v.swap(j, j - 1);
                j -= 1;
            }
            i += 1;
        }
        v.into_iter()
    }
    fn sorted_by_key<K: Ord, F: FnMut(&Self::Item) -> K>(self, f: F) -> std::vec::IntoIter<Self::Item>
    where
        Self: Sized,
    {
        self.sorted_by_cached_key(f)
    }
    fn sorted(self) -> std::vec::IntoIter<Self::Item>
    where
        Self: Sized,
        Self::Item: Ord + Clone,
    {
        self.sorted_by_cached_key(|x| x.clone())
    }
    fn dedup(self) -> Dedup<Self>
    where
        Self: Sized,
        Self::Item: PartialEq + Clone,
    {
        Dedup { i: self, last: None }
    }
    fn collect_vec(self) -> Vec<Self::Item>
    where
        Self: Sized,
    {
        self.collect()
    }
}
impl<I: Iterator> Itertools for I {}
/// Without items equal to the one before.
pub struct Dedup<I: Iterator> {
    i: I,
    last: Option<I::Item>,
}
impl<I: Iterator> Iterator for Dedup<I>
where
    I::Item: PartialEq + Clone,
{
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        loop {
            let x = self.i.next()?;
            if self.last.as_ref() != Some(&x) {
                self.last = Some(x.clone());
                return Some(x);
            }
        }
    }
}
