//! Flat stand-ins for `BTreeMap` and `BTreeSet`; generated by gen.py.
use std::borrow::Borrow;
use std::fmt;
use std::hash::Hash;
use std::marker::PhantomData;
use crate::fvec::{self, FVec, CAP};
use std::ops::{Index, RangeBounds, Bound};

pub struct FirstOf<K, V>(fvec::IntoIter<(K, V)>);
impl<K, V> Iterator for FirstOf<K, V> {
    type Item = K;
    fn next(&mut self) -> Option<K> { match self.0.next() { Some(x) => Some(x.0), None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl<K, V> DoubleEndedIterator for FirstOf<K, V> {
    fn next_back(&mut self) -> Option<K> { match self.0.next_back() { Some(x) => Some(x.0), None => None } }
}
impl<K, V> ExactSizeIterator for FirstOf<K, V> {}
pub struct SecondOf<K, V>(fvec::IntoIter<(K, V)>);
impl<K, V> Iterator for SecondOf<K, V> {
    type Item = V;
    fn next(&mut self) -> Option<V> { match self.0.next() { Some(x) => Some(x.1), None => None } }
    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}
impl<K, V> ExactSizeIterator for SecondOf<K, V> {}
impl<K, V> DoubleEndedIterator for SecondOf<K, V> {
    fn next_back(&mut self) -> Option<V> { match self.0.next_back() { Some(x) => Some(x.1), None => None } }
}

pub struct BTreeMap<K, V> { v: FVec<(K, V)>,  }
impl<K: Clone, V: Clone> Clone for BTreeMap<K, V> {
    fn clone(&self) -> Self { Self { v: self.v.clone(),  } }
}
impl<K, V> Default for BTreeMap<K, V> { fn default() -> Self { Self { v: FVec::new(),  } } }
impl<K: fmt::Debug, V: fmt::Debug> fmt::Debug for BTreeMap<K, V> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_map().entries(self.v.iter().map(|(k, v)| (k, v))).finish() }
}

impl<K: PartialEq, V: PartialEq> PartialEq for BTreeMap<K, V> { fn eq(&self, o: &Self) -> bool { self.v == o.v } }
impl<K: Eq, V: Eq> Eq for BTreeMap<K, V> {}
impl<K: PartialOrd, V: PartialOrd> PartialOrd for BTreeMap<K, V> {
    fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.v.as_slice().partial_cmp(o.v.as_slice()) }
}
impl<K: Ord, V: Ord> Ord for BTreeMap<K, V> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.v.as_slice().cmp(o.v.as_slice()) } }
impl<K: Hash, V: Hash> Hash for BTreeMap<K, V> { fn hash<HH: std::hash::Hasher>(&self, h: &mut HH) { self.v.as_slice().hash(h) } }
impl<K, V> BTreeMap<K, V> {
    #[cfg(not(feature = "boxed"))]
    pub const fn new() -> Self { Self { v: FVec::new() } }
    #[cfg(feature = "boxed")]
    pub fn new() -> Self { Self { v: FVec::new() } }
}
fn below<Q: Ord + ?Sized>(b: Bound<&Q>, k: &Q) -> bool {
    match b { Bound::Unbounded => true, Bound::Included(x) => k <= x, Bound::Excluded(x) => k < x }
}
fn above<Q: Ord + ?Sized>(b: Bound<&Q>, k: &Q) -> bool {
    match b { Bound::Unbounded => true, Bound::Included(x) => k >= x, Bound::Excluded(x) => k > x }
}
impl<K: Ord, V> BTreeMap<K, V> {
    fn find<Q: ?Sized + Ord>(&self, k: &Q) -> Result<usize, usize> where K: Borrow<Q> {
        let n = self.v.len();
        let mut i = 0;
        while i < CAP && i < n {
            match self.v[i].0.borrow().cmp(k) {
                std::cmp::Ordering::Equal => return Ok(i),
                std::cmp::Ordering::Greater => return Err(i),
                std::cmp::Ordering::Less => i += 1,
            }
        }
        Err(n)
    }
    fn span<Q: ?Sized + Ord, R: RangeBounds<Q>>(&self, r: &R) -> (usize, usize) where K: Borrow<Q> {
        let n = self.v.len();
        let mut a = 0;
        while a < CAP && a < n && !above(r.start_bound(), self.v[a].0.borrow()) { a += 1; }
        let mut b = a;
        while b < CAP && b < n && below(r.end_bound(), self.v[b].0.borrow()) { b += 1; }
        (a, b)
    }
    pub fn range<Q: ?Sized + Ord, R: RangeBounds<Q>>(&self, r: R) -> btree_map::Iter<'_, K, V> where K: Borrow<Q> {
        let (a, b) = self.span(&r);
        btree_map::Iter(self.v.range_iter(a, b))
    }
    pub fn range_mut<Q: ?Sized + Ord, R: RangeBounds<Q>>(&mut self, r: R) -> btree_map::IterMut<'_, K, V> where K: Borrow<Q> {
        let (a, b) = self.span(&r);
        btree_map::IterMut(self.v.as_mut_slice()[a..b].iter_mut())
    }
    pub fn first_key_value(&self) -> Option<(&K, &V)> { self.v.first().map(|(k, v)| (k, v)) }
    pub fn last_key_value(&self) -> Option<(&K, &V)> { self.v.last().map(|(k, v)| (k, v)) }
    pub fn pop_first(&mut self) -> Option<(K, V)> { if self.v.is_empty() { None } else { Some(self.v.remove(0)) } }
    pub fn pop_last(&mut self) -> Option<(K, V)> { self.v.pop() }
    pub fn first_entry(&mut self) -> Option<btree_map::OccupiedEntry<'_, K, V>> {
        if self.v.is_empty() { None } else { Some(btree_map::OccupiedEntry { m: self, i: 0 }) }
    }
    pub fn last_entry(&mut self) -> Option<btree_map::OccupiedEntry<'_, K, V>> {
        if self.v.is_empty() { None } else { let i = self.v.len() - 1; Some(btree_map::OccupiedEntry { m: self, i }) }
    }
    pub fn split_off<Q: ?Sized + Ord>(&mut self, k: &Q) -> Self where K: Borrow<Q> {
        let i = match self.find(k) { Ok(i) => i, Err(i) => i };
        Self { v: self.v.split_off(i) }
    }
    pub fn append(&mut self, o: &mut Self) { for (k, v) in std::mem::replace(&mut o.v, FVec::new()) { self.insert(k, v); } }
}

impl<K, V> BTreeMap<K, V> {
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn clear(&mut self) { self.v.clear() }
    pub fn iter(&self) -> btree_map::Iter<'_, K, V> { btree_map::Iter(self.v.iter()) }
    pub fn iter_mut(&mut self) -> btree_map::IterMut<'_, K, V> { btree_map::IterMut(self.v.iter_mut()) }
    pub fn keys(&self) -> btree_map::Keys<'_, K, V> { btree_map::Keys(self.v.iter()) }
    pub fn values(&self) -> btree_map::Values<'_, K, V> { btree_map::Values(self.v.iter()) }
    pub fn values_mut(&mut self) -> btree_map::ValuesMut<'_, K, V> { btree_map::ValuesMut(self.v.iter_mut()) }
    pub fn into_keys(self) -> FirstOf<K, V> { FirstOf(self.v.into_iter()) }
    pub fn into_values(self) -> SecondOf<K, V> { SecondOf(self.v.into_iter()) }
    pub fn retain<F: FnMut(&K, &mut V) -> bool>(&mut self, mut f: F) { self.v.retain(|x| f(&x.0, &mut x.1)) }
}
impl<K: Ord, V> BTreeMap<K, V> {
    pub fn insert(&mut self, k: K, v: V) -> Option<V> {
        match self.find(&k) {
            Ok(i) => Some(std::mem::replace(&mut self.v[i].1, v)),
            Err(i) => { self.v.insert(i, (k, v)); None }
        }
    }
    pub fn get<Q: ?Sized + Ord>(&self, k: &Q) -> Option<&V> where K: Borrow<Q> {
        match self.find(k) { Ok(i) => Some(&self.v[i].1), Err(_) => None }
    }
    pub fn get_mut<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<&mut V> where K: Borrow<Q> {
        match self.find(k) { Ok(i) => Some(&mut self.v[i].1), Err(_) => None }
    }
    pub fn get_key_value<Q: ?Sized + Ord>(&self, k: &Q) -> Option<(&K, &V)> where K: Borrow<Q> {
        match self.find(k) { Ok(i) => Some((&self.v[i].0, &self.v[i].1)), Err(_) => None }
    }
    pub fn contains_key<Q: ?Sized + Ord>(&self, k: &Q) -> bool where K: Borrow<Q> { self.find(k).is_ok() }
    pub fn remove<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<V> where K: Borrow<Q> {
        match self.find(k) { Ok(i) => Some(self.v.remove(i).1), Err(_) => None }
    }
    pub fn remove_entry<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<(K, V)> where K: Borrow<Q> {
        match self.find(k) { Ok(i) => Some(self.v.remove(i)), Err(_) => None }
    }
    pub fn entry(&mut self, k: K) -> btree_map::Entry<'_, K, V> {
        match self.find(&k) {
            Ok(i) => btree_map::Entry::Occupied(btree_map::OccupiedEntry { m: self, i }),
            Err(i) => btree_map::Entry::Vacant(btree_map::VacantEntry { m: self, i, k }),
        }
    }
}
impl<K: Ord, V> Extend<(K, V)> for BTreeMap<K, V> {
    fn extend<I: IntoIterator<Item = (K, V)>>(&mut self, it: I) { for (k, v) in it { self.insert(k, v); } }
}
impl<'a, K: Ord + Copy, V: Copy> Extend<(&'a K, &'a V)> for BTreeMap<K, V> {
    fn extend<I: IntoIterator<Item = (&'a K, &'a V)>>(&mut self, it: I) { for (k, v) in it { self.insert(*k, *v); } }
}
impl<K: Ord, V> FromIterator<(K, V)> for BTreeMap<K, V> {
    fn from_iter<I: IntoIterator<Item = (K, V)>>(it: I) -> Self { let mut m = Self::default(); m.extend(it); m }
}
impl<K: Ord, V, const N: usize> From<[(K, V); N]> for BTreeMap<K, V> {
    fn from(a: [(K, V); N]) -> Self { a.into_iter().collect() }
}
impl<K: Ord + Borrow<Q>, Q: ?Sized + Ord, V> Index<&Q> for BTreeMap<K, V> {
    type Output = V;
    fn index(&self, k: &Q) -> &V { self.get(k).expect("no entry found for key") }
}
impl<K, V> IntoIterator for BTreeMap<K, V> {
    type Item = (K, V);
    type IntoIter = fvec::IntoIter<(K, V)>;
    fn into_iter(self) -> Self::IntoIter { self.v.into_iter() }
}
impl<'a, K, V> IntoIterator for &'a BTreeMap<K, V> {
    type Item = (&'a K, &'a V);
    type IntoIter = btree_map::Iter<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter { self.iter() }
}
impl<'a, K, V> IntoIterator for &'a mut BTreeMap<K, V> {
    type Item = (&'a K, &'a mut V);
    type IntoIter = btree_map::IterMut<'a, K, V>;
    fn into_iter(self) -> Self::IntoIter { self.iter_mut() }
}

pub mod btree_map {
    use super::*;
    pub use super::BTreeMap;
    pub type IntoKeys<K, V> = super::FirstOf<K, V>;
    pub type IntoValues<K, V> = super::SecondOf<K, V>;
    pub type IntoIter<K, V> = fvec::IntoIter<(K, V)>;
    macro_rules! it {
        ($n:ident, $inner:ty, $item:ty, $x:ident => $e:expr) => {
            impl<'a, K, V> Iterator for $n<'a, K, V> {
                type Item = $item;
                fn next(&mut self) -> Option<$item> { match self.0.next() { Some($x) => Some($e), None => None } }
                fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
            }
            impl<'a, K, V> DoubleEndedIterator for $n<'a, K, V> {
                fn next_back(&mut self) -> Option<$item> { match self.0.next_back() { Some($x) => Some($e), None => None } }
            }
            impl<'a, K, V> ExactSizeIterator for $n<'a, K, V> {}
        };
    }
    pub struct Iter<'a, K, V>(pub(super) fvec::Iter<'a, (K, V)>);
    pub struct IterMut<'a, K, V>(pub(super) std::slice::IterMut<'a, (K, V)>);
    pub struct Keys<'a, K, V>(pub(super) fvec::Iter<'a, (K, V)>);
    pub struct Values<'a, K, V>(pub(super) fvec::Iter<'a, (K, V)>);
    pub struct ValuesMut<'a, K, V>(pub(super) std::slice::IterMut<'a, (K, V)>);
    it!(Iter, x, (&'a K, &'a V), x => (&x.0, &x.1));
    it!(IterMut, x, (&'a K, &'a mut V), x => (&x.0, &mut x.1));
    it!(Keys, x, &'a K, x => &x.0);
    it!(Values, x, &'a V, x => &x.1);
    it!(ValuesMut, x, &'a mut V, x => &mut x.1);
    impl<'a, K, V> Clone for Iter<'a, K, V> { fn clone(&self) -> Self { Iter(self.0.clone()) } }
    impl<'a, K, V> Clone for Keys<'a, K, V> { fn clone(&self) -> Self { Keys(self.0.clone()) } }
    impl<'a, K, V> Clone for Values<'a, K, V> { fn clone(&self) -> Self { Values(self.0.clone()) } }

    pub enum Entry<'a, K, V> { Occupied(OccupiedEntry<'a, K, V>), Vacant(VacantEntry<'a, K, V>) }
    pub struct OccupiedEntry<'a, K, V> { pub(super) m: &'a mut BTreeMap<K, V>, pub(super) i: usize }
    pub struct VacantEntry<'a, K, V> { pub(super) m: &'a mut BTreeMap<K, V>, pub(super) i: usize, pub(super) k: K }
    impl<'a, K, V> Entry<'a, K, V> {
        pub fn or_insert(self, v: V) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(v) } }
        pub fn or_insert_with<F: FnOnce() -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => e.insert(f()) } }
        pub fn or_insert_with_key<F: FnOnce(&K) -> V>(self, f: F) -> &'a mut V { match self { Entry::Occupied(o) => o.into_mut(), Entry::Vacant(e) => { let v = f(&e.k); e.insert(v) } } }
        pub fn or_default(self) -> &'a mut V where V: Default { self.or_insert_with(V::default) }
        pub fn key(&self) -> &K { match self { Entry::Occupied(o) => o.key(), Entry::Vacant(e) => &e.k } }
        pub fn and_modify<F: FnOnce(&mut V)>(mut self, f: F) -> Self { if let Entry::Occupied(o) = &mut self { f(o.get_mut()) } self }
    }
    impl<'a, K, V> OccupiedEntry<'a, K, V> {
        pub fn key(&self) -> &K { &self.m.v[self.i].0 }
        pub fn get(&self) -> &V { &self.m.v[self.i].1 }
        pub fn get_mut(&mut self) -> &mut V { &mut self.m.v[self.i].1 }
        pub fn into_mut(self) -> &'a mut V { &mut self.m.v[self.i].1 }
        pub fn insert(&mut self, v: V) -> V { std::mem::replace(self.get_mut(), v) }
        pub fn remove(self) -> V { self.m.v.remove(self.i).1 }
        pub fn remove_entry(self) -> (K, V) { self.m.v.remove(self.i) }
    }
    impl<'a, K, V> VacantEntry<'a, K, V> {
        pub fn key(&self) -> &K { &self.k }
        pub fn into_key(self) -> K { self.k }
        pub fn insert(self, v: V) -> &'a mut V {
            let i = self.i;
            self.m.v.insert(i, (self.k, v));
            &mut self.m.v[i].1
        }
    }
}

pub struct BTreeSet<K> { m: BTreeMap<K, ()> }
impl<K: Clone> Clone for BTreeSet<K> { fn clone(&self) -> Self { Self { m: self.m.clone() } } }
impl<K> Default for BTreeSet<K> { fn default() -> Self { Self { m: BTreeMap::default() } } }
impl<K: fmt::Debug> fmt::Debug for BTreeSet<K> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_set().entries(self.iter()).finish() }
}

impl<K: PartialEq> PartialEq for BTreeSet<K> { fn eq(&self, o: &Self) -> bool { self.m == o.m } }
impl<K: Eq> Eq for BTreeSet<K> {}
impl<K: PartialOrd> PartialOrd for BTreeSet<K> { fn partial_cmp(&self, o: &Self) -> Option<std::cmp::Ordering> { self.m.partial_cmp(&o.m) } }
impl<K: Ord> Ord for BTreeSet<K> { fn cmp(&self, o: &Self) -> std::cmp::Ordering { self.m.cmp(&o.m) } }
impl<K: Hash> Hash for BTreeSet<K> { fn hash<HH: std::hash::Hasher>(&self, h: &mut HH) { self.m.hash(h) } }
impl<K> BTreeSet<K> {
    #[cfg(not(feature = "boxed"))]
    pub const fn new() -> Self { Self { m: BTreeMap::new() } }
    #[cfg(feature = "boxed")]
    pub fn new() -> Self { Self { m: BTreeMap::new() } }
}
impl<K: Ord> BTreeSet<K> {
    pub fn first(&self) -> Option<&K> { self.m.v.first().map(|x| &x.0) }
    pub fn last(&self) -> Option<&K> { self.m.v.last().map(|x| &x.0) }
    pub fn pop_first(&mut self) -> Option<K> { self.m.pop_first().map(|x| x.0) }
    pub fn pop_last(&mut self) -> Option<K> { self.m.pop_last().map(|x| x.0) }
    pub fn range<Q: ?Sized + Ord, R: RangeBounds<Q>>(&self, r: R) -> btree_set::Iter<'_, K> where K: Borrow<Q> {
        let (a, b) = self.m.span(&r);
        btree_set::Iter(self.m.v.range_iter(a, b))
    }
    pub fn append(&mut self, o: &mut Self) { self.m.append(&mut o.m) }
    pub fn split_off<Q: ?Sized + Ord>(&mut self, k: &Q) -> Self where K: Borrow<Q> { Self { m: self.m.split_off(k) } }
}

impl<K> BTreeSet<K> {
    pub fn len(&self) -> usize { self.m.len() }
    pub fn is_empty(&self) -> bool { self.m.is_empty() }
    pub fn clear(&mut self) { self.m.clear() }
    pub fn iter(&self) -> btree_set::Iter<'_, K> { btree_set::Iter(self.m.v.iter()) }
    pub fn retain<F: FnMut(&K) -> bool>(&mut self, mut f: F) { self.m.retain(|k, _| f(k)) }
}
impl<K: Ord> BTreeSet<K> {
    pub fn insert(&mut self, k: K) -> bool {
        match self.m.find(&k) {
            Ok(_) => false,
            Err(i) => { self.m.v.insert(i, (k, ())); true }
        }
    }
    pub fn replace(&mut self, k: K) -> Option<K> {
        match self.m.find(&k) {
            Ok(i) => Some(std::mem::replace(&mut self.m.v[i].0, k)),
            Err(_) => { self.insert(k); None }
        }
    }
    pub fn contains<Q: ?Sized + Ord>(&self, k: &Q) -> bool where K: Borrow<Q> { self.m.contains_key(k) }
    pub fn get<Q: ?Sized + Ord>(&self, k: &Q) -> Option<&K> where K: Borrow<Q> { self.m.get_key_value(k).map(|x| x.0) }
    pub fn remove<Q: ?Sized + Ord>(&mut self, k: &Q) -> bool where K: Borrow<Q> { self.m.remove(k).is_some() }
    pub fn take<Q: ?Sized + Ord>(&mut self, k: &Q) -> Option<K> where K: Borrow<Q> { self.m.remove_entry(k).map(|x| x.0) }
    pub fn is_subset(&self, o: &Self) -> bool { self.iter().all(|k| o.contains(k)) }
    pub fn is_superset(&self, o: &Self) -> bool { o.is_subset(self) }
    pub fn is_disjoint(&self, o: &Self) -> bool { self.iter().all(|k| !o.contains(k)) }
    pub fn union<'a>(&'a self, o: &'a Self) -> std::vec::IntoIter<&'a K> {
        let mut v: Vec<&'a K> = self.iter().collect();
        v.extend(o.iter().filter(|k| !self.contains(*k)));
        v.sort();
        v.into_iter()
    }
    pub fn intersection<'a>(&'a self, o: &'a Self) -> std::vec::IntoIter<&'a K> {
        self.iter().filter(|k| o.contains(*k)).collect::<Vec<_>>().into_iter()
    }
    pub fn difference<'a>(&'a self, o: &'a Self) -> std::vec::IntoIter<&'a K> {
        self.iter().filter(|k| !o.contains(*k)).collect::<Vec<_>>().into_iter()
    }
}
impl<K: Ord> Extend<K> for BTreeSet<K> {
    fn extend<I: IntoIterator<Item = K>>(&mut self, it: I) { for k in it { self.insert(k); } }
}
impl<'a, K: Ord + Copy + 'a> Extend<&'a K> for BTreeSet<K> {
    fn extend<I: IntoIterator<Item = &'a K>>(&mut self, it: I) { for k in it { self.insert(*k); } }
}
impl<K: Ord> FromIterator<K> for BTreeSet<K> {
    fn from_iter<I: IntoIterator<Item = K>>(it: I) -> Self { let mut m = Self::default(); m.extend(it); m }
}
impl<K: Ord, const N: usize> From<[K; N]> for BTreeSet<K> { fn from(a: [K; N]) -> Self { a.into_iter().collect() } }
impl<K> IntoIterator for BTreeSet<K> {
    type Item = K;
    type IntoIter = FirstOf<K, ()>;
    fn into_iter(self) -> Self::IntoIter { FirstOf(self.m.v.into_iter()) }
}
impl<'a, K> IntoIterator for &'a BTreeSet<K> {
    type Item = &'a K;
    type IntoIter = btree_set::Iter<'a, K>;
    fn into_iter(self) -> Self::IntoIter { self.iter() }
}
pub mod btree_set {
    pub use super::BTreeSet;
    pub type IntoIter<K> = super::FirstOf<K, ()>;
    pub struct Iter<'a, K>(pub(super) crate::fvec::Iter<'a, (K, ())>);
    impl<'a, K> Clone for Iter<'a, K> { fn clone(&self) -> Self { Iter(self.0.clone()) } }
    impl<'a, K> Iterator for Iter<'a, K> {
        type Item = &'a K;
        fn next(&mut self) -> Option<&'a K> { match self.0.next() { Some(x) => Some(&x.0), None => None } }
        fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
    }
    impl<'a, K> DoubleEndedIterator for Iter<'a, K> {
        fn next_back(&mut self) -> Option<&'a K> { match self.0.next_back() { Some(x) => Some(&x.0), None => None } }
    }
    impl<'a, K> ExactSizeIterator for Iter<'a, K> {}
}

#[cfg(feature = "serde")]
mod serde_impls {
    use super::*;
    use serde::{de, ser, Deserialize, Deserializer, Serialize, Serializer};
    impl<K: Serialize, V: Serialize> Serialize for BTreeMap<K, V> {
        fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> { s.collect_map(self) }
    }
    impl<K: Serialize> Serialize for BTreeSet<K> {
        fn serialize<Z: Serializer>(&self, s: Z) -> Result<Z::Ok, Z::Error> { s.collect_seq(self.iter()) }
    }
    impl<'de, K: Deserialize<'de> + Ord, V: Deserialize<'de>> Deserialize<'de> for BTreeMap<K, V> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            struct Vis<K, V>(PhantomData<(K, V)>);
            impl<'de, K: Deserialize<'de> + Ord, V: Deserialize<'de>> de::Visitor<'de> for Vis<K, V> {
                type Value = BTreeMap<K, V>;
                fn expecting(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("a map") }
                fn visit_map<A: de::MapAccess<'de>>(self, mut a: A) -> Result<Self::Value, A::Error> {
                    let mut m = BTreeMap::default();
                    while let Some((k, v)) = a.next_entry()? { m.insert(k, v); }
                    Ok(m)
                }
            }
            d.deserialize_map(Vis(PhantomData))
        }
    }
    impl<'de, K: Deserialize<'de> + Ord> Deserialize<'de> for BTreeSet<K> {
        fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            Ok(Vec::<K>::deserialize(d)?.into_iter().collect())
        }
    }
}
