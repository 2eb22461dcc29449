//! Two-way map as a list of pairs.
use std::borrow::Borrow;
#[derive(Clone, Debug)]
pub struct BiHashMap<L, R> {
    pairs: Box<[Option<(L, R)>; ROOM]>,
    used: usize,
}
const ROOM: usize = 10;
pub type BiMap<L, R> = BiHashMap<L, R>;
impl<L: PartialEq, R: PartialEq> BiHashMap<L, R> {
    pub fn new() -> Self {
        BiHashMap { pairs: Box::new([const { None }; ROOM]), used: 0 }
    }
    pub fn insert(&mut self, l: L, r: R) {
        let mut i = 0;
        while i < self.used {
            if let Some(p) = &self.pairs[i] {
                if p.0 == l || p.1 == r {
                    std::mem::forget(self.pairs[i].take());
                }
            }
            i += 1;
        }
        assert!(self.used < ROOM, "room of the model");
        self.pairs[self.used] = Some((l, r));
        self.used += 1;
    }
    pub fn get_by_left<Q: PartialEq + ?Sized>(&self, l: &Q) -> Option<&R>
    where
        L: Borrow<Q>,
    {
        let mut i = 0;
        while i < self.used {
            if let Some(p) = &self.pairs[i] {
                if p.0.borrow() == l {
                    return Some(&p.1);
                }
            }
            i += 1;
        }
        None
    }
    pub fn get_by_right<Q: PartialEq + ?Sized>(&self, r: &Q) -> Option<&L>
    where
        R: Borrow<Q>,
    {
        let mut i = 0;
        while i < self.used {
            if let Some(p) = &self.pairs[i] {
                if p.1.borrow() == r {
                    return Some(&p.0);
                }
            }
            i += 1;
        }
        None
    }
    pub fn contains_left<Q: PartialEq + ?Sized>(&self, l: &Q) -> bool
    where
        L: Borrow<Q>,
    {
        self.get_by_left(l).is_some()
    }
    pub fn contains_right<Q: PartialEq + ?Sized>(&self, r: &Q) -> bool
    where
        R: Borrow<Q>,
    {
        self.get_by_right(r).is_some()
    }
    pub fn len(&self) -> usize {
        let mut n = 0;
        let mut i = 0;
        while i < self.used {
            n += self.pairs[i].is_some() as usize;
            i += 1;
        }
        n
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
