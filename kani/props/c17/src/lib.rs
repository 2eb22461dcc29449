//! C17: which peers are asked for offered content.
extern crate self as ethportal_api;
extern crate vstd as std;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
use std::hash::Hash;
/// Keys and records: values that are told apart.
pub trait OverlayContentKey: Clone + std::fmt::Debug + std::fmt::Display + Eq + Hash + Unpin {
    fn tag(&self) -> u8;
}
macro_rules! values {
    ($($t:ident)*) => {$(
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub struct $t(pub u8);
        impl std::fmt::Display for $t {
            fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
                f.write_str("value")
            }
        }
    )*};
}
values!(Key);
impl OverlayContentKey for Key {
    fn tag(&self) -> u8 {
        self.0
    }
}
pub mod types {
    pub mod enr {
        values!(Enr);
    }
}
/// A map whose entries expire when the harness says so.
pub mod dm {
    use std::task::{Context, Poll};
    use std::time::Duration;
    pub const ROOM: usize = 4;
    /// Marked: Kani lets a static share storage with constants of the same content.
    pub struct Clock {
        _mark: u64,
        /// The key whose time is over.
        pub over: Option<u8>,
        /// The time that an entry has.
        pub given: Duration,
    }
    pub static mut CLOCK: Clock = Clock { _mark: 0x5afe_c17c_0000_0001, over: None, given: Duration::ZERO };
    pub struct HashMapDelay<K, V> {
        slots: [Option<(K, V)>; ROOM],
    }
    impl<K: crate::OverlayContentKey, V> HashMapDelay<K, V> {
        pub fn new(given: Duration) -> Self {
            unsafe { CLOCK.given = given };
            HashMapDelay { slots: [None, None, None, None] }
        }
        fn at(&self, k: &K) -> Option<usize> {
            let mut i = 0;
            while i < ROOM {
                if let Some((x, _)) = &self.slots[i] {
                    if x == k {
                        return Some(i);
                    }
                }
                i += 1;
            }
            None
        }
        pub fn insert(&mut self, k: K, v: V) {
            let i = match self.at(&k) {
                Some(i) => i,
                None => {
                    let mut i = 0;
                    while i < ROOM - 1 && self.slots[i].is_some() {
                        i += 1;
                    }
                    i
                }
            };
            std::mem::forget(std::mem::replace(&mut self.slots[i], Some((k, v))));
        }
        pub fn insert_at(&mut self, k: K, v: V, _: Duration) {
            self.insert(k, v)
        }
        pub fn remove(&mut self, k: &K) -> Option<V> {
            let i = self.at(k)?;
            self.slots[i].take().map(|e| e.1)
        }
        pub fn get(&self, k: &K) -> Option<&V> {
            let i = self.at(k)?;
            self.slots[i].as_ref().map(|e| &e.1)
        }
        pub fn get_mut(&mut self, k: &K) -> Option<&mut V> {
            let i = self.at(k)?;
            self.slots[i].as_mut().map(|e| &mut e.1)
        }
        pub fn contains_key(&self, k: &K) -> bool {
            self.at(k).is_some()
        }
        pub fn len(&self) -> usize {
            let (mut i, mut n) = (0, 0);
            while i < ROOM {
                n += self.slots[i].is_some() as usize;
                i += 1;
            }
            n
        }
        pub fn is_empty(&self) -> bool {
            self.len() == 0
        }
        pub fn poll_expired(&mut self, _: &mut Context<'_>) -> Poll<Option<Result<(K, V), String>>> {
            let over = unsafe { CLOCK.over };
            let mut i = 0;
            while i < ROOM {
                if self.slots[i].as_ref().is_some_and(|e| over == Some(e.0.tag())) {
                    unsafe { CLOCK.over = None };
                    if let Some(e) = self.slots[i].take() {
                        return Poll::Ready(Some(Ok(e)));
                    }
                }
                i += 1;
            }
            Poll::Pending
        }
    }
}
/// The little that is used of futures.
pub mod fu {
    pub mod prelude {
        pub use super::FutureExt;
        pub mod future {
            pub use std::future::poll_fn;
        }
    }
    pub trait FutureExt: std::future::Future + Sized {
        fn now_or_never(self) -> Option<Self::Output> {
            let mut f = std::pin::pin!(self);
            let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
            match f.as_mut().poll(&mut cx) {
                std::task::Poll::Ready(v) => Some(v),
                std::task::Poll::Pending => None,
            }
        }
    }
    impl<F: std::future::Future> FutureExt for F {}
}
/// Every order may come out of a shuffle: one of the first elements is swapped to the front.
pub mod rn {
    pub struct Rng;
    pub fn rng() -> Rng {
        Rng
    }
    fn pick(n: usize) -> usize {
        if n == 0 {
            return 0;
        }
        let i = nd::u8() as usize;
        nd::assume(i < n);
        i
    }
    pub mod seq {
        pub trait SliceRandom {
            fn shuffle<R>(&mut self, r: &mut R);
        }
        impl<T> SliceRandom for [T] {
            fn shuffle<R>(&mut self, _: &mut R) {
                if self.len() > 0 {
                    let i = super::pick(self.len());
                    self.swap(0, i);
                }
            }
        }
        pub trait IndexedRandom {
            type Output;
            fn choose<R>(&self, r: &mut R) -> Option<&Self::Output>;
        }
        impl<T> IndexedRandom for [T] {
            type Output = T;
            fn choose<R>(&self, _: &mut R) -> Option<&T> {
                self.get(super::pick(self.len()))
            }
        }
    }
    pub mod prelude {
        pub use super::seq::*;
    }
}
pub mod tk {
    pub mod time {
        pub use std::time::Duration;
    }
}
pub mod accept_queue {
    use crate::{dm as delay_map, fu as futures, rn as rand, tk as tokio};
    include!("/repo/crates/portalnet/src/accept_queue.rs");
}

use accept_queue::AcceptQueue;
use types::enr::Enr;

#[derive(Clone, Copy)]
enum Op {
    Offer(u8),
    Done(u8),
    Failed(u8),
    Expired(u8),
}
use Op::*;
/// What is known of a key: the peer that is asked, and who else offered it.
#[derive(Clone, Copy, Default)]
struct Known {
    asked: Option<u8>,
    others: u8,
}
/// Offers by any peers; the rest as given.
fn run(ops: &[Op]) {
    let mut q = AcceptQueue::<Key>::default();
    let mut known = [Known::default(); 2];
    let mut i = 0;
    while i < ops.len() {
        match ops[i] {
            Offer(k) => {
                let peer = nd::below(4);
                let accepted = q.add_key_to_queue(&Key(k), &Enr(peer));
                let s = &mut known[k as usize];
                assert!(accepted == s.asked.is_none(), "an offer is accepted exactly if the content is not on its way");
                match s.asked {
                    None => *s = Known { asked: Some(peer), others: 0 },
                    Some(a) => {
                        if a != peer {
                            s.others |= 1 << peer;
                        }
                    }
                }
            }
            Done(k) => {
                q.remove_key(&Key(k));
                known[k as usize] = Known::default();
            }
            Failed(k) => {
                let s = &mut known[k as usize];
                match q.process_failed_key(&Key(k)) {
                    Some(p) => {
                        assert!(s.others >> p.0 & 1 == 1, "the next peer is one that offered the content too and was not asked yet");
                        assert!(s.asked != Some(p.0), "the peer that failed is not asked again");
                    }
                    None => assert!(s.others == 0, "as long as there are other peers one is asked"),
                }
                *s = Known::default();
            }
            Expired(k) => {
                unsafe { dm::CLOCK.over = Some(k) };
                known[k as usize] = Known::default();
            }
        }
        i += 1;
    }
    nd::reach!(true, "reached");
    std::mem::forget(q);
}
/// Each of the other peers can be the next one.
fn any_next() {
    let mut q = AcceptQueue::<Key>::default();
    q.add_key_to_queue(&Key(1), &Enr(3));
    q.add_key_to_queue(&Key(1), &Enr(1));
    q.add_key_to_queue(&Key(1), &Enr(2));
    let next = q.process_failed_key(&Key(1));
    nd::reach!(next == Some(Enr(1)), "first");
    assert!(next == Some(Enr(1)) || next == Some(Enr(2)), "one of the other peers");
    std::mem::forget(q);
}
fn patient() {
    let q = AcceptQueue::<Key>::default();
    assert!(unsafe { dm::CLOCK.given } > std::time::Duration::ZERO, "a transfer is given time");
    nd::reach!(true, "reached");
    std::mem::forget(q);
}

nd::harnesses! {
    roomy
    [8] fn failed_alone() { run(&[Offer(0), Failed(0), Offer(0), Failed(1)]) }
    [8] fn failed_of_two() { run(&[Offer(0), Offer(0), Failed(0), Offer(0)]) }
    [8] fn failed_of_four() { run(&[Offer(0), Offer(0), Offer(0), Offer(0), Failed(0)]) }
    [8] fn failed_twice() { run(&[Offer(0), Offer(0), Failed(0), Failed(0), Offer(0)]) }
    [8] fn two_keys() { run(&[Offer(0), Offer(1), Offer(0), Offer(1), Failed(1), Offer(1), Failed(0)]) }
    [8] fn done() { run(&[Offer(0), Offer(0), Done(0), Offer(0), Offer(0), Failed(0)]) }
    [8] fn done_other() { run(&[Offer(0), Offer(0), Done(1), Offer(0), Failed(0)]) }
    [8] fn expired() { run(&[Offer(0), Offer(0), Expired(0), Offer(0), Offer(0), Failed(0)]) }
    [8] fn expired_other() { run(&[Offer(0), Offer(1), Offer(0), Expired(1), Offer(0), Offer(1), Failed(0)]) }
    [8] fn next() { any_next() }
    [8] fn time_given() { patient() }
}
