//! C07: lookups of nodes.
extern crate vstd as std;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
/// Ids and distances of 8 bits in place of 256.
pub mod dv {
    pub mod kbucket {
        #[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord, Hash, Default)]
        pub struct Distance(pub u8);
        #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
        pub struct Key<T> {
            preimage: T,
            hash: u8,
        }
        impl<T> Key<T> {
            pub fn preimage(&self) -> &T {
                &self.preimage
            }
            pub fn into_preimage(self) -> T {
                self.preimage
            }
            pub fn distance<U>(&self, o: &Key<U>) -> Distance {
                Distance(self.hash ^ o.hash)
            }
        }
        impl From<crate::Id> for Key<crate::Id> {
            fn from(i: crate::Id) -> Self {
                Key { preimage: i, hash: i.0 }
            }
        }
    }
}
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
pub struct Id(pub u8);
#[path = "/repo/crates/portalnet/src/constants.rs"]
pub mod constants;
pub mod find {
    pub mod query_pool {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub enum QueryState<TNodeId> {
            Waiting(Option<TNodeId>),
            WaitingAtCapacity,
            Validating(TNodeId),
            Finished,
        }
    }
    pub mod iterators {
        pub mod query {
            use crate::dv as discv5;
            include!("/repo/crates/portalnet/src/find/iterators/query.rs");
        }
        pub mod findnodes {
            use crate::dv as discv5;
            include!("/repo/crates/portalnet/src/find/iterators/findnodes.rs");
        }
    }
}

use dv::kbucket::Key;
use find::iterators::{findnodes::FindNodeQuery, query::*};
use find::query_pool::QueryState;
use std::time::{Duration, Instant};

const TARGET: u8 = 0x10;
/// Peers are numbered by distance.
const PEERS: usize = 5;
fn id(distance: usize) -> Id {
    Id(TARGET ^ distance as u8)
}
fn distance(i: Id) -> usize {
    (i.0 ^ TARGET) as usize
}
#[derive(Clone, Copy, PartialEq)]
enum Peer {
    Unknown,
    Known,
    Asked(u8),
    Late,
    Failed,
    Answered,
}
use Peer::*;
/// What a lookup does next, other than asking.
#[derive(Clone, Copy)]
enum Event {
    /// A peer answers with these peers.
    Answer(usize, &'static [usize]),
    Fail(usize),
    /// A peer fails, answers with these peers or does nothing.
    May(usize, &'static [usize]),
    /// A peer fails or does nothing.
    MayFail(usize),
    Time,
    Poll,
}
use Event::*;
struct Lookup {
    q: FindNodeQuery<Id>,
    peers: [Peer; PEERS],
    parallelism: usize,
    results: usize,
    now: u8,
    finished: bool,
}
const PATIENCE: u8 = 2;
impl Lookup {
    fn new(start: &[usize], parallelism: usize, results: usize) -> Self {
        let config = QueryConfig { parallelism, num_results: results, peer_timeout: Duration::from_secs(PATIENCE as u64), ..QueryConfig::default() };
        let mut peers = [Unknown; PEERS];
        let mut first = Vec::with_capacity(PEERS);
        let mut i = 0;
        while i < start.len() {
            first.push(Key::from(id(start[i])));
            if i < results {
                peers[start[i]] = Known;
            }
            i += 1;
        }
        let q = FindNodeQuery::with_config(config, Key::from(Id(TARGET)), first);
        Lookup { q, peers, parallelism, results, now: 0, finished: false }
    }
    fn count(&self, f: fn(&Peer) -> bool) -> usize {
        let (mut i, mut n) = (0, 0);
        while i < PEERS {
            n += f(&self.peers[i]) as usize;
            i += 1;
        }
        n
    }
    fn outstanding(&self) -> usize {
        self.count(|p| matches!(p, Asked(_)))
    }
    fn poll(&mut self) {
        let s = self.q.poll(Instant::now() + Duration::from_secs(self.now as u64));
        match s {
            QueryState::Waiting(Some(p)) => {
                let d = distance(p);
                assert!(!self.finished, "a lookup that is over asks nobody");
                assert!(d < PEERS && self.peers[d] == Known, "only peers that are known and were not asked are asked");
                self.timeouts(d);
                // No progress is noticed only after that many answers.
                let may_stall = self.count(|p| *p == Answered) >= self.parallelism;
                let most = if self.results > self.parallelism && may_stall { self.results } else { self.parallelism };
                assert!(self.outstanding() < most, "no more requests at a time than allowed");
                let mut i = 0;
                while i < PEERS {
                    assert!(i >= d || self.peers[i] != Known, "closer peers are asked first");
                    i += 1;
                }
                self.peers[d] = Asked(self.now + PATIENCE);
            }
            QueryState::Waiting(None) => {
                self.timeouts(PEERS);
                assert!(self.count(|p| *p == Known) == 0, "a peer that can be asked is asked");
                assert!(self.outstanding() > 0 && !self.finished, "waits only for answers that may come");
            }
            QueryState::WaitingAtCapacity => {
                assert!(self.outstanding() > 0 && !self.finished, "waits only for answers that may come");
                let least = if self.parallelism < self.results { self.parallelism } else { self.results };
                assert!(self.outstanding() >= least, "no peers are kept waiting below the limit");
                self.some_timeouts();
            }
            QueryState::Finished => {
                if !self.finished {
                    self.timeouts(PEERS);
                    let mut i = 0;
                    let mut answered = 0;
                    while i < PEERS {
                        if answered < self.results {
                            assert!(self.peers[i] != Known, "no closer peer is left unasked");
                            assert!(!matches!(self.peers[i], Asked(_)), "no closer peer is still asked");
                            answered += (self.peers[i] == Answered) as usize;
                        }
                        i += 1;
                    }
                }
                self.finished = true;
            }
            QueryState::Validating(_) => panic!("nodes need no validation"),
        }
    }
    /// Requests to peers up to a distance whose time is over are given up with a poll.
    fn timeouts(&mut self, to: usize) {
        let mut i = 0;
        while i < PEERS {
            if let Asked(t) = self.peers[i] {
                if i < to && self.now >= t {
                    self.peers[i] = Late;
                }
            }
            i += 1;
        }
    }
    /// As `timeouts`, where it is not known how far the poll went: up to the first one it still waits for.
    fn some_timeouts(&mut self) {
        let mut i = 0;
        let mut go = true;
        while i < PEERS {
            match self.peers[i] {
                Asked(t) if go => {
                    if self.now >= t {
                        self.peers[i] = Late;
                    } else {
                        go = false;
                    }
                }
                Known => go = false,
                _ => (),
            }
            i += 1;
        }
    }
    fn answer(&mut self, d: usize, with: &[usize]) {
        let mut v = Vec::with_capacity(PEERS);
        let mut i = 0;
        while i < with.len() {
            v.push(id(with[i]));
            i += 1;
        }
        self.q.on_success(&id(d), v);
        if !self.finished && matches!(self.peers[d], Asked(_) | Late) {
            self.peers[d] = Answered;
            let mut i = 0;
            while i < with.len() {
                if self.peers[with[i]] == Unknown {
                    self.peers[with[i]] = Known;
                }
                i += 1;
            }
        }
    }
    fn fail(&mut self, d: usize) {
        self.q.on_failure(&id(d));
        if !self.finished && matches!(self.peers[d], Asked(_) | Late) {
            self.peers[d] = Failed;
        }
    }
    fn event(&mut self, e: Event) {
        match e {
            Answer(d, with) => self.answer(d, with),
            Fail(d) => self.fail(d),
            May(d, with) => match nd::below(3) {
                0 => self.answer(d, with),
                1 => self.fail(d),
                _ => (),
            },
            MayFail(d) => {
                if nd::bool() {
                    self.fail(d)
                }
            }
            Time => self.now += PATIENCE,
            Poll => (),
        }
    }
    /// The closest peers that answered, in order.
    fn check_result(self) {
        let r = self.q.into_result();
        let (mut i, mut n) = (0, 0);
        while i < PEERS {
            if self.peers[i] == Answered && n < self.results {
                assert!(n < r.len() && r[n] == id(i), "the result is the closest peers that answered, in order");
                n += 1;
            }
            i += 1;
        }
        assert!(n == r.len(), "nothing but the closest peers that answered");
        std::mem::forget(r);
    }
}
/// Runs a lookup through events, with a poll before each of them.
fn run(start: &[usize], parallelism: usize, results: usize, events: &[Event]) -> Lookup {
    let mut l = Lookup::new(start, parallelism, results);
    let mut i = 0;
    while i < events.len() {
        l.poll();
        l.event(events[i]);
        i += 1;
    }
    l.poll();
    nd::reach!(true, "reached");
    l
}
fn steps(start: &[usize], parallelism: usize, results: usize, events: &[Event]) {
    std::mem::forget(run(start, parallelism, results, events));
}
fn result(start: &[usize], parallelism: usize, results: usize, events: &[Event]) {
    run(start, parallelism, results, events).check_result();
}
/// A lookup in which each peer that is asked answers or fails at once is soon over.
fn ends(start: &[usize], parallelism: usize, results: usize) {
    let mut l = Lookup::new(start, parallelism, results);
    let mut n = 0;
    while n < start.len() {
        l.poll();
        let mut i = 0;
        while i < PEERS {
            if matches!(l.peers[i], Asked(_)) {
                if nd::bool() {
                    l.answer(i, &[])
                } else {
                    l.fail(i)
                }
            }
            i += 1;
        }
        n += 1;
    }
    l.poll();
    nd::reach!(true, "reached");
    assert!(l.finished, "a lookup ends");
    std::mem::forget(l);
}

nd::harnesses! {
    [9] fn straight() { steps(&[3, 4], 2, 2, &[Poll, Answer(3, &[2]), Answer(4, &[1]), Poll, May(2, &[1]), May(1, &[2]), Poll]) }
    [7] fn straight_fails() { steps(&[3, 4], 2, 2, &[Poll, Answer(3, &[2]), MayFail(4), MayFail(2), Poll]) }
    [7] fn one_by_one() { steps(&[3, 4], 1, 2, &[May(3, &[2]), Poll, May(2, &[3]), Poll]) }
    [7] fn not_asked() { steps(&[3, 4], 1, 2, &[Answer(4, &[1]), Fail(2), Answer(1, &[0]), May(3, &[4]), Poll]) }
    [7] fn late() { steps(&[3, 4], 1, 1, &[Time, Poll, May(3, &[4]), Poll, May(4, &[3]), Poll]) }
    [9] fn late_answers() { steps(&[1, 4], 2, 2, &[Poll, Time, Poll, Answer(4, &[1, 3]), Poll, May(3, &[4]), May(1, &[4]), Poll]) }
    [7] fn stalled() { steps(&[1, 2, 3, 4], 1, 4, &[Answer(1, &[2]), Poll, May(2, &[3]), Poll, MayFail(3), Poll]) }
    [9] fn stalled_on() { steps(&[2, 3, 4], 1, 3, &[Answer(2, &[2]), Poll, Poll, Answer(3, &[1]), Poll, May(1, &[2]), Poll]) }
    [7] fn in_parallel() { steps(&[1, 2, 3], 2, 3, &[Poll, Poll, MayFail(1), Poll, Poll]) }
    [7] fn over() { steps(&[1, 2], 3, 2, &[Poll, Answer(1, &[]), Answer(2, &[]), Poll, Answer(3, &[4]), Poll]) }
    [7] fn enough() { steps(&[1, 2, 3], 3, 3, &[Poll, Poll, May(2, &[1]), May(1, &[2]), Poll]) }
    [7] fn enough_closer() { steps(&[1, 2, 3], 3, 3, &[Poll, Poll, Answer(2, &[4]), Answer(3, &[4]), May(1, &[2]), Poll]) }
    [7] fn too_many() { steps(&[4, 3, 1], 2, 2, &[Poll, May(4, &[3]), May(3, &[4]), Poll]) }
    [7] fn nobody() { result(&[], 3, 2, &[Answer(1, &[2]), Poll]) }
    [7] fn result_of_one() { result(&[2], 3, 2, &[May(2, &[2])]) }
    [7] fn result_of_two() { result(&[2, 3], 2, 2, &[Poll, May(3, &[]), MayFail(2)]) }
    [7] fn result_of_more() { result(&[1, 2, 3], 3, 3, &[Poll, Poll, Answer(2, &[4]), Answer(3, &[4]), May(1, &[]), Poll]) }
    [7] fn result_cut() { result(&[3, 4], 2, 2, &[Poll, Answer(4, &[1]), Answer(3, &[2]), Poll, Answer(2, &[]), MayFail(1)]) }
    [7] fn result_early() { result(&[1, 3], 2, 1, &[Answer(1, &[2]), Poll]) }
    [7] fn ends_one_by_one() { ends(&[3, 4], 1, 2) }
    [7] fn ends_in_parallel() { ends(&[1, 2], 2, 2) }
}
