//! `std` as seen by the code under test: everything is the real standard library, except that
//! * the clock is virtual (set by the harness), and
//! * under the model checker the hashed and ordered collections are flat vectors with the same
//!   behaviour, which the solver can handle.
#![allow(clippy::all)]
pub use std::*;

pub mod clock;

#[cfg(feature = "io")]
pub mod io {
    pub use vio::*;
}

pub mod time {
    pub use crate::clock::{Instant, SystemTime, SystemTimeError, UNIX_EPOCH};
    pub use std::time::{Duration, TryFromFloatSecsError};
}

#[cfg(not(kani))]
pub mod collections {
    pub use std::collections::*;
}

#[cfg(kani)]
mod flat_btree;
#[cfg(kani)]
pub mod fvec;
#[cfg(kani)]
mod flat_hash;

#[cfg(kani)]
pub mod collections {
    pub use crate::flat_btree::{btree_map, btree_set, BTreeMap, BTreeSet};
    pub use crate::flat_hash::{hash_map, hash_set, HashMap, HashSet};
    pub use std::collections::{
        binary_heap, linked_list, vec_deque, BinaryHeap, LinkedList, TryReserveError, VecDeque,
    };
    pub use std::ops::Bound;
}
