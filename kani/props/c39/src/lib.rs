//! C39: which peers the bridge offers content to.
extern crate self as ethportal_api;
extern crate vstd as std;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
pub mod types {
    #[path = "/repo/crates/ethportal-api/src/types/accept_code.rs"]
    pub mod accept_code;
    #[path = "/repo/crates/ethportal-api/src/types/client_type.rs"]
    pub mod client_type;
    #[path = "/repo/crates/ethportal-api/src/types/distance.rs"]
    pub mod distance;
    #[path = "/repo/crates/ethportal-api/src/types/protocol_versions.rs"]
    pub mod protocol_versions;
    pub mod portal_wire {
        #[derive(Debug, Clone, PartialEq, Eq)]
        pub enum OfferTrace {
            Success(super::accept_code::AcceptCode),
            Failed,
        }
    }
}
/// Keys: an id and whether the radius matters.
pub trait OverlayContentKey {
    fn affected_by_radius(&self) -> bool;
    fn content_id(&self) -> [u8; 32];
}
pub struct Key(pub bool, pub [u8; 32]);
impl OverlayContentKey for Key {
    fn affected_by_radius(&self) -> bool {
        self.0
    }
    fn content_id(&self) -> [u8; 32] {
        self.1
    }
}
pub mod census {
    #[path = "/repo/bin/portal-bridge/src/census/peer.rs"]
    pub mod peer;
    #[path = "/repo/bin/portal-bridge/src/census/scoring.rs"]
    pub mod scoring;
}

use alloy::primitives::U256;
use census::{peer::Peer, scoring::*};
use discv5::Enr;
use std::collections::HashMap;
use std::time::Duration;
use types::{accept_code::AcceptCode, client_type::ClientType, distance::Distance, portal_wire::OfferTrace};

/// Ids that differ in the first and last byte.
fn word(first: u8, last: u8) -> [u8; 32] {
    let mut w = [0; 32];
    w[0] = first;
    w[31] = last;
    w
}
fn enr(id: [u8; 32], seq: u64) -> Enr {
    Enr::model(id, seq, None)
}
fn radius(w: [u8; 32]) -> Distance {
    Distance::from(U256::from_be_bytes(w))
}
fn code(n: u8) -> AcceptCode {
    match n {
        0 => AcceptCode::Accepted,
        1 => AcceptCode::Declined,
        2 => AcceptCode::AlreadyStored,
        3 => AcceptCode::NotWithinRadius,
        4 => AcceptCode::RateLimited,
        5 => AcceptCode::InboundTransferInProgress,
        _ => AcceptCode::Unspecified,
    }
}
/// A weight without values for answers, which keeps the encoding small.
fn rules(answers: HashMap<AcceptCode, i32>) -> AdditiveWeight {
    AdditiveWeight {
        timeframe: Duration::from_secs(100),
        starting_weight: 20,
        maximum_weight: 40,
        success_weight: 5,
        accept_code_weights: answers,
        failure_weight: -10,
    }
}
fn weight<W: Weight>(w: &W, p: &Peer) -> u32 {
    w.weight(&None::<(&Key, [u8; 32])>, p)
}
/// A peer is interested exactly in what lies within its radius, or in what does not depend on it.
fn interest() {
    let (id, key): ([u8; 32], [u8; 32]) = (word(nd::u8(), nd::u8()), word(nd::u8(), nd::u8()));
    let r = word(nd::u8(), nd::u8());
    let affected = nd::bool();
    let mut p = Peer::new(enr(id, 1));
    let k = Key(affected, key);
    let zero = (id[0] == key[0]) & (id[31] == key[31]);
    assert!(p.is_interested_in_content(&k, &key) == (!affected || zero), "nothing is known of the radius at first");
    p.record_successful_liveness_check(enr(id, 1), ClientType::Trin, radius(r));
    let (a, b) = ((id[0] ^ key[0], id[31] ^ key[31]), (r[0], r[31]));
    let within = a.0 < b.0 || a.0 == b.0 && a.1 <= b.1;
    assert!(p.is_interested_in_content(&k, &key) == (!affected || within), "within the radius");
    let w = rules(HashMap::new());
    let got = w.weight(&Some((&k, key)), &p);
    assert!(got == if !affected || within { 25 } else { 0 }, "peers without interest have no weight");
    nd::reach!(affected && within && a.0 == b.0, "at the limit");
    std::mem::forget((p, w));
}
/// What is known of a peer follows the newest record.
fn record() {
    let id = word(nd::u8(), 1);
    let (old, new) = (nd::u8(), nd::u8());
    let mut p = Peer::new(enr(id, old as u64));
    p.record_successful_liveness_check(enr(id, new as u64), ClientType::Trin, radius(word(3, 0)));
    let i = p.peer_info();
    assert!(i.enr.seq() == if new >= old { new } else { old } as u64, "the newer record is kept");
    assert!(i.client_type == ClientType::Trin && p.client_type() == ClientType::Trin, "the client");
    p.record_failed_liveness_check();
    assert!(p.enr().seq() == if new >= old { new } else { old } as u64 && p.enr().node_id().raw() == id, "a failure changes nothing about it");
    assert!(p.is_interested_in_content(&Key(true, id), &id), "a failure changes nothing about it");
    nd::reach!(new < old, "outdated");
    std::mem::forget((p, i));
}
/// Obsolete after ten failures in a row.
fn obsolete<const N: usize>() {
    let id = word(7, 1);
    let mut p = Peer::new(enr(id, 1));
    let mut in_a_row = 0u8;
    let mut i = 0;
    while i < N {
        if nd::bool() {
            p.record_successful_liveness_check(enr(id, 1), ClientType::Trin, radius(id));
            in_a_row = 0;
        } else {
            p.record_failed_liveness_check();
            in_a_row += 1;
        }
        i += 1;
    }
    assert!(p.is_obsolete() == (in_a_row >= 10), "obsolete after ten failures in a row");
    assert!(p.iter_liveness_checks().count() == if N < 10 { N } else { 10 }, "a bounded history");
    nd::reach!(N < 10 || in_a_row >= 10, "obsolete");
    std::mem::forget(p);
}
fn event(p: &mut Peer, kind: u8) {
    match kind {
        0 => p.record_successful_liveness_check(p.enr(), ClientType::Trin, radius(word(1, 0))),
        1 => p.record_failed_liveness_check(),
        2 => p.record_offer_result(OfferTrace::Failed, 1, Duration::from_secs(1)),
        n => p.record_offer_result(OfferTrace::Success(code(n - 3)), 1, Duration::from_secs(1)),
    }
}
/// Recent events count as configured, older ones do not; `kinds` of events in this order.
fn counted<const N: usize>(kinds: [u8; N]) {
    std::clock::set(Duration::from_secs(1000));
    let mut p = Peer::new(enr(word(7, 1), 1));
    let w = rules(HashMap::from([(AcceptCode::Accepted, 7), (AcceptCode::RateLimited, -3)]));
    let mut at = [0u64; N];
    let mut now = 1000;
    let mut i = 0;
    while i < N {
        event(&mut p, kinds[i]);
        at[i] = now;
        now += nd::u8() as u64;
        std::clock::set(Duration::from_secs(now));
        i += 1;
    }
    let mut sum = 20;
    let mut i = 0;
    while i < N {
        if now - at[i] <= 100 {
            sum += match kinds[i] {
                0 => 5,
                3 => 7,
                7 => -3,
                _ => -10,
            };
        }
        i += 1;
    }
    let want = if sum < 0 { 0 } else if sum > 40 { 40 } else { sum };
    assert!(weight(&w, &p) == want as u32, "recent events count");
    nd::reach!(now - at[0] == 100, "just in time");
    std::mem::forget((p, w));
}
/// With the values that are used, failures never help and an accepted offer never harms.
fn standing(kind: u8) {
    let mut p = Peer::new(enr(word(7, 1), 1));
    let w = AdditiveWeight::default();
    let before = weight(&w, &p);
    assert!(before > 0, "new peers are eligible");
    event(&mut p, kind);
    let after = weight(&w, &p);
    match kind {
        0 | 3 => assert!(after >= before, "success never harms"),
        _ => assert!(after <= before, "failures never improve a peer's standing"),
    }
    nd::reach!(true, "reached");
    std::mem::forget((p, w));
}
/// A weight that a harness chooses: the sequence number of the record.
struct Given;
impl Weight for Given {
    fn weight(&self, _: &Option<(&impl OverlayContentKey, [u8; 32])>, p: &Peer) -> u32 {
        p.enr().seq() as u32
    }
}
/// Peers with these weights; there are always three.
fn selected(weights: [u8; 3], limit: usize) {
    const N: usize = 3;
    let p = |i: usize| Peer::new(enr(word(i as u8, 1), weights[i] as u64));
    let (a, b, c) = (p(0), p(1), p(2));
    let s = PeerSelector::new(Given, limit);
    let k = Key(true, word(0, 0));
    let got = s.select_peers(Some(&k), [&a, &b, &c]);
    let mut eligible = 0;
    let mut i = 0;
    while i < N {
        eligible += (weights[i] > 0) as usize;
        i += 1;
    }
    let mut seen = [0u8; N];
    let mut i = 0;
    while i < got.len() {
        let j = got[i].enr.node_id().raw()[0] as usize;
        assert!(j < N && weights[j] > 0, "only eligible peers");
        seen[j] += 1;
        assert!(seen[j] == 1, "no peer twice");
        i += 1;
    }
    assert!(got.len() == if eligible < limit { eligible } else { limit }, "as many as configured");
    nd::reach!(true, "reached");
    std::mem::forget((a, b, c, got));
}

nd::harnesses! { roomy
    [36] fn interested() { interest() }
    [36] fn records() { record() }
    [36] fn obsolete_9() { obsolete::<9>() }
    [36] fn obsolete_10() { obsolete::<10>() }
    [36] fn obsolete_12() { obsolete::<12>() }
    [36] fn counted_checks() { counted([0, 1, 0]) }
    [36] fn counted_offers() { counted([3, 2, 7, 4]) }
    [36] fn counted_both() { counted([1, 2, 3]) }
    [36] fn counted_low() { counted([1, 2, 1]) }
    [36] fn counted_high() { counted([0, 3, 3, 0]) }
    [36] fn standing_success() { standing(0) }
    [36] fn standing_failure() { standing(1) }
    [36] fn standing_offer_failed() { standing(2) }
    [36] fn standing_accepted() { standing(3) }
    [36] fn standing_declined() { standing(4) }
    [36] fn standing_stored() { standing(5) }
    [36] fn standing_radius() { standing(6) }
    [36] fn standing_limited() { standing(7) }
    [36] fn standing_in_progress() { standing(8) }
    [36] fn standing_unspecified() { standing(9) }
    [36] fn selected_2_of_3() { selected([1, 2, 1], 2) }
    [36] fn selected_1_of_2() { selected([1, 0, 2], 1) }
    [36] fn selected_1_of_1() { selected([0, 3, 0], 2) }
    [36] fn selected_all() { selected([1, 1, 1], 4) }
    [36] fn selected_not() { selected([0, 0, 0], 1) }
    [36] fn selected_none() { selected([1, 2, 3], 0) }
}
