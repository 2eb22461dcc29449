//! C46: what the routing table answers.
extern crate self as ethportal_api;
extern crate vstd as std;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
pub const ROOM: usize = 3;
include!("frame.rs");

const LOCAL: u8 = 0x80;
fn word(last: u8) -> [u8; 32] {
    let mut r = [0; 32];
    r[31] = last;
    r
}
fn log2(id: u8) -> u16 {
    let d = id ^ LOCAL;
    if d == 0 {
        0
    } else {
        8 - d.leading_zeros() as u16
    }
}
/// Three peers; the bits of `c` say which are connected.
fn three(ids: [u8; 3], c: u8) -> [Peer; 3] {
    [Peer(ids[0], 1, 0, c & 1 != 0), Peer(ids[1], 1, 0, c & 2 != 0), Peer(ids[2], 1, 0, c & 4 != 0)]
}
/// For all of them.
fn each(f: impl Fn(u8)) {
    let mut c = 0;
    while c < 8 {
        f(c);
        c += 1;
    }
    nd::reach!(true, "reached");
}
fn own() -> Enr {
    Enr { id: LOCAL, seq: 9 }
}
/// Answers to requests for nodes at distances.
fn by_distance<const D: usize>(ids: [u8; 3], distances: [u16; D], limit: usize, c: u8) {
    let peers = three(ids, c);
    let t = table(LOCAL, &peers, false);
    let got = t.nodes_by_distances(own(), &distances, limit);
    let asked = |d: u16| {
        let mut r = false;
        let mut i = 0;
        while i < D {
            r |= distances[i] == d;
            i += 1;
        }
        r
    };
    let mut all = asked(0) as usize;
    let mut i = 0;
    while i < 3 {
        let want = peers[i].3 && asked(log2(ids[i]));
        all += want as usize;
        let mut found = 0;
        let mut j = 0;
        while j < got.len() {
            found += (got[j].id == ids[i]) as usize;
            j += 1;
        }
        assert!(found <= want as usize, "connected nodes at the distances asked for, once each");
        i += 1;
    }
    assert!(got.len() == if all < limit { all } else { limit }, "as many as there are, up to the limit");
    let mut own = 0;
    let mut j = 0;
    while j < got.len() {
        own += (got[j].id == LOCAL) as usize;
        j += 1;
    }
    assert!(own <= asked(0) as usize && (own == asked(0) as usize || all > limit), "the own record at distance 0");
    std::mem::forget((t, got));
}
/// The closest connected peers, closest first.
fn closest(ids: [u8; 3], target: u8, limit: usize, content: bool, c: u8) {
    let peers = three(ids, c);
    let t = table(LOCAL, &peers, false);
    let got = if content {
        t.closest_to_content_id::<XorMetric>(&word(target), limit)
    } else {
        t.closest_to_node_id(NodeId(target), limit)
    };
    let mut n = 0;
    let mut i = 0;
    while i < 3 {
        n += peers[i].3 as usize;
        i += 1;
    }
    assert!(got.len() == if n < limit { n } else { limit }, "as many as there are, up to the limit");
    let mut i = 0;
    while i < 3 {
        // The place of a peer is the number of connected peers that are closer.
        let mut closer = 0;
        let mut j = 0;
        while j < 3 {
            closer += (peers[j].3 && peers[j].0 ^ target < peers[i].0 ^ target) as usize;
            j += 1;
        }
        if peers[i].3 && closer < limit {
            assert!(got[closer].id == ids[i], "closest first");
        }
        i += 1;
    }
    std::mem::forget((t, got));
}
/// Connected peers, none twice.
fn random(limit: usize, c: u8) {
    let ids = [1, 2, 3];
    let peers = three(ids, c);
    let t = table(LOCAL, &peers, false);
    let got = t.random_peers(limit);
    let mut n = 0;
    let mut i = 0;
    while i < 3 {
        n += peers[i].3 as usize;
        let mut found = 0;
        let mut j = 0;
        while j < got.len() {
            found += (got[j].id == ids[i]) as usize;
            j += 1;
        }
        assert!(found <= peers[i].3 as usize, "connected nodes, once each");
        i += 1;
    }
    assert!(got.len() == if n < limit { n } else { limit }, "as many as there are, up to the limit");
    std::mem::forget((t, got));
}
/// A discovered record: `known` says whether the node is in the table.
fn discovered(known: bool, refuse: bool) {
    let (old, new, radius, connected) = (nd::u8(), nd::u8(), nd::u8(), nd::bool());
    let t = table(LOCAL, &[Peer(if known { 5 } else { 6 }, old, radius, connected)], refuse);
    let r = t.insert_or_update_discovered_nodes([Enr { id: 5, seq: new }]);
    match t.entry(NodeId(5)) {
        Entry::Present(n, s) => {
            if known {
                assert!(n.enr.seq == if new > old { new } else { old }, "only newer records replace");
                assert!(n.data_radius == Distance(radius) && s.is_connected() == connected, "what else is known is kept");
            } else {
                assert!(!refuse && n.enr.seq == new && n.data_radius == Distance::MAX && !s.is_connected(), "new nodes are not connected");
            }
            std::mem::forget(n);
        }
        _ => assert!(refuse && (!known || new > old), "known nodes stay and new ones are added"),
    }
    assert!(r.inserted_nodes.len() == (!known && !refuse) as usize, "added nodes are reported");
    assert!(r.removed_nodes.len() == (known && refuse && new > old) as usize, "removed nodes are reported");
    nd::reach!(new > old, "newer");
    std::mem::forget((t, r));
}
fn discovered_own() {
    let t = table(LOCAL, &[Peer(1, 1, 1, true)], false);
    let r = t.insert_or_update_discovered_nodes([Enr { id: LOCAL, seq: nd::u8() }]);
    assert!(r.inserted_nodes.is_empty() && r.removed_nodes.is_empty(), "the node itself is not added");
    nd::reach!(true, "reached");
    std::mem::forget((t, r));
}

nd::harnesses! { roomy
    [34] fn distance_0() { each(|c| by_distance([1, 2, 3], [0], 4, c)) }
    [34] fn distance_1() { each(|c| by_distance([0x81, 0x82, 0x83], [1], 4, c)) }
    [34] fn distance_2() { each(|c| by_distance([0x81, 0x82, 0x83], [2], 4, c)) }
    [34] fn distance_twice() { each(|c| by_distance([0x81, 0x82, 0x83], [2, 2], 4, c)) }
    [34] fn distance_apart() { each(|c| by_distance([0x81, 0x82, 0x83], [2, 0, 2], 4, c)) }
    [34] fn distance_both() { each(|c| by_distance([0x81, 0x82, 0x83], [2, 1], 4, c)) }
    [34] fn distance_limit() { each(|c| by_distance([0x81, 0x82, 0x83], [2, 1], 2, c)) }
    [34] fn distance_limit_own() { each(|c| by_distance([0x81, 0x82, 0x83], [1, 0], 1, c)) }
    [34] fn closest_up() { each(|c| closest([1, 2, 3], 0, 3, true, c)) }
    [34] fn closest_down() { each(|c| closest([7, 5, 4], 4, 2, true, c)) }
    [34] fn closest_mixed() { each(|c| closest([9, 1, 4], 8, 2, true, c)) }
    [34] fn closest_node_up() { each(|c| closest([1, 2, 3], 0, 2, false, c)) }
    [34] fn closest_node_down() { each(|c| closest([9, 1, 4], 8, 3, false, c)) }
    [34] fn random_2_of_3() { random(2, 7); nd::reach!(true, "reached") }
    [34] fn random_2_of_2() { random(2, 5); nd::reach!(true, "reached") }
    [34] fn random_1_of_2() { random(1, 6); nd::reach!(true, "reached") }
    [34] fn random_none() { random(2, 0); nd::reach!(true, "reached") }
    [34] fn discovered_new() { discovered(false, false) }
    [34] fn discovered_known() { discovered(true, false) }
    [34] fn discovered_new_refused() { discovered(false, true) }
    [34] fn discovered_known_refused() { discovered(true, true) }
    [34] fn discovered_self() { discovered_own() }
}
