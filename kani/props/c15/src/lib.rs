//! C15: protocol version negotiation.
extern crate vstd as std;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
#[path = "/repo/crates/ethportal-api/src/types/network.rs"]
pub mod network;
#[path = "/repo/crates/ethportal-api/src/types/network_spec.rs"]
pub mod network_spec;
#[path = "/repo/crates/ethportal-api/src/types/protocol_versions.rs"]
pub mod protocol_versions;
pub mod consensus {
    #[path = "/repo/crates/ethportal-api/src/types/consensus/constants.rs"]
    pub mod constants;
}

use alloy_hardforks::EthereumChainHardforks;
use alloy_rlp::{Decodable, Encodable};
use bimap::BiHashMap;
use discv5::Enr;
use network::Network;
use network_spec::{NetworkSpec, MAINNET};
use protocol_versions::*;

fn versions<const N: usize>(v: &[u8; N]) -> ProtocolVersionList {
    let mut l = Vec::with_capacity(8);
    let mut i = 0;
    while i < N {
        l.push(ProtocolVersion::from(v[i]));
        i += 1;
    }
    ProtocolVersionList::new(l)
}
fn well_formed(v: &[u8]) -> bool {
    let mut i = 0;
    while i < v.len() {
        if v[i] > 2 || i > 0 && v[i - 1] >= v[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn has(v: &[u8], x: u8) -> bool {
    let mut i = 0;
    while i < v.len() {
        if v[i] == x {
            return true;
        }
        i += 1;
    }
    false
}
fn spec(l: ProtocolVersionList) -> Option<NetworkSpec> {
    NetworkSpec::new(BiHashMap::new(), Network::Mainnet, l, EthereumChainHardforks::mainnet(), 1_606_824_023).ok()
}
/// What a peer announces: the list as one RLP string.
fn announce<const N: usize>(v: &[u8; N]) -> Enr {
    let mut raw = Vec::with_capacity(16);
    if N == 1 && v[0] < 0x80 {
        raw.push(v[0]);
    } else {
        raw.push(0x80 + N as u8);
        let mut i = 0;
        while i < N {
            raw.push(v[i]);
            i += 1;
        }
    }
    Enr::model([7; 32], 1, Some(("pv", raw.leak())))
}
fn order() {
    let (a, b) = (nd::u8(), nd::u8());
    let (x, y) = (ProtocolVersion::from(a), ProtocolVersion::from(b));
    assert!(u8::from(x) == a && *x == a, "a version keeps its number");
    assert!((x < y) == (a < b) && (x == y) == (a == b) && x.cmp(&y) == a.cmp(&b), "versions are ordered by number");
    assert!(x.is_v1_enabled() == (a >= 1), "features of version 1");
    assert!(matches!(x, ProtocolVersion::UnspecifiedVersion(_)) == (a > 2), "unknown versions");
    nd::reach!(a == 3, "an unknown version");
}
fn well<const N: usize>() {
    let v: [u8; N] = nd::arr();
    let l = versions(&v);
    assert!(l.is_strictly_sorted_and_specified() == well_formed(&v), "a list is well formed if increasing and known");
    nd::reach!(N > 3 || well_formed(&v), "well formed");
    let s = spec(l);
    assert!(s.is_some() || !well_formed(&v), "well-formed lists are taken");
    std::mem::forget(s);
}
fn refused() {
    let v: [u8; 2] = nd::arr();
    nd::assume(!well_formed(&v));
    let s = spec(versions(&v));
    nd::reach!(true, "reached");
    assert!(s.is_none(), "only well-formed lists are announced");
    std::mem::forget(s);
}
fn survives<const N: usize>(v: [u8; N]) {
    let l = versions(&v);
    let mut raw = Vec::with_capacity(32);
    l.encode(&mut raw);
    let d = match ProtocolVersionList::decode(&mut &raw[..]) {
        Ok(d) => d,
        Err(_) => panic!("an announced list is understood"),
    };
    assert!(d.len() == N, "as many versions");
    let mut i = 0;
    while i < N {
        assert!(u8::from(d[i]) == v[i], "the same versions");
        i += 1;
    }
    nd::reach!(true, "reached");
    std::mem::forget((l, d));
}
fn agree<const N: usize, const M: usize>(ours: [u8; N]) {
    let theirs: [u8; M] = nd::arr();
    let Some(s) = spec(versions(&ours)) else { panic!("a well-formed list is taken") };
    let got = s.latest_common_protocol_version(&announce(&theirs));
    let mut best = None;
    let mut i = 0;
    while i < N {
        if has(&theirs, ours[i]) {
            best = Some(ours[i]);
        }
        i += 1;
    }
    match (&got, best) {
        (Ok(v), Some(b)) => assert!(u8::from(*v) == b, "the highest common version"),
        (Err(ProtocolVersionError::NoMatchingVersion), None) => {}
        _ => panic!("an error exactly if nothing is shared"),
    }
    nd::reach!(best.is_none(), "nothing shared");
    std::mem::forget((s, got));
}
fn silent() {
    let s = spec(versions(&[0, 1]));
    let e = Enr::model(nd::b32(), 3, None);
    let got = s.as_ref().unwrap().latest_common_protocol_version(&e);
    assert!(matches!(got, Ok(ProtocolVersion::V0)), "a peer that announces nothing speaks version 0");
    nd::reach!(true, "reached");
    std::mem::forget(s);
}
fn long<const M: usize>() {
    // more than eight versions, or no list at all
    let v: [u8; M] = nd::arr();
    let s = spec(versions(&[0, 1]));
    let got = s.as_ref().unwrap().latest_common_protocol_version(&announce(&v));
    assert!(matches!(got, Err(ProtocolVersionError::FailedToDecode)), "more than eight versions are refused");
    nd::reach!(true, "reached");
    std::mem::forget(s);
}

nd::harnesses! { leak
    [2] fn order_of_versions() { order() }
    [10] fn well_formed_0() { well::<0>() }
    [10] fn well_formed_1() { well::<1>() }
    [10] fn well_formed_2() { well::<2>() }
    [10] fn well_formed_3() { well::<3>() }
    [10] fn well_formed_4() { well::<4>() }
    [10] fn ill_formed_2() { refused() }
    [10] fn survives_0() { survives::<0>(nd::arr()) }
    [10] fn survives_single_0() { survives([0]) }
    [10] fn survives_single_1() { survives([1]) }
    [10] fn survives_single_127() { survives([127]) }
    [10] fn survives_single_128() { survives([128]) }
    [10] fn survives_3() { survives::<3>(nd::arr()) }
    [10] fn survives_8() { survives::<8>(nd::arr()) }
    [10] fn agree_01_0() { agree::<2, 0>([0, 1]) }
    [10] fn agree_01_2() { agree::<2, 2>([0, 1]) }
    [10] fn agree_012_3() { agree::<3, 3>([0, 1, 2]) }
    [10] fn agree_02_2() { agree::<2, 2>([0, 2]) }
    [10] fn agree_12_3() { agree::<2, 3>([1, 2]) }
    [10] fn agree_1_2() { agree::<1, 2>([1]) }
    [10] fn agree_none_2() { agree::<0, 2>([]) }
    [10] fn announces_nothing() { silent() }
    [12] fn announces_nine() { long::<9>() }
}
