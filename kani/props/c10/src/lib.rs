//! C10: content keys and their bytes.
extern crate vstd as std;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
include!("frame.rs");

/// A key has the bytes that are specified, and they give back the key.
fn survives<K: OverlayContentKey>((key, e): (K, Expect)) {
    let b = key.to_bytes();
    assert!(e.is(&b), "selector and fields");
    match K::try_from_bytes(&e.bytes[..e.len]) {
        Ok(k) => {
            assert!(k == key, "the same key");
            std::mem::forget(k);
        }
        Err(_) => panic!("the bytes of a key are understood"),
    }
    nd::reach!(true, "reached");
    std::mem::forget((key, b));
}
/// The second half alone, for keys too long to be encoded as well.
fn read<K: OverlayContentKey>((key, e): (K, Expect)) {
    match K::try_from_bytes(&e.bytes[..e.len]) {
        Ok(k) => {
            assert!(k == key, "the same key");
            std::mem::forget(k);
        }
        Err(_) => panic!("the bytes of a key are understood"),
    }
    nd::reach!(true, "reached");
    std::mem::forget(key);
}
/// Bytes that are not those of a key are refused; those that are give a key with these bytes.
fn any<K: OverlayContentKey, const N: usize>(selector: u8, ok: bool) {
    let mut b: [u8; N] = nd::arr();
    if N > 0 {
        b[0] = selector;
    }
    match K::try_from_bytes(&b[..]) {
        Ok(k) => {
            assert!(ok, "malformed bytes are refused");
            let e = k.to_bytes();
            assert!(e.len() == N, "all bytes count");
            let mut i = 0;
            while i < N {
                assert!(e[i] == b[i], "all bytes count");
                i += 1;
            }
            std::mem::forget((k, e));
        }
        Err(e) => {
            assert!(!ok, "the bytes of a key are understood");
            std::mem::forget(e);
        }
    }
    nd::reach!(true, "reached");
}
/// No other selector is known.
fn unknown<K: OverlayContentKey, const N: usize>(first: u8, last: u8) {
    let b: [u8; N] = nd::arr();
    nd::assume(b[0] < first || b[0] > last);
    match K::try_from_bytes(&b[..]) {
        Ok(_) => panic!("unknown kinds are refused"),
        Err(e) => std::mem::forget(e),
    }
    nd::reach!(true, "reached");
}
type H = HistoryContentKey;
type L = LegacyHistoryContentKey;
type B = BeaconContentKey;
type S = StateContentKey;

nd::harnesses! { roomy
    [40] fn history_0() { survives(history(0)) }
    [40] fn history_1() { survives(history(1)) }
    [40] fn legacy_0() { survives(legacy(0)) }
    [40] fn legacy_1() { survives(legacy(1)) }
    [40] fn legacy_2() { survives(legacy(2)) }
    [40] fn legacy_3() { survives(legacy(3)) }
    [40] fn legacy_4() { survives(legacy(4)) }
    [40] fn legacy_5() { survives(legacy(5)) }
    [40] fn beacon_10() { survives(beacon(0x10)) }
    [40] fn beacon_11() { survives(beacon(0x11)) }
    [40] fn beacon_12() { survives(beacon(0x12)) }
    [40] fn beacon_13() { survives(beacon(0x13)) }
    [40] fn beacon_14() { survives(beacon(0x14)) }
    [105] fn state_20_even() { survives(state::<4>(0x20)) }
    [105] fn state_20_odd() { survives(state::<3>(0x20)) }
    [105] fn state_20_none() { survives(state::<0>(0x20)) }
    [105] fn state_21_even() { read(state::<2>(0x21)) }
    [105] fn state_21_odd() { read(state::<3>(0x21)) }
    [105] fn state_22() { survives(state::<0>(0x22)) }

    [12] fn no_bytes() { any::<H, 0>(0, false); any::<L, 0>(0, false); any::<B, 0>(0, false); any::<S, 0>(0, false) }
    [12] fn history_short() { any::<H, 8>(0, false); any::<H, 8>(1, false); any::<H, 1>(0, false) }
    [12] fn history_long() { any::<H, 10>(0, false); any::<H, 10>(1, false) }
    [12] fn history_any() { any::<H, 9>(0, true); any::<H, 9>(1, true) }
    [40] fn legacy_short() { any::<L, 32>(0, false); any::<L, 32>(1, false); any::<L, 32>(2, false); any::<L, 32>(5, false); any::<L, 33>(4, false); any::<L, 8>(3, false) }
    [40] fn legacy_long() { any::<L, 34>(0, false); any::<L, 34>(1, false); any::<L, 34>(2, false); any::<L, 34>(5, false); any::<L, 35>(4, false); any::<L, 10>(3, false) }
    [40] fn legacy_any_34() { any::<L, 34>(4, true); any::<L, 9>(3, true) }
    [40] fn beacon_short() { any::<B, 32>(0x10, false); any::<B, 16>(0x11, false); any::<B, 8>(0x12, false); any::<B, 8>(0x13, false); any::<B, 8>(0x14, false) }
    [40] fn beacon_long() { any::<B, 34>(0x10, false); any::<B, 18>(0x11, false); any::<B, 10>(0x12, false); any::<B, 10>(0x13, false); any::<B, 10>(0x14, false) }
    [70] fn state_short() { any::<S, 64>(0x22, false); any::<S, 36>(0x20, false); any::<S, 68>(0x21, false) }
    [70] fn state_long() { any::<S, 66>(0x22, false) }
    [40] fn history_unknown() { unknown::<H, 9>(0, 1); unknown::<H, 1>(0, 1) }
    [40] fn legacy_unknown() { unknown::<L, 33>(0, 5); unknown::<L, 1>(0, 5) }
    [40] fn beacon_unknown() { unknown::<B, 9>(0x10, 0x14); unknown::<B, 33>(0x10, 0x14) }
    [70] fn state_unknown() { unknown::<S, 1>(0x20, 0x22); unknown::<S, 9>(0x20, 0x22) }
}
