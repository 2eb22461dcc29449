//! C28: bridge mode argument.
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
#[path = "/repo/bin/portal-bridge/src/types/mode.rs"]
pub mod mode;

use mode::{BridgeMode, ModeType};
use std::str::FromStr;

#[derive(PartialEq, Clone, Copy)]
enum Num {
    Value(u64),
    Bad,
    /// An explicit plus sign: either reading is fine.
    Plus,
}
/// The number written in decimal in `b[from..to]`.
fn number(b: &[u8], from: usize, to: usize) -> Num {
    if from >= to {
        return Num::Bad;
    }
    let mut v: u64 = 0;
    let mut over = false;
    let mut bad = false;
    let mut i = from;
    let mut plus = false;
    while i < to {
        let c = b[i];
        if i == from && c == b'+' && to > from + 1 {
            plus = true;
        } else if c < b'0' || c > b'9' {
            bad = true;
        } else {
            match v.checked_mul(10) {
                Some(x) => match x.checked_add((c - b'0') as u64) {
                    Some(y) => v = y,
                    None => over = true,
                },
                None => over = true,
            }
        }
        i += 1;
    }
    if bad || over {
        Num::Bad
    } else if plus {
        Num::Plus
    } else {
        Num::Value(v)
    }
}
#[derive(PartialEq, Clone, Copy)]
enum Want {
    Mode(u64, u64),
    Refuse,
    Either,
}
/// What a range text stands for.
fn range(b: &[u8]) -> Want {
    if b.len() == 0 || b[0] != b'r' {
        return Want::Refuse;
    }
    let mut dash = 0;
    let mut dashes = 0;
    let mut i = 1;
    while i < b.len() {
        if b[i] == b'-' {
            dashes += 1;
            dash = i;
        }
        i += 1;
    }
    if dashes != 1 {
        return Want::Refuse;
    }
    match (number(b, 1, dash), number(b, dash + 1, b.len())) {
        (Num::Value(x), Num::Value(y)) => if x <= y { Want::Mode(x, y) } else { Want::Refuse },
        (Num::Bad, _) | (_, Num::Bad) => Want::Refuse,
        _ => Want::Either,
    }
}
fn check_range(text: &str, b: &[u8]) -> bool {
    let got = BridgeMode::from_str(text);
    match range(b) {
        Want::Mode(x, y) => {
            assert!(matches!(&got, Ok(BridgeMode::Single(ModeType::BlockRange(a, c))) if *a == x && *c == y), "the range that the text names");
        }
        Want::Refuse => assert!(got.is_err(), "a malformed range is refused"),
        Want::Either => {}
    }
    let ok = got.is_ok();
    std::mem::forget(got);
    ok
}
/// Byte-wise copy that keeps fixed characters fixed for the solver.
fn put<const N: usize, const M: usize>(t: &mut [u8; N], at: usize, s: &[u8; M]) {
    let mut i = 0;
    while i < M {
        t[at + i] = s[i];
        i += 1;
    }
}
macro_rules! ranges {
    ($n:literal) => {{
        let b: [u8; $n] = nd::arr();
        nd::assume(nd::stubs::valid_utf8(&b));
        let mut t = [0u8; 7 + $n];
        put(&mut t, 0, b"single:");
        put(&mut t, 7, &b);
        let ok = check_range(unsafe { std::str::from_utf8_unchecked(&t) }, &b);
        nd::reach!(ok || $n < 4, "accepted");
        nd::reach!(!ok, "refused");
    }};
}
macro_rules! snapshots {
    ($n:literal) => {{
        let b: [u8; $n] = nd::arr();
        nd::assume(nd::stubs::valid_utf8(&b));
        let mut t = [0u8; 9 + $n];
        put(&mut t, 0, b"snapshot:");
        put(&mut t, 9, &b);
        let got = BridgeMode::from_str(unsafe { std::str::from_utf8_unchecked(&t) });
        match number(&b, 0, $n) {
            Num::Value(v) => assert!(matches!(&got, Ok(BridgeMode::Snapshot(x)) if *x == v), "the snapshot that the text names"),
            Num::Bad => assert!(got.is_err(), "a malformed snapshot number is refused"),
            Num::Plus => {}
        }
        nd::reach!(got.is_ok() || $n == 0, "accepted");
        nd::reach!(got.is_err(), "refused");
        std::mem::forget(got);
    }};
}
/// Which of the mode words the text is.
fn word(b: &[u8]) -> u8 {
    if b == b"latest" {
        1
    } else if b == b"e2hs" {
        2
    } else if b == b"ephemeral-history" {
        3
    } else {
        0
    }
}
fn check_word(b: &[u8]) -> u8 {
    let got = BridgeMode::from_str(unsafe { std::str::from_utf8_unchecked(b) });
    let w = word(b);
    match &got {
        Ok(BridgeMode::Latest) => assert!(w == 1, "only the word latest"),
        Ok(BridgeMode::E2HS) => assert!(w == 2, "only the word e2hs"),
        Ok(BridgeMode::EphemeralHistory) => assert!(w == 3, "only the word ephemeral-history"),
        Ok(_) => panic!("not a range or a snapshot"),
        Err(_) => assert!(w == 0, "a mode word is recognised"),
    }
    std::mem::forget(got);
    w
}
macro_rules! words {
    ($n:literal) => {{
        let b: [u8; $n] = nd::arr();
        nd::assume(nd::stubs::valid_utf8(&b));
        let w = check_word(&b);
        nd::reach!(w == 0, "refused");
    }};
}
macro_rules! near {
    ($w:literal, $n:literal) => {{
        let mut b = [0u8; $n];
        let at = nd::usize();
        let c = nd::u8();
        nd::assume(c < 128);
        let mut i = 0;
        while i < $n {
            b[i] = if i == at { c } else { $w[i] };
            i += 1;
        }
        let w = check_word(&b);
        nd::reach!(w != 0, "recognised");
        nd::reach!(w == 0, "refused");
    }};
}
/// Any text of the form `<prefix><one character><rest>` with a prefix that names no mode.
macro_rules! prefixed {
    ($w:literal, $n:literal) => {{
        let mut b = [0u8; $n];
        let at = nd::usize();
        let c = nd::u8();
        nd::assume(c < 128 && at < $n);
        let mut i = 0;
        let mut changed = false;
        while i < $n {
            b[i] = $w[i];
            if i == at {
                changed = b[i] != c;
                b[i] = c;
            }
            i += 1;
        }
        nd::assume(changed);
        let got = BridgeMode::from_str(unsafe { std::str::from_utf8_unchecked(&b) });
        assert!(got.is_err(), "an unknown mode is refused");
        nd::reach!(true, "reached");
        std::mem::forget(got);
    }};
}
/// `<number>` around the largest representable one, with `k` symbolic last digits.
fn big<const N: usize>() -> ([u8; N], Num) {
    let head = b"18446744073709551615";
    let mut d = [b'0'; N];
    let mut i = 0;
    while i < N {
        d[i] = if i < 18 { head[i] } else { b'0' + nd::below(10) };
        i += 1;
    }
    let n = number(&d, 0, N);
    (d, n)
}

nd::harnesses! {
    [12] fn words_0() { words!(0) }
    [12] fn words_1() { words!(1) }
    [12] fn words_3() { words!(3) }
    [12] fn words_4() { words!(4) }
    [12] fn words_6() { words!(6) }
    [12] fn near_latest() { near!(b"latest", 6) }
    [12] fn near_e2hs() { near!(b"e2hs", 4) }
    [20] fn near_ephemeral() { near!(b"ephemeral-history", 17) }
    [14] fn other_prefix_single() { prefixed!(b"single:", 7) }
    [14] fn other_prefix_snapshot() { prefixed!(b"snapshot:", 9) }
    [12] fn range_0() { ranges!(0) }
    [12] fn range_1() { ranges!(1) }
    [12] fn range_2() { ranges!(2) }
    [12] fn range_3() { ranges!(3) }
    [13] fn range_4() { ranges!(4) }
    [14] fn range_5() { ranges!(5) }
    [14] fn range_6() { ranges!(6) }
    [12] fn snapshot_0() { snapshots!(0) }
    [12] fn snapshot_1() { snapshots!(1) }
    [12] fn snapshot_2() { snapshots!(2) }
    [13] fn snapshot_3() { snapshots!(3) }
    [40] fn snapshot_big() {
        let (d, n) = big::<20>();
        let mut t = [0u8; 29];
        put(&mut t, 0, b"snapshot:");
        put(&mut t, 9, &d);
        let got = BridgeMode::from_str(unsafe { std::str::from_utf8_unchecked(&t) });
        match n {
            Num::Value(v) => assert!(matches!(&got, Ok(BridgeMode::Snapshot(x)) if *x == v), "the snapshot that the text names"),
            _ => assert!(got.is_err(), "a number too large is refused"),
        }
        nd::reach!(got.is_ok(), "accepted");
        nd::reach!(got.is_err(), "refused");
        std::mem::forget(got);
    }
    [40] fn range_big_end() {
        let (d, n) = big::<20>();
        let mut t = [0u8; 30];
        put(&mut t, 0, b"single:r7-");
        put(&mut t, 10, &d);
        let ok = check_range(unsafe { std::str::from_utf8_unchecked(&t) }, &t[7..]);
        nd::reach!(ok, "accepted");
        nd::reach!(!ok, "refused");
        let _ = n;
    }
    [40] fn range_big_start() {
        let (d, n) = big::<20>();
        let mut t = [0u8; 30];
        put(&mut t, 0, b"single:r");
        put(&mut t, 8, &d);
        put(&mut t, 28, b"-9");
        let ok = check_range(unsafe { std::str::from_utf8_unchecked(&t) }, &t[7..]);
        nd::reach!(!ok, "refused");
        let _ = n;
    }
}
