//! C33: client names.
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
#[path = "/repo/crates/ethportal-api/src/types/client_type.rs"]
pub mod client_type;

use client_type::ClientType;

const NAMES: [&str; 6] = ["fluffy", "trin", "trin-execution", "shisui", "ultralight", "samba"];
const SHOWN: [&str; 6] = ["Fluffy", "Trin", "TrinExecution", "Shisui", "Ultralight", "Samba"];

fn index(c: &ClientType) -> usize {
    match c {
        ClientType::Fluffy => 0,
        ClientType::Trin => 1,
        ClientType::TrinExecution => 2,
        ClientType::Shisui => 3,
        ClientType::Ultralight => 4,
        ClientType::Samba => 5,
        ClientType::Unknown(_) => 6,
    }
}
fn same_ignoring_case(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut i = 0;
    while i < a.len() {
        if a[i].to_ascii_lowercase() != b[i] {
            return false;
        }
        i += 1;
    }
    true
}
fn ascii(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        if b[i] >= 128 {
            return false;
        }
        i += 1;
    }
    true
}
fn recognise(text: &str) -> usize {
    let got = ClientType::from(text);
    let b = text.as_bytes();
    let k = index(&got);
    let mut i = 0;
    while i < 6 {
        assert!(same_ignoring_case(b, NAMES[i].as_bytes()) == (k == i), "recognised exactly in any letter case");
        i += 1;
    }
    match &got {
        ClientType::Unknown(Some(s)) => {
            if ascii(b) {
                assert!(same_ignoring_case(b, s.as_bytes()), "an unknown name is kept in lower case");
            }
        }
        ClientType::Unknown(None) => panic!("an unknown name is kept"),
        _ => {}
    }
    std::mem::forget(got);
    k
}
macro_rules! any_text {
    ($n:literal) => {{
        let b: [u8; $n] = nd::arr();
        nd::assume(nd::stubs::valid_utf8(&b));
        let k = recognise(unsafe { std::str::from_utf8_unchecked(&b) });
        nd::reach!(k == 6, "unknown name");
    }};
}
/// A known name with one character replaced by any ASCII character and letters in any case.
macro_rules! near {
    ($i:literal, $n:literal) => {{
        let mut b = [0u8; $n];
        let name = NAMES[$i].as_bytes();
        let at = nd::usize();
        let c = nd::u8();
        let upper = nd::u32();
        nd::assume(c < 128);
        let mut i = 0;
        while i < $n {
            b[i] = if i == at { c } else if upper >> i & 1 == 1 { name[i].to_ascii_uppercase() } else { name[i] };
            i += 1;
        }
        let k = recognise(unsafe { std::str::from_utf8_unchecked(&b) });
        nd::reach!(k == $i && upper == !0, "recognised in upper case");
        nd::reach!(k == 6, "unknown name");
    }};
}

fn shown(c: ClientType, k: usize) {
    assert!(c.to_string().as_bytes() == SHOWN[k].as_bytes(), "a known client prints as its name");
    nd::reach!(true, "reached");
}

/// A known name with one extra ASCII character in front or behind.
macro_rules! longer {
    ($i:literal, $n:literal) => {{
        let mut b = [0u8; $n];
        let name = NAMES[$i].as_bytes();
        let front = nd::bool();
        let c = nd::u8();
        nd::assume(c < 128);
        let mut i = 0;
        while i < $n {
            b[i] = if front {
                if i == 0 { c } else { name[i - 1] }
            } else if i == $n - 1 { c } else { name[i] };
            i += 1;
        }
        let k = recognise(unsafe { std::str::from_utf8_unchecked(&b) });
        nd::reach!(k != $i, "not recognised");
    }};
}

nd::harnesses! {
    [12] fn longer_fluffy() { longer!(0, 7) }
    [12] fn longer_trin() { longer!(1, 5) }
    [18] fn longer_trin_execution() { longer!(2, 15) }
    [12] fn longer_shisui() { longer!(3, 7) }
    [14] fn longer_ultralight() { longer!(4, 11) }
    [12] fn longer_samba() { longer!(5, 6) }
    [9] fn text_0() { any_text!(0) }
    [9] fn text_1() { any_text!(1) }
    [9] fn text_3() { any_text!(3) }
    [9] fn text_4() { any_text!(4) }
    [9] fn text_5() { any_text!(5) }
    [9] fn text_6() { any_text!(6) }
    [12] fn near_fluffy() { near!(0, 6) }
    [12] fn near_trin() { near!(1, 4) }
    [18] fn near_trin_execution() { near!(2, 14) }
    [12] fn near_shisui() { near!(3, 6) }
    [14] fn near_ultralight() { near!(4, 10) }
    [12] fn near_samba() { near!(5, 5) }
    [20] fn shown_fluffy() { shown(ClientType::Fluffy, 0) }
    [20] fn shown_trin() { shown(ClientType::Trin, 1) }
    [20] fn shown_trinexecution() { shown(ClientType::TrinExecution, 2) }
    [20] fn shown_shisui() { shown(ClientType::Shisui, 3) }
    [20] fn shown_ultralight() { shown(ClientType::Ultralight, 4) }
    [20] fn shown_samba() { shown(ClientType::Samba, 5) }
    [20] fn shown_nameless() {
        assert!(ClientType::Unknown(None).to_string().as_bytes() == b"Unknown", "an unknown client without a name");
        nd::reach!(true, "reached");
    }
    [20] fn shown_unknown() {
        let b: [u8; 3] = nd::arr();
        nd::assume(ascii(&b));
        let s = ClientType::Unknown(Some(unsafe { String::from_utf8_unchecked(b.to_vec()) })).to_string();
        let t = s.as_bytes();
        assert!(t.len() == 12 && t[..8] == *b"Unknown(" && t[8..11] == b && t[11] == b')', "an unknown client shows its name");
        nd::reach!(b[0] == b'{', "any character");
    }
}
