//! C16: ping extension payloads.
extern crate vstd as std;
#[macro_use]
#[path = "../../../shims/vfmt/fast.rs"]
mod fmt_override;
pub mod utils {
    /// Hex text goes into error messages only, which no check looks at; see C30 for the functions.
    pub mod bytes {
        pub fn hex_encode<T: AsRef<[u8]>>(_: T) -> String {
            String::new()
        }
    }
}
pub mod version {
    pub const APP_NAME: &str = "t";
    pub const TRIN_VERSION: &str = "v1";
    pub const TRIN_SHORT_COMMIT: &str = "c0";
    pub const BUILD_ARCHITECTURE: &str = "a";
    pub const BUILD_OPERATING_SYSTEM: &str = "o";
    pub const PROGRAMMING_LANGUAGE_VERSION: &str = "1";
}
pub mod types {
    #[path = "/repo/crates/ethportal-api/src/types/client_type.rs"]
    pub mod client_type;
    #[path = "/repo/crates/ethportal-api/src/types/distance.rs"]
    pub mod distance;
    #[path = "/repo/crates/ethportal-api/src/types/ping_extensions/mod.rs"]
    pub mod ping_extensions;
    /// The payload of a ping as far as extensions see it.
    pub mod portal_wire {
        use ssz_types::{typenum::U2048, VariableList};
        #[derive(Clone)]
        pub struct CustomPayload {
            pub payload: VariableList<u8, U2048>,
        }
        impl From<Vec<u8>> for CustomPayload {
            fn from(b: Vec<u8>) -> Self {
                CustomPayload { payload: VariableList::from(b) }
            }
        }
    }
}

use alloy::primitives::U256;
use types::{
    distance::Distance,
    ping_extensions::{
        decode::PingExtension,
        extension_types::PingExtensionType,
        extensions::{
            type_0::{ClientInfo, ClientInfoRadiusCapabilities},
            type_1::BasicRadius,
            type_2::HistoryRadius,
            type_65535::{ErrorCodes, PingError},
        },
    },
    portal_wire::CustomPayload,
};
use PingExtensionType::*;

fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    let mut i = 0;
    while i < a.len() {
        r &= a[i] == b[i];
        i += 1;
    }
    r
}
fn vec(b: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(b.len());
    let mut i = 0;
    while i < b.len() {
        v.push(b[i]);
        i += 1;
    }
    v
}
fn radius(b: &[u8; 32]) -> Distance {
    Distance::from(U256::from_le_bytes(*b))
}
fn decode(t: PingExtensionType, b: &[u8]) -> Option<PingExtension> {
    match PingExtension::decode_ssz(t, CustomPayload::from(vec(b))) {
        Ok(p) => Some(p),
        Err(e) => {
            std::mem::forget(e);
            None
        }
    }
}
/// Every number is a type and comes back from it.
fn numbers() {
    let n = nd::u16();
    let t = PingExtensionType::from(n);
    assert!(u16::from(t) == n, "the number of a type");
    let want = match n {
        0 => Capabilities,
        1 => BasicRadius,
        2 => HistoryRadius,
        65535 => Error,
        n => NonSupportedExtension(n),
    };
    assert!(t == want, "the type of a number");
    let e = ssz::Encode::as_ssz_bytes(&t);
    assert!(same(&e, &n.to_le_bytes()), "encoded as its number");
    match <PingExtensionType as ssz::Decode>::from_ssz_bytes(&e) {
        Ok(u) => assert!(u == t, "the type comes back"),
        Err(_) => panic!("the type comes back"),
    }
    nd::reach!(n == 65535, "the last one");
}
fn not_supported<const N: usize>() {
    let n = nd::u16();
    nd::assume(n > 2 && n < 65535);
    let b: [u8; N] = nd::arr();
    let got = decode(PingExtensionType::from(n), &b);
    assert!(got.is_none(), "payloads of unknown types are refused");
    nd::reach!(true, "reached");
}
/// Payloads of fixed length.
fn basic<const N: usize>() {
    let b: [u8; N] = nd::arr();
    match decode(BasicRadius, &b) {
        Some(p) => {
            assert!(N == 32, "a payload of a wrong length is refused");
            assert!(p.ping_extension_type() == BasicRadius, "of the type asked for");
            match &p {
                PingExtension::BasicRadius(r) => {
                    assert!(r.data_radius.big_endian()[31] == b[0] && r.data_radius.big_endian()[0] == b[N - 1], "the radius");
                }
                _ => panic!("of the type asked for"),
            }
            let e = CustomPayload::from(p);
            assert!(same(&e.payload, &b), "nothing is lost");
            std::mem::forget(e);
        }
        None => assert!(N != 32, "a payload of the right length is understood"),
    }
    nd::reach!(true, "reached");
}
fn history<const N: usize>() {
    let b: [u8; N] = nd::arr();
    match decode(HistoryRadius, &b) {
        Some(p) => {
            assert!(N == 34, "a payload of a wrong length is refused");
            match &p {
                PingExtension::HistoryRadius(r) => {
                    assert!(r.ephemeral_header_count == u16::from_le_bytes([b[N - 2], b[N - 1]]), "the count");
                    assert!(r.data_radius.big_endian()[31] == b[0], "the radius");
                }
                _ => panic!("of the type asked for"),
            }
            assert!(p.ping_extension_type() == HistoryRadius, "of the type asked for");
            let e = CustomPayload::from(p);
            assert!(same(&e.payload, &b), "nothing is lost");
            std::mem::forget(e);
        }
        None => assert!(N != 34, "a payload of the right length is understood"),
    }
    nd::reach!(true, "reached");
}
/// Radii that are sent.
fn sent() {
    let (r, n): ([u8; 32], u16) = (nd::arr(), nd::u16());
    let e = CustomPayload::from(BasicRadius::new(radius(&r)));
    assert!(same(&e.payload, &r), "little-endian radius");
    let f = CustomPayload::from(HistoryRadius::new(radius(&r), n));
    assert!(f.payload.len() == 34 && same(&f.payload[..32], &r) && same(&f.payload[32..], &n.to_le_bytes()), "radius and count");
    nd::reach!(true, "reached");
    std::mem::forget((e, f));
}
/// Errors with a message of `M` bytes; `offset` as a peer may send it.
fn error<const N: usize>(offset: u8) {
    let mut b: [u8; N] = nd::arr();
    let mut i = 2;
    while i < 6 && i < N {
        b[i] = if i == 2 { offset } else { 0 };
        i += 1;
    }
    let ok = N >= 6 && offset == 6;
    match decode(Error, &b) {
        Some(p) => {
            assert!(ok, "malformed errors are refused");
            match &p {
                PingExtension::Error(e) => {
                    assert!(e.error_code == u16::from_le_bytes([b[0], b[1]]), "the code");
                    assert!(same(&e.message, &b[6..]), "the message");
                }
                _ => panic!("of the type asked for"),
            }
            let e = CustomPayload::from(p);
            assert!(same(&e.payload, &b), "nothing is lost");
            std::mem::forget(e);
        }
        None => assert!(!ok, "well-formed errors are understood"),
    }
    nd::reach!(true, "reached");
}
fn error_sent() {
    let m: [u8; 3] = nd::arr();
    anyhow::expect_ok();
    let (code, number) = match nd::below(4) {
        0 => (ErrorCodes::ExtensionNotSupported, 0),
        1 => (ErrorCodes::RequestedDataNotFound, 1),
        2 => (ErrorCodes::FailedToDecodePayload, 2),
        _ => (ErrorCodes::SystemError, 3),
    };
    let e = match PingError::new_with_message(code, vec(&m)) {
        Ok(e) => e,
        Err(_) => panic!("a short message fits"),
    };
    let p = CustomPayload::from(e);
    assert!(same(&p.payload, &[number, 0, 6, 0, 0, 0, m[0], m[1], m[2]]), "code, offset and message");
    nd::reach!(true, "reached");
    std::mem::forget(p);
}
const TEXT: &[u8] = b"ab/v1-c/os-x/r1";
/// Capabilities with this client text and `C` types.
fn payload<const T: usize, const C: usize, const N: usize>(text: &[u8; T], types: &[u16; C], r: &[u8; 32]) -> [u8; N] {
    assert!(N == 40 + T + 2 * C);
    let mut b = [0u8; N];
    b[0] = 40;
    b[36] = 40 + T as u8;
    let mut i = 0;
    while i < 32 {
        b[4 + i] = r[i];
        i += 1;
    }
    let mut i = 0;
    while i < T {
        b[40 + i] = text[i];
        i += 1;
    }
    let mut i = 0;
    while i < C {
        b[40 + T + 2 * i] = types[i] as u8;
        b[41 + T + 2 * i] = (types[i] >> 8) as u8;
        i += 1;
    }
    b
}
/// Without client information.
fn capabilities<const C: usize, const N: usize>() {
    let r: [u8; 32] = nd::arr();
    let mut types = [0u16; C];
    let mut i = 0;
    while i < C {
        types[i] = nd::u16();
        i += 1;
    }
    let b = payload::<0, C, N>(&[], &types, &r);
    let p = match decode(Capabilities, &b) {
        Some(p) => p,
        None => panic!("well-formed capabilities are understood"),
    };
    match &p {
        PingExtension::Capabilities(c) => {
            assert!(c.client_info.is_none(), "no text means no information");
            assert!(c.data_radius.big_endian()[31] == r[0] && c.data_radius.big_endian()[0] == r[31], "the radius");
            assert!(c.capabilities.len() == C, "all types");
            let mut i = 0;
            while i < C {
                assert!(u16::from(c.capabilities[i]) == types[i], "all types in order");
                i += 1;
            }
        }
        _ => panic!("of the type asked for"),
    }
    let e = CustomPayload::from(p);
    assert!(same(&e.payload, &b), "nothing is lost");
    nd::reach!(true, "reached");
    std::mem::forget(e);
}
/// With client information.
fn with_text<const C: usize, const N: usize>() {
    let r: [u8; 32] = nd::arr();
    let mut t = [0u8; 15];
    t.copy_from_slice(TEXT);
    let b = payload::<15, C, N>(&t, &[nd::u16(); C], &r);
    match decode(Capabilities, &b) {
        Some(PingExtension::Capabilities(c)) => {
            match &c.client_info {
                Some(i) => assert!(same(i.short_commit.as_bytes(), b"c") && same(i.cpu_architecture.as_bytes(), b"x"), "the information"),
                None => panic!("text is information"),
            }
            assert!(c.capabilities.len() == C && c.data_radius.big_endian()[31] == r[0], "the rest");
            std::mem::forget(c);
        }
        _ => panic!("well-formed capabilities are understood"),
    }
    nd::reach!(true, "reached");
}
/// Bytes that are no payload: too short, or a part of a type left over.
fn no_capabilities<const N: usize>(first: u8, second: u8) {
    let mut b: [u8; N] = nd::arr();
    let mut i = 0;
    while i < 4 && i < N {
        b[i] = if i == 0 { first } else { 0 };
        if 36 + i < N {
            b[36 + i] = if i == 0 { second } else { 0 };
        }
        i += 1;
    }
    let got = decode(Capabilities, &b);
    assert!(got.is_none(), "malformed capabilities are refused");
    nd::reach!(true, "reached");
}
/// The form: name/version-commit/system-architecture/language, where the version may contain dashes.
fn form(t: &[u8]) -> bool {
    let mut slashes = 0;
    let mut dashes = [0; 4];
    let mut i = 0;
    while i < t.len() {
        if t[i] == b'/' {
            slashes += 1;
        } else if t[i] == b'-' && slashes < 4 {
            dashes[slashes] += 1;
        }
        i += 1;
    }
    slashes == 3 && dashes[1] >= 1 && dashes[2] == 1
}
fn check(t: &[u8]) {
    let ok = form(t);
    let s = unsafe { std::str::from_utf8_unchecked(t) };
    match <ClientInfo as std::str::FromStr>::from_str(s) {
        Ok(i) => {
            assert!(ok, "text of another form is refused");
            let mut n = 0;
            for (part, end) in [
                (&i.client_name, b'/'),
                (&i.client_version, b'-'),
                (&i.short_commit, b'/'),
                (&i.operating_system, b'-'),
                (&i.cpu_architecture, b'/'),
                (&i.programming_language_version, 0),
            ] {
                let p = part.as_bytes();
                assert!(n + p.len() <= t.len() && same(&t[n..n + p.len()], p), "the parts");
                n += p.len();
                if end != 0 {
                    assert!(n < t.len() && t[n] == end, "the parts");
                    n += 1;
                }
            }
            assert!(n == t.len(), "the parts");
            // Dashes belong to the version.
            for b in i.short_commit.as_bytes() {
                assert!(*b != b'-', "the parts");
            }
            std::mem::forget(i);
        }
        Err(e) => {
            assert!(!ok, "text of the specified form is understood");
            std::mem::forget(e);
        }
    }
}
/// The character at a place replaced.
fn text(at: usize) {
    let mut i = 0;
    while i < 3 {
        let mut t = [0u8; TEXT.len()];
        let mut j = 0;
        while j < TEXT.len() {
            t[j] = if j == at { [b'/', b'-', b'z'][i] } else { TEXT[j] };
            j += 1;
        }
        check(&t);
        i += 1;
    }
    nd::reach!(true, "reached");
}
/// A separator more.
fn longer(at: usize) {
    let mut i = 0;
    while i < 2 {
        let mut t = [0u8; TEXT.len() + 1];
        let mut j = 0;
        while j < t.len() {
            t[j] = if j < at { TEXT[j] } else if j == at { [b'/', b'-'][i] } else { TEXT[j - 1] };
            j += 1;
        }
        check(&t);
        i += 1;
    }
    nd::reach!(true, "reached");
}
/// What is sent about a client.
fn shown() {
    let p = |b: &[u8]| String::from(unsafe { std::str::from_utf8_unchecked(b) });
    let i = ClientInfo {
        client_name: p(b"n"),
        client_version: p(b"v"),
        short_commit: p(b"c"),
        operating_system: p(b"o"),
        cpu_architecture: p(b"a"),
        programming_language_version: p(b"l"),
    };
    let t = i.to_string();
    assert!(same(t.as_bytes(), b"n/v-c/o-a/l"), "the text of a client");
    nd::reach!(true, "reached");
    std::mem::forget((i, t));
}

nd::harnesses! { roomy
    [6] fn types() { numbers() }
    [10] fn unknown_types() { not_supported::<4>() }
    [40] fn basic_32() { basic::<32>() }
    [40] fn basic_31() { basic::<31>() }
    [40] fn basic_33() { basic::<33>() }
    [40] fn history_34() { history::<34>() }
    [40] fn history_33() { history::<33>() }
    [40] fn history_35() { history::<35>() }
    [40] fn radii_sent() { sent() }
    [12] fn error_6() { error::<6>(6) }
    [12] fn error_9() { error::<9>(6) }
    [12] fn error_short() { error::<5>(6) }
    [12] fn error_offset_back() { error::<9>(5) }
    [12] fn error_offset_on() { error::<9>(7) }
    [12] fn errors_sent() { error_sent() }
    [46] fn capabilities_0() { capabilities::<0, 40>() }
    [46] fn capabilities_2() { capabilities::<2, 44>() }
    [46] fn capabilities_odd() { no_capabilities::<43>(40, 40) }
    [46] fn capabilities_short() { no_capabilities::<39>(40, 40) }
    [46] fn capabilities_none() { no_capabilities::<0>(40, 40) }
    [46] fn capabilities_inside() { no_capabilities::<42>(36, 40) }
    [46] fn capabilities_gap() { no_capabilities::<42>(41, 42) }
    [60] fn capabilities_text() { with_text::<1, 57>() }
    [20] fn text_0() { text(0) }
    [20] fn text_1() { text(1) }
    [20] fn text_2() { text(2) }
    [20] fn text_3() { text(3) }
    [20] fn text_4() { text(4) }
    [20] fn text_5() { text(5) }
    [20] fn text_6() { text(6) }
    [20] fn text_7() { text(7) }
    [20] fn text_8() { text(8) }
    [20] fn text_9() { text(9) }
    [20] fn text_10() { text(10) }
    [20] fn text_11() { text(11) }
    [20] fn text_12() { text(12) }
    [20] fn text_13() { text(13) }
    [20] fn text_14() { text(14) }
    [20] fn longer_0() { longer(0) }
    [20] fn longer_1() { longer(1) }
    [20] fn longer_3() { longer(3) }
    [20] fn longer_4() { longer(4) }
    [20] fn longer_6() { longer(6) }
    [20] fn longer_8() { longer(8) }
    [20] fn longer_9() { longer(9) }
    [20] fn longer_11() { longer(11) }
    [20] fn longer_13() { longer(13) }
    [20] fn longer_15() { longer(15) }
    [20] fn text_shown() { shown() }
}
