//! `alloy::primitives::B256` for data structures that the model checker must follow: a value is a handle
//! into a table. Handles are concrete even where the bytes are not.
pub mod primitives {
    const CAP: usize = 64;
    /// Marked: Kani lets a static share storage with constants of the same content.
    struct State {
        _mark: u64,
        used: usize,
        table: [[u8; 32]; CAP],
    }
    static mut STATE: State = State { _mark: 0x5afe_8a4d_0000_0001, used: 1, table: [[0; 32]; CAP] };
    #[derive(Clone, Copy, Default)]
    pub struct B256(u8);
    impl B256 {
        pub const ZERO: B256 = B256(0);
        pub fn new(b: [u8; 32]) -> Self {
            unsafe {
                let n = STATE.used;
                assert!(n < CAP, "room of the model");
                STATE.table[n] = b;
                STATE.used = n + 1;
                B256(n as u8)
            }
        }
        pub fn from_slice(b: &[u8]) -> Self {
            assert!(b.len() == 32, "length of a B256");
            let mut a = [0u8; 32];
            let mut i = 0;
            while i < 32 {
                a[i] = b[i];
                i += 1;
            }
            B256::new(a)
        }
        pub fn as_slice(&self) -> &[u8] {
            unsafe { &STATE.table[self.0 as usize] }
        }
        pub fn bytes(&self) -> &[u8; 32] {
            unsafe { &STATE.table[self.0 as usize] }
        }
        pub fn is_zero(&self) -> bool {
            *self == B256::ZERO
        }
    }
    impl PartialEq for B256 {
        fn eq(&self, o: &B256) -> bool {
            let (a, b) = (self.bytes(), o.bytes());
            let mut r = true;
            let mut i = 0;
            while i < 32 {
                r &= a[i] == b[i];
                i += 1;
            }
            r
        }
    }
    impl Eq for B256 {}
    impl std::ops::Deref for B256 {
        type Target = [u8; 32];
        fn deref(&self) -> &[u8; 32] {
            self.bytes()
        }
    }
    impl AsRef<[u8]> for B256 {
        fn as_ref(&self) -> &[u8] {
            self.as_slice()
        }
    }
    impl From<[u8; 32]> for B256 {
        fn from(b: [u8; 32]) -> Self {
            B256::new(b)
        }
    }
    impl From<&[u8; 32]> for B256 {
        fn from(b: &[u8; 32]) -> Self {
            B256::new(*b)
        }
    }
    impl std::fmt::Debug for B256 {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("B256")
        }
    }
    impl std::fmt::Display for B256 {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("B256")
        }
    }
    impl ssz::Encode for B256 {
        fn is_ssz_fixed_len() -> bool {
            true
        }
        fn ssz_fixed_len() -> usize {
            32
        }
        fn ssz_bytes_len(&self) -> usize {
            32
        }
        fn ssz_append(&self, buf: &mut Vec<u8>) {
            ssz::put(buf, self.bytes())
        }
    }
    impl ssz::Decode for B256 {
        fn is_ssz_fixed_len() -> bool {
            true
        }
        fn ssz_fixed_len() -> usize {
            32
        }
        fn from_ssz_bytes(b: &[u8]) -> Result<Self, ssz::DecodeError> {
            <[u8; 32] as ssz::Decode>::from_ssz_bytes(b).map(B256::new)
        }
    }
    impl tree_hash::TreeHash for B256 {
        fn tree_hash_root(&self) -> tree_hash::Hash256 {
            tree_hash::Hash256::new(*self.bytes())
        }
    }
    impl serde::Serialize for B256 {
        fn serialize<S: serde::Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
            s.serialize_bytes(self.bytes())
        }
    }
    impl<'de> serde::Deserialize<'de> for B256 {
        fn deserialize<D: serde::Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
            <[u8; 32]>::deserialize(d).map(B256::new)
        }
    }
    pub use alloy_primitives::{Address, Bytes, U256};
}
