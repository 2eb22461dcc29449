ID="B31a"; PROPERTY="C31"
NEEDS="looking at the tail of many generated ids with few leading zeros"
BREAKS="the last byte of an id is zero whenever fewer than eight leading zero bits are asked for, so most ids can never be produced"
EDITS=[("crates/ethportal-api/src/utils/bytes.rs",'rng().fill_bytes(&mut bytes[first_zero_bytes..]);','rng().fill_bytes(&mut bytes[first_zero_bytes..32.min(first_zero_bytes + 31)]);')]
DEMO='''use ethportal_api::utils::bytes::random_32byte_array;
fn main() { assert!((0..2000).any(|_| random_32byte_array(3)[31] != 0)); }
'''
