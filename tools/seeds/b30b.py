ID="B30b"; PROPERTY="C30"
NEEDS="the compact form of a value of exactly nine bytes"
BREAKS="a nine-byte value is shown in full instead of as its first and last two bytes"
EDITS=[("crates/ethportal-api/src/utils/bytes.rs",'if data.as_ref().len() <= 8 {','if data.as_ref().len() / 2 <= 4 {')]
DEMO='''use ethportal_api::utils::bytes::hex_encode_compact;
fn main() { assert_eq!(hex_encode_compact([1u8; 9]), "0x0101..0101"); assert_eq!(hex_encode_compact([1u8; 8]).len(), 18); }
'''
