ID="B30a"; PROPERTY="C30"
NEEDS="a text whose prefix ends in x but does not start with 0"
BREAKS="text such as 1xb00f or Xxb00f is decoded instead of refused"
EDITS=[("crates/ethportal-api/src/utils/bytes.rs",'if first_two.to_lowercase() != "0x" {','if !first_two.to_lowercase().ends_with(\'x\') {')]
DEMO='''use ethportal_api::utils::bytes::hex_decode;
fn main() { assert!(hex_decode("1xb00f").is_err()); assert!(hex_decode("0Xb00f").is_ok()); }
'''
