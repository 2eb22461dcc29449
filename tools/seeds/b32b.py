ID="B32b"; PROPERTY="C32"
NEEDS="a digest that differs from a known one in its last byte only"
BREAKS="an unknown digest is taken for Deneb"
EDITS=[("crates/ethportal-api/src/types/consensus/fork.rs",'[0x6a, 0x95, 0xa1, 0xa9] => Ok(ForkName::Deneb)','[0x6a, 0x95, 0xa1, 0xa9 | 0xaa] => Ok(ForkName::Deneb)')]
DEMO='''use ethportal_api::types::consensus::fork::ForkName;
fn main() { assert!(ForkName::try_from([0x6a, 0x95, 0xa1, 0xaa]).is_err()); assert!(ForkName::try_from([0x6a, 0x95, 0xa1, 0xa9]).is_ok()); }
'''
