ID="B32a"; PROPERTY="C32"
NEEDS="a name that merely starts with a fork name"
BREAKS="names that only begin with a known fork name are taken for that fork"
EDITS=[("crates/ethportal-api/src/types/consensus/fork.rs",'"electra" => ForkName::Electra,\n            _ => return','name if name.starts_with("electra") => ForkName::Electra,\n            _ => return')]
DEMO='''use ethportal_api::types::consensus::fork::ForkName;
use std::str::FromStr;
fn main() { assert!(ForkName::from_str("electra2").is_err()); assert!(ForkName::from_str("ELECTRA").is_ok()); }
'''
