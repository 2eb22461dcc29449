ID="B36a"; PROPERTY="C36"
NEEDS="parameters given as an empty array"
BREAKS="an empty parameter array turns into null"
EDITS=[("crates/ethportal-api/src/types/jsonrpc/params.rs","Params::Array(vec) => Value::Array(vec),","Params::Array(vec) if vec.is_empty() => Value::Null,\n            Params::Array(vec) => Value::Array(vec),")]
DEMO='''use ethportal_api::types::jsonrpc::params::Params;
use serde_json::Value;
fn main() { assert_eq!(Value::from(Params::Array(vec![])), Value::Array(vec![])); }
'''
