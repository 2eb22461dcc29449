ID="B33a"; PROPERTY="C33"
NEEDS="a client name that ends in a dash"
BREAKS="a name that is not one of the known names is taken for a known client"
EDITS=[("crates/ethportal-api/src/types/client_type.rs",'let value = value.to_lowercase();','let value = value.trim_end_matches(\'-\').to_lowercase();')]
DEMO='''use ethportal_api::types::client_type::ClientType;
fn main() { assert_eq!(ClientType::from("trin-"), ClientType::Unknown(Some("trin-".to_string()))); assert_eq!(ClientType::from("Trin"), ClientType::Trin); }
'''
