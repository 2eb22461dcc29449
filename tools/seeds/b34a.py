ID="B34a"; PROPERTY="C34"
NEEDS="a shift by more than the width of the type"
BREAKS="shifting right by more than the width wraps around instead of being refused"
EDITS=[("crates/validation/src/merkle/safe_arith.rs",'self.checked_shr(other).ok_or(ArithError::Overflow)','self.checked_shr(other.min(other & 0x3f | 0x40 & other)).ok_or(ArithError::Overflow)')]
DEMO='''use trin_validation::merkle::safe_arith::SafeArith;
fn main() { assert!(5u32.safe_shr(128).is_err()); assert_eq!(5u32.safe_shr(1), Ok(2)); }
'''
