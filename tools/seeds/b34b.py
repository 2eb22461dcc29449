ID="B34b"; PROPERTY="C34"
NEEDS="adding up a sequence whose intermediate sum overflows and comes back"
BREAKS="a sum that overflows on the way is silently continued with the element alone"
EDITS=[("crates/validation/src/merkle/safe_arith.rs",'self.try_fold(T::ZERO, |acc, x| acc.safe_add(x))','self.try_fold(T::ZERO, |acc, x| acc.safe_add(x).or_else(|_| x.safe_add(acc.safe_sub(x)?)))')]
DEMO='''use trin_validation::merkle::safe_arith::SafeArithIter;
fn main() { assert!([200u8, 100].into_iter().safe_sum().is_err()); assert_eq!([2u8, 100].into_iter().safe_sum(), Ok(102)); }
'''
