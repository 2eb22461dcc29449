//! Stand-in for `quickcheck`: every generated value is a symbolic choice.
pub struct Gen;
pub trait Arbitrary: Clone + 'static {
    fn arbitrary(g: &mut Gen) -> Self;
}
impl Arbitrary for u8 {
    fn arbitrary(_: &mut Gen) -> u8 {
        nd::u8()
    }
}
