//! The types of the virtual machine that the code under test names.
pub mod context {
    pub trait ContextTr {
        type Db;
        fn db(&mut self) -> &mut Self::Db;
    }
}
pub mod database {
    pub struct State<D> {
        pub db: D,
        pub drain: fn(usize) -> u128,
    }
    pub struct DrainError;
    impl<D> State<D> {
        /// The drained balances are whatever the harness says.
        pub fn drain_balances<A, I: IntoIterator<Item = A>>(&mut self, accounts: I) -> Result<Vec<u128>, std::fmt::Error> {
            let n = accounts.into_iter().size_hint().0;
            let mut v = Vec::with_capacity(2);
            v.push((self.drain)(n));
            Ok(v)
        }
    }
}
pub mod handler {
    pub struct MainnetContext<S>(pub S);
}
pub struct MainnetEvm<C, I = ()>(pub C, pub I);
impl<D> context::ContextTr for MainnetEvm<handler::MainnetContext<database::State<D>>, ()> {
    type Db = database::State<D>;
    fn db(&mut self) -> &mut Self::Db {
        &mut self.0 .0
    }
}
