//! Connection pool without connections.
use std::marker::PhantomData;
pub trait ManageConnection {}
pub struct Pool<M>(PhantomData<M>);
impl<M> Pool<M> {
    pub fn new(_: M) -> Result<Self, Error> {
        Ok(Pool(PhantomData))
    }
}
impl<M> Clone for Pool<M> {
    fn clone(&self) -> Self {
        Pool(PhantomData)
    }
}
impl<M> std::fmt::Debug for Pool<M> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Pool")
    }
}
pub struct Error;
impl std::fmt::Debug for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("E")
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("E")
    }
}
impl std::error::Error for Error {}
