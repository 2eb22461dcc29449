//! Nodes of a Merkle-Patricia trie, as the code under test sees them.
pub mod lock {
    //! A lock of a single thread; it can be poisoned by the harness.
    use std::cell::{Cell, UnsafeCell};
    #[derive(Debug)]
    pub struct Poisoned;
    pub struct RwLock<T> {
        poisoned: Cell<bool>,
        v: UnsafeCell<T>,
    }
    unsafe impl<T> Sync for RwLock<T> {}
    impl<T> RwLock<T> {
        pub const fn new(v: T) -> Self {
            RwLock { poisoned: Cell::new(false), v: UnsafeCell::new(v) }
        }
        pub fn poison(&self) {
            self.poisoned.set(true)
        }
        pub fn read(&self) -> Result<&T, Poisoned> {
            if self.poisoned.get() {
                return Err(Poisoned);
            }
            Ok(unsafe { &*self.v.get() })
        }
        pub fn write(&self) -> Result<&mut T, Poisoned> {
            if self.poisoned.get() {
                return Err(Poisoned);
            }
            Ok(unsafe { &mut *self.v.get() })
        }
    }
    impl<T> std::fmt::Debug for RwLock<T> {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("RwLock")
        }
    }
}
pub mod nibbles {
    /// A path; that of a leaf ends in 16.
    #[derive(Debug, Clone, PartialEq, Eq)]
    pub struct Nibbles {
        hex_data: Vec<u8>,
    }
    impl Nibbles {
        pub fn from_hex(hex: &[u8]) -> Self {
            Nibbles { hex_data: hex.to_vec() }
        }
        pub fn from_vec(hex_data: Vec<u8>) -> Self {
            Nibbles { hex_data }
        }
        pub fn is_leaf(&self) -> bool {
            match self.hex_data.last() {
                Some(l) => *l == 16,
                None => false,
            }
        }
        pub fn get_data(&self) -> &[u8] {
            &self.hex_data
        }
        pub fn len(&self) -> usize {
            self.hex_data.len()
        }
        pub fn is_empty(&self) -> bool {
            self.hex_data.is_empty()
        }
    }
}
pub mod node {
    use super::lock::RwLock;
    use super::nibbles::Nibbles;
    use alloy::primitives::B256;
    /// A shared node that is never freed.
    #[derive(Debug)]
    pub struct Arc<T: 'static>(&'static T);
    impl<T> Arc<T> {
        pub fn new(t: T) -> Self {
            Arc(Box::leak(Box::new(t)))
        }
        /// For harnesses: shares a value that lives as long as the node is used.
        pub fn of(t: &T) -> Self {
            Arc(unsafe { &*(t as *const T) })
        }
    }
    impl<T> Clone for Arc<T> {
        fn clone(&self) -> Self {
            Arc(self.0)
        }
    }
    impl<T> std::ops::Deref for Arc<T> {
        type Target = T;
        fn deref(&self) -> &T {
            self.0
        }
    }
    #[derive(Debug, Clone)]
    pub enum Node {
        Empty,
        Leaf(Arc<LeafNode>),
        Extension(Arc<RwLock<ExtensionNode>>),
        Branch(Arc<RwLock<BranchNode>>),
        Hash(Arc<HashNode>),
    }
    #[derive(Debug)]
    pub struct LeafNode {
        pub key: Nibbles,
        pub value: Vec<u8>,
    }
    #[derive(Debug)]
    pub struct BranchNode {
        pub children: [Node; 16],
        pub value: Option<Vec<u8>>,
    }
    #[derive(Debug)]
    pub struct ExtensionNode {
        pub prefix: Nibbles,
        pub node: Node,
    }
    #[derive(Debug)]
    pub struct HashNode {
        pub hash: B256,
    }
    impl Node {
        pub fn from_leaf(key: Nibbles, value: Vec<u8>) -> Self {
            Node::Leaf(Arc::new(LeafNode { key, value }))
        }
        pub fn from_branch(children: [Node; 16], value: Option<Vec<u8>>) -> Self {
            Node::Branch(Arc::new(RwLock::new(BranchNode { children, value })))
        }
        pub fn from_extension(prefix: Nibbles, node: Node) -> Self {
            Node::Extension(Arc::new(RwLock::new(ExtensionNode { prefix, node })))
        }
        pub fn from_hash(hash: B256) -> Self {
            Node::Hash(Arc::new(HashNode { hash }))
        }
    }
    pub fn empty_children() -> [Node; 16] {
        const E: Node = Node::Empty;
        [E; 16]
    }
}
#[derive(Debug)]
pub enum TrieError {
    DB(String),
    InvalidData,
    InvalidStateRoot,
    InvalidProof,
}
impl std::fmt::Display for TrieError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("E")
    }
}
impl std::error::Error for TrieError {}
