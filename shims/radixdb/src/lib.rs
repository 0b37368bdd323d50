//! Stand-in for radixdb, the index engine of earlier releases: an empty tree.
//! Only the upgrade path (`copy_to_engine2`) uses it; nothing is checked against it.
use std::collections::BTreeMap;
use std::io::Error;
pub mod store {
    use super::*;
    #[derive(Debug, Clone)]
    pub struct PagedFileStore;
    pub trait BlobStore { fn sync(&self) -> Result<(), Error>; }
    impl BlobStore for PagedFileStore { fn sync(&self) -> Result<(), Error> { Ok(()) } }
    impl PagedFileStore { pub fn new(_f: std::fs::File, _n: u64) -> Result<Self, Error> { Ok(PagedFileStore) } pub fn last_id(&self) -> Vec<u8> { Vec::new() } }
}
pub mod node {
    use super::*;
    use std::marker::PhantomData;
    #[derive(Debug, Clone)]
    pub struct Value<S>(pub(crate) Vec<u8>, pub(crate) PhantomData<S>);
    impl<S> Value<S> { pub fn load(&self, _s: &S) -> Result<Vec<u8>, Error> { Ok(self.0.clone()) } }
    #[derive(Debug, Clone)]
    pub struct IterKey(pub(crate) Vec<u8>);
    impl AsRef<[u8]> for IterKey { fn as_ref(&self) -> &[u8] { &self.0 } }
    impl std::ops::Deref for IterKey { type Target = [u8]; fn deref(&self) -> &[u8] { &self.0 } }
    pub struct KeyValueIter<S>(pub(crate) std::vec::IntoIter<(Vec<u8>, Vec<u8>)>, pub(crate) PhantomData<S>);
    impl<S> Iterator for KeyValueIter<S> { type Item = Result<(IterKey, Value<S>), Error>; fn next(&mut self) -> Option<Self::Item> { self.0.next().map(|(k, v)| Ok((IterKey(k), Value(v, PhantomData)))) } }
}
#[derive(Debug)]
pub struct RadixTree<S>(BTreeMap<Vec<u8>, Vec<u8>>, S);
use std::marker::PhantomData;
impl<S: Clone> RadixTree<S> {
    pub fn try_load(s: S, _id: Vec<u8>) -> Result<Self, Error> { Ok(RadixTree(BTreeMap::new(), s)) }
    pub fn try_iter(&self) -> node::KeyValueIter<S> { node::KeyValueIter(self.0.clone().into_iter().collect::<Vec<_>>().into_iter(), PhantomData) }
    pub fn try_insert(&mut self, k: &[u8], v: &[u8]) -> Result<(), Error> { self.0.insert(k.to_vec(), v.to_vec()); Ok(()) }
    pub fn try_get(&self, k: &[u8]) -> Result<Option<node::Value<S>>, Error> { Ok(self.0.get(k).map(|v| node::Value(v.clone(), PhantomData))) }
    pub fn try_remove(&mut self, k: &[u8]) -> Result<(), Error> { self.0.remove(k); Ok(()) }
    pub fn try_remove_prefix(&mut self, p: &[u8]) -> Result<(), Error> { self.0.retain(|k, _| !k.starts_with(p)); Ok(()) }
    pub fn try_contains_key(&self, k: &[u8]) -> Result<bool, Error> { Ok(self.0.contains_key(k)) }
    pub fn try_scan_prefix(&self, p: &[u8]) -> Result<node::KeyValueIter<S>, Error> { Ok(node::KeyValueIter(self.0.iter().filter(|(k, _)| k.starts_with(p)).map(|(k, v)| (k.clone(), v.clone())).collect::<Vec<_>>().into_iter(), PhantomData)) }
    pub fn try_reattach(&mut self) -> Result<(), Error> { Ok(()) }
}
