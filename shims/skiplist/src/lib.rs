//! Stand-in for skiplist: an ordered list.  As in the original, a new element goes
//! in front of the elements that compare equal to it.
use std::cmp::Ordering;
use std::fmt;

type Cmp<T> = Box<dyn Fn(&T, &T) -> Ordering + Send + Sync>;
pub struct OrderedSkipList<T> { v: Vec<T>, cmp: Cmp<T> }
pub mod skiplist { pub type Iter<'a, T> = std::slice::Iter<'a, T>; }
impl<T: PartialOrd> OrderedSkipList<T> {
    pub fn new() -> Self { OrderedSkipList { v: Vec::new(), cmp: Box::new(|a, b| a.partial_cmp(b).expect("comparable")) } }
}
impl<T: PartialOrd> Default for OrderedSkipList<T> { fn default() -> Self { Self::new() } }
impl<T> OrderedSkipList<T> {
    pub unsafe fn sort_by<F: Fn(&T, &T) -> Ordering + Send + Sync + 'static>(&mut self, f: F) { self.v.sort_by(|a, b| f(a, b)); self.cmp = Box::new(f); }
    pub fn insert(&mut self, t: T) { let i = self.v.partition_point(|x| (self.cmp)(x, &t) == Ordering::Less); self.v.insert(i, t); }
    pub fn clear(&mut self) { self.v.clear() }
    pub fn len(&self) -> usize { self.v.len() }
    pub fn is_empty(&self) -> bool { self.v.is_empty() }
    pub fn front(&self) -> Option<&T> { self.v.first() }
    pub fn back(&self) -> Option<&T> { self.v.last() }
    pub fn retain<F: FnMut(&T) -> bool>(&mut self, f: F) { self.v.retain(f) }
    pub fn iter(&self) -> std::slice::Iter<'_, T> { self.v.iter() }
}
impl<T> IntoIterator for OrderedSkipList<T> { type Item = T; type IntoIter = std::vec::IntoIter<T>; fn into_iter(self) -> Self::IntoIter { self.v.into_iter() } }
impl<'a, T> IntoIterator for &'a OrderedSkipList<T> { type Item = &'a T; type IntoIter = std::slice::Iter<'a, T>; fn into_iter(self) -> Self::IntoIter { self.v.iter() } }
impl<T: fmt::Debug> fmt::Debug for OrderedSkipList<T> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_list().entries(&self.v).finish() } }
impl<T: PartialEq> PartialEq for OrderedSkipList<T> { fn eq(&self, o: &Self) -> bool { self.v == o.v } }
impl<T: Eq> Eq for OrderedSkipList<T> {}
impl<T> std::ops::Index<usize> for OrderedSkipList<T> { type Output = T; fn index(&self, i: usize) -> &T { &self.v[i] } }
