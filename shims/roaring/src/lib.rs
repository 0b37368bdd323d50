//! Set of u32 with RoaringBitmap's interface.
use std::collections::BTreeSet; use std::io; use std::ops::*;
#[derive(Clone, Debug, Default, PartialEq)] pub struct RoaringBitmap(BTreeSet<u32>);
impl RoaringBitmap {
    pub fn new() -> Self { Self::default() } pub fn insert(&mut self, v: u32) -> bool { self.0.insert(v) } pub fn remove(&mut self, v: u32) -> bool { self.0.remove(&v) } pub fn contains(&self, v: u32) -> bool { self.0.contains(&v) }
    pub fn is_empty(&self) -> bool { self.0.is_empty() } pub fn len(&self) -> u64 { self.0.len() as u64 } pub fn iter(&self) -> std::iter::Copied<std::collections::btree_set::Iter<'_, u32>> { self.0.iter().copied() }
    pub fn serialize_into<W: io::Write>(&self, mut w: W) -> io::Result<()> { w.write_all(&(self.0.len() as u32).to_le_bytes())?; for v in &self.0 { w.write_all(&v.to_le_bytes())?; } Ok(()) }
    pub fn serialized_size(&self) -> usize { 4 + 4 * self.0.len() }
    pub fn deserialize_from<R: io::Read>(mut r: R) -> io::Result<Self> { let mut b = [0; 4]; r.read_exact(&mut b)?; let n = u32::from_le_bytes(b); let mut s = BTreeSet::new(); for _ in 0..n { r.read_exact(&mut b)?; s.insert(u32::from_le_bytes(b)); } Ok(Self(s)) }
}
macro_rules! op { ($t:ident, $f:ident, $e:expr) => { impl $t for RoaringBitmap { type Output = Self; fn $f(self, o: Self) -> Self { ($e)(&self, &o) } } impl $t<&RoaringBitmap> for RoaringBitmap { type Output = Self; fn $f(self, o: &Self) -> Self { ($e)(&self, o) } } impl $t<&RoaringBitmap> for &RoaringBitmap { type Output = RoaringBitmap; fn $f(self, o: &RoaringBitmap) -> RoaringBitmap { ($e)(self, o) } } impl $t<RoaringBitmap> for &RoaringBitmap { type Output = RoaringBitmap; fn $f(self, o: RoaringBitmap) -> RoaringBitmap { ($e)(self, &o) } } } }
op!(BitAnd, bitand, |a: &RoaringBitmap, b: &RoaringBitmap| RoaringBitmap(a.0.intersection(&b.0).copied().collect()));
op!(BitOr, bitor, |a: &RoaringBitmap, b: &RoaringBitmap| RoaringBitmap(a.0.union(&b.0).copied().collect()));
op!(Sub, sub, |a: &RoaringBitmap, b: &RoaringBitmap| RoaringBitmap(a.0.difference(&b.0).copied().collect()));
impl IntoIterator for RoaringBitmap { type Item = u32; type IntoIter = std::collections::btree_set::IntoIter<u32>; fn into_iter(self) -> Self::IntoIter { self.0.into_iter() } }
impl FromIterator<u32> for RoaringBitmap { fn from_iter<I: IntoIterator<Item = u32>>(i: I) -> Self { Self(i.into_iter().collect()) } }
impl Extend<u32> for RoaringBitmap { fn extend<I: IntoIterator<Item = u32>>(&mut self, i: I) { self.0.extend(i) } }
