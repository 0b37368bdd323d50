//! Stand-in for heed (LMDB): ordered named maps, snapshot readers, one writer,
//! atomic commits kept in an append-only checksummed file.  A torn or corrupt
//! tail is ignored on open, so an interrupted commit is all or nothing, as in LMDB.
use std::borrow::Cow;
use std::collections::{BTreeMap, HashMap};
use std::fmt;
use std::io::Write;
use std::os::unix::fs::MetadataExt;
use std::marker::PhantomData;
use std::ops::{Bound, Deref, RangeBounds};
use std::path::{Path, PathBuf};
use std::sync::{Arc, Weak};

use parking_lot::{Mutex, MutexGuard, RwLock};

pub type Result<T, E = Error> = std::result::Result<T, E>;
pub type BoxedError = Box<dyn std::error::Error + Send + Sync + 'static>;

#[derive(Debug)]
pub enum MdbError { BadValSize, KeyExist, NotFound, MapFull, Invalid }
#[derive(Debug)]
pub enum Error {
    Io(std::io::Error),
    Mdb(MdbError),
    Encoding(BoxedError),
    Decoding(BoxedError),
    EnvAlreadyOpened,
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match self {
            Error::Io(e) => write!(f, "{e}"),
            Error::Mdb(e) => write!(f, "{e:?}"),
            Error::Encoding(e) => write!(f, "error while encoding: {e}"),
            Error::Decoding(e) => write!(f, "error while decoding: {e}"),
            Error::EnvAlreadyOpened => f.write_str("environment already open in this program"),
        }
    }
}
impl std::error::Error for Error {}
impl From<std::io::Error> for Error { fn from(e: std::io::Error) -> Self { Error::Io(e) } }

pub struct EnvFlags(u32);
impl EnvFlags { pub const NO_SYNC: EnvFlags = EnvFlags(1); pub const NO_META_SYNC: EnvFlags = EnvFlags(2); }

pub mod byteorder { pub struct BigEndian; pub struct LittleEndian; pub type BE = BigEndian; pub type LE = LittleEndian; }

pub trait BytesEncode<'a> { type EItem: ?Sized + 'a; fn bytes_encode(i: &'a Self::EItem) -> std::result::Result<Cow<'a, [u8]>, BoxedError>; }
pub trait BytesDecode<'a> { type DItem: 'a; fn bytes_decode(b: &'a [u8]) -> std::result::Result<Self::DItem, BoxedError>; }
pub mod types {
    use super::*;
    pub enum Str {}
    impl<'a> BytesEncode<'a> for Str { type EItem = str; fn bytes_encode(i: &'a str) -> std::result::Result<Cow<'a, [u8]>, BoxedError> { Ok(Cow::Borrowed(i.as_bytes())) } }
    impl<'a> BytesDecode<'a> for Str { type DItem = &'a str; fn bytes_decode(b: &'a [u8]) -> std::result::Result<&'a str, BoxedError> { std::str::from_utf8(b).map_err(Into::into) } }
    pub enum Bytes {}
    impl<'a> BytesEncode<'a> for Bytes { type EItem = [u8]; fn bytes_encode(i: &'a [u8]) -> std::result::Result<Cow<'a, [u8]>, BoxedError> { Ok(Cow::Borrowed(i)) } }
    impl<'a> BytesDecode<'a> for Bytes { type DItem = &'a [u8]; fn bytes_decode(b: &'a [u8]) -> std::result::Result<&'a [u8], BoxedError> { Ok(b) } }
    pub enum Unit {}
    impl<'a> BytesEncode<'a> for Unit { type EItem = (); fn bytes_encode(_: &'a ()) -> std::result::Result<Cow<'a, [u8]>, BoxedError> { Ok(Cow::Borrowed(&[])) } }
    impl<'a> BytesDecode<'a> for Unit { type DItem = (); fn bytes_decode(_: &'a [u8]) -> std::result::Result<(), BoxedError> { Ok(()) } }
    pub struct U64<O>(PhantomData<O>);
    impl<'a> BytesEncode<'a> for U64<byteorder::BigEndian> { type EItem = u64; fn bytes_encode(i: &'a u64) -> std::result::Result<Cow<'a, [u8]>, BoxedError> { Ok(Cow::Owned(i.to_be_bytes().to_vec())) } }
    impl<'a> BytesDecode<'a> for U64<byteorder::BigEndian> { type DItem = u64; fn bytes_decode(b: &'a [u8]) -> std::result::Result<u64, BoxedError> { Ok(u64::from_be_bytes(b.try_into()?)) } }
    pub struct U32<O>(PhantomData<O>);
    impl<'a> BytesEncode<'a> for U32<byteorder::BigEndian> { type EItem = u32; fn bytes_encode(i: &'a u32) -> std::result::Result<Cow<'a, [u8]>, BoxedError> { Ok(Cow::Owned(i.to_be_bytes().to_vec())) } }
    impl<'a> BytesDecode<'a> for U32<byteorder::BigEndian> { type DItem = u32; fn bytes_decode(b: &'a [u8]) -> std::result::Result<u32, BoxedError> { Ok(u32::from_be_bytes(b.try_into()?)) } }
}

type Map = BTreeMap<Vec<u8>, Vec<u8>>;
#[derive(Clone, Default)]
struct Snap { names: Vec<String>, maps: Vec<Arc<Map>> }

struct Inner { path: PathBuf, out: std::fs::File, ino: u64, snap: RwLock<Snap>, writer: Mutex<()> }
fn registry() -> &'static Mutex<HashMap<PathBuf, Weak<Inner>>> {
    static R: std::sync::OnceLock<Mutex<HashMap<PathBuf, Weak<Inner>>>> = std::sync::OnceLock::new();
    R.get_or_init(Default::default)
}

#[derive(Clone, Debug, Default)]
pub struct EnvOpenOptions;
impl EnvOpenOptions {
    pub fn new() -> Self { EnvOpenOptions }
    pub fn map_size(&mut self, _n: usize) -> &mut Self { self }
    pub fn max_dbs(&mut self, _n: u32) -> &mut Self { self }
    pub fn max_readers(&mut self, _n: u32) -> &mut Self { self }
    pub unsafe fn flags(&mut self, _f: EnvFlags) -> &mut Self { self }
    pub unsafe fn open<P: AsRef<Path>>(&self, path: P) -> Result<Env> {
        let path = path.as_ref().canonicalize()?;
        let mut reg = registry().lock();
        let file = path.join("data.mdb");
        // an environment whose file has been unlinked is no longer the one at this path
        if let Some(e) = reg.get(&path).and_then(|w| w.upgrade()) {
            if std::fs::metadata(&file).map_or(false, |m| m.ino() == e.ino) { return Err(Error::EnvAlreadyOpened); }
        }
        let mut snap = Snap::default();
        let mut good = 0usize;
        if let Ok(data) = std::fs::read(&file) {
            while data.len() - good >= 8 {
                let n = u32::from_le_bytes(data[good..good + 4].try_into().unwrap()) as usize;
                let crc = u32::from_le_bytes(data[good + 4..good + 8].try_into().unwrap());
                if data.len() - good - 8 < n || crc32fast::hash(&data[good + 8..good + 8 + n]) != crc { break; }
                replay(&mut snap, &data[good + 8..good + 8 + n]);
                good += 8 + n;
            }
            if good != data.len() { std::fs::OpenOptions::new().write(true).open(&file)?.set_len(good as u64)?; }
        } else {
            std::fs::File::create(&file)?;
        }
        let out = std::fs::OpenOptions::new().append(true).open(&file)?;
        let ino = out.metadata()?.ino();
        let inner = Arc::new(Inner { path: path.clone(), out, ino, snap: RwLock::new(snap), writer: Mutex::new(()) });
        reg.insert(path, Arc::downgrade(&inner));
        Ok(Env(inner))
    }
}

fn put_bytes(out: &mut Vec<u8>, b: &[u8]) { out.extend((b.len() as u32).to_le_bytes()); out.extend(b); }
fn take<'a>(d: &mut &'a [u8]) -> &'a [u8] { let n = u32::from_le_bytes(d[..4].try_into().unwrap()) as usize; let r = &d[4..4 + n]; *d = &d[4 + n..]; r }
fn replay(s: &mut Snap, mut d: &[u8]) {
    while !d.is_empty() {
        let op = d[0];
        d = &d[1..];
        let db = take(&mut d);
        match op {
            0 => { s.names.push(String::from_utf8(db.to_vec()).unwrap()); s.maps.push(Default::default()); }
            _ => {
                let i = u32::from_le_bytes(db.try_into().unwrap()) as usize;
                let k = take(&mut d).to_vec();
                if op == 1 { let v = take(&mut d).to_vec(); Arc::make_mut(&mut s.maps[i]).insert(k, v); } else { Arc::make_mut(&mut s.maps[i]).remove(&k); }
            }
        }
    }
}

#[derive(Clone)]
pub struct Env(Arc<Inner>);
impl fmt::Debug for Env { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.debug_struct("Env").field("path", &self.0.path).finish() } }
impl Env {
    pub fn path(&self) -> &Path { &self.0.path }
    pub fn read_txn(&self) -> Result<RoTxn<'_>> { Ok(RoTxn { snap: self.0.snap.read().clone(), env: self }) }
    pub fn write_txn(&self) -> Result<RwTxn<'_>> {
        let guard = self.0.writer.lock();
        Ok(RwTxn { ro: RoTxn { snap: self.0.snap.read().clone(), env: self }, log: Vec::new(), _guard: guard })
    }
    pub fn create_database<K, D>(&self, txn: &mut RwTxn, name: Option<&str>) -> Result<Database<K, D>> {
        let name = name.unwrap_or("");
        let idx = match txn.ro.snap.names.iter().position(|n| n == name) {
            Some(i) => i,
            None => {
                txn.log.push(0);
                put_bytes(&mut txn.log, name.as_bytes());
                txn.ro.snap.names.push(name.to_string());
                txn.ro.snap.maps.push(Default::default());
                txn.ro.snap.names.len() - 1
            }
        };
        Ok(Database { idx, p: PhantomData })
    }
    pub fn open_database<K, D>(&self, txn: &RoTxn, name: Option<&str>) -> Result<Option<Database<K, D>>> {
        let name = name.unwrap_or("");
        Ok(txn.snap.names.iter().position(|n| n == name).map(|idx| Database { idx, p: PhantomData }))
    }
    pub fn force_sync(&self) -> Result<()> { Ok(()) }
}

pub struct RoTxn<'e> { snap: Snap, env: &'e Env }
impl RoTxn<'_> { pub fn commit(self) -> Result<()> { Ok(()) } }
pub struct RwTxn<'e> { ro: RoTxn<'e>, log: Vec<u8>, _guard: MutexGuard<'e, ()> }
impl<'e> Deref for RwTxn<'e> { type Target = RoTxn<'e>; fn deref(&self) -> &RoTxn<'e> { &self.ro } }
impl RwTxn<'_> {
    pub fn commit(self) -> Result<()> {
        if self.log.is_empty() { return Ok(()); }
        let inner = &self.ro.env.0;
        let mut rec = Vec::with_capacity(self.log.len() + 8);
        rec.extend((self.log.len() as u32).to_le_bytes());
        rec.extend(crc32fast::hash(&self.log).to_le_bytes());
        rec.extend(&self.log);
        // the data file may have been unlinked while the environment is open, as with a memory map
        (&inner.out).write_all(&rec)?;
        *inner.snap.write() = self.ro.snap.clone();
        Ok(())
    }
    pub fn abort(self) {}
}

pub struct Database<K, D> { idx: usize, p: PhantomData<fn() -> (K, D)> }
impl<K, D> Clone for Database<K, D> { fn clone(&self) -> Self { *self } }
impl<K, D> Copy for Database<K, D> {}
impl<K, D> fmt::Debug for Database<K, D> { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "Database({})", self.idx) } }

fn key_of<'a, K: BytesEncode<'a>>(k: &'a K::EItem) -> Result<Cow<'a, [u8]>> {
    let b = K::bytes_encode(k).map_err(Error::Encoding)?;
    if b.is_empty() { return Err(Error::Mdb(MdbError::BadValSize)); }
    Ok(b)
}
fn dec<'t, K: BytesDecode<'t>, D: BytesDecode<'t>>(k: &'t [u8], v: &'t [u8]) -> Result<(K::DItem, D::DItem)> {
    Ok((K::bytes_decode(k).map_err(Error::Decoding)?, D::bytes_decode(v).map_err(Error::Decoding)?))
}
fn bounds<'a, K: BytesEncode<'a>, R: RangeBounds<K::EItem>>(r: &'a R) -> Result<(Bound<Vec<u8>>, Bound<Vec<u8>>)> {
    fn f<'a, K: BytesEncode<'a>>(b: Bound<&'a K::EItem>) -> Result<Bound<Vec<u8>>> {
        Ok(match b {
            Bound::Included(k) => Bound::Included(K::bytes_encode(k).map_err(Error::Encoding)?.into_owned()),
            Bound::Excluded(k) => Bound::Excluded(K::bytes_encode(k).map_err(Error::Encoding)?.into_owned()),
            Bound::Unbounded => Bound::Unbounded,
        })
    }
    Ok((f::<K>(r.start_bound())?, f::<K>(r.end_bound())?))
}
fn empty(b: &(Bound<Vec<u8>>, Bound<Vec<u8>>)) -> bool {
    match b {
        (Bound::Included(a), Bound::Included(z)) => a > z,
        (Bound::Included(a), Bound::Excluded(z)) | (Bound::Excluded(a), Bound::Included(z)) | (Bound::Excluded(a), Bound::Excluded(z)) => a >= z,
        _ => false,
    }
}

pub struct Iter<'t, K, D> { it: Box<dyn Iterator<Item = (&'t Vec<u8>, &'t Vec<u8>)> + 't>, p: PhantomData<fn() -> (K, D)> }
pub type RoIter<'t, K, D> = Iter<'t, K, D>;
pub type RoPrefix<'t, K, D> = Iter<'t, K, D>;
pub type RoRange<'t, K, D> = Iter<'t, K, D>;
impl<'t, K: BytesDecode<'t>, D: BytesDecode<'t>> Iterator for Iter<'t, K, D> {
    type Item = Result<(K::DItem, D::DItem)>;
    fn next(&mut self) -> Option<Self::Item> { self.it.next().map(|(k, v)| dec::<K, D>(k, v)) }
}

impl<K, D> Database<K, D> {
    fn map<'t>(&self, t: &'t RoTxn) -> &'t Map { &t.snap.maps[self.idx] }
    pub fn get<'a, 't>(&self, t: &'t RoTxn, k: &'a K::EItem) -> Result<Option<D::DItem>> where K: BytesEncode<'a>, D: BytesDecode<'t> {
        match self.map(t).get(key_of::<K>(k)?.as_ref()) { Some(v) => Ok(Some(D::bytes_decode(v).map_err(Error::Decoding)?)), None => Ok(None) }
    }
    pub fn put<'a>(&self, t: &mut RwTxn, k: &'a K::EItem, v: &'a D::EItem) -> Result<()> where K: BytesEncode<'a>, D: BytesEncode<'a> {
        let k = key_of::<K>(k)?;
        if k.len() > 511 { return Err(Error::Mdb(MdbError::BadValSize)); }
        let v = D::bytes_encode(v).map_err(Error::Encoding)?;
        t.log.push(1);
        put_bytes(&mut t.log, &(self.idx as u32).to_le_bytes());
        put_bytes(&mut t.log, &k);
        put_bytes(&mut t.log, &v);
        Arc::make_mut(&mut t.ro.snap.maps[self.idx]).insert(k.into_owned(), v.into_owned());
        Ok(())
    }
    fn remove(&self, t: &mut RwTxn, k: &[u8]) -> bool {
        if !self.map(&t.ro).contains_key(k) { return false; }
        t.log.push(2);
        put_bytes(&mut t.log, &(self.idx as u32).to_le_bytes());
        put_bytes(&mut t.log, k);
        Arc::make_mut(&mut t.ro.snap.maps[self.idx]).remove(k);
        true
    }
    pub fn delete<'a>(&self, t: &mut RwTxn, k: &'a K::EItem) -> Result<bool> where K: BytesEncode<'a> {
        let k = key_of::<K>(k)?;
        Ok(self.remove(t, &k))
    }
    pub fn delete_range<'a, R: RangeBounds<K::EItem>>(&self, t: &mut RwTxn, r: &'a R) -> Result<usize> where K: BytesEncode<'a> {
        let b = bounds::<K, R>(r)?;
        if empty(&b) { return Ok(0); }
        let ks: Vec<Vec<u8>> = self.map(&t.ro).range(b).map(|(k, _)| k.clone()).collect();
        for k in &ks { self.remove(t, k); }
        Ok(ks.len())
    }
    pub fn clear(&self, t: &mut RwTxn) -> Result<()> {
        let ks: Vec<Vec<u8>> = self.map(&t.ro).keys().cloned().collect();
        for k in &ks { self.remove(t, k); }
        Ok(())
    }
    pub fn len(&self, t: &RoTxn) -> Result<u64> { Ok(self.map(t).len() as u64) }
    pub fn is_empty(&self, t: &RoTxn) -> Result<bool> { Ok(self.map(t).is_empty()) }
    pub fn first<'t>(&self, t: &'t RoTxn) -> Result<Option<(K::DItem, D::DItem)>> where K: BytesDecode<'t>, D: BytesDecode<'t> {
        self.map(t).iter().next().map(|(k, v)| dec::<K, D>(k, v)).transpose()
    }
    pub fn last<'t>(&self, t: &'t RoTxn) -> Result<Option<(K::DItem, D::DItem)>> where K: BytesDecode<'t>, D: BytesDecode<'t> {
        self.map(t).iter().next_back().map(|(k, v)| dec::<K, D>(k, v)).transpose()
    }
    pub fn iter<'t>(&self, t: &'t RoTxn) -> Result<Iter<'t, K, D>> { Ok(Iter { it: Box::new(self.map(t).iter()), p: PhantomData }) }
    pub fn range<'a, 't, R: RangeBounds<K::EItem>>(&self, t: &'t RoTxn, r: &'a R) -> Result<Iter<'t, K, D>> where K: BytesEncode<'a> {
        let b = bounds::<K, R>(r)?;
        Ok(Iter { it: if empty(&b) { Box::new(std::iter::empty()) } else { Box::new(self.map(t).range(b)) }, p: PhantomData })
    }
    pub fn prefix_iter<'a, 't>(&self, t: &'t RoTxn, p: &'a K::EItem) -> Result<Iter<'t, K, D>> where K: BytesEncode<'a> {
        let p = K::bytes_encode(p).map_err(Error::Encoding)?.into_owned();
        let q = p.clone();
        Ok(Iter { it: Box::new(self.map(t).range(p..).take_while(move |(k, _)| k.starts_with(&q))), p: PhantomData })
    }
}
