//! Stand-in for bzip2: frames the data with a magic, a length and a checksum, uncompressed.
#[derive(Clone, Copy)] pub struct Compression(pub u32);
impl Compression { pub fn best() -> Self { Self(9) } pub fn fast() -> Self { Self(1) } pub fn new(l: u32) -> Self { Self(l) } }
impl Default for Compression { fn default() -> Self { Self(6) } }
pub mod write {
    use std::io::{self, Write};
    fn sum(b: &[u8]) -> u32 { b.iter().fold(0x811c9dc5u32, |h, x| (h ^ *x as u32).wrapping_mul(0x01000193)) }
    pub struct BzEncoder<W: Write> { w: Option<W>, buf: Vec<u8> }
    impl<W: Write> BzEncoder<W> { pub fn new(w: W, _c: super::Compression) -> Self { Self { w: Some(w), buf: vec![] } }
        pub fn finish(mut self) -> io::Result<W> { let mut w = self.w.take().unwrap(); w.write_all(b"BZh9")?; w.write_all(&(self.buf.len() as u32).to_le_bytes())?; w.write_all(&sum(&self.buf).to_le_bytes())?; w.write_all(&self.buf)?; Ok(w) } }
    impl<W: Write> Write for BzEncoder<W> { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.buf.extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
    pub struct BzDecoder<W: Write> { w: Option<W>, buf: Vec<u8> }
    impl<W: Write> BzDecoder<W> { pub fn new(w: W) -> Self { Self { w: Some(w), buf: vec![] } }
        pub fn finish(mut self) -> io::Result<W> { let e = |m: &str| io::Error::new(io::ErrorKind::InvalidInput, m.to_string()); let b = &self.buf;
            if b.len() < 12 || &b[..4] != b"BZh9" { return Err(e("bzip2: data magic")); }
            let n = u32::from_le_bytes(b[4..8].try_into().unwrap()) as usize; let d = b.get(12..12 + n).ok_or_else(|| e("bzip2: unexpected end"))?;
            if sum(d) != u32::from_le_bytes(b[8..12].try_into().unwrap()) { return Err(e("bzip2: data")); }
            let mut w = self.w.take().unwrap(); w.write_all(d)?; Ok(w) } }
    impl<W: Write> Write for BzDecoder<W> { fn write(&mut self, b: &[u8]) -> io::Result<usize> { self.buf.extend_from_slice(b); Ok(b.len()) } fn flush(&mut self) -> io::Result<()> { Ok(()) } }
}
