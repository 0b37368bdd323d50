//! Stand-in for pco: tag, count, little-endian values, checksum.
pub const DEFAULT_COMPRESSION_LEVEL: usize = 8;
pub mod errors { #[derive(Debug, Clone)] pub struct PcoError(pub String); impl std::fmt::Display for PcoError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } } impl std::error::Error for PcoError {} pub type PcoResult<T> = Result<T, PcoError>; }
pub mod data_types { pub trait Number: Copy { const T: u8; fn bits(self) -> u64; fn of(b: u64) -> Self; }
    impl Number for f64 { const T: u8 = 1; fn bits(self) -> u64 { self.to_bits() } fn of(b: u64) -> Self { f64::from_bits(b) } }
    impl Number for i64 { const T: u8 = 2; fn bits(self) -> u64 { self as u64 } fn of(b: u64) -> Self { b as i64 } }
    impl Number for u64 { const T: u8 = 3; fn bits(self) -> u64 { self } fn of(b: u64) -> Self { b } } }
pub mod standalone { use super::{data_types::Number, errors::*};
    fn sum(b: &[u8]) -> u32 { b.iter().fold(0x811c9dc5u32, |h, x| (h ^ *x as u32).wrapping_mul(0x01000193)) }
    pub fn simpler_compress<T: Number>(s: &[T], _l: usize) -> PcoResult<Vec<u8>> { let mut o = b"pco!".to_vec(); o.push(T::T); o.extend((s.len() as u32).to_le_bytes()); for v in s { o.extend(v.bits().to_le_bytes()); } let c = sum(&o); o.extend(c.to_le_bytes()); Ok(o) }
    pub fn simple_decompress<T: Number>(s: &[u8]) -> PcoResult<Vec<T>> { let e = |m: &str| PcoError(m.to_string()); if s.len() < 13 || &s[..4] != b"pco!" { return Err(e("magic header does not match")); } if s[4] != T::T { return Err(e("data type mismatch")); }
        let n = u32::from_le_bytes(s[5..9].try_into().unwrap()) as usize; let d = s.get(9..9 + 8 * n).ok_or_else(|| e("insufficient data"))?; let c = s.get(9 + 8 * n..13 + 8 * n).ok_or_else(|| e("insufficient data"))?;
        if sum(&s[..9 + 8 * n]) != u32::from_le_bytes(c.try_into().unwrap()) { return Err(e("corruption")); }
        Ok(d.chunks(8).map(|b| T::of(u64::from_le_bytes(b.try_into().unwrap()))).collect()) } }
