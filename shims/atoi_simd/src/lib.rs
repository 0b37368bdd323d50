//! Stand-in for atoi_simd: decimal integers from bytes.
use std::fmt;
#[derive(Debug, Clone, Copy, PartialEq, Eq)] pub enum AtoiSimdError { Empty, Size(usize), Overflow, Invalid64(u64, usize) }
impl fmt::Display for AtoiSimdError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for AtoiSimdError {}
pub trait Parse: Sized { fn of(neg: bool, v: u128) -> Option<Self>; const SIGNED: bool; }
macro_rules! p { ($($t:ty : $s:expr),*) => { $( impl Parse for $t { const SIGNED: bool = $s; fn of(n: bool, v: u128) -> Option<Self> { if n { <$t>::try_from(-(i128::try_from(v).ok()?)).ok() } else { <$t>::try_from(v).ok() } } } )* } }
p!(i8: true, i16: true, i32: true, i64: true, u8: false, u16: false, u32: false, u64: false);
fn scan(b: &[u8]) -> (u128, usize, bool) { let mut v = 0u128; let mut i = 0; let mut o = false; while i < b.len() && b[i].is_ascii_digit() { match v.checked_mul(10).and_then(|v| v.checked_add((b[i] - b'0') as u128)) { Some(n) => v = n, None => o = true } i += 1; } (v, i, o) }
fn go<T: Parse>(s: &[u8], sign: bool) -> Result<(T, usize), AtoiSimdError> {
    if s.is_empty() { return Err(AtoiSimdError::Empty); }
    let neg = sign && T::SIGNED && s[0] == b'-'; let b = if neg { &s[1..] } else { s };
    let (v, n, o) = scan(b);
    if n == 0 { return Err(if b.is_empty() { AtoiSimdError::Empty } else { AtoiSimdError::Invalid64(0, 0) }); }
    if o { return Err(AtoiSimdError::Overflow); }
    T::of(neg, v).map(|v| (v, n + neg as usize)).ok_or(AtoiSimdError::Overflow)
}
pub fn parse<T: Parse>(s: &[u8]) -> Result<T, AtoiSimdError> { let (v, n) = go(s, true)?; if n == s.len() { Ok(v) } else { Err(AtoiSimdError::Invalid64(0, n)) } }
pub fn parse_pos<T: Parse>(s: &[u8]) -> Result<T, AtoiSimdError> { let (v, n) = go(s, false)?; if n == s.len() { Ok(v) } else { Err(AtoiSimdError::Invalid64(0, n)) } }
pub fn parse_until_invalid<T: Parse>(s: &[u8]) -> Result<(T, usize), AtoiSimdError> { go(s, true) }
