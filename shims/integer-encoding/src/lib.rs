//! LEB128 variable-length integers, zig-zag for signed ones.
pub trait VarInt: Sized + Copy { fn required_space(self) -> usize; fn decode_var(src: &[u8]) -> Option<(Self, usize)>; fn encode_var(self, dst: &mut [u8]) -> usize; fn encode_var_vec(self) -> Vec<u8> { let mut v = vec![0; self.required_space()]; self.encode_var(&mut v); v } }
fn enc(mut n: u64, d: &mut [u8]) -> usize { let mut i = 0; while n >= 0x80 { d[i] = 0x80 | n as u8; n >>= 7; i += 1; } d[i] = n as u8; i + 1 }
fn dec(s: &[u8]) -> Option<(u64, usize)> { let mut r = 0u64; let mut sh = 0; for (i, b) in s.iter().enumerate() { let m = (*b & 0x7f) as u64; if sh == 63 && m > 1 { return None; } r |= m << sh; sh += 7; if b & 0x80 == 0 { return Some((r, i + 1)); } if sh > 63 { return None; } } None }
fn sp(mut n: u64) -> usize { let mut i = 1; while n >= 0x80 { n >>= 7; i += 1; } i }
macro_rules! u { ($($t:ty),*) => { $( impl VarInt for $t { fn required_space(self) -> usize { sp(self as u64) } fn decode_var(s: &[u8]) -> Option<(Self, usize)> { dec(s).map(|(n, l)| (n as $t, l)) } fn encode_var(self, d: &mut [u8]) -> usize { enc(self as u64, d) } } )* } }
macro_rules! s { ($($t:ty),*) => { $( impl VarInt for $t { fn required_space(self) -> usize { sp(zz(self as i64)) } fn decode_var(s: &[u8]) -> Option<(Self, usize)> { dec(s).map(|(n, l)| (uz(n) as $t, l)) } fn encode_var(self, d: &mut [u8]) -> usize { enc(zz(self as i64), d) } } )* } }
fn zz(n: i64) -> u64 { ((n << 1) ^ (n >> 63)) as u64 } fn uz(n: u64) -> i64 { ((n >> 1) ^ (!(n & 1)).wrapping_add(1)) as i64 }
u!(u8, u16, u32, u64, usize); s!(i8, i16, i32, i64, isize);
