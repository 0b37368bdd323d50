//! Stand-in for bcrypt: salted, non-reversible in shape only (the checks exercise
//! cnosdb's use of it, not the cipher).  hash -> "$2b$<cost>$<salt>.<digest>".
use std::fmt;
use std::sync::atomic::{AtomicU64, Ordering};
pub const DEFAULT_COST: u32 = 12;
#[derive(Debug)] pub enum BcryptError { CostNotAllowed(u32), InvalidHash(String), InvalidPrefix(String), Io(std::io::Error) }
impl fmt::Display for BcryptError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { write!(f, "{self:?}") } }
impl std::error::Error for BcryptError {}
pub type BcryptResult<T> = Result<T, BcryptError>;
static SALT: AtomicU64 = AtomicU64::new(1);
fn digest(salt: u64, p: &[u8]) -> u64 { let mut h = 0xcbf29ce484222325u64 ^ salt.wrapping_mul(0x9E3779B97F4A7C15); for b in p.iter().take(72) { h ^= *b as u64; h = h.wrapping_mul(0x100000001b3); } h ^ (h >> 29) }
pub fn hash<P: AsRef<[u8]>>(p: P, cost: u32) -> BcryptResult<String> {
    if !(4..=31).contains(&cost) { return Err(BcryptError::CostNotAllowed(cost)); }
    let s = SALT.fetch_add(1, Ordering::Relaxed);
    Ok(format!("$2b${cost:02}${s:016x}.{:016x}", digest(s, p.as_ref())))
}
pub fn verify<P: AsRef<[u8]>>(p: P, hash: &str) -> BcryptResult<bool> {
    let bad = || BcryptError::InvalidHash(hash.to_string());
    let parts: Vec<&str> = hash.split('$').collect();
    if parts.len() != 4 || !parts[0].is_empty() { return Err(bad()); }
    if parts[1] != "2b" { return Err(BcryptError::InvalidPrefix(parts[1].to_string())); }
    let (s, d) = parts[3].split_once('.').ok_or_else(bad)?;
    let (s, d) = (u64::from_str_radix(s, 16).map_err(|_| bad())?, u64::from_str_radix(d, 16).map_err(|_| bad())?);
    Ok(digest(s, p.as_ref()) == d)
}
