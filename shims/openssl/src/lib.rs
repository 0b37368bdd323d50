//! Stand-in for openssl's RSA: a "PEM" is `-----BEGIN PUBLIC KEY-----\n<id>\n-----END ...`
//! (private: `BEGIN PRIVATE KEY`, `<id>:<passphrase>`); what the public key of a pair
//! encrypts only the private key of the same pair decrypts.
pub mod error { #[derive(Debug, Clone)] pub struct ErrorStack(pub String);
    impl std::fmt::Display for ErrorStack { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str(&self.0) } } impl std::error::Error for ErrorStack {} }
pub mod rsa {
    use super::error::ErrorStack;
    use std::marker::PhantomData;
    #[derive(Clone, Copy)] pub struct Padding; impl Padding { pub const PKCS1: Padding = Padding; }
    pub struct Public; pub struct Private;
    pub struct Rsa<T> { id: String, _t: PhantomData<T> }
    fn body(pem: &[u8], kind: &str) -> Result<String, ErrorStack> {
        let s = std::str::from_utf8(pem).map_err(|e| ErrorStack(e.to_string()))?;
        let l: Vec<&str> = s.lines().collect();
        if l.len() < 3 || l[0] != format!("-----BEGIN {kind} KEY-----") || l[2] != format!("-----END {kind} KEY-----") { return Err(ErrorStack("no start line".into())); }
        Ok(l[1].to_string())
    }
    impl Rsa<Public> { pub fn public_key_from_pem(p: &[u8]) -> Result<Self, ErrorStack> { Ok(Rsa { id: body(p, "PUBLIC")?, _t: PhantomData }) } }
    impl Rsa<Private> { pub fn private_key_from_pem_passphrase(p: &[u8], pass: &[u8]) -> Result<Self, ErrorStack> {
        let b = body(p, "PRIVATE")?; let (id, pw) = b.split_once(':').unwrap_or((&b, "")); if pw.as_bytes() != pass { return Err(ErrorStack("bad decrypt".into())); } Ok(Rsa { id: id.into(), _t: PhantomData }) }
        pub fn private_decrypt(&self, from: &[u8], to: &mut [u8], _p: Padding) -> Result<usize, ErrorStack> {
            let idb = self.id.as_bytes(); let n = from[0] as usize; if &from[2..2 + n] != idb { return Err(ErrorStack("padding check failed".into())); }
            let m = from[1] as usize; to[..m].copy_from_slice(&from[2 + n..2 + n + m]); Ok(m) } }
    impl<T> Rsa<T> { pub fn size(&self) -> u32 { 256 }
        pub fn public_encrypt(&self, from: &[u8], to: &mut [u8], _p: Padding) -> Result<usize, ErrorStack> { let id = self.id.as_bytes(); if from.len() + id.len() + 2 > to.len() { return Err(ErrorStack("data too large".into())); } to[0] = id.len() as u8; to[1] = from.len() as u8; to[2..2 + id.len()].copy_from_slice(id); to[2 + id.len()..2 + id.len() + from.len()].copy_from_slice(from); Ok(to.len()) } }
}
