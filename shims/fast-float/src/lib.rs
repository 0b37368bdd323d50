//! Stand-in for fast-float: the float grammar of the original ("inf", "infinity", "nan" in any case, no leading '+'-less restriction).
use std::fmt;
#[derive(Debug, Clone)] pub struct Error;
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str("error while parsing a float") } }
impl std::error::Error for Error {}
pub fn parse<T: std::str::FromStr, S: AsRef<[u8]>>(s: S) -> Result<T, Error> { std::str::from_utf8(s.as_ref()).map_err(|_| Error)?.parse().map_err(|_| Error) }
