//! Stand-in for `anyhow` (not available offline): the part generated code uses.
use std::fmt;
pub struct Error(String);
impl fmt::Display for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl fmt::Debug for Error { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { f.write_str(&self.0) } }
impl<E: std::error::Error + Send + Sync + 'static> From<E> for Error { fn from(e: E) -> Self { Error(e.to_string()) } }
impl Error { pub fn msg<M: fmt::Display>(m: M) -> Self { Error(m.to_string()) } }
pub type Result<T, E = Error> = std::result::Result<T, E>;
#[macro_export]
macro_rules! anyhow { ($($t:tt)*) => { $crate::Error::msg(format!($($t)*)) } }
