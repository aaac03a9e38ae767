//! Offline stand-in for `simple-error` 0.2.
use std::{error::Error, fmt};
#[derive(Debug, Clone, PartialEq, Eq)]
pub struct SimpleError { err: String }
impl SimpleError {
    pub fn new<T: Into<String>>(t: T) -> Self { SimpleError { err: t.into() } }
    pub fn from<T: Error>(t: T) -> Self { SimpleError { err: t.to_string() } }
    pub fn as_str(&self) -> &str { &self.err }
}
impl fmt::Display for SimpleError { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { self.err.fmt(f) } }
impl Error for SimpleError {}
impl From<String> for SimpleError { fn from(s: String) -> Self { SimpleError::new(s) } }
impl<'a> From<&'a str> for SimpleError { fn from(s: &'a str) -> Self { SimpleError::new(s) } }
pub type SimpleResult<T> = Result<T, SimpleError>;
#[macro_export]
macro_rules! simple_error {
    ($e:expr) => { $crate::SimpleError::new($e) };
    ($fmt:expr, $($arg:tt)+) => { $crate::SimpleError::new(format!($fmt, $($arg)+)) };
}
#[macro_export]
macro_rules! bail {
    ($e:expr) => { return Err(::std::convert::Into::into($e)) };
    ($fmt:expr, $($arg:tt)+) => { return Err($crate::SimpleError::new(format!($fmt, $($arg)+)).into()) };
}
#[macro_export]
macro_rules! require_with { ($e:expr, $m:expr) => { match $e { Some(v) => v, None => $crate::bail!($m) } } }
