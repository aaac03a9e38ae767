//! Offline stand-in for `env_logger` 0.9: accepts the same calls and logs nothing.
use std::io::Write;
pub struct Env;
impl Default for Env { fn default() -> Self { Env } }
impl<'a> From<&'a str> for Env { fn from(_: &'a str) -> Self { Env } }
pub mod fmt {
    pub struct Formatter(pub(crate) Vec<u8>);
    impl std::io::Write for Formatter {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> { self.0.extend_from_slice(b); Ok(b.len()) }
        fn flush(&mut self) -> std::io::Result<()> { Ok(()) }
    }
}
use fmt::Formatter;
#[derive(Default)]
pub struct Builder;
impl Builder {
    pub fn new() -> Self { Builder }
    pub fn from_env<E: Into<Env>>(_: E) -> Self { Builder }
    pub fn from_default_env() -> Self { Builder }
    pub fn format<F>(&mut self, _f: F) -> &mut Self
    where F: Fn(&mut Formatter, &log::Record) -> std::io::Result<()> + Sync + Send + 'static { self }
    pub fn is_test(&mut self, _: bool) -> &mut Self { self }
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> { let _ = std::io::sink().flush(); Ok(()) }
    pub fn init(&mut self) {}
}
pub fn init() {}
pub fn try_init() -> Result<(), log::SetLoggerError> { Ok(()) }
