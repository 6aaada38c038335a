//! Stand-in for env_logger 0.9: accepts the set-up, logs nothing.
use std::io;
pub mod fmt {
    pub struct Formatter;
    impl std::io::Write for Formatter {
        fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
            Ok(b.len())
        }
        fn flush(&mut self) -> std::io::Result<()> {
            Ok(())
        }
    }
}
#[derive(Default)]
pub struct Env;
#[derive(Default)]
pub struct Builder;
impl Builder {
    pub fn from_env(_: Env) -> Builder {
        Builder
    }
    pub fn format<F>(&mut self, _f: F) -> &mut Builder
    where
        F: Fn(&mut fmt::Formatter, &log::Record) -> io::Result<()> + Sync + Send + 'static,
    {
        self
    }
    pub fn try_init(&mut self) -> Result<(), log::SetLoggerError> {
        Ok(())
    }
}
