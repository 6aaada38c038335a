//! Stand-in for simple-error 0.2.
use std::fmt;
#[derive(Debug, PartialEq, Eq, Clone)]
pub struct SimpleError {
    err: String,
}
impl SimpleError {
    pub fn new<T: Into<String>>(t: T) -> SimpleError {
        SimpleError { err: t.into() }
    }
}
impl fmt::Display for SimpleError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.err.fmt(f)
    }
}
impl std::error::Error for SimpleError {}
#[macro_export]
macro_rules! bail {
    ($e:expr) => {
        return Err(::std::convert::From::from($e))
    };
    ($fmt:expr, $($arg:tt)+) => {
        return Err(::std::convert::From::from($crate::SimpleError::new(format!($fmt, $($arg)+))))
    };
}
#[macro_export]
macro_rules! simple_error {
    ($e:expr) => { $crate::SimpleError::new($e) };
    ($fmt:expr, $($arg:tt)+) => { $crate::SimpleError::new(format!($fmt, $($arg)+)) };
}
