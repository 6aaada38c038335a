//! Stand-in for colored 2: never colours.
use std::fmt;
use std::ops::Deref;
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString(String);
impl Deref for ColoredString {
    type Target = str;
    fn deref(&self) -> &str {
        &self.0
    }
}
impl From<&str> for ColoredString {
    fn from(s: &str) -> Self {
        ColoredString(s.to_string())
    }
}
impl fmt::Display for ColoredString {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
macro_rules! colours { ($($n:ident)*) => {
    pub trait Colorize { $( fn $n(self) -> ColoredString where Self: Sized; )* }
    impl<'a> Colorize for &'a str { $( fn $n(self) -> ColoredString { ColoredString(self.to_string()) } )* }
    impl Colorize for ColoredString { $( fn $n(self) -> ColoredString { self } )* }
}; }
colours!(black red green yellow blue magenta purple cyan white bold dimmed italic underline normal
    bright_red bright_green bright_yellow bright_blue bright_magenta bright_cyan bright_white bright_black);
