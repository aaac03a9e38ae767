//! Offline stand-in for `colored` 2: never colours (as `NO_COLOR=1` does with the original).
use std::{fmt, ops::Deref};
#[derive(Clone, Debug, Default, PartialEq, Eq)]
pub struct ColoredString { input: String }
impl Deref for ColoredString { type Target = str; fn deref(&self) -> &str { &self.input } }
impl fmt::Display for ColoredString { fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result { <String as fmt::Display>::fmt(&self.input, f) } }
impl<'a> From<&'a str> for ColoredString { fn from(s: &'a str) -> Self { ColoredString { input: s.to_string() } } }
impl From<String> for ColoredString { fn from(s: String) -> Self { ColoredString { input: s } } }
macro_rules! styles { ($($n:ident)*) => {
    pub trait Colorize { $( fn $n(self) -> ColoredString where Self: Sized; )* }
    impl Colorize for ColoredString { $( fn $n(self) -> ColoredString { self } )* }
    impl<'a> Colorize for &'a str { $( fn $n(self) -> ColoredString { ColoredString { input: self.to_string() } } )* }
} }
styles! { black red green yellow blue magenta purple cyan white bright_black bright_red bright_green bright_yellow bright_blue
 bright_magenta bright_purple bright_cyan bright_white on_black on_red on_green on_yellow on_blue on_magenta on_cyan on_white
 bold dimmed italic underline blink reversed hidden strikethrough normal clear }
