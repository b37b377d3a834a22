//! Stand-in for anyhow: an error is its message.
extern crate alloc;
use core::fmt;

pub struct Error {
    message: alloc::string::String,
}
pub type Result<T, E = Error> = core::result::Result<T, E>;

impl Error {
    pub fn msg<M: fmt::Display>(m: M) -> Error {
        Error { message: alloc::format!("{}", m) }
    }
}
impl fmt::Display for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.message)
    }
}
impl fmt::Debug for Error {
    fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
        f.write_str(&self.message)
    }
}
impl<E: core::error::Error> From<E> for Error {
    fn from(e: E) -> Error {
        Error::msg(e)
    }
}

#[macro_export]
macro_rules! anyhow {
    ($l:literal $(, $a:expr)* $(,)?) => { $crate::Error::msg(format_args!($l $(, $a)*)) };
    ($e:expr $(,)?) => { $crate::Error::msg($e) };
}
#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return Err($crate::anyhow!($($t)*)) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr, $($t:tt)*) => { if !$c { return Err($crate::anyhow!($($t)*)) } };
}

pub trait Context<T> {
    fn context<C: fmt::Display>(self, c: C) -> Result<T>;
}
impl<T, E: fmt::Display> Context<T> for core::result::Result<T, E> {
    fn context<C: fmt::Display>(self, c: C) -> Result<T> {
        self.map_err(|e| Error::msg(format_args!("{}: {}", c, e)))
    }
}
impl<T> Context<T> for Option<T> {
    fn context<C: fmt::Display>(self, c: C) -> Result<T> {
        self.ok_or_else(|| Error::msg(c))
    }
}
