//! Errors without their content.
pub struct Error(());
pub type Result<T, E = Error> = core::result::Result<T, E>;
impl<E: std::error::Error + Send + Sync + 'static> From<E> for Error {
    fn from(_: E) -> Error {
        Error(())
    }
}
impl Error {
    pub fn msg<M>(_: M) -> Error {
        Error(())
    }
    pub fn new<E>(_: E) -> Error {
        Error(())
    }
    pub fn context<C>(self, _: C) -> Error {
        self
    }
}
impl core::fmt::Debug for Error {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
impl core::fmt::Display for Error {
    fn fmt(&self, _: &mut core::fmt::Formatter<'_>) -> core::fmt::Result {
        Ok(())
    }
}
pub trait Context<T> {
    fn context<C>(self, c: C) -> Result<T>;
    fn with_context<C, F: FnOnce() -> C>(self, f: F) -> Result<T>;
}
impl<T, E> Context<T> for core::result::Result<T, E> {
    fn context<C>(self, _: C) -> Result<T> {
        self.map_err(|_| Error(()))
    }
    fn with_context<C, F: FnOnce() -> C>(self, _: F) -> Result<T> {
        self.map_err(|_| Error(()))
    }
}
impl<T> Context<T> for Option<T> {
    fn context<C>(self, _: C) -> Result<T> {
        self.ok_or(Error(()))
    }
    fn with_context<C, F: FnOnce() -> C>(self, _: F) -> Result<T> {
        self.ok_or(Error(()))
    }
}
#[macro_export]
macro_rules! anyhow { ($($t:tt)*) => { $crate::Error::msg(()) } }
#[macro_export]
macro_rules! bail { ($($t:tt)*) => { return Err($crate::Error::msg(())) } }
#[macro_export]
macro_rules! ensure { ($c:expr $(, $($t:tt)*)?) => { if !$c { return Err($crate::Error::msg(())) } } }
