//! `anyhow`, without payloads: an error is an error.
pub struct Error(());
pub type Result<T, E = Error> = std::result::Result<T, E>;
impl Error {
    #[inline]
    pub fn opaque() -> Self {
        Error(())
    }
    pub fn new<E>(_: E) -> Self {
        Error(())
    }
    pub fn msg<M>(_: M) -> Self {
        Error(())
    }
    pub fn context<C>(self, _: C) -> Self {
        self
    }
}
impl std::fmt::Debug for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("error")
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("error")
    }
}
impl<E: std::error::Error + Send + Sync + 'static> From<E> for Error {
    fn from(e: E) -> Self {
        std::mem::forget(e);
        Error(())
    }
}
pub trait Context<T>: Sized {
    fn context<C>(self, c: C) -> Result<T>;
    fn with_context<C, F: FnOnce() -> C>(self, f: F) -> Result<T>;
}
impl<T, E> Context<T> for std::result::Result<T, E> {
    fn context<C>(self, _: C) -> Result<T> {
        match self {
            Ok(x) => Ok(x),
            Err(_) => Err(Error(())),
        }
    }
    fn with_context<C, F: FnOnce() -> C>(self, _: F) -> Result<T> {
        self.context(())
    }
}
impl<T> Context<T> for Option<T> {
    fn context<C>(self, _: C) -> Result<T> {
        match self {
            Some(x) => Ok(x),
            None => Err(Error(())),
        }
    }
    fn with_context<C, F: FnOnce() -> C>(self, _: F) -> Result<T> {
        self.context(())
    }
}
