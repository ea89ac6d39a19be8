pub use kenv::anyhow_m::*;
#[macro_export]
macro_rules! anyhow {
    ($($t:tt)*) => { $crate::Error::opaque() };
}
#[macro_export]
macro_rules! bail {
    ($($t:tt)*) => { return ::core::result::Result::Err($crate::Error::opaque().into()) };
}
#[macro_export]
macro_rules! ensure {
    ($c:expr $(,)?) => { if !$c { return ::core::result::Result::Err($crate::Error::opaque().into()); } };
    ($c:expr, $($t:tt)*) => { if !$c { return ::core::result::Result::Err($crate::Error::opaque().into()); } };
}
#[allow(non_snake_case)]
pub fn Ok<T>(t: T) -> Result<T> { ::core::result::Result::Ok(t) }
