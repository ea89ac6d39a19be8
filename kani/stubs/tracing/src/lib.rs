#[macro_export] macro_rules! ev { ($($t:tt)*) => {{}}; }
pub use ev as info; pub use ev as warn; pub use ev as error; pub use ev as debug; pub use ev as trace;
