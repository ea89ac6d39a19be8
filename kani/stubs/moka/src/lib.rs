pub mod sync { pub use kenv::moka_m::{Cache, Builder as CacheBuilder}; }
