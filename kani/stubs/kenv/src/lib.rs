//! Verification environment: nondeterminism, and models of the third-party
//! crates the code under test is linked with while it is executed symbolically.
#![cfg_attr(kani, feature(coerce_unsized, unsize))]
#![allow(static_mut_refs)]
#![allow(clippy::all)]

#[macro_use]
pub mod nd;
#[cfg(kani)]
pub mod arc;
#[cfg(not(kani))]
pub mod arc {
    pub use std::sync::{Arc, Weak};
}
pub mod coll;
pub mod buf;
pub mod ser;
pub mod anyhow_m;
pub mod sched;
#[cfg(not(any(kani, ka)))]
#[macro_use]
pub mod fut;
#[cfg(any(kani, ka))]
#[path = "ka.rs"]
#[macro_use]
pub mod fut;
pub use fut as ka;
pub mod sync_m;
pub mod time_m;
pub mod tonic_m;
pub mod redb_m;
pub mod moka_m;
pub mod rand_m;
pub mod uri;

/// A mutable static with bytes of its own. Kani backs mutable statics and
/// constants whose bytes are equal by one object, so that a write to a static
/// that is all zeros can change the constant `Vec::new()` copies from.
pub struct Mg<T>(pub u64, pub T);
pub const fn magic(s: &str) -> u64 {
    let b = s.as_bytes();
    let mut h: u64 = 0xcbf2_9ce4_8422_2325;
    let mut i = 0;
    while i < b.len() {
        h = (h ^ b[i] as u64).wrapping_mul(0x100_0000_01b3);
        i += 1;
    }
    h | 1
}
#[macro_export]
macro_rules! gstatic {
    ($($v:vis $n:ident : $t:ty = $e:expr;)*) => {
        $($v static mut $n: $crate::Mg<$t> =
            $crate::Mg($crate::magic(concat!(module_path!(), "::", stringify!($n))), $e);)*
    };
}
