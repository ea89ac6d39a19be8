//! Stands in for `std`: everything of the real std, with the collections and
//! the clock replaced by models under the solver. In the native replay build
//! the collections are the real ones.
pub use ::std::*;

pub mod collections {
    pub use ::std::collections::*;
    #[cfg(kani)]
    pub use kenv::coll::{BTreeMap, BTreeSet, HashMap, HashSet};
}
pub mod time {
    pub use ::std::time::*;
    pub use kenv::time_m::Instant;
}
pub mod thread {
    pub use ::std::thread::*;
    pub use kenv::time_m::thread_spawn as spawn;
}

pub mod sync {
    pub use ::std::sync::*;
    #[cfg(kani)]
    pub use kenv::arc::{Arc, Weak};
}

#[cfg(any(kani, ka))]
pub mod future {
    pub use kenv::fut::{ready, Future};
}
