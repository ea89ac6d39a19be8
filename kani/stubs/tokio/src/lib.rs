pub use kenv::time_m::spawn;
pub mod sync {
    pub use kenv::sync_m::{Notify, TMutex as Mutex, TMutexGuard as MutexGuard, TRwLock as RwLock};
    pub mod oneshot {
        pub use kenv::sync_m::{one_channel as channel, OneRx as Receiver, OneTx as Sender};
        pub mod error { pub use kenv::sync_m::RecvError; }
    }
}
pub mod time {
    pub use kenv::time_m::{interval, sleep, timeout, Duration, Instant};
}
pub mod task {
    pub use kenv::fut::yield_now;
    pub use kenv::time_m::{spawn, unconstrained, AbortHandle, JoinHandle};
}
