pub use kenv::sync_m::{SpinMutex as Mutex, SpinRwLock as RwLock, SpinMutexGuard as MutexGuard};
