pub use kenv::sync_m::{flume as unbounded, FlumeRx as Receiver, FlumeTx as Sender, SendError, RecvError};
pub fn bounded<T>(_: usize) -> (Sender<T>, Receiver<T>) { unbounded() }
