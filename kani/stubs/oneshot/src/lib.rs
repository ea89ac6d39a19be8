pub use kenv::sync_m::{one_channel as channel, OneRx as Receiver, OneTx as Sender, RecvError};
