pub use kenv::ser::{bytes_deserialize as deserialize, bytes_serialize as serialize};
