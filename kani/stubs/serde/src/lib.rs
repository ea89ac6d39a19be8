pub use kenv::ser::{Deserialize, Serialize, R, W};
pub use kserde_derive::{Deserialize, Serialize};
