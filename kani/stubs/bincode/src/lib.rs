pub use kenv::ser::{deserialize, serialize, CodecError as Error};
