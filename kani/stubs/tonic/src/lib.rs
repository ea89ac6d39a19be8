pub use kenv::tonic_m::{IntoRequest, Request, Response, Status, Streaming};
pub use async_trait::async_trait;
pub mod transport {
    pub use kenv::tonic_m::{Channel, Endpoint};
    pub use kenv::uri::Uri;
    pub mod channel { pub use kenv::tonic_m::{Channel, Endpoint}; }
}
pub mod codegen {
    pub use kenv::fut as tokio_stream;
}
