pub use kenv::redb_m::*;
pub use kenv::redb_m::DbError as Error;
pub mod backends { pub struct InMemoryBackend; impl InMemoryBackend { pub fn new() -> Self { Self } } }
