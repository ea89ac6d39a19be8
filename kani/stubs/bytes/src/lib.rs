pub use kenv::buf::Bytes;
