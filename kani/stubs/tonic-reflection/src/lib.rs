pub mod server {}
