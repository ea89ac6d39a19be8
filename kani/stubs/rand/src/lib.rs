pub use kenv::rand_m::{thread_rng, Rng};
