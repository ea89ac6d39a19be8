pub use kenv::rand_m::{PingWindow, NormalDist};
