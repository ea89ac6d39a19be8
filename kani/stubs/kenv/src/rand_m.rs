//! `rand` and `phi_detector`: arbitrary values.
use std::time::Duration;
pub struct ThreadRng;
pub fn thread_rng() -> ThreadRng {
    ThreadRng
}
pub trait Pick {
    type T;
    fn pick(self) -> Self::T;
}
impl Pick for std::ops::RangeInclusive<u64> {
    type T = u64;
    fn pick(self) -> u64 {
        let x = crate::nd::u64();
        crate::nd::assume(*self.start() <= x && x <= *self.end());
        x
    }
}
impl Pick for std::ops::Range<u64> {
    type T = u64;
    fn pick(self) -> u64 {
        let x = crate::nd::u64();
        crate::nd::assume(self.start <= x && x < self.end);
        x
    }
}
pub trait Rng {
    fn gen_range<R: Pick>(&mut self, r: R) -> R::T {
        r.pick()
    }
}
impl Rng for ThreadRng {}

/// The suspicion level the detector reports, chosen by the harness.
crate::gstatic! { PHI: f64 = 0.0; }
crate::gstatic! { MU_MS: u64 = 1000; }
crate::gstatic! { PINGS: u64 = 0; }
pub fn set_phi(x: f64) {
    unsafe { PHI.1 = x }
}
pub fn set_mu(ms: u64) {
    unsafe { MU_MS.1 = ms }
}
/// heartbeats the detector has been told of
pub fn pings() -> u64 {
    unsafe { PINGS.1 }
}
pub struct PingWindow;
pub struct NormalDist;
impl PingWindow {
    pub fn new(_: Duration) -> Self {
        PingWindow
    }
    pub fn add_ping(&mut self, _: Duration) {
        unsafe { PINGS.1 += 1 }
    }
    pub fn normal_dist(&self) -> NormalDist {
        NormalDist
    }
}
impl NormalDist {
    pub fn phi(&self, _: Duration) -> f64 {
        unsafe { PHI.1 }
    }
    pub fn mu(&self) -> Duration {
        Duration::from_millis(unsafe { MU_MS.1 })
    }
    pub fn sigma(&self) -> Duration {
        Duration::from_millis(unsafe { MU_MS.1 })
    }
}
