//! Clock, timers and background tasks under harness control.
use crate::fut::Future;
use crate::sched::Leaf;
use std::pin::Pin;
pub use std::time::Duration;

/// milliseconds
crate::gstatic! { NOW: u64 = 0; }
pub fn now_ms() -> u64 {
    unsafe { NOW.1 }
}
pub fn set_now_ms(t: u64) {
    unsafe { NOW.1 = t }
}
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug)]
pub struct Instant(u64);
impl Instant {
    pub fn now() -> Self {
        Instant(now_ms())
    }
    pub fn elapsed(&self) -> Duration {
        Duration::from_millis(now_ms() - self.0)
    }
    pub fn duration_since(&self, o: Instant) -> Duration {
        Duration::from_millis(self.0.saturating_sub(o.0))
    }
    pub fn saturating_duration_since(&self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
impl std::ops::Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}
impl std::ops::Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0 + d.as_millis() as u64)
    }
}

/// Number of timer expiries the harness still allows.
crate::gstatic! { TICKS: u64 = 0; }
pub fn set_ticks(n: u64) {
    unsafe { TICKS.1 = n }
}
fn tick_now() -> bool {
    unsafe {
        if TICKS.1 > 0 {
            TICKS.1 -= 1;
            true
        } else {
            false
        }
    }
}
/// may timeouts expire at all?
pub fn may_expire() -> bool {
    tick_now()
}
pub struct Tick;
impl Leaf for Tick {
    type Out = ();
    fn attempt(&mut self) -> Option<()> {
        if tick_now() {
            Some(())
        } else {
            None
        }
    }
}
crate::leaf!([] Tick);
/// May sleeps end? (They always take a scheduling point.)
crate::gstatic! { SLEEP_ENDS: bool = false; }
pub fn set_sleep_ends(b: bool) {
    unsafe { SLEEP_ENDS.1 = b }
}
pub struct Sleep(bool);
impl Leaf for Sleep {
    type Out = ();
    fn attempt(&mut self) -> Option<()> {
        if unsafe { SLEEP_ENDS.1 } {
            if !self.0 {
                self.0 = true;
                crate::sched::interfere();
            }
            Some(())
        } else {
            None
        }
    }
}
crate::leaf!([] Sleep);
pub fn sleep_until(_: Instant) -> Sleep {
    Sleep(false)
}
pub fn sleep(_: Duration) -> Sleep {
    Sleep(false)
}
pub struct Interval;
pub fn interval(_: Duration) -> Interval {
    Interval
}
impl Interval {
    pub fn tick(&mut self) -> Tick {
        Tick
    }
}
#[derive(Debug)]
pub struct Elapsed;
impl std::fmt::Display for Elapsed {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("elapsed")
    }
}
impl std::error::Error for Elapsed {}
#[cfg(any(kani, ka))]
pub fn timeout<F: Future>(_: Duration, f: F) -> crate::fut::Lazy<impl FnOnce() -> Result<F::Output, Elapsed>> {
    use crate::fut::KWait;
    crate::fut::lazy(move || crate::fut::timeout(f).kwait().ok_or(Elapsed))
}
#[cfg(not(any(kani, ka)))]
pub async fn timeout<F: Future>(_: Duration, f: F) -> Result<F::Output, Elapsed> {
    crate::fut::timeout(f).await.ok_or(Elapsed)
}

// ---- background tasks
crate::gstatic! { RUN: bool = false; }
crate::gstatic! { SPAWNED: u64 = 0; }
crate::gstatic! { ABORTED: u64 = 0; }
/// Run the next spawned task on the spot instead of leaving it unscheduled.
pub fn set_run(b: bool) {
    unsafe { RUN.1 = b }
}
pub fn spawned() -> u64 {
    unsafe { SPAWNED.1 }
}
pub fn aborted() -> u64 {
    unsafe { ABORTED.1 }
}
#[derive(Debug, Clone)]
pub struct AbortHandle;
impl AbortHandle {
    pub fn abort(&self) {
        unsafe { ABORTED.1 += 1 }
    }
}
pub struct JoinHandle<T = ()>(std::marker::PhantomData<T>);
unsafe impl<T> Send for JoinHandle<T> {}
unsafe impl<T> Sync for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle
    }
    pub fn abort(&self) {
        unsafe { ABORTED.1 += 1 }
    }
}
pub fn spawn<F: Future + 'static>(f: F) -> JoinHandle<F::Output> {
    unsafe { SPAWNED.1 += 1 };
    if unsafe { RUN.1 } {
        unsafe { RUN.1 = false };
        std::mem::forget(crate::fut::run(f));
    } else {
        std::mem::forget(f);
    }
    JoinHandle(std::marker::PhantomData)
}
pub fn thread_spawn<F, T>(f: F) -> JoinHandle<T>
where
    F: FnOnce() -> T,
{
    std::mem::forget(f);
    JoinHandle(std::marker::PhantomData)
}
pub fn unconstrained<F: Future>(f: F) -> F {
    f
}
