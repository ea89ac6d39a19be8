//! Scheduling under harness control. There is one thread; other tasks run (to
//! completion) at the scheduling points of the task being checked.
use crate::nd;

// One static with content of its own: Kani backs mutable statics and constants
// that have the same bytes by the same object.
struct S {
    magic: u64,
    depth: u8,
    interfere: Option<fn()>,
    idle: Option<fn()>,
    idle2: Option<fn()>,
    block: Option<fn()>,
}
static mut G: S = S { magic: 0x5ced_0001_a5a5_1111, depth: 0, interfere: None, idle: None, idle2: None, block: None };

/// Called at each scheduling point of the outermost task: what other tasks may
/// do there.
pub fn set_interfere(f: Option<fn()>) {
    unsafe { G.interfere = f }
}
/// Called when the running task has to wait; it may unblock it.
pub fn set_idle(f: Option<fn()>) {
    unsafe { G.idle = f }
}
/// The same for the task that runs at a scheduling point of the outermost task.
pub fn set_nested_idle(f: Option<fn()>) {
    unsafe { G.idle2 = f }
}
/// Called when the running task still has to wait: the final checks. The path
/// ends there. Without it, blocking is an error of the harness.
pub fn set_block(f: Option<fn()>) {
    unsafe { G.block = f }
}
pub fn depth() -> u8 {
    unsafe { G.depth }
}
pub fn interfere() {
    unsafe {
        if G.depth == 0 {
            if let Some(f) = G.interfere {
                G.depth = 1;
                f();
                G.depth = 0;
            }
        }
    }
}
pub fn idle() {
    unsafe {
        if G.depth == 0 {
            if let Some(f) = G.idle {
                G.depth = 1;
                f();
                G.depth = 0;
            }
        } else if G.depth == 1 {
            if let Some(f) = G.idle2 {
                G.depth = 2;
                f();
                G.depth = 1;
            }
        }
    }
}
pub fn blocked() -> ! {
    unsafe {
        // a nested task cannot be suspended: another schedule covers this
        if G.depth > 0 {
            end();
        }
        if let Some(f) = G.block {
            f();
            end();
        }
    }
    panic!("KENV-BLOCKED: operation blocked forever")
}
/// a lock is held by someone else
pub fn contended() {
    if depth() > 0 {
        end()
    }
}
#[cfg(kani)]
pub fn end() -> ! {
    nd::assume(false);
    panic!("KENV")
}
#[cfg(not(kani))]
pub fn end() -> ! {
    eprintln!("REPLAY-PATH-END");
    std::process::exit(0)
}

pub trait Leaf {
    type Out;
    fn attempt(&mut self) -> Option<Self::Out>;
}

pub struct YieldPoint(bool);
impl Leaf for YieldPoint {
    type Out = ();
    fn attempt(&mut self) -> Option<()> {
        if !self.0 {
            self.0 = true;
            interfere();
        }
        Some(())
    }
}
crate::leaf!([] YieldPoint);
pub fn yield_point() -> YieldPoint {
    YieldPoint(false)
}
pub fn yield_now() -> YieldPoint {
    YieldPoint(false)
}
