//! Nondeterministic choice. Under the solver every value is symbolic; in the
//! native replay build the values come from the solver's counterexample.

#[cfg(kani)]
mod imp {
    pub fn u8() -> u8 { kani::any() }
    pub fn u64() -> u64 { kani::any() }
    pub fn bool() -> bool { kani::any() }
    pub fn assume(c: bool) { kani::assume(c) }
}

#[cfg(not(kani))]
mod imp {
    use std::cell::RefCell;
    use std::collections::VecDeque;
    thread_local! {
        static Q: RefCell<VecDeque<Vec<u8>>> = RefCell::new(VecDeque::new());
    }
    pub fn load(vals: Vec<Vec<u8>>) {
        Q.with(|q| *q.borrow_mut() = vals.into());
    }
    fn next(n: usize) -> Vec<u8> {
        Q.with(|q| match q.borrow_mut().pop_front() {
            Some(v) if v.len() == n => v,
            Some(v) => {
                eprintln!("REPLAY-MISMATCH want {n} bytes, got {}", v.len());
                std::process::exit(4)
            }
            // values the solver left unconstrained at the end
            None => vec![0; n],
        })
    }
    pub fn u8() -> u8 { next(1)[0] }
    pub fn u64() -> u64 { u64::from_le_bytes(next(8).try_into().unwrap()) }
    pub fn bool() -> bool { next(1)[0] & 1 == 1 }
    pub fn assume(c: bool) {
        if !c {
            eprintln!("REPLAY-ASSUME-FAILED");
            std::process::exit(3)
        }
    }
}
pub use imp::*;

/// any value in `0..n`
pub fn below(n: u8) -> u8 {
    let x = u8();
    assume(x < n);
    x
}
/// any u64 `<= max`
pub fn upto(max: u64) -> u64 {
    let x = u64();
    assume(x <= max);
    x
}

/// Reachability witness.
#[macro_export]
macro_rules! witness {
    ($c:expr, $m:literal) => {
        #[cfg(kani)]
        {
            kani::cover!($c, $m);
        }
        #[cfg(not(kani))]
        {
            let _ = $c;
        }
    };
}
