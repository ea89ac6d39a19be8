//! Locks, channels, notification. Single-threaded: a task that spins on a held
//! spin lock can never proceed.
use std::cell::UnsafeCell;
use std::ops::{Deref, DerefMut};
use crate::arc::Arc;
use crate::sched::{contended, Leaf};

struct Flag(UnsafeCell<i8>);
impl Flag {
    const fn new() -> Self {
        Flag(UnsafeCell::new(0))
    }
    fn get(&self) -> i8 {
        unsafe { *self.0.get() }
    }
    fn set(&self, x: i8) {
        unsafe { *self.0.get() = x }
    }
}

macro_rules! guard {
    ($G:ident, $L:ident) => {
        pub struct $G<'a, T: ?Sized>(&'a $L<T>);
        impl<T: ?Sized> Deref for $G<'_, T> {
            type Target = T;
            fn deref(&self) -> &T {
                unsafe { &*self.0.v.get() }
            }
        }
    };
    (mut $G:ident, $L:ident, $rel:expr $(, $then:expr)?) => {
        guard!($G, $L);
        impl<T: ?Sized> DerefMut for $G<'_, T> {
            fn deref_mut(&mut self) -> &mut T {
                unsafe { &mut *self.0.v.get() }
            }
        }
        impl<T: ?Sized> Drop for $G<'_, T> {
            fn drop(&mut self) {
                self.0.f.set($rel);
                // other threads run on: a scheduling point
                $($then;)?
            }
        }
    };
}

// ---------------- spin
pub struct SpinMutex<T: ?Sized> {
    f: Flag,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized> Send for SpinMutex<T> {}
unsafe impl<T: ?Sized> Sync for SpinMutex<T> {}
guard!(mut SpinMutexGuard, SpinMutex, 0);
unsafe impl<T: ?Sized> Send for SpinMutexGuard<'_, T> {}
impl<T> SpinMutex<T> {
    pub const fn new(t: T) -> Self {
        SpinMutex { f: Flag::new(), v: UnsafeCell::new(t) }
    }
    pub fn lock(&self) -> SpinMutexGuard<'_, T> {
        if self.f.get() != 0 {
            contended()
        }
        assert!(self.f.get() == 0, "DEADLOCK: spin mutex is already held");
        self.f.set(1);
        SpinMutexGuard(self)
    }
    pub fn try_lock(&self) -> Option<SpinMutexGuard<'_, T>> {
        if self.f.get() == 0 {
            Some(self.lock())
        } else {
            None
        }
    }
    pub fn into_inner(self) -> T {
        self.v.into_inner()
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
}
impl<T> From<T> for SpinMutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
impl<T: Default> Default for SpinMutex<T> {
    fn default() -> Self {
        Self::new(T::default())
    }
}
pub struct SpinRwLock<T: ?Sized> {
    f: Flag,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized> Send for SpinRwLock<T> {}
unsafe impl<T: ?Sized> Sync for SpinRwLock<T> {}
guard!(mut SpinWriteGuard, SpinRwLock, 0);
guard!(SpinReadGuard, SpinRwLock);
impl<T: ?Sized> Drop for SpinReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.f.set(self.0.f.get() - 1)
    }
}
unsafe impl<T: ?Sized> Send for SpinWriteGuard<'_, T> {}
unsafe impl<T: ?Sized> Send for SpinReadGuard<'_, T> {}
impl<T> SpinRwLock<T> {
    pub const fn new(t: T) -> Self {
        SpinRwLock { f: Flag::new(), v: UnsafeCell::new(t) }
    }
    pub fn read(&self) -> SpinReadGuard<'_, T> {
        if self.f.get() < 0 {
            contended()
        }
        assert!(self.f.get() >= 0, "DEADLOCK: spin rwlock is held for writing");
        self.f.set(self.f.get() + 1);
        SpinReadGuard(self)
    }
    pub fn write(&self) -> SpinWriteGuard<'_, T> {
        if self.f.get() != 0 {
            contended()
        }
        assert!(self.f.get() == 0, "DEADLOCK: spin rwlock is already held");
        self.f.set(-1);
        SpinWriteGuard(self)
    }
    pub fn get_mut(&mut self) -> &mut T {
        self.v.get_mut()
    }
}
impl<T> From<T> for SpinRwLock<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}

// ---------------- tokio::sync
pub struct TMutex<T: ?Sized> {
    f: Flag,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized> Send for TMutex<T> {}
unsafe impl<T: ?Sized> Sync for TMutex<T> {}
guard!(mut TMutexGuard, TMutex, 0, crate::sched::interfere());
unsafe impl<T: ?Sized> Send for TMutexGuard<'_, T> {}
unsafe impl<T: ?Sized> Sync for TMutexGuard<'_, T> {}
pub struct TLock<'a, T: ?Sized>(&'a TMutex<T>, bool);
unsafe impl<T: ?Sized> Send for TLock<'_, T> {}
impl<'a, T: ?Sized> Leaf for TLock<'a, T> {
    type Out = TMutexGuard<'a, T>;
    fn attempt(&mut self) -> Option<TMutexGuard<'a, T>> {
        if !self.1 {
            self.1 = true;
            crate::sched::interfere();
        }
        if self.0.f.get() == 0 {
            self.0.f.set(1);
            Some(TMutexGuard(self.0))
        } else {
            contended();
            None
        }
    }
}
crate::leaf!(['a, T: ?Sized] TLock<'a, T>);
impl<T> TMutex<T> {
    pub const fn new(t: T) -> Self {
        TMutex { f: Flag::new(), v: UnsafeCell::new(t) }
    }
    pub fn lock(&self) -> TLock<'_, T> {
        TLock(self, false)
    }
    pub fn try_lock(&self) -> Result<TMutexGuard<'_, T>, ()> {
        if self.f.get() == 0 {
            self.f.set(1);
            Ok(TMutexGuard(self))
        } else {
            Err(())
        }
    }
}
impl<T> From<T> for TMutex<T> {
    fn from(t: T) -> Self {
        Self::new(t)
    }
}
pub struct TRwLock<T: ?Sized> {
    f: Flag,
    v: UnsafeCell<T>,
}
unsafe impl<T: ?Sized> Send for TRwLock<T> {}
unsafe impl<T: ?Sized> Sync for TRwLock<T> {}
guard!(mut TWriteGuard, TRwLock, 0);
guard!(TReadGuard, TRwLock);
impl<T: ?Sized> Drop for TReadGuard<'_, T> {
    fn drop(&mut self) {
        self.0.f.set(self.0.f.get() - 1)
    }
}
unsafe impl<T: ?Sized> Send for TWriteGuard<'_, T> {}
unsafe impl<T: ?Sized> Send for TReadGuard<'_, T> {}
unsafe impl<T: ?Sized> Sync for TWriteGuard<'_, T> {}
unsafe impl<T: ?Sized> Sync for TReadGuard<'_, T> {}
pub struct TWrite<'a, T: ?Sized>(&'a TRwLock<T>, bool);
unsafe impl<T: ?Sized> Send for TWrite<'_, T> {}
impl<'a, T: ?Sized> Leaf for TWrite<'a, T> {
    type Out = TWriteGuard<'a, T>;
    fn attempt(&mut self) -> Option<TWriteGuard<'a, T>> {
        if !self.1 {
            self.1 = true;
            crate::sched::interfere();
        }
        if self.0.f.get() == 0 {
            self.0.f.set(-1);
            Some(TWriteGuard(self.0))
        } else {
            contended();
            None
        }
    }
}
crate::leaf!(['a, T: ?Sized] TWrite<'a, T>);
pub struct TRead<'a, T: ?Sized>(&'a TRwLock<T>, bool);
unsafe impl<T: ?Sized> Send for TRead<'_, T> {}
impl<'a, T: ?Sized> Leaf for TRead<'a, T> {
    type Out = TReadGuard<'a, T>;
    fn attempt(&mut self) -> Option<TReadGuard<'a, T>> {
        if !self.1 {
            self.1 = true;
            crate::sched::interfere();
        }
        if self.0.f.get() >= 0 {
            self.0.f.set(self.0.f.get() + 1);
            Some(TReadGuard(self.0))
        } else {
            contended();
            None
        }
    }
}
crate::leaf!(['a, T: ?Sized] TRead<'a, T>);
impl<T> TRwLock<T> {
    pub const fn new(t: T) -> Self {
        TRwLock { f: Flag::new(), v: UnsafeCell::new(t) }
    }
    pub fn read(&self) -> TRead<'_, T> {
        TRead(self, false)
    }
    pub fn write(&self) -> TWrite<'_, T> {
        TWrite(self, false)
    }
}

// ---------------- oneshot (tokio::sync::oneshot and the oneshot crate)
enum Chan<T> {
    Empty,
    Full(T),
    TxGone,
    RxGone,
    Taken,
}
struct Shared<T>(UnsafeCell<Chan<T>>);
unsafe impl<T> Send for Shared<T> {}
unsafe impl<T> Sync for Shared<T> {}
impl<T> Shared<T> {
    fn st(&self) -> &mut Chan<T> {
        unsafe { &mut *self.0.get() }
    }
}
pub struct OneTx<T>(Arc<Shared<T>>);
pub struct OneRx<T>(Arc<Shared<T>>);
#[derive(Debug, PartialEq, Eq)]
pub struct RecvError;
impl std::fmt::Display for RecvError {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("recv")
    }
}
impl std::error::Error for RecvError {}
pub fn one_channel<T>() -> (OneTx<T>, OneRx<T>) {
    let s = Arc::new(Shared(UnsafeCell::new(Chan::Empty)));
    (OneTx(s.clone()), OneRx(s))
}
impl<T> OneTx<T> {
    pub fn send(self, t: T) -> Result<(), T> {
        match self.0.st() {
            Chan::RxGone => Err(t),
            s => {
                *s = Chan::Full(t);
                Ok(())
            }
        }
    }
    pub fn is_closed(&self) -> bool {
        matches!(self.0.st(), Chan::RxGone)
    }
}
impl<T> Drop for OneTx<T> {
    fn drop(&mut self) {
        let s = self.0.st();
        if let Chan::Empty = s {
            *s = Chan::TxGone
        }
    }
}
impl<T> OneRx<T> {
    /// observation for harnesses: has a value been sent?
    pub fn is_full(&self) -> bool {
        matches!(self.0.st(), Chan::Full(_))
    }
    /// observation for harnesses: was the sender dropped without sending?
    pub fn is_abandoned(&self) -> bool {
        matches!(self.0.st(), Chan::TxGone)
    }
    pub fn try_recv(&mut self) -> Result<T, RecvError> {
        let s = self.0.st();
        if let Chan::Full(_) = s {
            if let Chan::Full(t) = std::mem::replace(s, Chan::Taken) {
                return Ok(t);
            }
        }
        Err(RecvError)
    }
}
impl<T> Drop for OneRx<T> {
    fn drop(&mut self) {
        let s = self.0.st();
        if let Chan::Empty = s {
            *s = Chan::RxGone
        }
    }
}
impl<T> Leaf for OneRx<T> {
    type Out = Result<T, RecvError>;
    fn attempt(&mut self) -> Option<Result<T, RecvError>> {
        let s = self.0.st();
        match s {
            Chan::Full(_) => match std::mem::replace(s, Chan::Taken) {
                Chan::Full(t) => Some(Ok(t)),
                _ => unreachable!(),
            },
            Chan::TxGone => Some(Err(RecvError)),
            _ => None,
        }
    }
}
crate::leaf!([T] OneRx<T>);

// ---------------- Notify
pub struct Notify(Flag);
unsafe impl Send for Notify {}
unsafe impl Sync for Notify {}
impl Notify {
    pub const fn new() -> Self {
        Notify(Flag::new())
    }
    pub fn notify_one(&self) {
        self.0.set(1)
    }
    pub fn notify_waiters(&self) {
        self.0.set(1)
    }
    pub fn notified(&self) -> Notified<'_> {
        Notified(self)
    }
}
pub struct Notified<'a>(&'a Notify);
unsafe impl Send for Notified<'_> {}
impl Leaf for Notified<'_> {
    type Out = ();
    fn attempt(&mut self) -> Option<()> {
        if self.0 .0.get() == 1 {
            self.0 .0.set(0);
            Some(())
        } else {
            None
        }
    }
}
crate::leaf!(['a] Notified<'a>);

// ---------------- flume
pub struct FlumeQ<T>(UnsafeCell<(Vec<Option<T>>, usize)>);
unsafe impl<T> Send for FlumeQ<T> {}
unsafe impl<T> Sync for FlumeQ<T> {}
pub struct FlumeTx<T>(Arc<FlumeQ<T>>);
pub struct FlumeRx<T>(Arc<FlumeQ<T>>);
impl<T> Clone for FlumeTx<T> {
    fn clone(&self) -> Self {
        FlumeTx(self.0.clone())
    }
}
impl<T> Clone for FlumeRx<T> {
    fn clone(&self) -> Self {
        FlumeRx(self.0.clone())
    }
}
#[derive(Debug)]
pub struct SendError<T>(pub T);
impl<T> std::fmt::Display for SendError<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("send")
    }
}
pub fn flume<T>() -> (FlumeTx<T>, FlumeRx<T>) {
    let q = Arc::new(FlumeQ(UnsafeCell::new((Vec::new(), 0))));
    (FlumeTx(q.clone()), FlumeRx(q))
}
impl<T> FlumeTx<T> {
    pub fn send(&self, t: T) -> Result<(), SendError<T>> {
        unsafe { (*self.0 .0.get()).0.push(Some(t)) };
        Ok(())
    }
}
impl<T> FlumeRx<T> {
    fn pop(&self) -> Option<T> {
        let q = unsafe { &mut *self.0 .0.get() };
        if q.1 < q.0.len() {
            let x = q.0[q.1].take();
            q.1 += 1;
            x
        } else {
            None
        }
    }
    /// An empty queue would block the (only) thread: modelled as an error.
    pub fn recv(&self) -> Result<T, RecvError> {
        self.pop().ok_or(RecvError)
    }
    pub fn try_recv(&self) -> Result<T, RecvError> {
        self.pop().ok_or(RecvError)
    }
    pub fn drain(&self) -> Drain<'_, T> {
        Drain(self)
    }
    pub fn try_iter(&self) -> Drain<'_, T> {
        Drain(self)
    }
    pub fn len(&self) -> usize {
        let q = unsafe { &*self.0 .0.get() };
        q.0.len() - q.1
    }
    pub fn is_empty(&self) -> bool {
        self.len() == 0
    }
}
pub struct Drain<'a, T>(&'a FlumeRx<T>);
impl<T> Iterator for Drain<'_, T> {
    type Item = T;
    fn next(&mut self) -> Option<T> {
        self.0.pop()
    }
}
