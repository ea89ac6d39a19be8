//! The synchronous counterpart of `fut.rs`: what `tools/deasync.py` rewrites
//! async code into. A future is something that can be run to completion;
//! other tasks run at the scheduling points (see `yield_point`).
use crate::nd;
use std::pin::Pin;
pub use crate::sched::*;

pub trait Future {
    type Output;
    fn kpoll(&mut self) -> Self::Output;
}
pub trait KWait: Future + Sized {
    #[inline]
    fn kwait(self) -> Self::Output {
        let mut s = self;
        s.kpoll()
    }
}
impl<F: Future> KWait for F {}
impl<F: Future + ?Sized> Future for Pin<Box<F>> {
    type Output = F::Output;
    fn kpoll(&mut self) -> F::Output {
        unsafe { self.as_mut().get_unchecked_mut() }.kpoll()
    }
}
impl<F: Future + ?Sized> Future for Box<F> {
    type Output = F::Output;
    fn kpoll(&mut self) -> F::Output {
        (**self).kpoll()
    }
}
impl<F: Future + ?Sized> Future for &mut F {
    type Output = F::Output;
    fn kpoll(&mut self) -> F::Output {
        (**self).kpoll()
    }
}
impl<F: Future + ?Sized> Future for Pin<&mut F> {
    type Output = F::Output;
    fn kpoll(&mut self) -> F::Output {
        unsafe { self.as_mut().get_unchecked_mut() }.kpoll()
    }
}

// An `Option` whose content is symbolic loses its discriminant in symbolic
// execution; hence slots with the discriminant beside them.
pub struct SlotOf<T> {
    on: bool,
    v: std::mem::MaybeUninit<T>,
}
impl<T> SlotOf<T> {
    pub const fn none() -> Self {
        SlotOf { on: false, v: std::mem::MaybeUninit::uninit() }
    }
    #[inline]
    pub fn some(t: T) -> Self {
        SlotOf { on: true, v: std::mem::MaybeUninit::new(t) }
    }
    pub fn is_some(&self) -> bool {
        self.on
    }
    #[inline]
    pub fn take(&mut self) -> T {
        if !self.on {
            panic!("KENV: polled after completion")
        }
        self.on = false;
        unsafe { self.v.assume_init_read() }
    }
}

/// A value that is taken once. No `MaybeUninit`: pointers inside a union are
/// opaque to symbolic execution.
pub struct Once<T> {
    on: bool,
    v: std::mem::ManuallyDrop<T>,
}
impl<T> Once<T> {
    #[inline]
    pub fn some(t: T) -> Self {
        Once { on: true, v: std::mem::ManuallyDrop::new(t) }
    }
    pub fn is_some(&self) -> bool {
        self.on
    }
    #[inline]
    pub fn take(&mut self) -> T {
        if !self.on {
            panic!("KENV: polled after completion")
        }
        self.on = false;
        unsafe { std::ptr::read(&*self.v) }
    }
}

pub struct Done<T>(Once<T>);
#[inline]
pub fn done<T>(t: T) -> Done<T> {
    Done(Once::some(t))
}
impl<T> Future for Done<T> {
    type Output = T;
    #[inline]
    fn kpoll(&mut self) -> T {
        self.0.take()
    }
}
pub fn ready<T>(t: T) -> Done<T> {
    done(t)
}
pub struct Lazy<F>(Once<F>);
#[inline]
pub fn lazy<T, F: FnOnce() -> T>(f: F) -> Lazy<F> {
    Lazy(Once::some(f))
}
impl<T, F: FnOnce() -> T> Future for Lazy<F> {
    type Output = T;
    #[inline]
    fn kpoll(&mut self) -> T {
        let f = self.0.take();
        f()
    }
}

#[macro_export]
macro_rules! leaf {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> $crate::fut::Future for $t {
            type Output = <Self as $crate::sched::Leaf>::Out;
            fn kpoll(&mut self) -> Self::Output {
                match $crate::sched::Leaf::attempt(self) {
                    Some(x) => x,
                    None => {
                        $crate::sched::idle();
                        match $crate::sched::Leaf::attempt(self) {
                            Some(x) => x,
                            None => $crate::sched::blocked(),
                        }
                    }
                }
            }
        }
    };
}

pub fn run<F: Future>(f: F) -> F::Output {
    f.kwait()
}

pub fn join_all<I: IntoIterator>(it: I) -> Done<Vec<<I::Item as Future>::Output>>
where
    I::Item: Future,
{
    let mut v = vec![];
    for f in it {
        v.push(f.kwait())
    }
    done(v)
}
pub fn try_join_all<I, T, E>(it: I) -> Done<Result<Vec<T>, E>>
where
    I: IntoIterator,
    I::Item: Future<Output = Result<T, E>>,
{
    let mut v = vec![];
    for f in it {
        match f.kwait() {
            Ok(x) => v.push(x),
            Err(e) => return done(Err(e)),
        }
    }
    done(Ok(v))
}
pub fn join<A: Future, B: Future>(a: A, b: B) -> Done<(A::Output, B::Output)> {
    let x = a.kwait();
    done((x, b.kwait()))
}

// ---- streams
pub trait Stream {
    type Item;
    fn knext(&mut self) -> Option<Self::Item>;
}
impl<S: Stream + ?Sized> Stream for Pin<Box<S>> {
    type Item = S::Item;
    fn knext(&mut self) -> Option<S::Item> {
        unsafe { self.as_mut().get_unchecked_mut() }.knext()
    }
}
impl<S: Stream + ?Sized> Stream for Box<S> {
    type Item = S::Item;
    fn knext(&mut self) -> Option<S::Item> {
        (**self).knext()
    }
}
impl<S: Stream + ?Sized> Stream for Pin<&mut S> {
    type Item = S::Item;
    fn knext(&mut self) -> Option<S::Item> {
        unsafe { self.as_mut().get_unchecked_mut() }.knext()
    }
}
impl<S: Stream + ?Sized> Stream for &mut S {
    type Item = S::Item;
    fn knext(&mut self) -> Option<S::Item> {
        (**self).knext()
    }
}

pub const SCAP: usize = 4;
pub struct Ys<T> {
    s: [SlotOf<T>; SCAP],
    n: usize,
}
impl<T> Ys<T> {
    fn new() -> Self {
        Ys { s: [const { SlotOf::none() }; SCAP], n: 0 }
    }
    pub fn put(&mut self, t: T) {
        assert!(self.n < SCAP, "KENV-CAPACITY");
        self.s[self.n] = SlotOf::some(t);
        self.n += 1;
    }
}
/// A generator: runs to its end when first polled.
pub struct StreamGen<T, F> {
    f: Once<F>,
    y: Ys<T>,
    at: usize,
}
impl<T, F> Unpin for StreamGen<T, F> {}
pub fn stream_gen<T, F: FnOnce(&mut Ys<T>)>(f: F) -> StreamGen<T, F> {
    StreamGen { f: Once::some(f), y: Ys::new(), at: 0 }
}
impl<T, F: FnOnce(&mut Ys<T>)> Stream for StreamGen<T, F> {
    type Item = T;
    fn knext(&mut self) -> Option<T> {
        if self.f.is_some() {
            let f = self.f.take();
            f(&mut self.y)
        }
        if self.at < self.y.n && self.at < SCAP {
            let x = self.y.s[self.at].take();
            self.at += 1;
            Some(x)
        } else {
            None
        }
    }
}

pub const BCAP: usize = SCAP + 1;
/// What `dyn Stream` becomes: the items, computed when the stream is boxed.
pub struct Buf<T> {
    s: [SlotOf<T>; BCAP],
    at: usize,
}
impl<T> Unpin for Buf<T> {}
impl<T> Buf<T> {
    pub fn of<S: Stream<Item = T>>(mut st: S) -> Self {
        let mut b = Buf { s: [const { SlotOf::none() }; BCAP], at: 0 };
        let mut i = 0;
        while i <= BCAP {
            match st.knext() {
                Some(x) => {
                    assert!(i < BCAP, "KENV-CAPACITY");
                    b.s[i] = SlotOf::some(x);
                }
                None => break,
            }
            i += 1;
        }
        std::mem::forget(st);
        b
    }
    /// Items given in advance (harnesses).
    pub fn fixed<const N: usize>(s: [T; N]) -> Self {
        let mut b = Buf { s: [const { SlotOf::none() }; BCAP], at: 0 };
        let mut i = 0;
        let s = std::mem::ManuallyDrop::new(s);
        while i < N {
            b.s[i] = SlotOf::some(unsafe { std::ptr::read(&s[i]) });
            i += 1;
        }
        b
    }
}
impl<T> Stream for Buf<T> {
    type Item = T;
    fn knext(&mut self) -> Option<T> {
        if self.at < BCAP && self.s[self.at].is_some() {
            let x = self.s[self.at].take();
            self.at += 1;
            Some(x)
        } else {
            None
        }
    }
}
/// A stream of items given in advance (harnesses).
pub fn given<T, const N: usize>(s: [T; N]) -> Pin<Box<Buf<T>>> {
    Box::pin(Buf::fixed(s))
}
pub trait BoxPin<R> {
    fn bpin(self) -> R;
}
impl<S: Stream> BoxPin<Pin<Box<Buf<S::Item>>>> for S {
    fn bpin(self) -> Pin<Box<Buf<S::Item>>> {
        Box::pin(Buf::of(self))
    }
}
pub fn bpin<R, S: BoxPin<R>>(s: S) -> R {
    s.bpin()
}

/// Completion order is arbitrary.
pub struct FuturesUnordered<F> {
    q: std::cell::UnsafeCell<([Option<F>; SCAP], usize, usize)>,
}
impl<F> Unpin for FuturesUnordered<F> {}
unsafe impl<F: Send> Send for FuturesUnordered<F> {}
unsafe impl<F: Send> Sync for FuturesUnordered<F> {}
impl<F: Future> FuturesUnordered<F> {
    pub fn new() -> Self {
        Self { q: std::cell::UnsafeCell::new(([const { None }; SCAP], 0, 0)) }
    }
    fn q(&self) -> &mut ([Option<F>; SCAP], usize, usize) {
        unsafe { &mut *self.q.get() }
    }
    pub fn push(&self, f: F) {
        let q = self.q();
        assert!(q.1 < SCAP, "KENV-CAPACITY");
        q.0[q.1] = Some(f);
        q.1 += 1;
        q.2 += 1;
    }
    pub fn len(&self) -> usize {
        self.q().2
    }
    pub fn is_empty(&self) -> bool {
        self.q().2 == 0
    }
}
impl<F: Future> FromIterator<F> for FuturesUnordered<F> {
    fn from_iter<I: IntoIterator<Item = F>>(it: I) -> Self {
        let q = Self::new();
        for f in it {
            q.push(f)
        }
        q
    }
}
impl<F: Future> Extend<F> for FuturesUnordered<F> {
    fn extend<I: IntoIterator<Item = F>>(&mut self, it: I) {
        for f in it {
            self.push(f)
        }
    }
}
impl<F: Future> Stream for FuturesUnordered<F> {
    type Item = F::Output;
    fn knext(&mut self) -> Option<F::Output> {
        let (futs, n, left) = self.q();
        if *left == 0 {
            return None;
        }
        let pick = nd::below(*n as u8) as usize;
        let mut f = None;
        let mut i = 0;
        while i < SCAP {
            if i == pick {
                f = futs[i].take();
            }
            i += 1;
        }
        nd::assume(f.is_some());
        *left -= 1;
        match f {
            Some(f) => Some(f.kwait()),
            None => None,
        }
    }
}

pub struct Map<S, F>(S, F);
impl<S: Stream, F: FnMut(S::Item) -> T, T> Stream for Map<S, F> {
    type Item = T;
    fn knext(&mut self) -> Option<T> {
        match self.0.knext() {
            Some(x) => Some((self.1)(x)),
            None => None,
        }
    }
}
pub struct Filter<S, F>(S, F);
impl<S: Stream, F: FnMut(&S::Item) -> R, R: Future<Output = bool>> Stream for Filter<S, F> {
    type Item = S::Item;
    fn knext(&mut self) -> Option<S::Item> {
        loop {
            match self.0.knext() {
                Some(x) => {
                    if (self.1)(&x).kwait() {
                        return Some(x);
                    }
                }
                None => return None,
            }
        }
    }
}
pub struct Take<S>(S, usize);
impl<S: Stream> Stream for Take<S> {
    type Item = S::Item;
    fn knext(&mut self) -> Option<S::Item> {
        if self.1 == 0 {
            return None;
        }
        self.1 -= 1;
        self.0.knext()
    }
}
pub struct Chain<A, B>(A, B, bool);
impl<A: Stream, B: Stream<Item = A::Item>> Stream for Chain<A, B> {
    type Item = A::Item;
    fn knext(&mut self) -> Option<A::Item> {
        if !self.2 {
            match self.0.knext() {
                None => self.2 = true,
                x => return x,
            }
        }
        self.1.knext()
    }
}
pub struct Iter<I>(I);
impl<I: Iterator> Stream for Iter<I> {
    type Item = I::Item;
    fn knext(&mut self) -> Option<I::Item> {
        self.0.next()
    }
}
pub fn iter<I: IntoIterator>(it: I) -> Iter<I::IntoIter> {
    Iter(it.into_iter())
}
pub fn once<F: Future>(f: F) -> Iter<std::option::IntoIter<F::Output>> {
    iter(Some(f.kwait()))
}
pub trait StreamExt: Stream {
    fn next(&mut self) -> Done<Option<Self::Item>> {
        done(self.knext())
    }
    fn map<T, F: FnMut(Self::Item) -> T>(self, f: F) -> Map<Self, F>
    where
        Self: Sized,
    {
        Map(self, f)
    }
    fn filter<R: Future<Output = bool>, F: FnMut(&Self::Item) -> R>(self, f: F) -> Filter<Self, F>
    where
        Self: Sized,
    {
        Filter(self, f)
    }
    fn take(self, n: usize) -> Take<Self>
    where
        Self: Sized,
    {
        Take(self, n)
    }
    fn chain<B: Stream<Item = Self::Item>>(self, b: B) -> Chain<Self, B>
    where
        Self: Sized,
    {
        Chain(self, b, false)
    }
    fn collect<C: Default + Extend<Self::Item>>(self) -> Done<C>
    where
        Self: Sized,
    {
        let mut s = self;
        let mut c = C::default();
        while let Some(x) = s.knext() {
            c.extend(Some(x))
        }
        done(c)
    }
    fn boxed(self) -> Pin<Box<Buf<Self::Item>>>
    where
        Self: Sized,
    {
        bpin(self)
    }
}
impl<S: Stream + ?Sized> StreamExt for S {}

pub trait FutureExt: Future {
    fn boxed<'a>(self) -> Pin<Box<dyn Future<Output = Self::Output> + Send + 'a>>
    where
        Self: Sized + Send + 'a,
    {
        Box::pin(self)
    }
    fn map<T, F: FnOnce(Self::Output) -> T>(self, f: F) -> Lazy<impl FnOnce() -> T>
    where
        Self: Sized,
    {
        lazy(move || f(self.kwait()))
    }
}
impl<F: Future> FutureExt for F {}

pub fn timeout<F: Future>(f: F) -> Lazy<impl FnOnce() -> Option<F::Output>> {
    lazy(move || {
        if crate::time_m::may_expire() && nd::bool() {
            std::mem::forget(f);
            None
        } else {
            Some(f.kwait())
        }
    })
}
