//! Executor and the parts of `futures` the code uses (native replay build).
use std::pin::Pin;
use std::task::{Context, Poll, RawWaker, RawWakerVTable, Waker};
pub use std::future::{ready, Future};
pub use futures_core::Stream;
pub use crate::sched::*;

fn vt_clone(_: *const ()) -> RawWaker {
    RawWaker::new(std::ptr::null(), &VT)
}
fn vt_nop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(vt_clone, vt_nop, vt_nop, vt_nop);

fn waker() -> Waker {
    unsafe { Waker::from_raw(RawWaker::new(std::ptr::null(), &VT)) }
}

/// Poll once.
pub fn poll_once<F: Future + ?Sized>(f: Pin<&mut F>) -> Poll<F::Output> {
    let w = waker();
    let mut cx = Context::from_waker(&w);
    f.poll(&mut cx)
}

/// Run to completion.
pub fn run<F: Future>(f: F) -> F::Output {
    let mut f = f;
    let mut f = unsafe { Pin::new_unchecked(&mut f) };
    let mut k = 0;
    loop {
        match poll_once(f.as_mut()) {
            Poll::Ready(x) => return x,
            Poll::Pending => {
                if k == 8 {
                    blocked()
                }
                k += 1;
                idle()
            }
        }
    }
}

#[macro_export]
macro_rules! leaf {
    ([$($g:tt)*] $t:ty) => {
        impl<$($g)*> std::future::Future for $t {
            type Output = <Self as $crate::sched::Leaf>::Out;
            fn poll(mut self: std::pin::Pin<&mut Self>, _: &mut std::task::Context<'_>) -> std::task::Poll<Self::Output> {
                match $crate::sched::Leaf::attempt(unsafe { self.as_mut().get_unchecked_mut() }) {
                    Some(x) => std::task::Poll::Ready(x),
                    None => std::task::Poll::Pending,
                }
            }
        }
    };
}

// ---- futures::future
pub struct JoinAll<F: Future> {
    futs: Vec<Option<Pin<Box<F>>>>,
    outs: Vec<Option<F::Output>>,
}
impl<F: Future> Unpin for JoinAll<F> {}
impl<F: Future> Future for JoinAll<F> {
    type Output = Vec<F::Output>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = &mut *self;
        let mut done = true;
        let n = this.futs.len();
        let mut i = 0;
        while i < n {
            if let Some(f) = &mut this.futs[i] {
                match f.as_mut().poll(cx) {
                    Poll::Ready(x) => {
                        this.outs[i] = Some(x);
                        this.futs[i] = None;
                    }
                    Poll::Pending => done = false,
                }
            }
            i += 1;
        }
        if done {
            let outs = std::mem::take(&mut this.outs);
            let mut v = Vec::with_capacity(n);
            for x in outs {
                if let Some(x) = x {
                    v.push(x)
                }
            }
            Poll::Ready(v)
        } else {
            Poll::Pending
        }
    }
}
pub fn join_all<I: IntoIterator>(it: I) -> JoinAll<I::Item>
where
    I::Item: Future,
{
    let mut futs = vec![];
    let mut outs = vec![];
    for f in it {
        futs.push(Some(Box::pin(f)));
        outs.push(None);
    }
    JoinAll { futs, outs }
}
pub async fn try_join_all<I, T, E>(it: I) -> Result<Vec<T>, E>
where
    I: IntoIterator,
    I::Item: Future<Output = Result<T, E>>,
{
    let outs = join_all(it).await;
    let mut v = Vec::with_capacity(outs.len());
    for x in outs {
        v.push(x?);
    }
    Ok(v)
}
pub async fn join<A: Future, B: Future>(a: A, b: B) -> (A::Output, B::Output) {
    let mut a = Box::pin(a);
    let mut b = Box::pin(b);
    let mut ra = None;
    let mut rb = None;
    std::future::poll_fn(move |cx| {
        if ra.is_none() {
            if let Poll::Ready(x) = a.as_mut().poll(cx) {
                ra = Some(x)
            }
        }
        if rb.is_none() {
            if let Poll::Ready(x) = b.as_mut().poll(cx) {
                rb = Some(x)
            }
        }
        if ra.is_some() && rb.is_some() {
            Poll::Ready((ra.take().unwrap(), rb.take().unwrap()))
        } else {
            Poll::Pending
        }
    })
    .await
}

// ---- futures::stream
/// Completion order is arbitrary.
pub struct FuturesUnordered<F> {
    q: std::cell::UnsafeCell<(Vec<Option<Pin<Box<F>>>>, usize)>,
}
impl<F> Unpin for FuturesUnordered<F> {}
unsafe impl<F: Send> Send for FuturesUnordered<F> {}
unsafe impl<F: Send> Sync for FuturesUnordered<F> {}
impl<F: Future> FuturesUnordered<F> {
    pub fn new() -> Self {
        Self { q: std::cell::UnsafeCell::new((Vec::new(), 0)) }
    }
    fn q(&self) -> &mut (Vec<Option<Pin<Box<F>>>>, usize) {
        unsafe { &mut *self.q.get() }
    }
    pub fn push(&self, f: F) {
        let q = self.q();
        q.0.push(Some(Box::pin(f)));
        q.1 += 1;
    }
    pub fn len(&self) -> usize {
        self.q().1
    }
    pub fn is_empty(&self) -> bool {
        self.q().1 == 0
    }
}
impl<F: Future> FromIterator<F> for FuturesUnordered<F> {
    fn from_iter<I: IntoIterator<Item = F>>(it: I) -> Self {
        let q = Self::new();
        for f in it {
            q.push(f)
        }
        q
    }
}
impl<F: Future> Extend<F> for FuturesUnordered<F> {
    fn extend<I: IntoIterator<Item = F>>(&mut self, it: I) {
        for f in it {
            self.push(f)
        }
    }
}
impl<F: Future> Stream for FuturesUnordered<F> {
    type Item = F::Output;
    fn poll_next(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<F::Output>> {
        let (futs, left) = self.q();
        if *left == 0 {
            return Poll::Ready(None);
        }
        let n = futs.len();
        // any of those still outstanding may be the next to complete
        let pick = crate::nd::below(n as u8) as usize;
        crate::nd::assume(futs[pick].is_some());
        match &mut futs[pick] {
            Some(f) => match f.as_mut().poll(cx) {
                Poll::Ready(x) => {
                    futs[pick] = None;
                    *left -= 1;
                    Poll::Ready(Some(x))
                }
                Poll::Pending => Poll::Pending,
            },
            None => Poll::Pending,
        }
    }
}

pub struct Next<'a, S: ?Sized>(&'a mut S);
impl<S: Stream + Unpin + ?Sized> Future for Next<'_, S> {
    type Output = Option<S::Item>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        Pin::new(&mut *self.0).poll_next(cx)
    }
}
pub struct Map<S, F>(S, F);
impl<S: Unpin, F> Unpin for Map<S, F> {}
impl<S: Stream + Unpin, F: FnMut(S::Item) -> T, T> Stream for Map<S, F> {
    type Item = T;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<T>> {
        let this = &mut *self;
        match Pin::new(&mut this.0).poll_next(cx) {
            Poll::Ready(Some(x)) => Poll::Ready(Some((this.1)(x))),
            Poll::Ready(None) => Poll::Ready(None),
            Poll::Pending => Poll::Pending,
        }
    }
}
pub struct Chain<A, B>(Option<A>, B);
impl<A: Unpin, B: Unpin> Unpin for Chain<A, B> {}
impl<A: Stream + Unpin, B: Stream<Item = A::Item> + Unpin> Stream for Chain<A, B> {
    type Item = A::Item;
    fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<A::Item>> {
        let this = &mut *self;
        if let Some(a) = &mut this.0 {
            match Pin::new(a).poll_next(cx) {
                Poll::Ready(None) => this.0 = None,
                x => return x,
            }
        }
        Pin::new(&mut this.1).poll_next(cx)
    }
}
pub struct Iter<I>(I);
impl<I> Unpin for Iter<I> {}
impl<I: Iterator> Stream for Iter<I> {
    type Item = I::Item;
    fn poll_next(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Option<I::Item>> {
        Poll::Ready(self.0.next())
    }
}
pub fn iter<I: IntoIterator>(it: I) -> Iter<I::IntoIter> {
    Iter(it.into_iter())
}
/// A stream of items given in advance (harnesses).
pub fn given<T: Send + 'static, const N: usize>(s: [T; N]) -> Pin<Box<dyn Stream<Item = T> + Send>> {
    Box::pin(iter(s))
}
pub struct Collect<S: Stream, C>(S, Option<C>);
impl<S: Stream, C> Unpin for Collect<S, C> {}
impl<S: Stream + Unpin, C: Default + Extend<S::Item>> Future for Collect<S, C> {
    type Output = C;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<C> {
        let this = &mut *self;
        loop {
            match Pin::new(&mut this.0).poll_next(cx) {
                Poll::Ready(Some(x)) => {
                    if let Some(c) = &mut this.1 {
                        c.extend(Some(x))
                    }
                }
                Poll::Ready(None) => return Poll::Ready(this.1.take().unwrap()),
                Poll::Pending => return Poll::Pending,
            }
        }
    }
}
pub trait StreamExt: Stream {
    fn next(&mut self) -> Next<'_, Self>
    where
        Self: Unpin,
    {
        Next(self)
    }
    fn map<T, F: FnMut(Self::Item) -> T>(self, f: F) -> Map<Pin<Box<Self>>, F>
    where
        Self: Sized,
    {
        Map(Box::pin(self), f)
    }
    fn chain<B: Stream<Item = Self::Item>>(self, b: B) -> Chain<Pin<Box<Self>>, Pin<Box<B>>>
    where
        Self: Sized,
    {
        Chain(Some(Box::pin(self)), Box::pin(b))
    }
    fn collect<C: Default + Extend<Self::Item>>(self) -> Collect<Pin<Box<Self>>, C>
    where
        Self: Sized,
    {
        Collect(Box::pin(self), Some(C::default()))
    }
    fn boxed<'a>(self) -> Pin<Box<dyn Stream<Item = Self::Item> + Send + 'a>>
    where
        Self: Sized + Send + 'a,
    {
        Box::pin(self)
    }
}
impl<S: Stream + ?Sized> StreamExt for S {}


pub async fn timeout<F: Future>(f: F) -> Option<F::Output> {
    if crate::time_m::may_expire() && crate::nd::bool() {
        None
    } else {
        Some(f.await)
    }
}
