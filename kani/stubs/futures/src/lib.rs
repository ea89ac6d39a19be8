pub use kenv::fut::{Stream, StreamExt, Future};
#[cfg(any(kani, ka))]
pub use kenv::fut::FutureExt;
pub mod stream {
    pub use kenv::fut::{iter, FuturesUnordered, Stream, StreamExt};
    #[cfg(any(kani, ka))]
    pub use kenv::fut::once;
    pub mod futures_unordered { pub use kenv::fut::FuturesUnordered; }
    #[cfg(any(kani, ka))]
    pub type BoxStream<'a, T> = std::pin::Pin<Box<kenv::fut::Buf<T>>>;
    #[cfg(not(any(kani, ka)))]
    pub type BoxStream<'a, T> = std::pin::Pin<Box<dyn Stream<Item = T> + Send + 'a>>;
}
pub mod future {
    pub use kenv::fut::{join, join_all, ready, try_join_all, Future};
    pub type BoxFuture<'a, T> = std::pin::Pin<Box<dyn Future<Output = T> + Send + 'a>>;
}
#[macro_export]
macro_rules! pin_mut {
    ($($x:ident),* $(,)?) => { $(
        let mut $x = $x;
        #[allow(unused_mut)]
        let mut $x = unsafe { ::core::pin::Pin::new_unchecked(&mut $x) };
    )* };
}
pub use std::pin::pin;
