//! `tonic`: messages travel as values.
use crate::fut::Stream;
use crate::uri::Uri;
use std::pin::Pin;
use std::time::Duration;

pub struct Request<T>(pub T);
impl<T> Request<T> {
    pub fn new(t: T) -> Self {
        Request(t)
    }
    pub fn into_inner(self) -> T {
        self.0
    }
    pub fn get_ref(&self) -> &T {
        &self.0
    }
}
pub struct Response<T>(pub T);
impl<T> Response<T> {
    pub fn new(t: T) -> Self {
        Response(t)
    }
    pub fn into_inner(self) -> T {
        self.0
    }
    pub fn get_ref(&self) -> &T {
        &self.0
    }
}
impl<T> std::fmt::Debug for Response<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("Response")
    }
}
pub struct Status;
macro_rules! st {
    ($($n:ident),*) => { $( pub fn $n<M>(_: M) -> Self { Status } )* };
}
impl Status {
    st!(unknown, internal, not_found, unavailable, invalid_argument, failed_precondition, aborted,
        cancelled, permission_denied, unimplemented, resource_exhausted, already_exists, deadline_exceeded);
    pub fn message(&self) -> &str {
        "status"
    }
}
impl std::fmt::Debug for Status {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("status")
    }
}
impl std::fmt::Display for Status {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str("status")
    }
}
impl std::error::Error for Status {}

#[cfg(any(kani, ka))]
mod streaming {
    use super::Status;
    use crate::fut::{Buf, Stream};
    pub struct Streaming<T>(pub Buf<Result<T, Status>>);
    impl<T> Stream for Streaming<T> {
        type Item = Result<T, Status>;
        fn knext(&mut self) -> Option<Self::Item> {
            self.0.knext()
        }
    }
    /// A stream of messages given in advance (harnesses).
    pub fn fixed<T: Send + 'static, const N: usize>(s: [Result<T, Status>; N]) -> Streaming<T> {
        Streaming(Buf::fixed(s))
    }
    impl<T> Streaming<T> {
        pub fn message(&mut self) -> crate::fut::Done<Result<Option<T>, Status>> {
            crate::fut::done(match self.0.knext() {
                None => Ok(None),
                Some(Ok(x)) => Ok(Some(x)),
                Some(Err(e)) => Err(e),
            })
        }
    }
}
#[cfg(not(any(kani, ka)))]
mod streaming {
    use super::Status;
    use crate::fut::{Stream, StreamExt};
    use std::pin::Pin;
    use std::task::{Context, Poll};
    pub struct Streaming<T>(pub Pin<Box<dyn Stream<Item = Result<T, Status>> + Send>>);
    impl<T> Unpin for Streaming<T> {}
    impl<T> Stream for Streaming<T> {
        type Item = Result<T, Status>;
        fn poll_next(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Option<Self::Item>> {
            self.0.as_mut().poll_next(cx)
        }
    }
    pub fn fixed<T: Send + 'static, const N: usize>(s: [Result<T, Status>; N]) -> Streaming<T> {
        Streaming(crate::fut::given(s))
    }
    impl<T: 'static> Streaming<T> {
        pub async fn message(&mut self) -> Result<Option<T>, Status> {
            match self.next().await {
                None => Ok(None),
                Some(Ok(x)) => Ok(Some(x)),
                Some(Err(e)) => Err(e),
            }
        }
    }
}
pub use streaming::{fixed, Streaming};

/// peer at the other end of the connection
#[derive(Clone, Debug)]
pub struct Channel(pub Uri);
pub struct Endpoint(pub Uri);
impl From<Uri> for Endpoint {
    fn from(u: Uri) -> Self {
        Endpoint(u)
    }
}
impl Endpoint {
    pub fn http2_keep_alive_interval(self, _: Duration) -> Self {
        self
    }
    pub fn keep_alive_while_idle(self, _: bool) -> Self {
        self
    }
    pub fn keep_alive_timeout(self, _: Duration) -> Self {
        self
    }
    pub fn timeout(self, _: Duration) -> Self {
        self
    }
    pub fn connect_timeout(self, _: Duration) -> Self {
        self
    }
    pub fn tcp_nodelay(self, _: bool) -> Self {
        self
    }
    pub fn connect_lazy(&self) -> Channel {
        Channel(self.0)
    }
}

pub trait IntoRequest<T> {
    fn into_request(self) -> Request<T>;
}
impl<T> IntoRequest<T> for T {
    fn into_request(self) -> Request<T> {
        Request(self)
    }
}
impl<T> IntoRequest<T> for Request<T> {
    fn into_request(self) -> Request<T> {
        self
    }
}
