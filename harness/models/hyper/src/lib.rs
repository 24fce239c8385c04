//! An HTTP server without sockets: the harness asks, `SERVER` answers. The `http` types are the real ones.
pub use http::{header, Method, Request, Response, StatusCode, Uri, HeaderMap, Version};
use std::cell::RefCell;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::task::{Context, Poll};
pub struct Body(pub Vec<u8>);
impl Body {
    pub fn empty() -> Self {
        Body(vec![])
    }
}
impl Default for Body {
    fn default() -> Self {
        Body(vec![])
    }
}
impl From<String> for Body {
    fn from(s: String) -> Self {
        Body(s.into_bytes())
    }
}
impl From<&'static str> for Body {
    fn from(s: &'static str) -> Self {
        Body(s.as_bytes().to_vec())
    }
}
impl From<Vec<u8>> for Body {
    fn from(s: Vec<u8>) -> Self {
        Body(s)
    }
}
#[derive(Debug)]
pub struct Error;
impl std::fmt::Display for Error {
    fn fmt(&self, _: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        Ok(())
    }
}
impl std::error::Error for Error {}
pub mod body {
    pub use crate::Body;
}
pub mod server {
    pub use crate::Server;
    pub mod conn {
        pub struct AddrStream;
    }
}
pub type Answer = Pin<Box<dyn Future<Output = Result<Response<Body>, ()>>>>;
pub type Serve = Box<dyn FnMut(Request<Body>) -> Answer>;
pub struct Running {
    pub addr: SocketAddr,
    /// A new connection.
    pub accept: Box<dyn FnMut() -> Pin<Box<dyn Future<Output = Result<Serve, ()>>>>>,
}
pub static mut SERVER: Vec<Running> = vec![];
pub mod service {
    use super::*;
    pub struct ServiceFn<F>(pub(crate) RefCell<F>);
    pub fn service_fn<F, Fut, E>(f: F) -> ServiceFn<F>
    where
        F: FnMut(Request<Body>) -> Fut,
        Fut: Future<Output = Result<Response<Body>, E>>,
    {
        ServiceFn(RefCell::new(f))
    }
    pub struct MakeServiceFn<F>(pub(crate) F);
    pub fn make_service_fn<F, Fut>(f: F) -> MakeServiceFn<F>
    where
        F: FnMut(&server::conn::AddrStream) -> Fut,
        Fut: Future,
    {
        MakeServiceFn(f)
    }
    pub trait Service {
        fn run(self) -> Serve;
    }
    impl<F, Fut, E> Service for ServiceFn<F>
    where
        F: FnMut(Request<Body>) -> Fut + 'static,
        Fut: Future<Output = Result<Response<Body>, E>> + 'static,
    {
        fn run(self) -> Serve {
            let mut f = self.0.into_inner();
            Box::new(move |r| {
                let a = f(r);
                Box::pin(async move { a.await.map_err(|_| ()) })
            })
        }
    }
}
pub struct Server(SocketAddr);
impl Server {
    pub fn bind(a: &SocketAddr) -> Self {
        Server(*a)
    }
    pub fn try_bind(a: &SocketAddr) -> Result<Self, Error> {
        Ok(Server(*a))
    }
    pub fn serve<F, Fut, S, E>(self, m: service::MakeServiceFn<F>) -> Serving
    where
        F: FnMut(&server::conn::AddrStream) -> Fut + 'static,
        Fut: Future<Output = Result<S, E>> + 'static,
        S: service::Service + 'static,
    {
        let mut f = m.0;
        Serving(Some(Running {
            addr: self.0,
            accept: Box::new(move || {
                let c = f(&server::conn::AddrStream);
                Box::pin(async move { c.await.map(|s| s.run()).map_err(|_| ()) })
            }),
        }))
    }
}
/// Accepts connections once it is polled.
pub struct Serving(Option<Running>);
unsafe impl Send for Serving {}
impl Unpin for Serving {}
impl Future for Serving {
    type Output = Result<(), Error>;
    #[allow(static_mut_refs)]
    fn poll(mut self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<Self::Output> {
        if let Some(r) = self.0.take() {
            unsafe { SERVER.push(r) };
        }
        unsafe { PARKED() };
        Poll::Pending
    }
}
/// What a task does that waits for connections for ever.
pub static mut PARKED: fn() = || {};
