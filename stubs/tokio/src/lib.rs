//! The part of tokio the repository uses, on top of an environment the harness provides.
pub use tokio_macros_stub::{main, test};
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::task::Poll;

/// What the harness decides: every operation completes, is not ready yet, or fails.
pub trait Env {
    /// A task lets others go first, and wants to be run again.
    fn yielded(&mut self);
    fn bind(&mut self, addr: SocketAddr) -> std::io::Result<()>;
    fn accept(&mut self) -> Poll<std::io::Result<u32>>;
    fn connect(&mut self, addr: SocketAddr) -> Poll<std::io::Result<u32>>;
    fn read(&mut self, conn: u32, buf: &mut [u8]) -> Poll<std::io::Result<usize>>;
    fn write(&mut self, conn: u32, buf: &[u8]) -> Poll<std::io::Result<usize>>;
    fn shutdown(&mut self, conn: u32);
    fn close(&mut self, conn: u32);
    fn spawn(&mut self, f: Pin<Box<dyn Future<Output = ()>>>);
}
static mut ENV: Option<Box<dyn Env>> = None;
pub fn set_env(e: Box<dyn Env>) {
    unsafe { ENV = Some(e) }
}
#[allow(static_mut_refs)]
pub fn env() -> &'static mut dyn Env {
    unsafe { &mut **ENV.as_mut().unwrap() }
}

pub fn spawn<F: Future + Send + 'static>(f: F) -> task::JoinHandle
where
    F::Output: Send + 'static,
{
    env().spawn(Box::pin(async {
        f.await;
    }));
    task::JoinHandle
}
pub mod task {
    pub use super::spawn;
    pub struct JoinHandle;
    /// Ready the second time.
    pub async fn yield_now() {
        let mut once = false;
        super::op(|| {
            if std::mem::replace(&mut once, true) {
                std::task::Poll::Ready(())
            } else {
                super::env().yielded();
                std::task::Poll::Pending
            }
        })
        .await
    }
}
async fn op<T>(mut f: impl FnMut() -> Poll<T>) -> T {
    std::future::poll_fn(move |_| f()).await
}
pub mod net {
    use super::*;
    use std::io::Result;
    pub use std::net::ToSocketAddrs;
    fn first<A: ToSocketAddrs>(a: A) -> Result<SocketAddr> {
        a.to_socket_addrs()?.next().ok_or_else(|| std::io::ErrorKind::InvalidInput.into())
    }
    pub struct TcpStream(pub(crate) u32);
    impl TcpStream {
        pub async fn connect<A: ToSocketAddrs>(a: A) -> Result<TcpStream> {
            let a = first(a)?;
            Ok(TcpStream(op(|| env().connect(a)).await?))
        }
        pub fn set_nodelay(&self, _: bool) -> Result<()> {
            Ok(())
        }
    }
    impl Drop for TcpStream {
        fn drop(&mut self) {
            env().close(self.0)
        }
    }
    pub struct TcpListener(());
    impl TcpListener {
        pub async fn bind<A: ToSocketAddrs>(a: A) -> Result<TcpListener> {
            env().bind(first(a)?)?;
            Ok(TcpListener(()))
        }
        pub async fn accept(&self) -> Result<(TcpStream, SocketAddr)> {
            let c = op(|| env().accept()).await?;
            Ok((TcpStream(c), SocketAddr::from(([127, 0, 0, 1], 4000))))
        }
    }
}
pub mod io {
    use super::*;
    use std::io::{ErrorKind, Result};
    pub trait AsyncRead {
        fn conn(&self) -> u32;
    }
    pub trait AsyncWrite {
        fn wconn(&self) -> u32;
    }
    impl AsyncRead for net::TcpStream {
        fn conn(&self) -> u32 {
            self.0
        }
    }
    impl AsyncWrite for net::TcpStream {
        fn wconn(&self) -> u32 {
            self.0
        }
    }
    impl<T: AsyncRead + ?Sized> AsyncRead for &mut T {
        fn conn(&self) -> u32 {
            (**self).conn()
        }
    }
    impl<T: AsyncWrite + ?Sized> AsyncWrite for &mut T {
        fn wconn(&self) -> u32 {
            (**self).wconn()
        }
    }
    pub trait AsyncReadExt: AsyncRead {
        fn read<'a>(&'a mut self, buf: &'a mut [u8]) -> impl Future<Output = Result<usize>> + Send + 'a {
            let c = self.conn();
            op(move || env().read(c, buf))
        }
        fn read_exact<'a>(&'a mut self, buf: &'a mut [u8]) -> impl Future<Output = Result<usize>> + Send + 'a {
            let c = self.conn();
            let mut at = 0;
            op(move || {
                while at < buf.len() {
                    match env().read(c, &mut buf[at..]) {
                        Poll::Pending => return Poll::Pending,
                        Poll::Ready(Ok(0)) => return Poll::Ready(Err(ErrorKind::UnexpectedEof.into())),
                        Poll::Ready(Ok(n)) => at += n,
                        Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    }
                }
                Poll::Ready(Ok(at))
            })
        }
        fn read_u16<'a>(&'a mut self) -> impl Future<Output = Result<u16>> + Send + 'a
        where
            Self: Send,
        {
            async move {
                let mut b = [0; 2];
                self.read_exact(&mut b).await?;
                Ok(u16::from_be_bytes(b))
            }
        }
    }
    pub trait AsyncWriteExt: AsyncWrite {
        fn write<'a>(&'a mut self, buf: &'a [u8]) -> impl Future<Output = Result<usize>> + Send + 'a {
            let c = self.wconn();
            op(move || env().write(c, buf))
        }
        fn write_all<'a>(&'a mut self, buf: &'a [u8]) -> impl Future<Output = Result<()>> + Send + 'a {
            let c = self.wconn();
            let mut at = 0;
            op(move || {
                while at < buf.len() {
                    match env().write(c, &buf[at..]) {
                        Poll::Pending => return Poll::Pending,
                        Poll::Ready(Ok(0)) => return Poll::Ready(Err(ErrorKind::WriteZero.into())),
                        Poll::Ready(Ok(n)) => at += n,
                        Poll::Ready(Err(e)) => return Poll::Ready(Err(e)),
                    }
                }
                Poll::Ready(Ok(()))
            })
        }
        fn write_u16<'a>(&'a mut self, v: u16) -> impl Future<Output = Result<()>> + Send + 'a
        where
            Self: Send,
        {
            async move { self.write_all(&v.to_be_bytes()).await }
        }
        fn flush<'a>(&'a mut self) -> impl Future<Output = Result<()>> + Send + 'a {
            op(|| Poll::Ready(Ok(())))
        }
        fn shutdown<'a>(&'a mut self) -> impl Future<Output = Result<()>> + Send + 'a {
            let c = self.wconn();
            op(move || {
                env().shutdown(c);
                Poll::Ready(Ok(()))
            })
        }
    }
    impl<T: AsyncRead + ?Sized> AsyncReadExt for T {}
    impl<T: AsyncWrite + ?Sized> AsyncWriteExt for T {}
}
