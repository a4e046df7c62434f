//! The asynchronous clients, on the stub of tokio.
use crate::api::*;
use crate::h_net::*;
use crate::spec::*;
use dnssec_prover::query::*;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};

/// One connection, for the asynchronous client.
struct One;
fn poll(e: Ev) -> Poll<std::io::Result<usize>> {
    match e {
        Ev::N(n) => Poll::Ready(Ok(n)),
        Ev::Again => Poll::Pending,
        Ev::Fail => Poll::Ready(Err(std::io::ErrorKind::ConnectionReset.into())),
    }
}
pub fn addr_bytes(a: SocketAddr) -> Vec<u8> {
    let mut o = vec![if a.is_ipv4() { 2 } else { 10 }, 0];
    o.extend_from_slice(&a.port().to_be_bytes());
    match a {
        SocketAddr::V4(a) => o.extend_from_slice(&a.ip().octets()),
        SocketAddr::V6(a) => {
            o.extend_from_slice(&[0; 4]);
            o.extend_from_slice(&a.ip().octets());
        }
    }
    o
}
impl tokio::Env for One {
    fn yielded(&mut self) {}
    fn bind(&mut self, _: SocketAddr) -> std::io::Result<()> {
        check(false, "clients do not listen");
        Ok(())
    }
    fn accept(&mut self) -> Poll<std::io::Result<u32>> {
        Poll::Pending
    }
    fn connect(&mut self, addr: SocketAddr) -> Poll<std::io::Result<u32>> {
        let n = net();
        if n.refuse {
            n.failed = true;
            return Poll::Ready(Err(std::io::ErrorKind::ConnectionRefused.into()));
        }
        if n.eintr > 0 && choose(2) == 1 {
            n.eintr -= 1;
            return Poll::Pending;
        }
        n.open += 1;
        n.connected = Some(addr_bytes(addr));
        Poll::Ready(Ok(77))
    }
    fn read(&mut self, _: u32, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
        poll(net().read(b))
    }
    fn write(&mut self, _: u32, b: &[u8]) -> Poll<std::io::Result<usize>> {
        poll(net().write(b))
    }
    fn shutdown(&mut self, _: u32) {}
    fn close(&mut self, c: u32) {
        check(c == 77 && net().open > 0, "only what was opened is closed");
        net().open -= 1;
    }
    fn spawn(&mut self, _: Pin<Box<dyn Future<Output = ()>>>) {
        check(false, "clients do not spawn tasks");
    }
}
pub fn run<T>(mut f: Pin<Box<dyn Future<Output = T>>>) -> T {
    let mut cx = Context::from_waker(Waker::noop());
    loop {
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return r;
        }
    }
}
pub fn client_async() {
    let s = setup(param(0), param(1), param(2));
    tokio::set_env(Box::new(One));
    let (ty, ai, name) = asked(param(3));
    let n2 = name.clone();
    let addr: SocketAddr = RESOLVERS[ai].parse().unwrap();
    let r = run(Box::pin(async move {
        match ty {
            1 => build_a_proof_async(addr, &n2).await,
            28 => build_aaaa_proof_async(addr, &n2).await,
            16 => build_txt_proof_async(addr, &n2).await,
            _ => build_tlsa_proof_async(addr, &n2).await,
        }
    }));
    if let Some(a) = &net().connected {
        let w = sockaddr(ai);
        check(a.starts_with(&w), "the resolver is the one which was asked for");
    }
    judge(&name, ty, &s, r);
    check(net().open == 0, "the connection is closed");
}
