//! A resolver on the loopback interface, which says what the demonstration wants it to say in the pieces it wants, and a client for the server.
use crate::common::*;
use dnssec_prover::rr::*;
use std::io::{Read, Write};
use std::net::{SocketAddr, TcpListener, TcpStream};
use std::sync::{Arc, Mutex};
use std::time::Duration;

/// The name and type of a query (without its length).
pub fn question(q: &[u8]) -> (String, u16) {
    let mut p = 12;
    let mut n = String::new();
    while q[p] != 0 {
        n.push_str(std::str::from_utf8(&q[p + 1..p + 1 + q[p] as usize]).unwrap());
        n.push('.');
        p += 1 + q[p] as usize;
    }
    (if n.is_empty() { ".".to_string() } else { n }, u16::from_be_bytes([q[p + 1], q[p + 2]]))
}
/// A response with these answers.
pub fn records(rs: &[(RR, u32)]) -> Vec<u8> {
    let mut b = vec![];
    for (r, ttl) in rs {
        dnssec_prover::ser::write_rr(r, *ttl, &mut b);
    }
    response(rs.len() as u16, 0, &b)
}
/// The answer of a resolver which knows a record for every name, all signed by the root.
pub fn usual(q: &[u8]) -> Vec<u8> {
    let (n, ty) = question(q);
    let r = root_key();
    let set: Vec<RR> = match ty {
        48 => vec![r.clone().into()],
        1 => vec![A { name: nm(&n), address: [1, 2, 3, 4] }.into()],
        28 => vec![AAAA { name: nm(&n), address: [6; 16] }.into()],
        52 => vec![TLSA { name: nm(&n), cert_usage: 3, selector: 1, data_ty: 1, data: vec![5; 32] }.into()],
        _ => vec![txt(&n, b"text")],
    };
    records(&signed(&set, &r).into_iter().map(|r| (r, 77)).collect::<Vec<_>>())
}
/// What is to be sent for a response: pieces with pauses in between; the connection is closed after an empty piece.
pub type Say = fn(usize, &[u8]) -> Vec<Vec<u8>>;
pub fn framed(r: Vec<u8>) -> Vec<u8> {
    let mut v = (r.len() as u16).to_be_bytes().to_vec();
    v.extend(r);
    v
}
/// Everything at once.
pub fn whole(_: usize, q: &[u8]) -> Vec<Vec<u8>> {
    vec![framed(usual(q))]
}
/// Its address, and the queries it gets to see.
pub fn resolver(say: Say) -> (SocketAddr, Arc<Mutex<Vec<Vec<u8>>>>) {
    let l = TcpListener::bind("127.0.0.1:0").unwrap();
    let a = l.local_addr().unwrap();
    let seen = Arc::new(Mutex::new(vec![]));
    let s2 = seen.clone();
    std::thread::spawn(move || {
        for s in l.incoming() {
            let mut s = s.unwrap();
            s.set_nodelay(true).unwrap();
            let seen = s2.clone();
            std::thread::spawn(move || {
                let mut k = 0;
                'all: loop {
                    let mut l = [0; 2];
                    if s.read_exact(&mut l).is_err() {
                        break;
                    }
                    let mut q = vec![0; u16::from_be_bytes(l) as usize];
                    if s.read_exact(&mut q).is_err() {
                        break;
                    }
                    seen.lock().unwrap().push(q.clone());
                    for p in say(k, &q) {
                        if p.is_empty() || s.write_all(&p).is_err() {
                            break 'all;
                        }
                        std::thread::sleep(Duration::from_millis(100));
                    }
                    k += 1;
                }
            });
        }
    });
    (a, seen)
}
/// Runs a future to its end.
pub fn wait<T>(f: impl std::future::Future<Output = T>) -> T {
    tokio::runtime::Builder::new_multi_thread().worker_threads(1).enable_all().build().unwrap().block_on(f)
}
/// Gives up after some seconds (with `None`), so that a demonstration does not hang.
pub fn within<T: Send + 'static>(f: impl FnOnce() -> T + Send + 'static) -> Option<T> {
    let (tx, rx) = std::sync::mpsc::channel();
    std::thread::spawn(move || {
        let _ = tx.send(f());
    });
    rx.recv_timeout(Duration::from_secs(15)).ok()
}
pub struct Server(std::process::Child, pub SocketAddr);
impl Drop for Server {
    fn drop(&mut self) {
        let _ = self.0.kill();
        let _ = self.0.wait();
    }
}
/// The server of the crate.
pub fn server(resolver: SocketAddr) -> Server {
    let a = TcpListener::bind("127.0.0.1:0").unwrap().local_addr().unwrap();
    let c = std::process::Command::new(std::env::var("SERVER").unwrap()).env("RESOLVER", resolver.to_string()).env("BIND", a.to_string()).spawn().unwrap();
    let s = Server(c, a);
    for _ in 0..100 {
        if TcpStream::connect(a).is_ok() {
            return s;
        }
        std::thread::sleep(Duration::from_millis(50));
    }
    std::process::exit(2);
}
impl Server {
    /// Sends these pieces with pauses in between, and returns everything that is answered.
    pub fn ask(&self, pieces: &[&[u8]]) -> Vec<u8> {
        let mut s = TcpStream::connect(self.1).unwrap();
        s.set_nodelay(true).unwrap();
        s.set_read_timeout(Some(Duration::from_secs(10))).unwrap();
        for p in pieces {
            if s.write_all(p).is_err() {
                break;
            }
            std::thread::sleep(Duration::from_millis(100));
        }
        let mut r = vec![];
        let _ = s.read_to_end(&mut r);
        r
    }
    pub fn status(&self, pieces: &[&[u8]]) -> String {
        let r = self.ask(pieces);
        String::from_utf8_lossy(&r).split(' ').nth(1).unwrap_or("").to_string()
    }
}
