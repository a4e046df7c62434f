//! The server which builds proofs on request.
use crate::api::*;
use crate::h_net::*;
use crate::spec::*;
use dnssec_prover::rr::Name;
use std::future::Future;
use std::net::SocketAddr;
use std::pin::Pin;
use std::task::{Context, Poll, Waker};
use tokio as _;

extern crate http_proof_gen as _;
extern "Rust" {
    fn http_proof_gen_main() -> Pin<Box<dyn Future<Output = ()>>>;
}

struct Client {
    inb: Vec<u8>,
    pos: usize,
    /// Nothing more will come after `inb`.
    eof: bool,
    reset: bool,
    chunks: usize,
    pending: usize,
    out: Vec<u8>,
    open: bool,
    accepted: bool,
    task: usize,
    pieces: usize,
}
struct Web {
    clients: Vec<Client>,
    /// Connections to the resolver, and what they were for.
    nets: Vec<Net>,
    /// Which task made them.
    by: Vec<usize>,
    task: usize,
    scripts: Vec<Vec<Vec<u8>>>,
    trouble: usize,
    tasks: Vec<Option<Pin<Box<dyn Future<Output = ()>>>>>,
    progress: bool,
    bound: Option<SocketAddr>,
}
static mut WEB: Option<Web> = None;
#[allow(static_mut_refs)]
fn web() -> &'static mut Web {
    unsafe { WEB.as_mut().unwrap() }
}
const RESOLVER: &str = "9.8.7.6:53";
const BIND: &str = "127.0.0.1:8080";
#[cfg(lsx)]
#[no_mangle]
unsafe extern "C" fn strlen(k: *const u8) -> usize {
    let mut n = 0;
    while k.add(n).read_volatile() != 0 {
        n += 1;
    }
    n
}
#[cfg(lsx)]
#[no_mangle]
unsafe extern "C" fn getenv(k: *const u8) -> *const u8 {
    match std::slice::from_raw_parts(k, strlen(k)) {
        b"RESOLVER" => b"9.8.7.6:53\0".as_ptr(),
        b"BIND" => b"127.0.0.1:8080\0".as_ptr(),
        _ => std::ptr::null(),
    }
}
struct Env;
fn poll(e: Ev) -> Poll<std::io::Result<usize>> {
    match e {
        Ev::N(n) => {
            web().progress = true;
            Poll::Ready(Ok(n))
        }
        Ev::Again => {
            web().progress = true;
            Poll::Pending
        }
        Ev::Fail => Poll::Ready(Err(std::io::ErrorKind::ConnectionReset.into())),
    }
}
impl tokio::Env for Env {
    fn yielded(&mut self) {
        web().progress = true;
    }
    fn bind(&mut self, a: SocketAddr) -> std::io::Result<()> {
        web().bound = Some(a);
        Ok(())
    }
    fn accept(&mut self) -> Poll<std::io::Result<u32>> {
        check(web().bound.is_some(), "the server listens where it was told to");
        match web().clients.iter().position(|c| !c.accepted) {
            Some(i) => {
                web().progress = true;
                if web().trouble / 1000 > 0 && choose(2) == 1 {
                    web().trouble -= 1000;
                    return Poll::Ready(Err(std::io::ErrorKind::ConnectionAborted.into()));
                }
                web().clients[i].accepted = true;
                web().clients[i].open = true;
                Poll::Ready(Ok(i as u32))
            }
            None => Poll::Pending,
        }
    }
    fn connect(&mut self, addr: SocketAddr) -> Poll<std::io::Result<u32>> {
        web().progress = true;
        check(addr == RESOLVER.parse().unwrap(), "the resolver is the one the server was told to use");
        let k = web().nets.len();
        let by = web().task;
        check(!web().by.contains(&by), "one connection to the resolver for a request");
        web().by.push(by);
        check(k < web().scripts.len(), "one connection to the resolver for a request");
        if k == web().scripts.len() {
            return Poll::Ready(Err(std::io::ErrorKind::ConnectionRefused.into()));
        }
        let mut n = Net::new(&web().scripts[k]);
        n.chunks = 0;
        n.eintr = web().trouble % 10;
        n.errors = web().trouble / 10 % 10;
        n.connected = Some(vec![]);
        if web().trouble / 100 % 10 == 1 && choose(2) == 1 {
            n.failed = true;
            web().nets.push(n);
            return Poll::Ready(Err(std::io::ErrorKind::ConnectionRefused.into()));
        }
        n.open = 1;
        web().nets.push(n);
        Poll::Ready(Ok(100 + k as u32))
    }
    fn read(&mut self, c: u32, b: &mut [u8]) -> Poll<std::io::Result<usize>> {
        if c >= 100 {
            let n = &mut web().nets[c as usize - 100];
            check(n.open == 1, "only open connections are used");
            return poll(n.read(b));
        }
        let x = &mut web().clients[c as usize];
        x.task = web().task;
        check(x.open, "only open connections are used");
        if x.pending > 0 && choose(2) == 1 {
            x.pending -= 1;
            return poll(Ev::Again);
        }
        if x.pos == x.inb.len() {
            if x.reset {
                return poll(Ev::Fail);
            }
            return if x.eof { poll(Ev::N(0)) } else { Poll::Pending };
        }
        let all = b.len().min(x.inb.len() - x.pos);
        let n = match x.chunks {
            0 => all,
            1 => 1,
            k if k > 2 => all.min(k),
            _ if all == 1 || x.pieces == 0 => all,
            _ => {
                x.pieces -= 1;
                [all, 1, all - 1][choose(3) as usize]
            }
        };
        b[..n].copy_from_slice(&x.inb[x.pos..x.pos + n]);
        x.pos += n;
        poll(Ev::N(n))
    }
    fn write(&mut self, c: u32, b: &[u8]) -> Poll<std::io::Result<usize>> {
        if c >= 100 {
            let n = &mut web().nets[c as usize - 100];
            check(n.open == 1, "only open connections are used");
            return poll(n.write(b));
        }
        let x = &mut web().clients[c as usize];
        check(x.open, "only open connections are used");
        if x.pending > 0 && choose(2) == 1 {
            x.pending -= 1;
            return poll(Ev::Again);
        }
        let n = match x.chunks {
            1 => b.len().min(50),
            2 if b.len() > 1 && x.pieces > 0 => {
                x.pieces -= 1;
                [b.len(), 1][choose(2) as usize]
            }
            _ => b.len(),
        };
        x.out.extend_from_slice(&b[..n]);
        poll(Ev::N(n))
    }
    fn shutdown(&mut self, _: u32) {}
    fn close(&mut self, c: u32) {
        if c >= 100 {
            check(web().nets[c as usize - 100].open == 1, "only what is open is closed");
            web().nets[c as usize - 100].open = 0;
        } else {
            check(web().clients[c as usize].open, "only what is open is closed");
            web().clients[c as usize].open = false;
        }
    }
    fn spawn(&mut self, f: Pin<Box<dyn Future<Output = ()>>>) {
        web().progress = true;
        web().tasks.push(Some(f));
    }
}
/// Runs the server until nothing more happens; `free` is how many steps are taken in any order.
fn serve(mut free: usize) {
    #[cfg(not(lsx))]
    {
        std::env::set_var("RESOLVER", RESOLVER);
        std::env::set_var("BIND", BIND);
    }
    tokio::set_env(Box::new(Env));
    let mut cx = Context::from_waker(Waker::noop());
    let m = unsafe { http_proof_gen_main() };
    web().tasks.push(Some(m));
    let mut step = |i: usize| {
        if let Some(mut f) = web().tasks[i].take() {
            web().task = i;
            if f.as_mut().poll(&mut cx).is_pending() {
                web().tasks[i] = Some(f);
            } else {
                check(i != 0, "the server goes on");
                web().progress = true;
            }
        }
    };
    while free > 0 {
        free -= 1;
        step(choose(web().tasks.len() as u32) as usize);
    }
    loop {
        web().progress = false;
        let mut i = 0;
        while i < web().tasks.len() {
            step(i);
            i += 1;
        }
        if !web().progress {
            break;
        }
    }
    check(web().bound == Some(BIND.parse().unwrap()), "the server listens where it was told to");
}
#[derive(PartialEq, Clone, Copy)]
enum Want {
    /// Nothing is answered.
    Silent,
    Status(u16),
    Proof,
}
/// What a request asks for.
fn request(b: &[u8]) -> (Want, Option<(Name, u16)>) {
    let mut end = None;
    for i in 0..b.len().min(4096).saturating_sub(1) {
        if b[i] == b'\r' && b[i + 1] == b'\n' {
            end = Some(i);
            break;
        }
    }
    let bad = (Want::Status(400), None);
    let line = match end {
        Some(e) => &b[..e],
        None => return if b.len() >= 4096 { bad } else { (Want::Silent, None) },
    };
    let mut parts: Vec<&[u8]> = vec![];
    let mut at = 0;
    for i in 0..=line.len() {
        if i == line.len() || line[i] == b' ' {
            parts.push(&line[at..i]);
            at = i + 1;
        }
    }
    if std::str::from_utf8(line).is_err() || parts.len() != 3 || parts[0] != b"GET" {
        return bad;
    }
    if parts[2].len() != 8 || &parts[2][..7] != b"HTTP/1." || (parts[2][7] != b'0' && parts[2][7] != b'1') {
        return bad;
    }
    const PFX: &[u8] = b"/dnssecproof?";
    if parts[1].len() < PFX.len() || &parts[1][..PFX.len()] != PFX {
        return (Want::Status(404), None);
    }
    let (mut d, mut t): (&[u8], &[u8]) = (&[], &[]);
    let args = &parts[1][PFX.len()..];
    at = 0;
    for i in 0..=args.len() {
        if i == args.len() || args[i] == b'&' {
            let a = &args[at..i];
            at = i + 1;
            match a.iter().position(|c| *c == b'=') {
                Some(e) => match &a[..e] {
                    b"d" => d = &a[e + 1..],
                    b"t" => t = &a[e + 1..],
                    _ => {}
                },
                None => return bad,
            }
        }
    }
    if d.is_empty() || t.is_empty() {
        return bad;
    }
    let name: Name = match String::from_utf8(d.to_vec()).unwrap().try_into() {
        Ok(n) => n,
        Err(()) => return bad,
    };
    let up: Vec<u8> = t.iter().map(|c| if *c >= b'a' && *c <= b'z' { *c - 32 } else { *c }).collect();
    let ty = match &up[..] {
        b"A" => 1,
        b"AAAA" => 28,
        b"TXT" => 16,
        b"TLSA" => 52,
        _ => return bad,
    };
    (Want::Proof, Some((name, ty)))
}
fn decimal(mut v: u32) -> Vec<u8> {
    let mut o = vec![];
    loop {
        o.insert(0, b'0' + (v % 10) as u8);
        v /= 10;
        if v == 0 {
            return o;
        }
    }
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    (0..(h.len() + 1).saturating_sub(n.len())).find(|i| &h[*i..*i + n.len()] == n)
}
/// The status, the headers (in lower case) and the body.
fn answer(o: &[u8]) -> Option<(Vec<u8>, Vec<u8>, Vec<u8>)> {
    let e = find(o, b"\r\n\r\n")?;
    let h: Vec<u8> = o[..e + 2].iter().map(|c| c.to_ascii_lowercase()).collect();
    let l = find(&h, b"\r\n")?;
    Some((h[..l].to_vec(), h[l..].to_vec(), o[e + 4..].to_vec()))
}
fn header(h: &[u8], k: &[u8]) -> Option<Vec<u8>> {
    let mut p = b"\r\n".to_vec();
    p.extend_from_slice(k);
    p.extend_from_slice(b":");
    let s = find(h, &p)? + p.len();
    check(find(&h[s..], &p).is_none(), "headers are there once");
    let e = find(&h[s..], b"\r\n")?;
    Some(h[s..s + e].iter().skip_while(|c| **c == b' ').copied().collect())
}
/// Every client got what it asked for.
fn judge() {
    let mut k = 0;
    for c in web().clients.iter() {
        check(c.accepted, "every client is accepted");
        let (mut want, q) = request(&c.inb);
        if want == Want::Silent {
            reach("silent");
            check(c.out.is_empty(), "nothing is said before there is a request");
            check(c.open == !(c.eof || c.reset), "connections which end are closed");
            continue;
        }
        check(!c.open, "connections are closed once they are answered");
        let mut proof = vec![];
        let mut ttl = 0;
        if let Some((name, ty)) = q {
            let i = web().by.iter().position(|t| *t == c.task);
            check(i.is_some(), "the resolver is asked");
            let i = i.unwrap();
            let n = &web().nets[i];
            let (sent, r) = by_hand(&name, ty, &web().scripts[i]);
            k += 1;
            check(n.open == 0, "connections to the resolver are closed");
            if n.failed {
                want = Want::Status(404);
            } else {
                check(sent.len() == n.out.len(), "the resolver is asked for what the client asked for");
                check_u(memeq(&sent, &n.out), "the resolver is asked for what the client asked for");
                match r {
                    Ok((p, t)) => {
                        proof = p;
                        ttl = t;
                    }
                    Err(()) => want = Want::Status(404),
                }
            }
        }
        match answer(&c.out) {
            Some((status, h, body)) => {
                let code: &[u8] = match want {
                    Want::Proof => b"http/1.1 200 ",
                    Want::Status(404) => b"http/1.1 404 ",
                    _ => b"http/1.1 400 ",
                };
                check(status.starts_with(code), "the status says whether there is a proof");
                check(header(&h, b"content-length") == Some(decimal(body.len() as u32)), "Content-Length is the length of the body");
                check(header(&h, b"access-control-allow-origin") == Some(b"*".to_vec()), "any site may ask");
                if want == Want::Proof {
                    reach("proof");
                    check(body.len() == proof.len(), "the body is the proof");
                    check_u(memeq(&body, &proof), "the body is the proof");
                    let mut age = b"max-age=".to_vec();
                    age.extend_from_slice(&decimal(ttl));
                    let cc = header(&h, b"cache-control").unwrap_or(vec![]);
                    check(cc.split(|c| *c == b',').any(|x| x.iter().filter(|c| **c != b' ').eq(age.iter())), "the proof may be cached as long as its TTL says, and no longer");
                    age.splice(..8, *b"s-maxage=");
                    check(cc.split(|c| *c == b',').any(|x| x.iter().filter(|c| **c != b' ').eq(age.iter())), "the proof may be cached as long as its TTL says, and no longer");
                } else {
                    reach("refused");
                }
            }
            None => check(false, "every request is answered"),
        }
    }
    check(k == web().nets.len(), "the resolver is asked nothing else");
}
fn start(clients: Vec<Vec<u8>>, stories: &[usize], trouble: usize) {
    unsafe { FEW_TTLS = Some(2) }
    let scripts = stories.iter().map(|s| story(*s)).collect();
    let clients = clients
        .into_iter()
        .map(|inb| Client { inb, pos: 0, eof: false, reset: false, chunks: 0, pending: 0, out: vec![], open: false, accepted: false, task: 0, pieces: 7 })
        .collect();
    unsafe { WEB = Some(Web { clients, nets: vec![], by: vec![], task: 0, scripts, trouble, tasks: vec![], progress: false, bound: None }) }
}
/// A good request in which some bytes next to each other may be anything.
pub fn http_byte() {
    let (n, which, from, to) = (param(0), param(1), param(2), param(3));
    let good: [&[u8]; 3] = [
        b"GET /dnssecproof?d=q.&t=TXT HTTP/1.1\r\nHost: a\r\n\r\n",
        b"GET /dnssecproof?t=tlsa&d=a.q.&d=b. HTTP/1.0\r\n\r\n",
        b"GET /dnssecproof?d=q.&x=&t=aAaA&t=a HTTP/1.1\r\n",
    ];
    let mut r = good[which].to_vec();
    let len = find(&r, b"\r\n").unwrap() + 2;
    let at = from + choose((to.min(len - n + 1) - from) as u32) as usize;
    sym_into(&mut r[at..at + n]);
    if param(4) == 0 {
        for i in 0..n {
            assume(r[at + i] < 0x80);
        }
    }
    if param(5) > 0 {
        // after the request line anything may follow, in whatever pieces
        r.extend_from_slice(&sym_vec(param(5)));
    }
    start(vec![r], &[0], 0);
    web().clients[0].eof = choose(2) == 1;
    if param(5) > 0 {
        web().clients[0].chunks = [0, 1, 7, 40][choose(4) as usize];
    }
    serve(0);
    judge();
}
/// A good request, in pieces, with a resolver in one of several stories and trouble.
pub fn http_args() {
    let (chunks, pending, st, trouble) = (param(0), param(1), param(2), param(3));
    let t = [&b"TXT"[..], b"a", b"AAAA", b"TLSA"][if param(4) == 1 { choose(4) as usize } else { 0 }];
    let mut r = b"GET /dnssecproof?d=q.&t=".to_vec();
    r.extend_from_slice(t);
    r.extend_from_slice(b" HTTP/1.1\r\n\r\n");
    start(vec![r], &[st], trouble);
    let c = &mut web().clients[0];
    c.chunks = chunks;
    c.pending = pending;
    serve(0);
    judge();
}
/// Requests about as long as they may be, and connections which end early.
pub fn http_long() {
    let ls = [0, 1, 2, 30, 4093, 4094, 4095, 4096, 4097, 6000];
    let n = ls[choose(10) as usize];
    let mut r = b"GET /dnssecproof?d=q.&t=TXT&x=".to_vec();
    r.resize(n.max(30), b'y');
    r.truncate(n);
    let end: [&[u8]; 5] = [b"", b"\r\n", b"\r", b"\n", b" HTTP/1.1\r\n"];
    r.extend_from_slice(end[choose(5) as usize]);
    start(vec![r], &[0], 0);
    let c = &mut web().clients[0];
    c.chunks = [0, 1000, 4095][choose(3) as usize];
    c.eof = choose(2) == 1;
    c.reset = !c.eof && choose(2) == 1;
    serve(0);
    judge();
}
/// Several clients at once, in any order.
pub fn http_many() {
    let (a, b, free, pending) = (param(0), param(1), param(2), param(3));
    let reqs: [&[u8]; 6] = [
        b"GET /dnssecproof?d=q.&t=TXT HTTP/1.1\r\n\r\n",
        b"GET /dnssecproof?d=q.&t=TX HTTP/1.1\r\n\r\n",
        b"GET / HTTP/1.1\r\n\r\n",
        b"GET /dnss",
        b"",
        b"GET /dnssecproof?d=r.&t=A HTTP/1.1\r\n\r\n",
    ];
    let st: Vec<usize> = [a, b].iter().filter(|x| **x == 0 || **x == 5).map(|_| param(4)).collect();
    start(vec![reqs[a].to_vec(), reqs[b].to_vec()], &st, pending / 10);
    for c in web().clients.iter_mut() {
        c.pending = pending % 10;
        c.reset = c.inb.is_empty();
    }
    serve(free);
    judge();
}
