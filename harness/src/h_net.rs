//! The clients which build a proof over TCP, with everything the operating system does under control.
use crate::api::*;
use crate::h_query::*;
use crate::spec::*;
use dnssec_prover::query::*;
use dnssec_prover::rr::*;
use std::net::SocketAddr;

/// How one connection to a resolver behaves.
pub struct Net {
    /// What the resolver sends, one element for each query it gets; then it closes the connection.
    pub script: Vec<Vec<u8>>,
    /// Nothing after this many bytes.
    pub cut: usize,
    pub pos: usize,
    pub out: Vec<u8>,
    /// How data is cut into pieces: all there is, single bytes, or one of a few ways each time.
    pub chunks: usize,
    /// How many interruptions and how many errors there may still be.
    pub eintr: usize,
    pub errors: usize,
    pub failed: bool,
    pub connected: Option<Vec<u8>>,
    pub open: i32,
    pub refuse: bool,
}
pub enum Ev {
    N(usize),
    Again,
    Fail,
}
impl Net {
    pub fn new(script: &[Vec<u8>]) -> Net {
        Net {
            script: script.iter().map(|r| framed(r)).collect(),
            cut: usize::MAX,
            pos: 0,
            out: vec![],
            chunks: 0,
            eintr: 0,
            errors: 0,
            failed: false,
            connected: None,
            open: 0,
            refuse: false,
        }
    }
    fn trouble(&mut self) -> Option<Ev> {
        if self.eintr > 0 && choose(2) == 1 {
            self.eintr -= 1;
            return Some(Ev::Again);
        }
        if self.errors > 0 && choose(2) == 1 {
            self.errors -= 1;
            self.failed = true;
            return Some(Ev::Fail);
        }
        None
    }
    fn piece(&self, n: usize) -> usize {
        match self.chunks {
            0 => n,
            1 => 1,
            _ if n <= 1 => n,
            _ => match choose(3) {
                0 => n,
                1 => 1,
                _ => n - 1,
            },
        }
    }
    /// How many whole queries there are in what was sent.
    fn queries(&self) -> usize {
        let (mut i, mut n) = (0, 0);
        while i + 2 <= self.out.len() {
            i += 2 + u16::from_be_bytes([self.out[i], self.out[i + 1]]) as usize;
            if i <= self.out.len() {
                n += 1;
            }
        }
        n
    }
    pub fn read(&mut self, b: &mut [u8]) -> Ev {
        check(self.connected.is_some(), "connected before anything else");
        if b.is_empty() {
            return Ev::N(0);
        }
        if let Some(e) = self.trouble() {
            return e;
        }
        let q = self.queries();
        let ready: Vec<u8> = self.script.iter().take(q).flatten().copied().collect();
        let ready = &ready[..ready.len().min(self.cut)];
        if self.pos == ready.len() {
            // closed, if there is nothing more to come
            check(self.pos == self.cut || q > self.script.len(), "no waiting for the response to a query which was not sent");
            return Ev::N(0);
        }
        let n = self.piece(b.len().min(ready.len() - self.pos));
        b[..n].copy_from_slice(&ready[self.pos..self.pos + n]);
        self.pos += n;
        Ev::N(n)
    }
    pub fn write(&mut self, b: &[u8]) -> Ev {
        check(self.connected.is_some(), "connected before anything else");
        if b.is_empty() {
            return Ev::N(0);
        }
        if let Some(e) = self.trouble() {
            return e;
        }
        let n = self.piece(b.len());
        self.out.extend_from_slice(&b[..n]);
        Ev::N(n)
    }
}
pub fn framed(b: &[u8]) -> Vec<u8> {
    let mut o = (b.len() as u16).to_be_bytes().to_vec();
    o.extend_from_slice(b);
    o
}
static mut NET: Option<Net> = None;
#[allow(static_mut_refs)]
pub fn net() -> &'static mut Net {
    unsafe { NET.as_mut().unwrap() }
}

/// The system calls behind `std::net::TcpStream`.
mod sys {
    use super::*;
    const EINTR: i32 = 4;
    const EPIPE: i32 = 32;
    const ECONNRESET: i32 = 104;
    const ECONNREFUSED: i32 = 111;
    #[cfg(lsx)]
    static mut ERRNO: i32 = 0;
    #[cfg(lsx)]
    #[no_mangle]
    unsafe extern "C" fn __errno_location() -> *mut i32 {
        &raw mut ERRNO
    }
    #[cfg(not(lsx))]
    extern "C" {
        fn __errno_location() -> *mut i32;
        fn dup(fd: i32) -> i32;
    }
    fn err(e: i32) -> isize {
        unsafe { *__errno_location() = e };
        -1
    }
    #[no_mangle]
    unsafe extern "C" fn socket(_domain: i32, _ty: i32, _proto: i32) -> i32 {
        net().open += 1;
        #[cfg(lsx)]
        return 77;
        #[cfg(not(lsx))]
        return dup(1);
    }
    #[cfg(lsx)]
    #[no_mangle]
    unsafe extern "C" fn close(fd: i32) -> i32 {
        check(fd == 77 && net().open > 0, "only what was opened is closed");
        net().open -= 1;
        0
    }
    // (debug builds look whether what they close is open)
    #[cfg(lsx)]
    #[no_mangle]
    unsafe extern "C" fn fcntl(fd: i32, _cmd: i32) -> i32 {
        check(fd == 77 && net().open > 0, "only what was opened is closed");
        0
    }
    #[no_mangle]
    unsafe extern "C" fn connect(_fd: i32, addr: *const u8, n: u32) -> i32 {
        if net().refuse {
            net().failed = true;
            return err(ECONNREFUSED) as i32;
        }
        net().connected = Some(std::slice::from_raw_parts(addr, n as usize).to_vec());
        0
    }
    #[no_mangle]
    unsafe extern "C" fn recv(_fd: i32, b: *mut u8, n: usize, _flags: i32) -> isize {
        match net().read(std::slice::from_raw_parts_mut(b, n)) {
            Ev::N(n) => n as isize,
            Ev::Again => err(EINTR),
            Ev::Fail => err(ECONNRESET),
        }
    }
    #[no_mangle]
    unsafe extern "C" fn send(_fd: i32, b: *const u8, n: usize, _flags: i32) -> isize {
        match net().write(std::slice::from_raw_parts(b, n)) {
            Ev::N(n) => n as isize,
            Ev::Again => err(EINTR),
            Ev::Fail => err(EPIPE),
        }
    }
}

/// What is sent, and what comes out, when a builder is driven by hand with these responses.
pub fn by_hand(name: &Name, ty: u16, script: &[Vec<u8>]) -> (Vec<u8>, Result<(Vec<u8>, u32), ()>) {
    let (mut b, q) = ProofBuilder::new(name, ty);
    let mut out = framed(&q);
    let mut i = 0;
    while b.awaiting_responses() {
        if i == script.len() {
            return (out, Err(()));
        }
        match b.process_response(&buf(&script[i])) {
            Ok(qs) => {
                for q in qs {
                    out.extend_from_slice(&framed(&q));
                }
            }
            Err(()) => return (out, Err(())),
        }
        i += 1;
    }
    (out, b.finish_proof())
}
fn signed(signers: &[[u8; 3]]) -> Vec<u8> {
    let mut p = vec![0, 0, 0x81, 0xa0, 0, 1, 0, signers.len() as u8, 0, 0, 0, 0, 1, b'q', 0, 0, 16, 0, 1];
    for s in signers {
        rrsig(&mut p, sym_u16(), ttl(), s);
    }
    p
}
/// With few TTLs, all of them concrete (they are printed in decimal).
pub static mut FEW_TTLS: Option<u32> = None;
fn ttl() -> u32 {
    if let Some(n) = unsafe { FEW_TTLS } {
        unsafe { FEW_TTLS = Some(n.saturating_sub(1)) }
        if n == 0 {
            7200
        } else {
            [3600, 0, 4294967295][choose(3) as usize]
        }
    } else {
        sym_u32()
    }
}
fn plain(data: usize) -> Vec<u8> {
    let mut p = vec![0, 0, 0x81, 0xa0, 0, 1, 0, 1, 0, 0, 0, 0, 1, b'q', 0, 0, 16, 0, 1, 0xc0, 12];
    if data == 0 {
        p.extend_from_slice(&[0, 1, 0, 1]);
        p.extend_from_slice(&ttl().to_be_bytes());
        p.extend_from_slice(&[0, 4]);
        p.extend_from_slice(&sym::<4>());
    } else {
        // one TLSA record of this size
        p.extend_from_slice(&[0, 52, 0, 1]);
        p.extend_from_slice(&ttl().to_be_bytes());
        p.extend_from_slice(&(data as u16).to_be_bytes());
        let mut d = vec![b'L'; data];
        d[0] = sym_u8();
        d[data - 1] = sym_u8();
        p.extend_from_slice(&d);
    }
    p
}
fn letter() -> u8 {
    let c = sym_u8();
    assume(c >= b'a' && c <= b'c');
    c
}
/// What the resolver sends, in one of several stories.
pub fn story(k: usize) -> Vec<Vec<u8>> {
    match k {
        0 => vec![plain(0)],
        1 => vec![signed(&[[1, letter(), 0]]), signed(&[[1, letter(), 0]]), plain(0), plain(0), plain(0)],
        2 => {
            let mut p = plain(0);
            p[2] = sym_u8();
            p[3] = sym_u8();
            vec![p]
        }
        3 => {
            let mut p = plain(0);
            p[3] = sym_u8();
            vec![signed(&[[1, b'a', 0], [1, letter(), 0]]), p, plain(0), plain(0)]
        }
        // responses around the size up to which they are kept on the stack, and of the largest size
        4 => vec![plain([2017, 2018, 2019, 4000, 65504][choose(5) as usize])],
        5 => vec![vec![]],
        6 => vec![sym_vec(3)],
        // more queries than there may be
        7 => {
            let s: Vec<[u8; 3]> = (0..5).map(|i| [1, b'a' + i, 0]).collect();
            vec![signed(&s), plain(0), plain(0)]
        }
        // exactly as many as there may be
        8 => {
            let s: Vec<[u8; 3]> = (0..4).map(|i| [1, b'a' + i, 0]).collect();
            let mut v = vec![signed(&s)];
            v.extend((0..8).map(|_| plain(0)));
            v
        }
        _ => vec![],
    }
}
pub const RESOLVERS: [&str; 3] = ["9.8.7.6:53", "[2001:db8::1]:5353", "127.0.0.1:65535"];
pub fn sockaddr(i: usize) -> Vec<u8> {
    match i {
        0 => vec![2, 0, 0, 53, 9, 8, 7, 6],
        1 => vec![10, 0, 20, 233, 0, 0, 0, 0, 32, 1, 13, 184, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1],
        _ => vec![2, 0, 255, 255, 127, 0, 0, 1],
    }
}
pub fn which() -> u16 {
    [1, 28, 16, 52][choose(4) as usize]
}
pub fn setup(story_no: usize, chunks: usize, trouble: usize) -> Vec<Vec<u8>> {
    let s = story(story_no);
    let mut n = Net::new(&s);
    n.chunks = chunks;
    n.eintr = trouble % 10;
    n.errors = trouble / 10 % 10;
    if trouble / 100 % 10 == 1 {
        n.refuse = choose(2) == 1;
    }
    if trouble / 100 % 10 == 2 {
        let all: usize = n.script.iter().map(|x| x.len()).sum();
        n.cut = choose(all.min(256) as u32) as usize;
    }
    unsafe { NET = Some(n) }
    s
}
pub fn judge<E>(name: &Name, ty: u16, s: &[Vec<u8>], r: Result<(Vec<u8>, u32), E>) {
    let (out, want) = by_hand(name, ty, s);
    let n = net();
    if n.failed || n.cut != usize::MAX {
        check(n.out.len() <= out.len(), "nothing but the queries is sent");
        check_u(memeq(&n.out, &out[..n.out.len().min(out.len())]), "nothing but the queries is sent");
    } else {
        check(n.out.len() == out.len(), "the queries are sent, each after its length");
        check_u(memeq(&n.out, &out), "the queries are sent, each after its length");
    }
    match (r, want) {
        (Ok((p, t)), Ok((wp, wt))) => {
            reach("proof");
            // (a connection which breaks after the last response does not matter)
            check(!n.failed, "an error is reported");
            check(p.len() == wp.len(), "the proof is the one the responses make");
            check_u(memeq(&p, &wp), "the proof is the one the responses make");
            check(t == wt, "the TTL is the one the responses have");
        }
        (Err(_), Ok(_)) => {
            reach("failed");
            check(n.failed || n.cut != usize::MAX, "a proof is built whatever the pieces the responses arrive in");
        }
        (Ok(_), Err(())) => check(false, "no proof without acceptable responses"),
        (Err(_), Err(())) => reach("error"),
    }
    if cfg!(lsx) {
        check(n.open == 0, "the connection is closed");
    }
}
/// What is asked for, and of which resolver.
pub fn asked(k: usize) -> (u16, usize, Name) {
    match k {
        0 => (16, 0, nm("q.")),
        1 => {
            let l = "a".repeat(60);
            let long = format!("{0}.{0}.{0}.{0}.", l);
            let longest = format!("{0}.{0}.{0}.{0}.bcdefghij.", l);
            let n = ["q.", "some.long-name.example.", ".", "_x._y.a.", "*.a.B.", &long, &longest][choose(7) as usize];
            (which(), if n == "q." { choose(3) as usize } else { 0 }, nm(n))
        }
        _ => {
            // any name of this many characters
            let mut b = sym_vec(k - 2);
            for c in &b {
                assume(*c < 0x80);
            }
            b.push(b'.');
            let n: Result<Name, ()> = String::from_utf8(b).unwrap().try_into();
            assume(n.is_ok());
            (which(), 0, n.unwrap())
        }
    }
}
pub fn client_sync() {
    let s = setup(param(0), param(1), param(2));
    let (ty, ai, name) = asked(param(3));
    let addr: SocketAddr = RESOLVERS[ai].parse().unwrap();
    let r = match ty {
        1 => build_a_proof(addr, &name),
        28 => build_aaaa_proof(addr, &name),
        16 => build_txt_proof(addr, &name),
        _ => build_tlsa_proof(addr, &name),
    };
    if let Some(a) = &net().connected {
        let w = sockaddr(ai);
        check(a.starts_with(&w), "the resolver is the one which was asked for");
    }
    judge(&name, ty, &s, r);
}
