//! Runs a harness natively on the byte vector of a counterexample (or of a sampled path).
//! usage: replay <harness> <params a,b,c> <hexbytes>; prints one JSON object.
use harness::*;
use std::sync::Mutex;

struct R {
    bytes: Vec<u8>,
    pos: usize,
    params: Vec<u64>,
    obs: Vec<u64>,
    failed: Vec<String>,
    reached: Vec<String>,
    short: bool,
    panic: Option<String>,
}
static R: Mutex<Option<R>> = Mutex::new(None);
fn with<T>(f: impl FnOnce(&mut R) -> T) -> T {
    let mut g = R.lock().unwrap_or_else(|e| e.into_inner());
    f(g.as_mut().unwrap())
}
struct Dead;
fn take(r: &mut R, n: usize) -> Vec<u8> {
    (0..n)
        .map(|_| {
            let v = r.bytes.get(r.pos).copied();
            r.pos += 1;
            if v.is_none() {
                r.short = true;
            }
            v.unwrap_or(0)
        })
        .collect()
}
#[no_mangle]
extern "C" fn lsx_sym(p: *mut u8, n: usize) {
    let v = with(|r| take(r, n));
    unsafe { std::ptr::copy_nonoverlapping(v.as_ptr(), p, n) }
}
#[no_mangle]
extern "C-unwind" fn lsx_assume(c: u32) {
    if c == 0 {
        std::panic::panic_any(Dead)
    }
}
fn st(p: *const u8, n: usize) -> String {
    String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(p, n) }).into_owned()
}
#[no_mangle]
extern "C" fn lsx_check(c: u32, p: *const u8, n: usize) {
    if c == 0 {
        let s = st(p, n);
        with(|r| r.failed.push(s))
    }
}
#[no_mangle]
extern "C" fn lsx_reach(p: *const u8, n: usize) {
    let s = st(p, n);
    with(|r| r.reached.push(s))
}
#[no_mangle]
extern "C" fn lsx_observe(v: u64) {
    with(|r| r.obs.push(v))
}
#[no_mangle]
extern "C" fn lsx_choose(n: u32) -> u32 {
    with(|r| take(r, 1)[0] as u32) % n
}
#[no_mangle]
extern "C" fn lsx_param(i: u32) -> u64 {
    with(|r| r.params.get(i as usize).copied().unwrap_or(0))
}
#[no_mangle]
extern "C" fn lsx_ite(c: u32, a: u64, b: u64) -> u64 {
    if c != 0 {
        a
    } else {
        b
    }
}
#[no_mangle]
extern "C" fn lsx_memeq(a: *const u8, b: *const u8, n: usize) -> u32 {
    unsafe { (std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n)) as u32 }
}
#[no_mangle]
extern "C" fn lsx_memite(c: u32, d: *mut u8, a: *const u8, b: *const u8, n: usize) {
    unsafe { std::ptr::copy(if c != 0 { a } else { b }, d, n) }
}
#[no_mangle]
extern "C" fn lsx_concretize(v: u64) -> u64 {
    v
}

#[no_mangle]
extern "C" fn lsx_is_symbolic(_v: u64) -> u32 {
    0
}

fn main() {
    let a: Vec<String> = std::env::args().collect();
    let f = ALL.iter().find(|x| x.0 == a[1]).expect("harness").1;
    let params = a[2].split(',').filter(|s| !s.is_empty()).map(|s| s.parse().unwrap()).collect();
    let hx = a.get(3).cloned().unwrap_or_default();
    let bytes = (0..hx.len() / 2).map(|i| u8::from_str_radix(&hx[2 * i..2 * i + 2], 16).unwrap()).collect();
    *R.lock().unwrap() = Some(R { bytes, pos: 0, params, obs: vec![], failed: vec![], reached: vec![], short: false, panic: None });
    std::panic::set_hook(Box::new(|i| {
        if i.payload().is::<Dead>() {
            return;
        }
        let l = i.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        with(|r| {
            if r.panic.is_none() {
                r.panic = Some(l)
            }
        });
    }));
    let h = std::thread::Builder::new()
        .stack_size(64 << 20)
        .spawn(move || std::panic::catch_unwind(f))
        .unwrap();
    let res = h.join().unwrap();
    let dead = matches!(&res, Err(e) if e.is::<Dead>());
    with(|r| {
        let q = |v: &Vec<String>| format!("[{}]", v.iter().map(|s| format!("{:?}", s)).collect::<Vec<_>>().join(","));
        let o: Vec<String> = r.obs.iter().map(|x| format!("\"{:x}\"", x)).collect();
        println!(
            "{{\"failed\":{},\"reached\":{},\"obs\":[{}],\"panic\":{},\"dead\":{},\"short\":{},\"used\":{}}}",
            q(&r.failed),
            q(&r.reached),
            o.join(","),
            r.panic.as_ref().map(|s| format!("{:?}", s)).unwrap_or("null".into()),
            dead,
            r.short,
            r.pos
        );
    });
}
