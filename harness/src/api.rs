//! The interface between harness functions and the symbolic executor (or the native replayer).
extern "C" {
    fn lsx_sym(p: *mut u8, n: usize);
    fn lsx_assume(c: u32);
    fn lsx_check(c: u32, p: *const u8, n: usize);
    fn lsx_reach(p: *const u8, n: usize);
    fn lsx_observe(v: u64);
    fn lsx_choose(n: u32) -> u32;
    fn lsx_param(i: u32) -> u64;
    fn lsx_ite(c: u32, a: u64, b: u64) -> u64;
    fn lsx_memeq(a: *const u8, b: *const u8, n: usize) -> u32;
    fn lsx_memite(c: u32, d: *mut u8, a: *const u8, b: *const u8, n: usize);
    fn lsx_concretize(v: u64) -> u64;
    fn lsx_is_symbolic(v: u64) -> u32;
}
/// Fills a buffer with fresh unconstrained bytes.
pub fn sym_into(b: &mut [u8]) {
    unsafe { lsx_sym(b.as_mut_ptr(), b.len()) }
}
pub fn sym<const N: usize>() -> [u8; N] {
    let mut b = [0u8; N];
    sym_into(&mut b);
    b
}
pub fn sym_vec(n: usize) -> Vec<u8> {
    let mut b = vec![0u8; n];
    sym_into(&mut b);
    b
}
pub fn sym_u8() -> u8 {
    sym::<1>()[0]
}
pub fn sym_u16() -> u16 {
    u16::from_be_bytes(sym())
}
pub fn sym_u32() -> u32 {
    u32::from_be_bytes(sym())
}
pub fn assume(c: bool) {
    unsafe { lsx_assume(c as u32) }
}
pub fn check(c: bool, label: &'static str) {
    unsafe { lsx_check(c as u32, label.as_ptr(), label.len()) }
}
pub fn check_u(c: u32, label: &'static str) {
    unsafe { lsx_check(c, label.as_ptr(), label.len()) }
}
/// A place some path must get to (guards against vacuous harnesses).
pub fn reach(label: &'static str) {
    unsafe { lsx_reach(label.as_ptr(), label.len()) }
}
/// Values compared between the symbolic and the native run.
pub fn observe(v: u64) {
    unsafe { lsx_observe(v) }
}
pub fn observe_bytes(b: &[u8]) {
    observe(b.len() as u64);
    for c in b.chunks(8) {
        let mut x = [0u8; 8];
        x[..c.len()].copy_from_slice(c);
        observe(u64::from_be_bytes(x));
    }
}
/// One path for each value in `0..n`.
pub fn choose(n: u32) -> u32 {
    unsafe { lsx_choose(n) }
}
/// The parameters a harness sees start here, for harnesses which run another one.
pub static mut SHIFT: u32 = 0;
pub fn param(i: u32) -> usize {
    unsafe { lsx_param(SHIFT + i) as usize }
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { lsx_ite(c as u32, a, b) }
}
/// Non-forking comparison of equally long slices.
pub fn memeq(a: &[u8], b: &[u8]) -> u32 {
    if a.len() != b.len() {
        return 0;
    }
    unsafe { lsx_memeq(a.as_ptr(), b.as_ptr(), a.len()) }
}
pub fn memite(c: u32, d: &mut [u8], a: &[u8], b: &[u8]) {
    assert!(d.len() == a.len() && a.len() == b.len());
    unsafe { lsx_memite(c, d.as_mut_ptr(), a.as_ptr(), b.as_ptr(), d.len()) }
}
/// One path per feasible value.
pub fn concretize(v: u64) -> u64 {
    unsafe { lsx_concretize(v) }
}
/// Known to be zero without asking the solver (used only to skip work whose result would be zero).
pub fn zero(v: u32) -> bool {
    unsafe { lsx_is_symbolic(v as u64) == 0 && v == 0 }
}
