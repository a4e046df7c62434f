//! Hash-consed bit-vector expressions with local simplification.
//! An `Ex` is either an inline constant (bit 63 set) or an index into the arena.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hasher};

#[derive(Default)]
pub struct FxH(u64);
impl Hasher for FxH {
    #[inline]
    fn finish(&self) -> u64 {
        self.0
    }
    #[inline]
    fn write(&mut self, b: &[u8]) {
        for x in b {
            self.write_u64(*x as u64);
        }
    }
    #[inline]
    fn write_u64(&mut self, x: u64) {
        self.0 = (self.0.rotate_left(5) ^ x).wrapping_mul(0x517cc1b727220a95);
        self.0 ^= self.0 >> 29;
    }
    #[inline]
    fn write_u32(&mut self, x: u32) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_u16(&mut self, x: u16) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_u8(&mut self, x: u8) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_u128(&mut self, x: u128) {
        self.write_u64(x as u64);
        self.write_u64((x >> 64) as u64)
    }
    #[inline]
    fn write_usize(&mut self, x: usize) {
        self.write_u64(x as u64)
    }
    #[inline]
    fn write_isize(&mut self, x: isize) {
        self.write_u64(x as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<FxH>>;

#[derive(Clone, Copy, PartialEq, Eq, Hash, PartialOrd, Ord, Debug)]
pub struct Ex(pub u64);

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum N {
    Const(u128),
    Var(u32),
    Not(Ex),
    Add(Ex, Ex),
    Sub(Ex, Ex),
    Mul(Ex, Ex),
    UDiv(Ex, Ex),
    SDiv(Ex, Ex),
    URem(Ex, Ex),
    SRem(Ex, Ex),
    Shl(Ex, Ex),
    LShr(Ex, Ex),
    AShr(Ex, Ex),
    And(Ex, Ex),
    Or(Ex, Ex),
    Xor(Ex, Ex),
    Concat(Ex, Ex),
    Extract(Ex, u16),
    ZExt(Ex),
    SExt(Ex),
    Eq(Ex, Ex),
    Ult(Ex, Ex),
    Slt(Ex, Ex),
    Ite(Ex, Ex, Ex),
}

pub struct Node {
    pub n: N,
    pub w: u16,
    pub umin: u128,
    pub umax: u128,
}

pub struct Arena {
    pub nodes: Vec<Node>,
    map: FxMap<(N, u16), u32>,
    vars: Vec<Option<std::rc::Rc<[u32]>>>,
    // evaluation stamps
    stamp: Vec<(u64, u128)>,
}

static mut ARENA: Option<Arena> = None;
#[allow(static_mut_refs)]
#[inline]
pub fn ar() -> &'static mut Arena {
    // single-threaded program
    unsafe {
        if ARENA.is_none() {
            ARENA = Some(Arena { nodes: Vec::new(), map: Default::default(), vars: Vec::new(), stamp: Vec::new() });
        }
        ARENA.as_mut().unwrap()
    }
}

const INL: u64 = 1 << 63;
const VMASK: u64 = (1 << 55) - 1;

pub fn mask(w: u16) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}

pub fn c(v: u128, w: u16) -> Ex {
    debug_assert!(w >= 1 && w <= 128);
    let v = v & mask(w);
    if v <= VMASK as u128 {
        return Ex(INL | ((w as u64 & 0xff) << 55) | v as u64);
    }
    mk(N::Const(v), w, v, v)
}
pub fn tru() -> Ex {
    c(1, 1)
}
pub fn fls() -> Ex {
    c(0, 1)
}

fn mk(n: N, w: u16, umin: u128, umax: u128) -> Ex {
    let a = ar();
    if let Some(i) = a.map.get(&(n, w)) {
        return Ex(*i as u64);
    }
    if umin == umax {
        if let N::Const(_) = n {
        } else {
            return c(umin, w);
        }
    }
    let i = a.nodes.len() as u32;
    a.nodes.push(Node { n, w, umin, umax });
    a.vars.push(None);
    a.map.insert((n, w), i);
    Ex(i as u64)
}

impl Ex {
    #[inline]
    pub fn inl(self) -> bool {
        self.0 & INL != 0
    }
    #[inline]
    pub fn w(self) -> u16 {
        if self.inl() {
            ((self.0 >> 55) & 0xff) as u16
        } else {
            ar().nodes[self.0 as usize].w
        }
    }
    #[inline]
    pub fn cv(self) -> Option<u128> {
        if self.inl() {
            Some((self.0 & VMASK) as u128)
        } else if let N::Const(v) = ar().nodes[self.0 as usize].n {
            Some(v)
        } else {
            None
        }
    }
    #[inline]
    pub fn n(self) -> N {
        if self.inl() {
            N::Const((self.0 & VMASK) as u128)
        } else {
            ar().nodes[self.0 as usize].n
        }
    }
    pub fn range(self) -> (u128, u128) {
        if self.inl() {
            let v = (self.0 & VMASK) as u128;
            (v, v)
        } else {
            let n = &ar().nodes[self.0 as usize];
            (n.umin, n.umax)
        }
    }
    pub fn is_true(self) -> bool {
        self.cv() == Some(1)
    }
    pub fn is_false(self) -> bool {
        self.cv() == Some(0)
    }
}

pub fn var(i: u32) -> Ex {
    mk(N::Var(i), 8, 0, 255)
}

fn sx(v: u128, w: u16) -> i128 {
    if w >= 128 {
        v as i128
    } else if v >> (w - 1) & 1 == 1 {
        (v | !mask(w)) as i128
    } else {
        v as i128
    }
}

fn fill(v: u128) -> u128 {
    if v == 0 {
        0
    } else {
        let b = 128 - v.leading_zeros() as u16;
        mask(b)
    }
}

pub fn not(a: Ex) -> Ex {
    let w = a.w();
    if let Some(v) = a.cv() {
        return c(!v, w);
    }
    match a.n() {
        N::Not(x) => return x,
        N::Ite(k, x, y) if w > 1 && (x.cv().is_some() || y.cv().is_some()) => return ite(k, not(x), not(y)),
        _ => {}
    }
    let (lo, hi) = a.range();
    mk(N::Not(a), w, mask(w) - hi, mask(w) - lo)
}

pub fn add(a: Ex, b: Ex) -> Ex {
    let w = a.w();
    debug_assert_eq!(w, b.w());
    let (a, b) = if a.cv().is_some() { (b, a) } else { (a, b) };
    if let Some(y) = b.cv() {
        if y == 0 {
            return a;
        }
        if let Some(x) = a.cv() {
            return c(x.wrapping_add(y), w);
        }
        match a.n() {
            N::Add(p, q) => {
                if let Some(z) = q.cv() {
                    return add(p, c(z.wrapping_add(y), w));
                }
            }
            N::Sub(p, q) => {
                if let Some(z) = p.cv() {
                    return sub(c(z.wrapping_add(y), w), q);
                }
            }
            N::Ite(k, p, q) if p.cv().is_some() && q.cv().is_some() => return ite(k, add(p, b), add(q, b)),
            _ => {}
        }
    } else {
        // pull constants outward: (p + c) + b -> (p + b) + c
        if let N::Add(p, q) = a.n() {
            if q.cv().is_some() {
                return add(add(p, b), q);
            }
        }
        if let N::Add(p, q) = b.n() {
            if q.cv().is_some() {
                return add(add(a, p), q);
            }
        }
        if let N::Sub(p, q) = b.n() {
            if q == a {
                return p;
            }
        }
        if let N::Sub(p, q) = a.n() {
            if q == b {
                return p;
            }
        }
    }
    if w == 1 {
        return xor(a, b);
    }
    if b.cv().is_none() {
        // sums are kept as sorted, left-nested chains of their terms
        let mut t = vec![];
        if terms(a, w, &mut t) && terms(b, w, &mut t) && t.len() > 2 {
            t.sort();
            let k = t.iter().filter_map(|x| x.cv()).fold(0u128, |x, y| x.wrapping_add(y)) & mask(w);
            let mut r: Option<Ex> = None;
            for x in t.iter().filter(|x| x.cv().is_none()) {
                r = Some(match r {
                    None => *x,
                    Some(y) => add2(y, *x),
                });
            }
            let r = r.unwrap_or(c(0, w));
            return if k == 0 { r } else { add(r, c(k, w)) };
        }
    }
    let (a, b) = if b.cv().is_none() && b < a { (b, a) } else { (a, b) };
    add2(a, b)
}
/// The terms of a sum, as expressions of width `w`; false if there are too many.
fn terms(e: Ex, w: u16, o: &mut Vec<Ex>) -> bool {
    if o.len() > 64 {
        return false;
    }
    match e.n() {
        N::Add(p, q) => {
            let whole = e.w() == w || p.range().1.checked_add(q.range().1).map_or(false, |h| h <= mask(e.w()));
            if whole {
                return terms(p, w, o) && terms(q, w, o);
            }
        }
        N::ZExt(p) => return terms(p, w, o),
        N::Concat(h, l) if l.cv().is_none() => {
            let lw = l.w();
            return terms(concat(h, c(0, lw)), w, o) && terms(l, w, o);
        }
        _ => {}
    }
    o.push(zext(e, w));
    true
}
fn add2(a: Ex, b: Ex) -> Ex {
    let w = a.w();
    let ((l1, h1), (l2, h2)) = (a.range(), b.range());
    let (lo, hi) = match h1.checked_add(h2) {
        Some(h) if h <= mask(w) => (l1 + l2, h),
        _ => {
            // both ends wrap the same way
            match (l1.checked_add(l2), h1.checked_add(h2)) {
                (Some(l), Some(h)) if w < 128 && l >> w == 1 && h >> w == 1 => (l & mask(w), h & mask(w)),
                _ => (0, mask(w)),
            }
        }
    };
    mk(N::Add(a, b), w, lo, hi)
}

pub fn sub(a: Ex, b: Ex) -> Ex {
    let w = a.w();
    debug_assert_eq!(w, b.w());
    if let Some(y) = b.cv() {
        return add(a, c(y.wrapping_neg(), w));
    }
    if a == b {
        return c(0, w);
    }
    if w == 1 {
        return xor(a, b);
    }
    if let N::Add(p, q) = a.n() {
        if p == b {
            return q;
        }
        if q == b {
            return p;
        }
        if q.cv().is_some() {
            return add(sub(p, b), q);
        }
    }
    if let N::Add(p, q) = b.n() {
        if let Some(k) = q.cv() {
            return add(sub(a, p), c(k.wrapping_neg(), w));
        }
        if p == a {
            return sub(c(0, w), q);
        }
        if q == a {
            return sub(c(0, w), p);
        }
    }
    if let N::Sub(p, q) = b.n() {
        if p == a {
            return q;
        }
    }
    if let (N::Ite(k, p, q), Some(_)) = (b.n(), a.cv()) {
        if p.cv().is_some() && q.cv().is_some() {
            return ite(k, sub(a, p), sub(a, q));
        }
    }
    let ((l1, h1), (l2, h2)) = (a.range(), b.range());
    let (lo, hi) = if l1 >= h2 { (l1 - h2, h1 - l2) } else { (0, mask(w)) };
    mk(N::Sub(a, b), w, lo, hi)
}

pub fn mul(a: Ex, b: Ex) -> Ex {
    let w = a.w();
    let (a, b) = if a.cv().is_some() { (b, a) } else { (a, b) };
    if let Some(y) = b.cv() {
        if let Some(x) = a.cv() {
            return c(x.wrapping_mul(y), w);
        }
        if y == 0 {
            return b;
        }
        if y == 1 {
            return a;
        }
        if y.is_power_of_two() {
            return shl(a, c(y.trailing_zeros() as u128, w));
        }
    }
    let ((l1, h1), (l2, h2)) = (a.range(), b.range());
    let (lo, hi) = match h1.checked_mul(h2) {
        Some(h) if h <= mask(w) => (l1 * l2, h),
        _ => (0, mask(w)),
    };
    mk(N::Mul(a, b), w, lo, hi)
}

pub fn udiv(a: Ex, b: Ex) -> Ex {
    let w = a.w();
    if let Some(y) = b.cv() {
        if y == 0 {
            return c(u128::MAX, w);
        }
        if let Some(x) = a.cv() {
            return c(x / y, w);
        }
        if y.is_power_of_two() {
            return lshr(a, c(y.trailing_zeros() as u128, w));
        }
        let (l, h) = a.range();
        if h < y {
            return c(0, w);
        }
        return mk(N::UDiv(a, b), w, l / y, h / y);
    }
    mk(N::UDiv(a, b), w, 0, mask(w))
}
pub fn urem(a: Ex, b: Ex) -> Ex {
    let w = a.w();
    if let Some(y) = b.cv() {
        if y == 0 {
            return a;
        }
        if let Some(x) = a.cv() {
            return c(x % y, w);
        }
        if y.is_power_of_two() {
            return and(a, c(y - 1, w));
        }
        let (_, h) = a.range();
        if h < y {
            return a;
        }
        return mk(N::URem(a, b), w, 0, y - 1);
    }
    mk(N::URem(a, b), w, 0, mask(w))
}
pub fn sdiv(a: Ex, b: Ex) -> Ex {
    let w = a.w();
    if let (Some(x), Some(y)) = (a.cv(), b.cv()) {
        if y != 0 {
            return c(sx(x, w).wrapping_div(sx(y, w)) as u128, w);
        }
    }
    mk(N::SDiv(a, b), w, 0, mask(w))
}
pub fn srem(a: Ex, b: Ex) -> Ex {
    let w = a.w();
    if let (Some(x), Some(y)) = (a.cv(), b.cv()) {
        if y != 0 {
            return c(sx(x, w).wrapping_rem(sx(y, w)) as u128, w);
        }
    }
    mk(N::SRem(a, b), w, 0, mask(w))
}

pub fn shl(a: Ex, b: Ex) -> Ex {
    let w = a.w();
    if let Some(s) = b.cv() {
        if s >= w as u128 {
            return c(0, w);
        }
        let s = s as u16;
        if s == 0 {
            return a;
        }
        if let Some(x) = a.cv() {
            return c(x << s, w);
        }
        return concat(extract(a, 0, w - s), c(0, s));
    }
    mk(N::Shl(a, b), w, 0, mask(w))
}
pub fn lshr(a: Ex, b: Ex) -> Ex {
    let w = a.w();
    if let Some(s) = b.cv() {
        if s >= w as u128 {
            return c(0, w);
        }
        let s = s as u16;
        if s == 0 {
            return a;
        }
        if let Some(x) = a.cv() {
            return c(x >> s, w);
        }
        return zext(extract(a, s, w - s), w);
    }
    mk(N::LShr(a, b), w, 0, a.range().1)
}
pub fn ashr(a: Ex, b: Ex) -> Ex {
    let w = a.w();
    if let Some(s) = b.cv() {
        let s = if s >= w as u128 { w - 1 } else { s as u16 };
        if s == 0 {
            return a;
        }
        if let Some(x) = a.cv() {
            return c((sx(x, w) >> s) as u128, w);
        }
        return sext(extract(a, s, w - s), w);
    }
    mk(N::AShr(a, b), w, 0, mask(w))
}

/// contiguous run of ones: (lo, len)
fn run(m: u128) -> Option<(u16, u16)> {
    if m == 0 {
        return None;
    }
    let lo = m.trailing_zeros() as u16;
    let r = m >> lo;
    if r & r.wrapping_add(1) == 0 {
        Some((lo, 128 - r.leading_zeros() as u16))
    } else {
        None
    }
}

fn bool_implies_not(a: Ex, b: Ex) -> bool {
    a.w() == 1 && not(a) == b
}

pub fn and(a: Ex, b: Ex) -> Ex {
    let w = a.w();
    debug_assert_eq!(w, b.w());
    let (a, b) = if a.cv().is_some() { (b, a) } else { (a, b) };
    if let Some(y) = b.cv() {
        if let Some(x) = a.cv() {
            return c(x & y, w);
        }
        if y == 0 {
            return b;
        }
        if y == mask(w) {
            return a;
        }
        if let Some((lo, len)) = run(y) {
            let m = zext(extract(a, lo, len), w - lo);
            return if lo == 0 { m } else { concat(m, c(0, lo)) };
        }
        match a.n() {
            N::And(p, q) if q.cv().is_some() => return and(p, and(q, b)),
            N::ZExt(p) => return zext(and(p, c(y, p.w())), w),
            N::Concat(h, l) => {
                return concat(and(h, c(y >> l.w(), h.w())), and(l, c(y, l.w())));
            }
            N::Ite(k, p, q) if p.cv().is_some() && q.cv().is_some() => return ite(k, and(p, b), and(q, b)),
            _ => {}
        }
    }
    if a == b {
        return a;
    }
    if w == 1 {
        if not(a) == b {
            return fls();
        }
        // x==c1 && x==c2
        if let (N::Eq(p, q), N::Eq(r, s)) = (a.n(), b.n()) {
            if p == r && q.cv().is_some() && s.cv().is_some() && q != s {
                return fls();
            }
        }
        if let N::And(p, q) = a.n() {
            if p == b || q == b {
                return a;
            }
            if bool_implies_not(p, b) || bool_implies_not(q, b) {
                return fls();
            }
        }
        if let N::And(p, q) = b.n() {
            if p == a || q == a {
                return b;
            }
            if bool_implies_not(p, a) || bool_implies_not(q, a) {
                return fls();
            }
        }
    }
    if w > 1 {
        if let (N::ZExt(p), N::ZExt(q)) = (a.n(), b.n()) {
            if p.w() == q.w() {
                return zext(and(p, q), w);
            }
        }
    }
    let (a, b) = if b.cv().is_none() && b < a { (b, a) } else { (a, b) };
    mk(N::And(a, b), w, 0, a.range().1.min(b.range().1))
}

pub fn or(a: Ex, b: Ex) -> Ex {
    let w = a.w();
    debug_assert_eq!(w, b.w());
    let (a, b) = if a.cv().is_some() { (b, a) } else { (a, b) };
    if let Some(y) = b.cv() {
        if let Some(x) = a.cv() {
            return c(x | y, w);
        }
        if y == 0 {
            return a;
        }
        if y == mask(w) {
            return b;
        }
        match a.n() {
            N::Or(p, q) if q.cv().is_some() => return or(p, or(q, b)),
            N::Concat(h, l) => {
                return concat(or(h, c(y >> l.w(), h.w())), or(l, c(y, l.w())));
            }
            N::ZExt(p) => {
                let pw = p.w();
                return concat(c(y >> pw, w - pw), or(p, c(y, pw)));
            }
            N::Ite(k, p, q) if p.cv().is_some() && q.cv().is_some() => return ite(k, or(p, b), or(q, b)),
            _ => {}
        }
    }
    if a == b {
        return a;
    }
    if w == 1 {
        if not(a) == b {
            return tru();
        }
        if let N::Or(p, q) = a.n() {
            if p == b || q == b {
                return a;
            }
        }
        if let N::Or(p, q) = b.n() {
            if p == a || q == a {
                return b;
            }
        }
    }
    if w > 1 {
        // disjoint pieces
        for (x, y) in [(a, b), (b, a)] {
            if let N::Concat(h, l) = x.n() {
                let lw = l.w();
                if l.cv() == Some(0) && y.range().1 <= mask(lw) {
                    return concat(h, extract(y, 0, lw));
                }
                if let N::Concat(h2, l2) = y.n() {
                    if l2.w() == lw {
                        return concat(or(h, h2), or(l, l2));
                    }
                    let cut = lw.min(l2.w());
                    return concat(
                        or(extract(x, cut, w - cut), extract(y, cut, w - cut)),
                        or(extract(x, 0, cut), extract(y, 0, cut)),
                    );
                }
                if let N::ZExt(p) = y.n() {
                    let pw = p.w();
                    if pw <= lw {
                        return concat(h, or(l, zext(p, lw)));
                    } else {
                        return concat(or(h, zext(extract(p, lw, pw - lw), w - lw)), or(l, extract(p, 0, lw)));
                    }
                }
            }
        }
        if let (N::ZExt(p), N::ZExt(q)) = (a.n(), b.n()) {
            let m = p.w().max(q.w());
            return zext(or(zext(p, m), zext(q, m)), w);
        }
    }
    let (a, b) = if b.cv().is_none() && b < a { (b, a) } else { (a, b) };
    let ((l1, h1), (l2, h2)) = (a.range(), b.range());
    mk(N::Or(a, b), w, l1.max(l2), fill(h1 | h2))
}

pub fn xor(a: Ex, b: Ex) -> Ex {
    let w = a.w();
    debug_assert_eq!(w, b.w());
    let (a, b) = if a.cv().is_some() { (b, a) } else { (a, b) };
    if let Some(y) = b.cv() {
        if let Some(x) = a.cv() {
            return c(x ^ y, w);
        }
        if y == 0 {
            return a;
        }
        if y == mask(w) {
            return not(a);
        }
        match a.n() {
            N::Xor(p, q) if q.cv().is_some() => return xor(p, xor(q, b)),
            N::Concat(h, l) => {
                return concat(xor(h, c(y >> l.w(), h.w())), xor(l, c(y, l.w())));
            }
            N::ZExt(p) => {
                let pw = p.w();
                return concat(c(y >> pw, w - pw), xor(p, c(y, pw)));
            }
            N::Ite(k, p, q) if p.cv().is_some() && q.cv().is_some() => return ite(k, xor(p, b), xor(q, b)),
            _ => {}
        }
    }
    if a == b {
        return c(0, w);
    }
    if w > 1 {
        if let (N::ZExt(p), N::ZExt(q)) = (a.n(), b.n()) {
            let m = p.w().max(q.w());
            return zext(xor(zext(p, m), zext(q, m)), w);
        }
        if let (N::Concat(h, l), N::Concat(h2, l2)) = (a.n(), b.n()) {
            if l.w() == l2.w() {
                return concat(xor(h, h2), xor(l, l2));
            }
        }
    } else {
        if let N::Not(p) = a.n() {
            return not(xor(p, b));
        }
        if let N::Not(p) = b.n() {
            return not(xor(a, p));
        }
    }
    let (a, b) = if b.cv().is_none() && b < a { (b, a) } else { (a, b) };
    mk(N::Xor(a, b), w, 0, fill(a.range().1 | b.range().1))
}

pub fn concat(h: Ex, l: Ex) -> Ex {
    let (hw, lw) = (h.w(), l.w());
    let w = hw + lw;
    assert!(w <= 128, "concat too wide");
    if let (Some(x), Some(y)) = (h.cv(), l.cv()) {
        return c(x << lw | y, w);
    }
    if h.cv() == Some(0) {
        return zext(l, w);
    }
    match (h.n(), l.n()) {
        (N::Extract(x, a), N::Extract(y, b)) if x == y && a == b + lw => return extract(x, b, w),
        (N::Extract(x, a), _) if x == l && a == lw => return extract(x, 0, w),
        // h is itself something extended from the top of x
        (N::ZExt(p), _) => return zext(concat(p, l), w),
        (N::SExt(p), N::Extract(x, b)) => {
            if let N::Extract(y, a) = p.n() {
                if y == x && a == b + lw {
                    return sext(extract(x, b, p.w() + lw), w);
                }
            }
        }
        (_, N::Concat(a, b)) => {
            // left-nest: (h . a) . b, merging where possible
            return concat(concat(h, a), b);
        }
        (N::Concat(a, b), N::Extract(y, lo)) => {
            if let N::Extract(x, hi) = b.n() {
                if x == y && hi == lo + lw {
                    return concat(a, extract(x, lo, b.w() + lw));
                }
            }
        }
        (N::Concat(a, b), N::Const(y)) => {
            if let Some(z) = b.cv() {
                return concat(a, c(z << lw | y, b.w() + lw));
            }
        }
        (N::Ite(k, p, q), N::Ite(k2, r, s)) if k == k2 => return ite(k, concat(p, r), concat(q, s)),
        (N::Ite(k, p, q), N::Const(_)) if p.cv().is_some() && q.cv().is_some() => return ite(k, concat(p, l), concat(q, l)),
        _ => {}
    }
    let ((l1, h1), (l2, h2)) = (h.range(), l.range());
    mk(N::Concat(h, l), w, l1 << lw | l2, h1 << lw | h2)
}

pub fn extract(a: Ex, lo: u16, w: u16) -> Ex {
    let aw = a.w();
    debug_assert!(lo + w <= aw, "extract {} {} of {}", lo, w, aw);
    if lo == 0 && w == aw {
        return a;
    }
    match a.n() {
        N::Const(v) => return c(v >> lo, w),
        N::Extract(x, l) => return extract(x, l + lo, w),
        N::ZExt(x) => {
            let xw = x.w();
            if lo >= xw {
                return c(0, w);
            }
            if lo + w <= xw {
                return extract(x, lo, w);
            }
            return zext(extract(x, lo, xw - lo), w);
        }
        N::SExt(x) => {
            let xw = x.w();
            if lo + w <= xw {
                return extract(x, lo, w);
            }
            if lo < xw {
                return sext(extract(x, lo, xw - lo), w);
            }
            return sext(extract(x, xw - 1, 1), w);
        }
        N::Concat(h, l) => {
            let lw = l.w();
            if lo >= lw {
                return extract(h, lo - lw, w);
            }
            if lo + w <= lw {
                return extract(l, lo, w);
            }
            return concat(extract(h, 0, lo + w - lw), extract(l, lo, lw - lo));
        }
        N::And(x, y) => return and(extract(x, lo, w), extract(y, lo, w)),
        N::Or(x, y) => return or(extract(x, lo, w), extract(y, lo, w)),
        N::Xor(x, y) => return xor(extract(x, lo, w), extract(y, lo, w)),
        N::Not(x) => return not(extract(x, lo, w)),
        N::Add(x, y) if lo == 0 => return add(extract(x, 0, w), extract(y, 0, w)),
        N::Sub(x, y) if lo == 0 => return sub(extract(x, 0, w), extract(y, 0, w)),
        N::Mul(x, y) if lo == 0 => return mul(extract(x, 0, w), extract(y, 0, w)),
        N::Ite(k, x, y) => return ite(k, extract(x, lo, w), extract(y, lo, w)),
        _ => {}
    }
    let (l, h) = a.range();
    let (l2, h2) = if h <= mask(lo + w) && (lo > 0 || h <= mask(w)) { (l >> lo, h >> lo) } else { (0, mask(w)) };
    mk(N::Extract(a, lo), w, l2, h2)
}

pub fn zext(a: Ex, w: u16) -> Ex {
    let aw = a.w();
    if aw == w {
        return a;
    }
    debug_assert!(aw < w);
    match a.n() {
        N::Const(v) => return c(v, w),
        N::ZExt(x) => return zext(x, w),
        N::Ite(k, x, y) if aw > 1 && x.cv().is_some() && y.cv().is_some() => return ite(k, zext(x, w), zext(y, w)),
        _ => {}
    }
    let (l, h) = a.range();
    mk(N::ZExt(a), w, l, h)
}

pub fn sext(a: Ex, w: u16) -> Ex {
    let aw = a.w();
    if aw == w {
        return a;
    }
    match a.n() {
        N::Const(v) => return c(sx(v, aw) as u128, w),
        N::SExt(x) => return sext(x, w),
        N::ZExt(x) => return zext(x, w),
        _ => {}
    }
    if a.range().1 < 1u128 << (aw - 1) {
        return zext(a, w);
    }
    if aw == 1 {
        return ite(a, c(u128::MAX, w), c(0, w));
    }
    mk(N::SExt(a), w, 0, mask(w))
}

pub fn resize_s(a: Ex, w: u16) -> Ex {
    if a.w() > w {
        extract(a, 0, w)
    } else {
        sext(a, w)
    }
}
pub fn resize_u(a: Ex, w: u16) -> Ex {
    if a.w() > w {
        extract(a, 0, w)
    } else {
        zext(a, w)
    }
}

pub fn eq(a: Ex, b: Ex) -> Ex {
    debug_assert_eq!(a.w(), b.w());
    if a == b {
        return tru();
    }
    let w = a.w();
    let (a, b) = if a.cv().is_some() { (b, a) } else { (a, b) };
    let ((l1, h1), (l2, h2)) = (a.range(), b.range());
    if h1 < l2 || h2 < l1 {
        return fls();
    }
    if let Some(y) = b.cv() {
        if a.cv().is_some() {
            return fls();
        }
        if w == 1 {
            return if y == 1 { a } else { not(a) };
        }
        match a.n() {
            N::Add(p, q) => {
                if let Some(z) = q.cv() {
                    return eq(p, c(y.wrapping_sub(z), w));
                }
            }
            N::Sub(p, q) => {
                if y == 0 {
                    return eq(p, q);
                }
                if let Some(z) = p.cv() {
                    return eq(q, c(z.wrapping_sub(y), w));
                }
            }
            N::Xor(p, q) => {
                if y == 0 {
                    return eq(p, q);
                }
                if let Some(z) = q.cv() {
                    return eq(p, c(z ^ y, w));
                }
            }
            N::Not(p) => return eq(p, c(!y, w)),
            N::ZExt(p) => {
                // range check above guarantees that y fits
                return eq(p, c(y, p.w()));
            }
            N::SExt(p) => {
                let pw = p.w();
                let t = c(y, pw);
                return if sext(t, w) == b { eq(p, t) } else { fls() };
            }
            N::Concat(h, l) => {
                let lw = l.w();
                return and(eq(h, c(y >> lw, h.w())), eq(l, c(y, lw)));
            }
            N::Ite(k, p, q) => {
                let ep = if p.cv().is_some() || q.cv().is_some() { Some((eq(p, b), eq(q, b))) } else { None };
                if let Some((x, z)) = ep {
                    return ite(k, x, z);
                }
            }
            N::Or(p, q) if y == 0 => return and(eq(p, b), eq(q, b)),
            N::Mul(p, q) => {
                if let Some(z) = q.cv() {
                    // no overflow and z > 0
                    if let Some(m) = p.range().1.checked_mul(z) {
                        if m <= mask(w) {
                            return if y % z == 0 { eq(p, c(y / z, w)) } else { fls() };
                        }
                    }
                }
            }
            _ => {}
        }
    } else {
        match (a.n(), b.n()) {
            (N::ZExt(p), N::ZExt(q)) => {
                let m = p.w().max(q.w());
                return eq(zext(p, m), zext(q, m));
            }
            (N::Concat(h, l), N::Concat(h2, l2)) if l.w() == l2.w() => return and(eq(h, h2), eq(l, l2)),
            (N::Add(p, q), N::Add(r, s)) if q == s => return eq(p, r),
            (N::Add(p, q), N::Add(r, s)) if p == r => return eq(q, s),
            (N::Add(p, q), _) if p == b => return eq(q, c(0, w)),
            (N::Add(p, q), _) if q == b => return eq(p, c(0, w)),
            (_, N::Add(p, q)) if p == a => return eq(q, c(0, w)),
            (_, N::Add(p, q)) if q == a => return eq(p, c(0, w)),
            _ => {}
        }
        if w == 1 {
            return not(xor(a, b));
        }
    }
    let (a, b) = if b.cv().is_none() && b < a { (b, a) } else { (a, b) };
    mk(N::Eq(a, b), 1, 0, 1)
}

pub fn ult(a: Ex, b: Ex) -> Ex {
    let w = a.w();
    debug_assert_eq!(w, b.w());
    if a == b {
        return fls();
    }
    let ((l1, h1), (l2, h2)) = (a.range(), b.range());
    if h1 < l2 {
        return tru();
    }
    if l1 >= h2 {
        return fls();
    }
    if w == 1 {
        return and(not(a), b);
    }
    if let Some(y) = b.cv() {
        if y == l1 + 1 {
            return eq(a, c(l1, w));
        }
        if y == h1 {
            return not(eq(a, b));
        }
        match a.n() {
            N::ZExt(p) => return ult(p, c(y, p.w())),
            N::Ite(k, p, q) if p.cv().is_some() || q.cv().is_some() => return ite(k, ult(p, b), ult(q, b)),
            N::Not(p) => return ult(c(!y, w), p),
            N::Concat(h, l) => {
                let lw = l.w();
                let (yh, yl) = (y >> lw, y & mask(lw));
                if yl == 0 {
                    return ult(h, c(yh, h.w()));
                }
            }
            _ => {}
        }
    } else if let Some(x) = a.cv() {
        if x + 1 == h2 {
            return eq(b, c(h2, w));
        }
        if x == l2 {
            return not(eq(a, b));
        }
        match b.n() {
            N::ZExt(p) => return ult(c(x, p.w()), p),
            N::Ite(k, p, q) if p.cv().is_some() || q.cv().is_some() => return ite(k, ult(a, p), ult(a, q)),
            N::Concat(h, l) => {
                let lw = l.w();
                let (xh, xl) = (x >> lw, x & mask(lw));
                if xl == mask(lw) {
                    return ult(c(xh, h.w()), h);
                }
            }
            _ => {}
        }
    } else {
        match (a.n(), b.n()) {
            (N::ZExt(p), N::ZExt(q)) => {
                let m = p.w().max(q.w());
                return ult(zext(p, m), zext(q, m));
            }
            _ => {}
        }
    }
    mk(N::Ult(a, b), 1, 0, 1)
}
pub fn ule(a: Ex, b: Ex) -> Ex {
    not(ult(b, a))
}
pub fn slt(a: Ex, b: Ex) -> Ex {
    let w = a.w();
    if a == b {
        return fls();
    }
    if w == 1 {
        return and(a, not(b));
    }
    if let (Some(x), Some(y)) = (a.cv(), b.cv()) {
        return c((sx(x, w) < sx(y, w)) as u128, 1);
    }
    let half = 1u128 << (w - 1);
    let ((l1, h1), (l2, h2)) = (a.range(), b.range());
    // both on one side of the sign
    let neg1 = l1 >= half;
    let pos1 = h1 < half;
    let neg2 = l2 >= half;
    let pos2 = h2 < half;
    if (neg1 && neg2) || (pos1 && pos2) {
        return ult(a, b);
    }
    if neg1 && pos2 {
        return tru();
    }
    if pos1 && neg2 {
        return fls();
    }
    match (a.n(), b.cv()) {
        (N::Ite(k, p, q), Some(_)) if p.cv().is_some() || q.cv().is_some() => return ite(k, slt(p, b), slt(q, b)),
        (N::SExt(p), Some(y)) => {
            let t = c(y, p.w());
            if sext(t, w) == b {
                return slt(p, t);
            }
        }
        _ => {}
    }
    match (b.n(), a.cv()) {
        (N::Ite(k, p, q), Some(_)) if p.cv().is_some() || q.cv().is_some() => return ite(k, slt(a, p), slt(a, q)),
        (N::SExt(p), Some(y)) => {
            let t = c(y, p.w());
            if sext(t, w) == a {
                return slt(t, p);
            }
        }
        _ => {}
    }
    // x < 0 is the sign bit
    if b.cv() == Some(0) {
        return extract(a, w - 1, 1);
    }
    if a.cv() == Some(mask(w)) {
        return not(extract(b, w - 1, 1));
    }
    mk(N::Slt(a, b), 1, 0, 1)
}
pub fn sle(a: Ex, b: Ex) -> Ex {
    not(slt(b, a))
}

pub fn ite(k: Ex, a: Ex, b: Ex) -> Ex {
    if k.is_true() {
        return a;
    }
    if k.is_false() {
        return b;
    }
    if a == b {
        return a;
    }
    let w = a.w();
    debug_assert_eq!(w, b.w());
    if let N::Not(n) = k.n() {
        return ite(n, b, a);
    }
    if w == 1 {
        match (a.cv(), b.cv()) {
            (Some(1), Some(0)) => return k,
            (Some(0), Some(1)) => return not(k),
            (Some(1), _) => return or(k, b),
            (Some(0), _) => return and(not(k), b),
            (_, Some(0)) => return and(k, a),
            (_, Some(1)) => return or(not(k), a),
            _ => {}
        }
        if a == k {
            return or(k, b);
        }
        if b == k {
            return and(k, a);
        }
    }
    if let N::Ite(k2, x, y) = a.n() {
        if k2 == k {
            return ite(k, x, b);
        }
        // ite(k, ite(k2, x, y), x)
        if y == b {
            return ite(and(k, k2), x, b);
        }
        if x == b {
            return ite(and(k, not(k2)), y, b);
        }
    }
    if let N::Ite(k2, x, y) = b.n() {
        if k2 == k {
            return ite(k, a, y);
        }
        if x == a {
            return ite(or(k, k2), a, y);
        }
    }
    if let (N::ZExt(p), N::ZExt(q)) = (a.n(), b.n()) {
        if p.w() == q.w() {
            return zext(ite(k, p, q), w);
        }
    }
    // ite(x == c, c, x) == x
    if let N::Eq(x, y) = k.n() {
        if (a == y && b == x) || (a == x && b == y) {
            return b;
        }
    }
    let ((l1, h1), (l2, h2)) = (a.range(), b.range());
    mk(N::Ite(k, a, b), w, l1.min(l2), h1.max(h2))
}

pub fn umin(a: Ex, b: Ex) -> Ex {
    ite(ult(b, a), b, a)
}
pub fn umax(a: Ex, b: Ex) -> Ex {
    ite(ult(a, b), b, a)
}

pub fn children(n: N) -> ([Ex; 3], usize) {
    let z = Ex(INL);
    match n {
        N::Const(_) | N::Var(_) => ([z; 3], 0),
        N::Not(a) | N::Extract(a, _) | N::ZExt(a) | N::SExt(a) => ([a, z, z], 1),
        N::Add(a, b) | N::Sub(a, b) | N::Mul(a, b) | N::UDiv(a, b) | N::SDiv(a, b) | N::URem(a, b) | N::SRem(a, b) | N::Shl(a, b)
        | N::LShr(a, b) | N::AShr(a, b) | N::And(a, b) | N::Or(a, b) | N::Xor(a, b) | N::Concat(a, b) | N::Eq(a, b) | N::Ult(a, b)
        | N::Slt(a, b) => ([a, b, z], 2),
        N::Ite(a, b, d) => ([a, b, d], 3),
    }
}

/// Sorted free variables.
pub fn vars(e: Ex) -> std::rc::Rc<[u32]> {
    if e.cv().is_some() {
        return std::rc::Rc::from(&[][..]);
    }
    if let Some(v) = &ar().vars[e.0 as usize] {
        return v.clone();
    }
    let r: std::rc::Rc<[u32]> = match e.n() {
        N::Var(i) => std::rc::Rc::from(&[i][..]),
        n => {
            let (ch, k) = children(n);
            let mut acc: Option<std::rc::Rc<[u32]>> = None;
            for x in &ch[..k] {
                if x.cv().is_some() {
                    continue;
                }
                let v = vars(*x);
                acc = Some(match acc {
                    None => v,
                    Some(p) => {
                        if p == v {
                            p
                        } else {
                            let mut m: Vec<u32> = p.iter().chain(v.iter()).cloned().collect();
                            m.sort_unstable();
                            m.dedup();
                            if m.len() == p.len() {
                                p
                            } else {
                                std::rc::Rc::from(m)
                            }
                        }
                    }
                });
            }
            acc.unwrap_or_else(|| std::rc::Rc::from(&[][..]))
        }
    };
    ar().vars[e.0 as usize] = Some(r.clone());
    r
}

fn apply(n: N, w: u16, ch: [u128; 3], ws: [u16; 3]) -> u128 {
    let [a, b, d] = ch;
    let m = mask(w);
    (match n {
        N::Const(v) => v,
        N::Var(_) => unreachable!(),
        N::Not(_) => !a,
        N::Add(..) => a.wrapping_add(b),
        N::Sub(..) => a.wrapping_sub(b),
        N::Mul(..) => a.wrapping_mul(b),
        N::UDiv(..) => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        N::URem(..) => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        N::SDiv(..) => {
            if b == 0 {
                if sx(a, w) < 0 {
                    1
                } else {
                    m
                }
            } else {
                sx(a, w).wrapping_div(sx(b, w)) as u128
            }
        }
        N::SRem(..) => {
            if b == 0 {
                a
            } else {
                sx(a, w).wrapping_rem(sx(b, w)) as u128
            }
        }
        N::Shl(..) => {
            if b >= w as u128 {
                0
            } else {
                a << b
            }
        }
        N::LShr(..) => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        N::AShr(..) => (sx(a, w) >> b.min(w as u128 - 1)) as u128,
        N::And(..) => a & b,
        N::Or(..) => a | b,
        N::Xor(..) => a ^ b,
        N::Concat(..) => a << ws[1] | b,
        N::Extract(_, lo) => a >> lo,
        N::ZExt(_) => a,
        N::SExt(_) => sx(a, ws[0]) as u128,
        N::Eq(..) => (a == b) as u128,
        N::Ult(..) => (a < b) as u128,
        N::Slt(..) => (sx(a, ws[0]) < sx(b, ws[0])) as u128,
        N::Ite(..) => {
            if a == 1 {
                b
            } else {
                d
            }
        }
    }) & m
}

/// Evaluate under a model; `epoch` identifies the model for memoisation.
pub fn eval(e: Ex, model: &[u8], epoch: u64) -> u128 {
    if let Some(v) = e.cv() {
        return v;
    }
    let a = ar();
    if a.stamp.len() < a.nodes.len() {
        let l = a.nodes.len();
        a.stamp.resize(l, (0, 0));
    }
    ev(a, e, model, epoch)
}
fn ev(a: &mut Arena, e: Ex, model: &[u8], epoch: u64) -> u128 {
    if let Some(v) = e.cv() {
        return v;
    }
    let s = a.stamp[e.0 as usize];
    if s.0 == epoch {
        return s.1;
    }
    let (n, w) = {
        let nd = &a.nodes[e.0 as usize];
        (nd.n, nd.w)
    };
    let v = match n {
        N::Var(i) => model.get(i as usize).copied().unwrap_or(0) as u128,
        N::Ite(k, x, y) => {
            if ev(a, k, model, epoch) == 1 {
                ev(a, x, model, epoch)
            } else {
                ev(a, y, model, epoch)
            }
        }
        _ => {
            let (ch, k) = children(n);
            let mut vs = [0u128; 3];
            let mut ws = [0u16; 3];
            for i in 0..k {
                vs[i] = ev(a, ch[i], model, epoch);
                ws[i] = ch[i].w();
            }
            apply(n, w, vs, ws)
        }
    };
    a.stamp[e.0 as usize] = (epoch, v);
    v
}

/// Rebuild `n` with new children through the simplifying constructors.
fn rebuild(n: N, w: u16, ch: [Ex; 3]) -> Ex {
    let [a, b, d] = ch;
    match n {
        N::Const(v) => c(v, w),
        N::Var(i) => var(i),
        N::Not(_) => not(a),
        N::Add(..) => add(a, b),
        N::Sub(..) => sub(a, b),
        N::Mul(..) => mul(a, b),
        N::UDiv(..) => udiv(a, b),
        N::SDiv(..) => sdiv(a, b),
        N::URem(..) => urem(a, b),
        N::SRem(..) => srem(a, b),
        N::Shl(..) => shl(a, b),
        N::LShr(..) => lshr(a, b),
        N::AShr(..) => ashr(a, b),
        N::And(..) => and(a, b),
        N::Or(..) => or(a, b),
        N::Xor(..) => xor(a, b),
        N::Concat(..) => concat(a, b),
        N::Extract(_, lo) => extract(a, lo, w),
        N::ZExt(_) => zext(a, w),
        N::SExt(_) => sext(a, w),
        N::Eq(..) => eq(a, b),
        N::Ult(..) => ult(a, b),
        N::Slt(..) => slt(a, b),
        N::Ite(..) => ite(a, b, d),
    }
}

/// Substitute variables that are bound to a constant.
pub fn subst(e: Ex, bind: &[i16]) -> Ex {
    if e.cv().is_some() {
        return e;
    }
    let touched = |e: Ex| vars(e).iter().any(|v| bind.get(*v as usize).map_or(false, |b| *b >= 0));
    if !touched(e) {
        return e;
    }
    let mut memo: FxMap<u64, Ex> = Default::default();
    fn go(e: Ex, bind: &[i16], memo: &mut FxMap<u64, Ex>) -> Ex {
        if e.cv().is_some() {
            return e;
        }
        if let Some(r) = memo.get(&e.0) {
            return *r;
        }
        let n = e.n();
        let r = match n {
            N::Var(i) => match bind.get(i as usize) {
                Some(b) if *b >= 0 => c(*b as u128, 8),
                _ => e,
            },
            _ => {
                if !vars(e).iter().any(|v| bind.get(*v as usize).map_or(false, |b| *b >= 0)) {
                    e
                } else {
                    let (mut ch, k) = children(n);
                    for i in 0..k {
                        ch[i] = go(ch[i], bind, memo);
                    }
                    rebuild(n, e.w(), ch)
                }
            }
        };
        memo.insert(e.0, r);
        r
    }
    go(e, bind, &mut memo)
}

/// Self-test of the simplifier: compares the simplified expression with direct evaluation on random inputs.
pub fn selftest(iters: u64) -> u64 {
    let mut s: u64 = 0x1234_5678_9abc_def1;
    let mut rnd = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s
    };
    let mut bad = 0;
    let ws = [1u16, 8, 16, 24, 32, 64];
    for it in 0..iters {
        let model: Vec<u8> = (0..6).map(|_| match rnd() % 4 { 0 => 0, 1 => 255, 2 => (rnd() % 4) as u8, _ => rnd() as u8 }).collect();
        let mut pool: Vec<(Ex, u128)> = (0..6).map(|i| (var(i), model[i as usize] as u128)).collect();
        for _ in 0..14 {
            let pick = |p: &Vec<(Ex, u128)>, r: u64| p[(r % p.len() as u64) as usize];
            let (a, av) = pick(&pool, rnd());
            let w = a.w();
            let mut cand: Vec<(Ex, u128)> = pool.iter().cloned().filter(|x| x.0.w() == w).collect();
            let kv = match rnd() % 5 { 0 => 0, 1 => u128::MAX, 2 => (rnd() % 9) as u128, 3 => 1u128 << (rnd() % w as u64), _ => rnd() as u128 };
            cand.push((c(kv, w), kv & mask(w)));
            let (b, bv) = cand[(rnd() % cand.len() as u64) as usize];
            let m = mask(w);
            let r = match rnd() % 24 {
                0 => (add(a, b), av.wrapping_add(bv) & m),
                1 => (sub(a, b), av.wrapping_sub(bv) & m),
                2 => (mul(a, b), av.wrapping_mul(bv) & m),
                3 => (and(a, b), av & bv),
                4 => (or(a, b), av | bv),
                5 => (xor(a, b), av ^ bv),
                6 => (not(a), !av & m),
                7 => (eq(a, b), (av == bv) as u128),
                8 => (ult(a, b), (av < bv) as u128),
                9 => (slt(a, b), (sx(av, w) < sx(bv, w)) as u128),
                10 => (ule(a, b), (av <= bv) as u128),
                11 => (sub(b, a), bv.wrapping_sub(av) & m),
                12 | 13 => {
                    let lo = (rnd() % w as u64) as u16;
                    let l = 1 + (rnd() % (w - lo) as u64) as u16;
                    (extract(a, lo, l), av >> lo & mask(l))
                }
                14 | 15 => {
                    let (d, dv) = pick(&pool, rnd());
                    if d.w() + w <= 128 { (concat(a, d), av << d.w() | dv) } else { (a, av) }
                }
                16 => {
                    let t = ws[(rnd() % 6) as usize];
                    if t >= w { (zext(a, t), av) } else { (a, av) }
                }
                17 => {
                    let t = ws[(rnd() % 6) as usize];
                    if t >= w { (sext(a, t), sx(av, w) as u128 & mask(t)) } else { (a, av) }
                }
                18 => {
                    let sft = c(rnd() as u128 % w as u128, w);
                    (shl(a, sft), av << sft.cv().unwrap() & m)
                }
                19 => {
                    let sft = c(rnd() as u128 % w as u128, w);
                    (lshr(a, sft), av >> sft.cv().unwrap())
                }
                20 => {
                    let sft = c(rnd() as u128 % w as u128, w);
                    (ashr(a, sft), (sx(av, w) >> sft.cv().unwrap()) as u128 & m)
                }
                21 => (udiv(a, b), if bv == 0 { m } else { av / bv }),
                22 => (urem(a, b), if bv == 0 { av } else { av % bv }),
                _ => {
                    let bools: Vec<(Ex, u128)> = pool.iter().cloned().filter(|x| x.0.w() == 1).collect();
                    if bools.is_empty() {
                        (eq(a, b), (av == bv) as u128)
                    } else {
                        let (k, kvv) = bools[(rnd() % bools.len() as u64) as usize];
                        (ite(k, a, b), if kvv == 1 { av } else { bv })
                    }
                }
            };
            let got = eval(r.0, &model, it + 1);
            let (lo, hi) = r.0.range();
            if got != r.1 || got < lo || got > hi {
                bad += 1;
                if bad < 10 {
                    eprintln!("selftest mismatch: {} got {} want {} range {:?}", show(r.0), got, r.1, (lo, hi));
                }
            }
            pool.push(r);
        }
        // substitution agrees as well
        let bind: Vec<i16> = (0..6).map(|i| if i % 2 == 0 { model[i] as i16 } else { -1 }).collect();
        for (e, v) in &pool {
            let s2 = subst(*e, &bind);
            let got = eval(s2, &model, it + 1);
            if got != *v {
                bad += 1;
                if bad < 10 {
                    eprintln!("selftest subst mismatch");
                }
            }
        }
    }
    bad
}

pub fn show(e: Ex) -> String {
    show_d(e, 12)
}
fn show_d(e: Ex, d: u32) -> String {
    let w = e.w();
    if d == 0 {
        return "..".into();
    }
    match e.n() {
        N::Const(v) => format!("{:#x}:{}", v, w),
        N::Var(i) => format!("v{}", i),
        N::Extract(a, lo) => format!("{}[{}+{}]", show_d(a, d - 1), lo, w),
        n => {
            let (ch, k) = children(n);
            let nm = format!("{:?}", n);
            let nm = &nm[..nm.find('(').unwrap_or(nm.len())];
            let a: Vec<String> = ch[..k].iter().map(|x| show_d(*x, d - 1)).collect();
            format!("{}{}({})", nm, w, a.join(", "))
        }
    }
}
