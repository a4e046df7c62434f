//! Z3 (C API, loaded with dlopen) behind an independence-slicing, caching front end.
use crate::expr::*;
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;

type Ast = *mut c_void;
type P = *mut c_void;

extern "C" {
    fn dlopen(name: *const c_char, flags: c_int) -> *mut c_void;
    fn dlsym(h: *mut c_void, name: *const c_char) -> *mut c_void;
}

macro_rules! z3api {
    ($($name:ident : fn($($t:ty),*) -> $r:ty;)*) => {
        #[allow(non_snake_case)]
        struct Api { $($name: unsafe extern "C" fn($($t),*) -> $r,)* }
        impl Api {
            unsafe fn load(h: *mut c_void) -> Api {
                Api { $($name: {
                    let n = CString::new(stringify!($name)).unwrap();
                    let p = dlsym(h, n.as_ptr());
                    assert!(!p.is_null(), concat!("missing ", stringify!($name)));
                    std::mem::transmute(p)
                },)* }
            }
        }
    };
}

z3api! {
    Z3_mk_config: fn() -> P;
    Z3_set_param_value: fn(P, *const c_char, *const c_char) -> ();
    Z3_mk_context_rc: fn(P) -> P;
    Z3_inc_ref: fn(P, Ast) -> ();
    Z3_mk_bv_sort: fn(P, c_uint) -> P;
    Z3_mk_const: fn(P, P, P) -> Ast;
    Z3_mk_string_symbol: fn(P, *const c_char) -> P;
    Z3_mk_numeral: fn(P, *const c_char, P) -> Ast;
    Z3_mk_true: fn(P) -> Ast;
    Z3_mk_false: fn(P) -> Ast;
    Z3_mk_not: fn(P, Ast) -> Ast;
    Z3_mk_eq: fn(P, Ast, Ast) -> Ast;
    Z3_mk_ite: fn(P, Ast, Ast, Ast) -> Ast;
    Z3_mk_and: fn(P, c_uint, *const Ast) -> Ast;
    Z3_mk_or: fn(P, c_uint, *const Ast) -> Ast;
    Z3_mk_xor: fn(P, Ast, Ast) -> Ast;
    Z3_mk_bvnot: fn(P, Ast) -> Ast;
    Z3_mk_bvadd: fn(P, Ast, Ast) -> Ast;
    Z3_mk_bvsub: fn(P, Ast, Ast) -> Ast;
    Z3_mk_bvmul: fn(P, Ast, Ast) -> Ast;
    Z3_mk_bvudiv: fn(P, Ast, Ast) -> Ast;
    Z3_mk_bvsdiv: fn(P, Ast, Ast) -> Ast;
    Z3_mk_bvurem: fn(P, Ast, Ast) -> Ast;
    Z3_mk_bvsrem: fn(P, Ast, Ast) -> Ast;
    Z3_mk_bvshl: fn(P, Ast, Ast) -> Ast;
    Z3_mk_bvlshr: fn(P, Ast, Ast) -> Ast;
    Z3_mk_bvashr: fn(P, Ast, Ast) -> Ast;
    Z3_mk_bvand: fn(P, Ast, Ast) -> Ast;
    Z3_mk_bvor: fn(P, Ast, Ast) -> Ast;
    Z3_mk_bvxor: fn(P, Ast, Ast) -> Ast;
    Z3_mk_concat: fn(P, Ast, Ast) -> Ast;
    Z3_mk_extract: fn(P, c_uint, c_uint, Ast) -> Ast;
    Z3_mk_zero_ext: fn(P, c_uint, Ast) -> Ast;
    Z3_mk_sign_ext: fn(P, c_uint, Ast) -> Ast;
    Z3_mk_bvult: fn(P, Ast, Ast) -> Ast;
    Z3_mk_bvslt: fn(P, Ast, Ast) -> Ast;
    Z3_mk_solver: fn(P) -> P;
    Z3_mk_simple_solver: fn(P) -> P;
    Z3_mk_solver_for_logic: fn(P, P) -> P;
    Z3_solver_inc_ref: fn(P, P) -> ();
    Z3_solver_assert: fn(P, P, Ast) -> ();
    Z3_solver_check: fn(P, P) -> c_int;
    Z3_solver_push: fn(P, P) -> ();
    Z3_solver_pop: fn(P, P, c_uint) -> ();
    Z3_solver_reset: fn(P, P) -> ();
    Z3_solver_get_model: fn(P, P) -> P;
    Z3_solver_to_string: fn(P, P) -> *const c_char;
    Z3_solver_set_params: fn(P, P, P) -> ();
    Z3_mk_params: fn(P) -> P;
    Z3_params_inc_ref: fn(P, P) -> ();
    Z3_params_set_uint: fn(P, P, P, c_uint) -> ();
    Z3_model_inc_ref: fn(P, P) -> ();
    Z3_model_dec_ref: fn(P, P) -> ();
    Z3_model_eval: fn(P, P, Ast, bool, *mut Ast) -> bool;
    Z3_get_numeral_uint: fn(P, Ast, *mut c_uint) -> bool;
    Z3_set_error_handler: fn(P, *mut c_void) -> ();
    Z3_get_version: fn(*mut c_uint, *mut c_uint, *mut c_uint, *mut c_uint) -> ();
}

#[derive(Clone)]
pub enum Res {
    Sat(Rc<Vec<(u32, u8)>>),
    Unsat,
    Unknown,
}

#[derive(Default, Clone)]
pub struct Stats {
    pub queries: u64,
    pub cache_hits: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub solver_us: u64,
    pub max_us: u64,
    /// slices over few byte values, decided by evaluating every value (every 32nd one also by z3)
    pub finite: u64,
    pub finite_audited: u64,
}

pub struct Solver {
    api: Api,
    ctx: P,
    solver: P,
    bv: FxMap<u64, usize>,
    bo: FxMap<u64, usize>,
    sorts: HashMap<u16, usize>,
    cache: FxMap<Box<[u64]>, Res>,
    dom: FxMap<u64, [u64; 4]>,
    pub stats: Stats,
    pub version: String,
    pub dump: Option<(String, u64, u64)>, // dir, every, count
}

impl Solver {
    pub fn new(lib: &str, rlimit: u32) -> Solver {
        unsafe {
            let n = CString::new(lib).unwrap();
            let h = dlopen(n.as_ptr(), 2);
            if h.is_null() {
                panic!("cannot load {}", lib);
            }
            let api = Api::load(h);
            let cfg = (api.Z3_mk_config)();
            let k = |s: &str| CString::new(s).unwrap();
            (api.Z3_set_param_value)(cfg, k("model").as_ptr(), k("true").as_ptr());
            let ctx = (api.Z3_mk_context_rc)(cfg);
            (api.Z3_set_error_handler)(ctx, std::ptr::null_mut());
            let logic = (api.Z3_mk_string_symbol)(ctx, k("QF_BV").as_ptr());
            let solver = match std::env::var("LSX_SOLVER").as_deref() {
                Ok("simple") => (api.Z3_mk_simple_solver)(ctx),
                Ok("def") => (api.Z3_mk_solver)(ctx),
                _ => (api.Z3_mk_solver_for_logic)(ctx, logic),
            };
            (api.Z3_solver_inc_ref)(ctx, solver);
            let pr = (api.Z3_mk_params)(ctx);
            (api.Z3_params_inc_ref)(ctx, pr);
            (api.Z3_params_set_uint)(ctx, pr, (api.Z3_mk_string_symbol)(ctx, k("rlimit").as_ptr()), rlimit);
            (api.Z3_solver_set_params)(ctx, solver, pr);
            let (mut a, mut b, mut c, mut d) = (0, 0, 0, 0);
            (api.Z3_get_version)(&mut a, &mut b, &mut c, &mut d);
            Solver {
                api,
                ctx,
                solver,
                bv: Default::default(),
                bo: Default::default(),
                sorts: Default::default(),
                cache: Default::default(),
                dom: Default::default(),
                stats: Default::default(),
                version: format!("z3 {}.{}.{}", a, b, c),
                dump: None,
            }
        }
    }
    fn keep(&self, a: Ast) -> Ast {
        unsafe { (self.api.Z3_inc_ref)(self.ctx, a) };
        a
    }
    fn sort(&mut self, w: u16) -> P {
        let (api, ctx) = (&self.api, self.ctx);
        *self.sorts.entry(w).or_insert_with(|| unsafe {
            let s = (api.Z3_mk_bv_sort)(ctx, w as c_uint);
            (api.Z3_inc_ref)(ctx, s);
            s as usize
        }) as P
    }
    fn tb(&mut self, e: Ex) -> Ast {
        // boolean translation of a 1-bit expression
        if let Some(r) = self.bo.get(&e.0) {
            return *r as Ast;
        }
        let ctx = self.ctx;
        let n = e.n();
        let r = unsafe {
            match n {
                N::Const(v) => {
                    if v == 1 {
                        (self.api.Z3_mk_true)(ctx)
                    } else {
                        (self.api.Z3_mk_false)(ctx)
                    }
                }
                N::Not(a) => {
                    let a = self.tb(a);
                    (self.api.Z3_mk_not)(ctx, a)
                }
                N::And(a, b) => {
                    let v = [self.tb(a), self.tb(b)];
                    (self.api.Z3_mk_and)(ctx, 2, v.as_ptr())
                }
                N::Or(a, b) => {
                    let v = [self.tb(a), self.tb(b)];
                    (self.api.Z3_mk_or)(ctx, 2, v.as_ptr())
                }
                N::Xor(a, b) => {
                    let (a, b) = (self.tb(a), self.tb(b));
                    (self.api.Z3_mk_xor)(ctx, a, b)
                }
                N::Eq(a, b) => {
                    let (a, b) = (self.tv(a), self.tv(b));
                    (self.api.Z3_mk_eq)(ctx, a, b)
                }
                N::Ult(a, b) => {
                    let (a, b) = (self.tv(a), self.tv(b));
                    (self.api.Z3_mk_bvult)(ctx, a, b)
                }
                N::Slt(a, b) => {
                    let (a, b) = (self.tv(a), self.tv(b));
                    (self.api.Z3_mk_bvslt)(ctx, a, b)
                }
                N::Ite(k, a, b) => {
                    let (k, a, b) = (self.tb(k), self.tb(a), self.tb(b));
                    (self.api.Z3_mk_ite)(ctx, k, a, b)
                }
                _ => {
                    let v = self.tv_raw(e);
                    self.keep(v);
                    let one = self.num(1, 1);
                    (self.api.Z3_mk_eq)(ctx, v, one)
                }
            }
        };
        self.keep(r);
        self.bo.insert(e.0, r as usize);
        r
    }
    fn num(&mut self, v: u128, w: u16) -> Ast {
        let s = self.sort(w);
        let t = CString::new(v.to_string()).unwrap();
        let r = unsafe { (self.api.Z3_mk_numeral)(self.ctx, t.as_ptr(), s) };
        self.keep(r)
    }
    fn tv(&mut self, e: Ex) -> Ast {
        if let Some(r) = self.bv.get(&e.0) {
            return *r as Ast;
        }
        let r = if e.w() == 1 {
            match e.n() {
                N::Not(_) | N::And(..) | N::Or(..) | N::Xor(..) | N::Eq(..) | N::Ult(..) | N::Slt(..) | N::Ite(..) => {
                    let k = self.tb(e);
                    let (a, b) = (self.num(1, 1), self.num(0, 1));
                    unsafe { (self.api.Z3_mk_ite)(self.ctx, k, a, b) }
                }
                _ => self.tv_raw(e),
            }
        } else {
            self.tv_raw(e)
        };
        self.keep(r);
        self.bv.insert(e.0, r as usize);
        r
    }
    fn tv_raw(&mut self, e: Ex) -> Ast {
        let ctx = self.ctx;
        let w = e.w();
        macro_rules! b2 {
            ($f:ident, $a:expr, $b:expr) => {{
                let (x, y) = (self.tv($a), self.tv($b));
                unsafe { (self.api.$f)(ctx, x, y) }
            }};
        }
        match e.n() {
            N::Const(v) => self.num(v, w),
            N::Var(i) => {
                let s = self.sort(8);
                let nm = CString::new(format!("v{}", i)).unwrap();
                unsafe {
                    let y = (self.api.Z3_mk_string_symbol)(ctx, nm.as_ptr());
                    (self.api.Z3_mk_const)(ctx, y, s)
                }
            }
            N::Not(a) => {
                let x = self.tv(a);
                unsafe { (self.api.Z3_mk_bvnot)(ctx, x) }
            }
            N::Add(a, b) => b2!(Z3_mk_bvadd, a, b),
            N::Sub(a, b) => b2!(Z3_mk_bvsub, a, b),
            N::Mul(a, b) => b2!(Z3_mk_bvmul, a, b),
            N::UDiv(a, b) => b2!(Z3_mk_bvudiv, a, b),
            N::SDiv(a, b) => b2!(Z3_mk_bvsdiv, a, b),
            N::URem(a, b) => b2!(Z3_mk_bvurem, a, b),
            N::SRem(a, b) => b2!(Z3_mk_bvsrem, a, b),
            N::Shl(a, b) => b2!(Z3_mk_bvshl, a, b),
            N::LShr(a, b) => b2!(Z3_mk_bvlshr, a, b),
            N::AShr(a, b) => b2!(Z3_mk_bvashr, a, b),
            N::And(a, b) => b2!(Z3_mk_bvand, a, b),
            N::Or(a, b) => b2!(Z3_mk_bvor, a, b),
            N::Xor(a, b) => b2!(Z3_mk_bvxor, a, b),
            N::Concat(a, b) => b2!(Z3_mk_concat, a, b),
            N::Extract(a, lo) => {
                let x = self.tv(a);
                unsafe { (self.api.Z3_mk_extract)(ctx, (lo + w - 1) as c_uint, lo as c_uint, x) }
            }
            N::ZExt(a) => {
                let x = self.tv(a);
                unsafe { (self.api.Z3_mk_zero_ext)(ctx, (w - a.w()) as c_uint, x) }
            }
            N::SExt(a) => {
                let x = self.tv(a);
                unsafe { (self.api.Z3_mk_sign_ext)(ctx, (w - a.w()) as c_uint, x) }
            }
            N::Ite(k, a, b) => {
                let (k, a, b) = (self.tb(k), self.tv(a), self.tv(b));
                unsafe { (self.api.Z3_mk_ite)(ctx, k, a, b) }
            }
            N::Eq(..) | N::Ult(..) | N::Slt(..) => unreachable!(),
        }
    }

    /// Is `pc && cond` satisfiable?  `pc` itself is known satisfiable.
    pub fn check(&mut self, pc: &[Ex], cond: Ex) -> Res {
        if cond.is_false() {
            return Res::Unsat;
        }
        // slice: constraints connected with cond through shared variables
        let mut seen: FxMap<u32, ()> = Default::default();
        let mut work: Vec<u32> = vars(cond).to_vec();
        for v in &work {
            seen.insert(*v, ());
        }
        let mut used = vec![false; pc.len()];
        let mut key: Vec<u64> = Vec::new();
        loop {
            let mut changed = false;
            for (i, k) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let vs = vars(*k);
                if vs.iter().any(|v| seen.contains_key(v)) {
                    used[i] = true;
                    key.push(k.0);
                    for v in vs.iter() {
                        if seen.insert(*v, ()).is_none() {
                            work.push(*v);
                            changed = true;
                        }
                    }
                }
            }
            if !changed {
                break;
            }
        }
        key.sort_unstable();
        key.dedup();
        let npc = key.len();
        key.push(cond.0);
        let key = key.into_boxed_slice();
        if let Some(r) = self.cache.get(&key) {
            self.stats.cache_hits += 1;
            return r.clone();
        }
        let r = match self.finite(&key[..npc], cond, &work) {
            Some(r) => {
                self.stats.finite += 1;
                if self.stats.finite % 32 == 1 {
                    self.stats.finite_audited += 1;
                    let z = self.solve(&key[..npc], cond, &work);
                    match (&r, &z) {
                        (Res::Sat(_), Res::Unsat) | (Res::Unsat, Res::Sat(_)) => panic!("finite-domain procedure and z3 disagree"),
                        _ => {}
                    }
                }
                r
            }
            None => self.solve(&key[..npc], cond, &work),
        };
        self.cache.insert(key, r.clone());
        r
    }

    /// The values of its only variable a constraint allows.
    fn domain(&mut self, k: Ex, v: u32) -> [u64; 4] {
        if let Some(d) = self.dom.get(&k.0) {
            return *d;
        }
        let mut m = vec![0u8; v as usize + 1];
        let mut d = [0u64; 4];
        for x in 0..256usize {
            m[v as usize] = x as u8;
            if eval(k, &m, crate::exec::new_epoch()) == 1 {
                d[x >> 6] |= 1 << (x & 63);
            }
        }
        self.dom.insert(k.0, d);
        d
    }
    /// Complete decision by evaluation when few assignments are left.
    fn finite(&mut self, pcs: &[u64], cond: Ex, vs: &[u32]) -> Option<Res> {
        let mut doms: Vec<(u32, [u64; 4])> = vs.iter().map(|v| (*v, [u64::MAX; 4])).collect();
        doms.sort_unstable();
        let mut rest: Vec<Ex> = vec![];
        for k in pcs.iter().map(|k| Ex(*k)).chain(std::iter::once(cond)) {
            let kv = vars(k);
            if kv.len() == 1 {
                let d = self.domain(k, kv[0]);
                let i = doms.binary_search_by_key(&kv[0], |x| x.0).ok()?;
                for j in 0..4 {
                    doms[i].1[j] &= d[j];
                }
            } else {
                rest.push(k);
            }
        }
        let size = |d: &[u64; 4]| d.iter().map(|x| x.count_ones() as u64).sum::<u64>();
        let mut prod = 1u64;
        for (_, d) in &doms {
            let n = size(d);
            if n == 0 {
                return Some(Res::Unsat);
            }
            prod = prod.saturating_mul(n);
        }
        let vals: Vec<Vec<u8>> = doms
            .iter()
            .map(|(_, d)| (0..256usize).filter(|x| d[x >> 6] >> (x & 63) & 1 == 1).map(|x| x as u8).collect())
            .collect();
        let n = doms.last().map(|x| x.0 as usize + 1).unwrap_or(0);
        let mut m = vec![0u8; n];
        if rest.is_empty() {
            return Some(Res::Sat(Rc::new(doms.iter().zip(&vals).map(|((v, _), x)| (*v, x[0])).collect())));
        }
        if prod > 1024 {
            return None;
        }
        let mut idx = vec![0usize; vals.len()];
        loop {
            for (i, (v, _)) in doms.iter().enumerate() {
                m[*v as usize] = vals[i][idx[i]];
            }
            let ep = crate::exec::new_epoch();
            if rest.iter().rev().all(|k| eval(*k, &m, ep) == 1) {
                return Some(Res::Sat(Rc::new(doms.iter().map(|(v, _)| (*v, m[*v as usize])).collect())));
            }
            let mut i = 0;
            loop {
                if i == idx.len() {
                    return Some(Res::Unsat);
                }
                idx[i] += 1;
                if idx[i] < vals[i].len() {
                    break;
                }
                idx[i] = 0;
                i += 1;
            }
        }
    }

    fn solve(&mut self, pcs: &[u64], cond: Ex, vs: &[u32]) -> Res {
        let t0 = std::time::Instant::now();
        let mut asts = Vec::with_capacity(pcs.len() + 1);
        for k in pcs {
            asts.push(self.tb(Ex(*k)));
        }
        asts.push(self.tb(cond));
        let varasts: Vec<Ast> = vs.iter().map(|v| self.tv(var(*v))).collect();
        self.stats.queries += 1;
        let (ctx, s) = (self.ctx, self.solver);
        let r = unsafe {
            (self.api.Z3_solver_push)(ctx, s);
            for a in &asts {
                (self.api.Z3_solver_assert)(ctx, s, *a);
            }
            let r = (self.api.Z3_solver_check)(ctx, s);
            let res = match r {
                1 => {
                    let m = (self.api.Z3_solver_get_model)(ctx, s);
                    (self.api.Z3_model_inc_ref)(ctx, m);
                    let mut out = Vec::new();
                    for (v, a) in vs.iter().zip(&varasts) {
                        let mut o: Ast = std::ptr::null_mut();
                        let mut n: c_uint = 0;
                        if (self.api.Z3_model_eval)(ctx, m, *a, true, &mut o) {
                            (self.api.Z3_get_numeral_uint)(ctx, o, &mut n);
                        }
                        out.push((*v, n as u8));
                    }
                    (self.api.Z3_model_dec_ref)(ctx, m);
                    Res::Sat(Rc::new(out))
                }
                -1 => Res::Unsat,
                _ => Res::Unknown,
            };
            if let Some((dir, every, cnt)) = &mut self.dump {
                *cnt += 1;
                if *cnt % *every == 0 {
                    let t = CStr::from_ptr((self.api.Z3_solver_to_string)(ctx, s)).to_string_lossy().into_owned();
                    let f = format!("{}/q-{}-{}.smt2", dir, std::process::id(), cnt);
                    let st = match &res {
                        Res::Sat(_) => "sat",
                        Res::Unsat => "unsat",
                        _ => "unknown",
                    };
                    let _ = std::fs::write(f, format!("; expect {}\n(set-logic QF_BV)\n{}\n(check-sat)\n", st, t));
                }
            }
            (self.api.Z3_solver_pop)(ctx, s, 1);
            res
        };
        // the model must satisfy what was asked (guards the translation)
        if let Res::Sat(m) = &r {
            let n = vs.iter().max().map(|x| *x as usize + 1).unwrap_or(0);
            let mut mv = vec![0u8; n];
            for (v, x) in m.iter() {
                mv[*v as usize] = *x;
            }
            let ep = crate::exec::new_epoch();
            for k in pcs.iter().map(|k| Ex(*k)).chain(std::iter::once(cond)) {
                if eval(k, &mv, ep) != 1 {
                    panic!("solver model does not satisfy {}", show(k));
                }
            }
        }
        let us = t0.elapsed().as_micros() as u64;
        self.stats.solver_us += us;
        self.stats.max_us = self.stats.max_us.max(us);
        match r {
            Res::Sat(_) => self.stats.sat += 1,
            Res::Unsat => self.stats.unsat += 1,
            Res::Unknown => self.stats.unknown += 1,
        }
        r
    }
}
