//! Symbolic executor over the parsed LLVM module.
use crate::expr::*;
use crate::ir::*;
use crate::solver::*;
use std::collections::{BTreeMap, HashMap};
use std::rc::Rc;

static mut EPOCH: u64 = 1 << 40;
pub fn new_epoch() -> u64 {
    unsafe {
        EPOCH += 1;
        EPOCH
    }
}

#[derive(Clone, Debug)]
pub enum V {
    E(Ex),
    A(Rc<Vec<V>>),
    U,
}

#[derive(Clone)]
pub struct Frame {
    pub func: usize,
    pub block: u32,
    pub ip: u32,
    pub prev: u32,
    pub regs: Vec<V>,
    pub allocas: Vec<u32>,
}

/// byte encoding: < 256 constant, otherwise arena index + 256
#[derive(Clone)]
pub struct Obj {
    pub bytes: Vec<u32>,
    pub ro: bool,
}

fn b2e(b: u32) -> Ex {
    if b < 256 {
        c(b as u128, 8)
    } else {
        Ex((b - 256) as u64)
    }
}
fn e2b(e: Ex) -> u32 {
    match e.cv() {
        Some(v) => v as u32,
        None => e.0 as u32 + 256,
    }
}

const CH: usize = 32;
#[derive(Clone, Default)]
pub struct Mem {
    chunks: Vec<Rc<Vec<Option<Rc<Obj>>>>>,
    next: u32,
    free: Vec<u32>,
}
impl Mem {
    pub fn get(&self, id: u64) -> Option<&Rc<Obj>> {
        self.chunks.get(id as usize / CH)?.get(id as usize % CH)?.as_ref()
    }
    fn slot(&mut self, id: u64) -> &mut Option<Rc<Obj>> {
        let i = id as usize;
        while self.chunks.len() <= i / CH {
            self.chunks.push(Rc::new(vec![None; CH]));
        }
        &mut Rc::make_mut(&mut self.chunks[i / CH])[i % CH]
    }
    fn get_mut(&mut self, id: u64) -> Option<&mut Obj> {
        if self.get(id).is_none() {
            return None;
        }
        self.slot(id).as_mut().map(Rc::make_mut)
    }
    fn alloc(&mut self, size: usize) -> u32 {
        let id = match self.free.pop() {
            Some(i) => i,
            None => {
                self.next += 1;
                self.next
            }
        };
        *self.slot(id as u64) = Some(Rc::new(Obj { bytes: vec![0; size], ro: false }));
        id
    }
    fn release(&mut self, id: u64) {
        *self.slot(id) = None;
        self.free.push(id as u32);
    }
}

#[derive(Clone)]
pub struct State {
    pub frames: Vec<Rc<Frame>>,
    pub mem: Mem,
    pub pc: Vec<Ex>,
    pub bind: Vec<i16>,
    pub model: Rc<Vec<u8>>,
    pub epoch: u64,
    pub nvars: u32,
    pub steps: u64,
    pub obs: Vec<Ex>,
    pub forks: u32,
}

pub enum Stop {
    /// path is over
    Done,
    /// assumption failed or infeasible
    Dead,
    Err(String),
    /// counterexample recorded, path over
    Viol,
}
type R<T> = Result<T, Stop>;

#[derive(Clone)]
pub struct Violation {
    pub kind: String,
    pub label: String,
    pub bytes: Vec<u8>,
    pub stack: Vec<String>,
    pub obs: Vec<u64>,
}

#[derive(Clone)]
pub struct Sample {
    pub bytes: Vec<u8>,
    pub obs: Vec<u64>,
}

#[derive(Default, Clone)]
pub struct Report {
    pub paths: u64,
    pub dead: u64,
    pub steps: u64,
    pub max_steps: u64,
    pub forks: u64,
    pub max_vars: u64,
    pub checks: u64,
    pub checks_const: u64,
    pub errors: BTreeMap<String, u64>,
    pub violations: Vec<Violation>,
    pub viol_count: BTreeMap<String, u64>,
    pub reach: BTreeMap<String, (u64, Vec<u8>)>,
    pub check_labels: BTreeMap<String, u64>,
    pub samples: Vec<Sample>,
    pub inconclusive: u64,
    pub incomplete: bool,
    pub states_left: u64,
}

pub struct Opts {
    pub params: Vec<u64>,
    pub max_steps: u64,
    pub max_viol: u64,
    pub samples: usize,
    pub ite_max: usize,
}

pub struct Engine {
    pub m: &'static Module,
    pub solver: Solver,
    pub work: Vec<State>,
    pub rep: Report,
    pub opts: Opts,
    pub fcount: Vec<u64>,
    kinds: Vec<FK>,
    sample_ctr: u64,
    deadline: Option<(std::time::Instant, f64)>,
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum FK {
    Defined,
    Memcpy,
    Memset,
    Getrandom,
    Bswap,
    Bitreverse,
    Umax,
    Umin,
    Smax,
    Smin,
    Abs,
    UaddO,
    UsubO,
    UmulO,
    SaddO,
    SsubO,
    SmulO,
    UaddSat,
    UsubSat,
    SaddSat,
    SsubSat,
    Ctlz,
    Cttz,
    Ctpop,
    Fshl,
    Fshr,
    ReduceAdd,
    ReduceOr,
    ReduceAnd,
    ReduceXor,
    ReduceUmax,
    ReduceUmin,
    Ucmp,
    Scmp,
    Expect,
    Nop,
    ObjSize,
    IsConst,
    Trap,
    Alloc,
    Calloc,
    Realloc,
    Free,
    Bcmp,
    Memcmp,
    LSym,
    LAssume,
    LCheck,
    LReach,
    LObserve,
    LChoose,
    LParam,
    LPanic,
    LConc,
    LIte,
    LMemEq,
    LIsSym,
    LMemIte,
    StdPanic,
    Unknown,
}

fn kind(f: &Func) -> FK {
    // the random keys of a HashMap; any will do
    if f.name.contains("3sys6random5linux9getrandom") {
        return FK::Getrandom;
    }
    if f.name.starts_with("_ZN4core9panicking") || f.name.starts_with("_ZN3std9panicking11begin_panic") || f.name.contains("handle_alloc_error")
        || f.name.contains("rust_begin_unwind") || f.name.contains("panic_access_error")
    {
        return FK::StdPanic;
    }
    if f.defined {
        return FK::Defined;
    }
    let n = f.name.as_str();
    let tbl: &[(&str, FK)] = &[
        ("llvm.memcpy.", FK::Memcpy),
        ("llvm.memmove.", FK::Memcpy),
        ("llvm.memset.", FK::Memset),
        ("llvm.bswap.", FK::Bswap),
        ("llvm.bitreverse.", FK::Bitreverse),
        ("llvm.umax.", FK::Umax),
        ("llvm.umin.", FK::Umin),
        ("llvm.smax.", FK::Smax),
        ("llvm.smin.", FK::Smin),
        ("llvm.abs.", FK::Abs),
        ("llvm.uadd.with", FK::UaddO),
        ("llvm.usub.with", FK::UsubO),
        ("llvm.umul.with", FK::UmulO),
        ("llvm.sadd.with", FK::SaddO),
        ("llvm.ssub.with", FK::SsubO),
        ("llvm.smul.with", FK::SmulO),
        ("llvm.uadd.sat", FK::UaddSat),
        ("llvm.usub.sat", FK::UsubSat),
        ("llvm.sadd.sat", FK::SaddSat),
        ("llvm.ssub.sat", FK::SsubSat),
        ("llvm.ctlz.", FK::Ctlz),
        ("llvm.cttz.", FK::Cttz),
        ("llvm.ctpop.", FK::Ctpop),
        ("llvm.fshl.", FK::Fshl),
        ("llvm.fshr.", FK::Fshr),
        ("llvm.vector.reduce.add", FK::ReduceAdd),
        ("llvm.vector.reduce.or", FK::ReduceOr),
        ("llvm.vector.reduce.and", FK::ReduceAnd),
        ("llvm.vector.reduce.xor", FK::ReduceXor),
        ("llvm.vector.reduce.umax", FK::ReduceUmax),
        ("llvm.vector.reduce.umin", FK::ReduceUmin),
        ("llvm.ucmp.", FK::Ucmp),
        ("llvm.scmp.", FK::Scmp),
        ("llvm.expect.", FK::Expect),
        ("llvm.threadlocal.address", FK::Expect),
        ("llvm.objectsize.", FK::ObjSize),
        ("llvm.is.constant.", FK::IsConst),
        ("llvm.trap", FK::Trap),
        ("llvm.lifetime", FK::Nop),
        ("llvm.assume", FK::Nop),
        ("llvm.experimental.noalias", FK::Nop),
    ];
    for (p, k) in tbl {
        if n.starts_with(p) {
            return *k;
        }
    }
    match n {
        "malloc" | "lsx_alloc" => FK::Alloc,
        "calloc" => FK::Calloc,
        "realloc" | "lsx_realloc" => FK::Realloc,
        "free" | "lsx_free" => FK::Free,
        "bcmp" => FK::Bcmp,
        "memcmp" => FK::Memcmp,
        "memcpy" | "memmove" => FK::Memcpy,
        "memset" => FK::Memset,
        "abort" => FK::Trap,
        "lsx_sym" => FK::LSym,
        "lsx_assume" => FK::LAssume,
        "lsx_check" => FK::LCheck,
        "lsx_reach" => FK::LReach,
        "lsx_observe" => FK::LObserve,
        "lsx_choose" => FK::LChoose,
        "lsx_param" => FK::LParam,
        "lsx_panic" => FK::LPanic,
        "lsx_concretize" => FK::LConc,
        "lsx_ite" => FK::LIte,
        "lsx_memeq" => FK::LMemEq,
        "lsx_is_symbolic" => FK::LIsSym,
        "lsx_memite" => FK::LMemIte,
        _ => FK::Unknown,
    }
}

fn nz(e: Ex) -> Ex {
    not(eq(e, c(0, e.w())))
}

fn zero_of(ty: &Ty) -> V {
    match ty {
        Ty::Int(n) => V::E(c(0, *n as u16)),
        Ty::Ptr => V::E(c(0, 64)),
        Ty::Array(n, t) | Ty::Vector(n, t) => V::A(Rc::new(vec![zero_of(t); *n as usize])),
        Ty::Struct(f, _) => V::A(Rc::new(f.iter().map(zero_of).collect())),
        _ => V::U,
    }
}

fn const_v(k: &Const, ty: &Ty) -> V {
    match (k, ty) {
        (Const::Int(v), Ty::Int(n)) => V::E(c(*v, *n as u16)),
        (Const::Int(v), Ty::Ptr) => V::E(c(*v, 64)),
        (Const::Int(v), Ty::Vector(n, t)) => V::A(Rc::new(vec![const_v(&Const::Int(*v), t); *n as usize])),
        (Const::Agg(x), t) => V::A(Rc::new(x.iter().enumerate().map(|(i, k)| const_v(k, &t.field(i))).collect())),
        (Const::Zero, t) | (Const::Undef, t) => zero_of(t),
        _ => V::U,
    }
}

fn const_bytes(k: &Const, ty: &Ty, out: &mut [u32]) {
    match (k, ty) {
        (Const::Zero, _) | (Const::Undef, _) => {}
        (Const::Int(v), _) => {
            for (i, o) in out.iter_mut().enumerate().take(ty.size().min(16) as usize) {
                *o = (v >> (8 * i)) as u8 as u32;
            }
        }
        (Const::Agg(x), t) => {
            for (i, e) in x.iter().enumerate() {
                let o = t.field_offset(i) as usize;
                let ft = t.field(i);
                let s = ft.size() as usize;
                const_bytes(e, &ft, &mut out[o..o + s]);
            }
        }
    }
}

impl State {
    fn top(&self) -> &Frame {
        self.frames.last().unwrap()
    }
    fn topm(&mut self) -> &mut Frame {
        Rc::make_mut(self.frames.last_mut().unwrap())
    }
    fn ev(&self, e: Ex) -> u128 {
        eval(e, &self.model, self.epoch)
    }
    fn add(&mut self, e: Ex) {
        match e.n() {
            N::Const(_) => {}
            N::And(a, b) => {
                self.add(a);
                self.add(b);
            }
            _ => {
                if let N::Eq(a, b) = e.n() {
                    if let (N::Var(v), Some(k)) = (a.n(), b.cv()) {
                        let v = v as usize;
                        if self.bind.len() <= v {
                            self.bind.resize(v + 1, -1);
                        }
                        self.bind[v] = k as i16;
                    }
                }
                if !self.pc.contains(&e) {
                    self.pc.push(e);
                }
            }
        }
    }
    fn patch_model(&mut self, m: &[(u32, u8)]) {
        let mut v = (*self.model).clone();
        for (i, x) in m {
            if v.len() <= *i as usize {
                v.resize(*i as usize + 1, 0);
            }
            v[*i as usize] = *x;
        }
        self.model = Rc::new(v);
        self.epoch = new_epoch();
    }
    fn set(&mut self, dst: Option<u32>, v: V) {
        if let Some(d) = dst {
            self.topm().regs[d as usize] = v;
        }
    }
    fn bytes(&self) -> Vec<u8> {
        (0..self.nvars as usize).map(|i| self.model.get(i).copied().unwrap_or(0)).collect()
    }
}

impl Engine {
    pub fn new(m: &'static Module, solver: Solver, opts: Opts) -> Engine {
        let kinds = m.funcs.iter().map(kind).collect();
        Engine { m, solver, work: vec![], rep: Default::default(), opts, fcount: vec![0; m.funcs.len()], kinds, sample_ctr: 0, deadline: None }
    }
    pub fn set_deadline(&mut self, t0: std::time::Instant, limit: f64) {
        self.deadline = Some((t0, limit));
    }
    pub fn reset_report(&mut self) {
        self.rep = Default::default();
        self.solver.stats = Default::default();
        self.fcount.iter_mut().for_each(|x| *x = 0);
        self.sample_ctr = 0;
    }
    pub fn init_state(&mut self, fname: &str) -> Option<State> {
        let mut mem = Mem::default();
        let nf = self.m.funcs.len() as u64;
        for (i, g) in self.m.globals.iter().enumerate() {
            let id = 1 + nf + i as u64;
            let mut b = vec![0u32; g.ty.size() as usize];
            if let Some(k) = &g.init {
                const_bytes(k, &g.ty, &mut b);
            }
            *mem.slot(id) = Some(Rc::new(Obj { bytes: b, ro: g.constant }));
        }
        mem.next = (nf + self.m.globals.len() as u64 + 2) as u32;
        let fi = *self.m.func_by_name.get(fname)?;
        let f = &self.m.funcs[fi];
        if !f.defined {
            return None;
        }
        Some(State {
            frames: vec![Rc::new(Frame { func: fi, block: 0, ip: 0, prev: 0, regs: vec![V::U; f.nregs], allocas: vec![] })],
            mem,
            pc: vec![],
            bind: vec![],
            model: Rc::new(vec![]),
            epoch: new_epoch(),
            nvars: 0,
            steps: 0,
            obs: vec![],
            forks: 0,
        })
    }

    fn stack(&self, st: &State) -> Vec<String> {
        st.frames.iter().rev().take(12).map(|f| self.m.funcs[f.func].name.clone()).collect()
    }

    fn violation(&mut self, st: &State, kind: &str, label: String) {
        let key = format!("{}: {}", kind, label);
        let n = self.rep.viol_count.entry(key).or_insert(0);
        *n += 1;
        if *n <= self.opts.max_viol {
            let obs = st.obs.iter().map(|e| st.ev(*e) as u64).collect();
            let v = Violation { kind: kind.into(), label, bytes: st.bytes(), stack: self.stack(st), obs };
            self.rep.violations.push(v);
        }
    }

    fn op(&self, st: &State, o: &Opnd, ty: &Ty) -> V {
        match o {
            Opnd::Reg(r) => match &st.top().regs[*r as usize] {
                V::U => zero_of(ty),
                v => v.clone(),
            },
            Opnd::C(k) => const_v(k, ty),
        }
    }
    fn ope(&self, st: &State, o: &Opnd, ty: &Ty) -> R<Ex> {
        match o {
            Opnd::C(Const::Int(v)) => {
                return Ok(match ty {
                    Ty::Int(n) => c(*v, *n as u16),
                    _ => c(*v, 64),
                })
            }
            Opnd::Reg(r) => {
                if let V::E(e) = &st.top().regs[*r as usize] {
                    return Ok(*e);
                }
            }
            _ => {}
        }
        match self.op(st, o, ty) {
            V::E(e) => Ok(e),
            _ => Err(Stop::Err(format!("scalar operand expected, type {:?}", ty))),
        }
    }

    /// Decide a branch; on both feasible, returns Ok(dir) for `st` and pushes the other direction via `other`.
    fn branch(&mut self, st: &mut State, cond: Ex, other: impl FnOnce(&mut State, bool)) -> R<bool> {
        if let Some(v) = cond.cv() {
            return Ok(v == 1);
        }
        let cond = subst(cond, &st.bind);
        if let Some(v) = cond.cv() {
            return Ok(v == 1);
        }
        let nc = not(cond);
        if st.pc.contains(&cond) {
            return Ok(true);
        }
        if st.pc.contains(&nc) {
            return Ok(false);
        }
        let dir = st.ev(cond) == 1;
        let (mine, theirs) = if dir { (cond, nc) } else { (nc, cond) };
        match self.solver.check(&st.pc, theirs) {
            Res::Sat(m) => {
                let mut o = st.clone();
                o.patch_model(&m);
                o.add(theirs);
                o.forks += 1;
                st.forks += 1;
                self.rep.forks += 1;
                other(&mut o, !dir);
                self.work.push(o);
                st.add(mine);
            }
            Res::Unsat => {
                // implied: remember it so that it is not asked again
            }
            Res::Unknown => {
                self.rep.inconclusive += 1;
                st.add(mine);
            }
        }
        Ok(dir)
    }

    /// Make the value concrete in this state; other values continue in re-executed copies.
    fn concretize(&mut self, st: &mut State, e: Ex) -> R<u128> {
        if let Some(v) = e.cv() {
            return Ok(v);
        }
        let e = subst(e, &st.bind);
        if let Some(v) = e.cv() {
            return Ok(v);
        }
        let v = st.ev(e);
        let k = eq(e, c(v, e.w()));
        self.branch(st, k, |_, _| {})?;
        Ok(v)
    }

    fn resolve(&mut self, st: &mut State, addr: Ex, n: u64, what: &str) -> R<(u64, Ex)> {
        let mut addr = addr;
        if addr.cv().is_none() {
            addr = subst(addr, &st.bind);
            // a select between pointers: decide it first
            let mut guard = 0;
            loop {
                let inner = match addr.n() {
                    N::Add(p, q) if q.cv().is_some() => p,
                    _ => addr,
                };
                let big = |e: Ex| e.range().1 >= 1 << SLOT_SHIFT;
                match inner.n() {
                    N::Ite(k, a, b) if big(a) || big(b) => {
                        let d = self.branch(st, k, |_, _| {})?;
                        let pick = if d { a } else { b };
                        addr = match addr.n() {
                            N::Add(_, q) if inner != addr => add(pick, q),
                            _ => pick,
                        };
                    }
                    _ => break,
                }
                guard += 1;
                if guard > 64 {
                    break;
                }
            }
        }
        if let Some(a) = addr.cv() {
            let a = a as u64;
            let id = a >> SLOT_SHIFT;
            let off = (a & 0xffff_ffff) as i64 - SLOT_BASE as i64;
            match st.mem.get(id) {
                Some(o) if off >= 0 && off as u64 + n <= o.bytes.len() as u64 => return Ok((id, c(off as u128, 64))),
                Some(o) => return self.memerr(st, format!("{}: offset {} size {} in object of {} bytes", what, off, n, o.bytes.len())),
                None => return self.memerr(st, format!("{}: bad pointer {:#x}", what, a)),
            }
        }
        let a = st.ev(addr) as u64;
        let id = a >> SLOT_SHIFT;
        let size = match st.mem.get(id) {
            Some(o) => o.bytes.len() as u64,
            None => return self.memerr(st, format!("{}: bad symbolic pointer {:#x}", what, a)),
        };
        let off = sub(addr, c(obj_addr(id) as u128, 64));
        if size < n {
            return self.memerr(st, format!("{}: size {} in object of {} bytes", what, n, size));
        }
        let inb = ule(off, c((size - n) as u128, 64));
        let d = self.branch(st, inb, |_, _| {})?;
        if !d {
            return self.memerr(st, format!("{}: symbolic offset out of bounds", what));
        }
        Ok((id, subst(off, &st.bind)))
    }
    fn memerr<T>(&mut self, st: &State, s: String) -> R<T> {
        self.violation(st, "memory", s);
        Err(Stop::Viol)
    }

    fn load_at(o: &Obj, off: usize, n: usize) -> Ex {
        let b = &o.bytes[off..off + n];
        if n <= 16 && b.iter().all(|x| *x < 256) {
            let mut v = 0u128;
            for (i, x) in b.iter().enumerate() {
                v |= (*x as u128) << (8 * i);
            }
            return c(v, 8 * n as u16);
        }
        let mut e = b2e(b[n - 1]);
        for x in b[..n - 1].iter().rev() {
            e = concat(e, b2e(*x));
        }
        e
    }

    fn load_sc(&mut self, st: &mut State, addr: Ex, bits: u16) -> R<Ex> {
        let n = ((bits + 7) / 8) as usize;
        if n > 16 {
            return Err(Stop::Err(format!("load of {} bits", bits)));
        }
        let (id, mut off) = self.resolve(st, addr, n as u64, "load")?;
        let o = st.mem.get(id).unwrap().clone();
        if !o.ro && off.cv().is_none() {
            // tables become a select over their entries; anything else one path per offset
            off = c(self.concretize(st, off)?, 64);
        }
        let e = match off.cv() {
            Some(k) => Self::load_at(&o, k as usize, n),
            None => {
                let (lo, hi) = off.range();
                let hi = hi.min((o.bytes.len() - n) as u128);
                if hi - lo > self.opts.ite_max as u128 {
                    let k = self.concretize(st, off)?;
                    Self::load_at(&o, k as usize, n)
                } else {
                    // group offsets by loaded value
                    let mut groups: Vec<(Ex, Ex)> = vec![];
                    let mut idx: HashMap<Ex, usize> = HashMap::new();
                    for j in lo..=hi {
                        let k = eq(off, c(j, 64));
                        if k.is_false() {
                            continue;
                        }
                        let v = Self::load_at(&o, j as usize, n);
                        match idx.get(&v) {
                            Some(g) => groups[*g].1 = or(groups[*g].1, k),
                            None => {
                                idx.insert(v, groups.len());
                                groups.push((v, k));
                            }
                        }
                    }
                    let mut it = groups.iter().rev();
                    let mut acc = it.next().unwrap().0;
                    for (v, k) in it {
                        acc = ite(*k, *v, acc);
                    }
                    acc
                }
            }
        };
        Ok(if e.w() > bits { extract(e, 0, bits) } else { e })
    }

    fn load(&mut self, st: &mut State, addr: Ex, ty: &Ty) -> R<V> {
        match ty {
            Ty::Int(n) => Ok(V::E(self.load_sc(st, addr, *n as u16)?)),
            Ty::Ptr => Ok(V::E(self.load_sc(st, addr, 64)?)),
            Ty::Vector(n, t) if t.bits() % 8 != 0 => {
                let e = self.load_sc(st, addr, (*n * t.bits()) as u16)?;
                Ok(self.from_bits(e, ty))
            }
            Ty::Array(..) | Ty::Vector(..) | Ty::Struct(..) => {
                let mut v = Vec::new();
                for i in 0..ty.nfields() {
                    let a = add(addr, c(ty.field_offset(i) as u128, 64));
                    v.push(self.load(st, a, &ty.field(i))?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Err(format!("load type {:?}", ty))),
        }
    }

    fn store_sc(&mut self, st: &mut State, addr: Ex, e: Ex) -> R<()> {
        let n = ((e.w() + 7) / 8) as usize;
        let e = if e.w() as usize != n * 8 { zext(e, n as u16 * 8) } else { e };
        let (id, off) = self.resolve(st, addr, n as u64, "store")?;
        let (ro, len) = {
            let o = st.mem.get(id).unwrap();
            (o.ro, o.bytes.len())
        };
        if ro {
            return self.memerr(st, "store to read-only object".into());
        }
        let mut off = off;
        if off.cv().is_none() {
            let (lo, hi) = off.range();
            let hi = hi.min((len - n) as u128);
            if true || hi - lo > 128 {
                off = c(self.concretize(st, off)?, 64);
            } else {
                let o = st.mem.get_mut(id).unwrap();
                for j in lo..=hi {
                    let k = eq(off, c(j, 64));
                    if k.is_false() {
                        continue;
                    }
                    for i in 0..n {
                        let p = j as usize + i;
                        o.bytes[p] = e2b(ite(k, extract(e, 8 * i as u16, 8), b2e(o.bytes[p])));
                    }
                }
                return Ok(());
            }
        }
        let k = off.cv().unwrap() as usize;
        let o = st.mem.get_mut(id).unwrap();
        if let Some(v) = e.cv() {
            for i in 0..n {
                o.bytes[k + i] = (v >> (8 * i)) as u8 as u32;
            }
        } else {
            for i in 0..n {
                o.bytes[k + i] = e2b(extract(e, 8 * i as u16, 8));
            }
        }
        Ok(())
    }
    fn store(&mut self, st: &mut State, addr: Ex, v: &V, ty: &Ty) -> R<()> {
        match (v, ty) {
            (V::E(e), _) => self.store_sc(st, addr, *e),
            (V::A(_), Ty::Vector(_, t)) if t.bits() % 8 != 0 => {
                let e = self.to_bits(v, ty)?;
                self.store_sc(st, addr, e)
            }
            (V::A(x), _) => {
                for i in 0..ty.nfields() {
                    let a = add(addr, c(ty.field_offset(i) as u128, 64));
                    self.store(st, a, &x[i], &ty.field(i))?;
                }
                Ok(())
            }
            (V::U, _) => Ok(()),
        }
    }
    fn to_bits(&self, v: &V, ty: &Ty) -> R<Ex> {
        match v {
            V::E(e) => Ok(*e),
            V::A(x) => {
                if ty.bits() > 128 {
                    return Err(Stop::Err("bitcast of a wide vector".into()));
                }
                let mut acc: Option<Ex> = None;
                for (i, y) in x.iter().enumerate() {
                    let e = self.to_bits(y, &ty.field(i))?;
                    acc = Some(match acc {
                        None => e,
                        Some(a) => concat(e, a),
                    });
                }
                acc.ok_or(Stop::Err("empty vector".into()))
            }
            V::U => self.to_bits(&zero_of(ty), ty),
        }
    }
    fn from_bits(&self, e: Ex, ty: &Ty) -> V {
        match ty {
            Ty::Vector(n, t) => {
                let w = t.bits() as u16;
                V::A(Rc::new((0..*n as u16).map(|i| V::E(extract(e, i * w, w))).collect()))
            }
            _ => V::E(e),
        }
    }

    fn read_str(&mut self, st: &mut State, p: Ex, n: Ex) -> R<String> {
        let n = self.concretize(st, n)? as u64;
        let mut s = Vec::new();
        for i in 0..n {
            let e = self.load_sc(st, add(p, c(i as u128, 64)), 8)?;
            s.push(self.concretize(st, e)? as u8);
        }
        Ok(String::from_utf8_lossy(&s).into_owned())
    }

    fn jump(&mut self, st: &mut State, to: u32) -> R<()> {
        let (f, from) = {
            let t = st.top();
            (t.func, t.block)
        };
        let blk = &self.m.funcs[f].blocks[to as usize];
        let mut vals: Vec<(u32, V)> = Vec::with_capacity(blk.nphi);
        for ins in &blk.ins[..blk.nphi] {
            if let Inst::Phi(ty, inc) = &ins.i {
                match inc.iter().find(|x| x.1 == from) {
                    Some((o, _)) => {
                        let v = self.op(st, o, ty);
                        vals.push((ins.dst.unwrap(), v));
                    }
                    None => return Err(Stop::Err("phi without incoming edge".into())),
                }
            }
        }
        let t = st.topm();
        for (d, v) in vals {
            t.regs[d as usize] = v;
        }
        t.prev = from;
        t.block = to;
        t.ip = blk.nphi as u32;
        Ok(())
    }

    fn scalar2(b: Bin, x: Ex, y: Ex) -> Ex {
        match b {
            Bin::Add => add(x, y),
            Bin::Sub => sub(x, y),
            Bin::Mul => mul(x, y),
            Bin::UDiv => udiv(x, y),
            Bin::SDiv => sdiv(x, y),
            Bin::URem => urem(x, y),
            Bin::SRem => srem(x, y),
            Bin::Shl => shl(x, y),
            Bin::LShr => lshr(x, y),
            Bin::AShr => ashr(x, y),
            Bin::And => and(x, y),
            Bin::Or => or(x, y),
            Bin::Xor => xor(x, y),
        }
    }
    fn scalarcmp(p: Pred, x: Ex, y: Ex) -> Ex {
        match p {
            Pred::Eq => eq(x, y),
            Pred::Ne => not(eq(x, y)),
            Pred::Ugt => ult(y, x),
            Pred::Uge => ule(y, x),
            Pred::Ult => ult(x, y),
            Pred::Ule => ule(x, y),
            Pred::Sgt => slt(y, x),
            Pred::Sge => sle(y, x),
            Pred::Slt => slt(x, y),
            Pred::Sle => sle(x, y),
        }
    }
    fn map2(x: &V, y: &V, f: &dyn Fn(Ex, Ex) -> Ex) -> R<V> {
        match (x, y) {
            (V::E(a), V::E(b)) => Ok(V::E(f(*a, *b))),
            (V::A(a), V::A(b)) => {
                let mut v = vec![];
                for (p, q) in a.iter().zip(b.iter()) {
                    v.push(Self::map2(p, q, f)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Err("mixed operand shapes".into())),
        }
    }
    fn map1(x: &V, f: &dyn Fn(Ex) -> Ex) -> R<V> {
        match x {
            V::E(a) => Ok(V::E(f(*a))),
            V::A(a) => {
                let mut v = vec![];
                for p in a.iter() {
                    v.push(Self::map1(p, f)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            _ => Err(Stop::Err("undef operand".into())),
        }
    }
    fn ite_v(k: Ex, a: &V, b: &V) -> R<V> {
        match (a, b) {
            (V::E(x), V::E(y)) => Ok(V::E(ite(k, *x, *y))),
            (V::A(x), V::A(y)) => {
                let mut v = vec![];
                for (p, q) in x.iter().zip(y.iter()) {
                    v.push(Self::ite_v(k, p, q)?);
                }
                Ok(V::A(Rc::new(v)))
            }
            (V::U, y) => Ok(y.clone()),
            (x, _) => Ok(x.clone()),
        }
    }

    /// Run a state until it ends. Forked siblings are pushed on the work list.
    pub fn run(&mut self, mut st: State) {
        let r = loop {
            match self.step(&mut st) {
                Ok(()) => {}
                Err(s) => break s,
            }
            if st.steps & 0xfff == 0 {
                if let Some((t, l)) = self.deadline {
                    if t.elapsed().as_secs_f64() > l {
                        self.rep.incomplete = true;
                        self.rep.states_left += 1;
                        return;
                    }
                }
            }
            if st.steps > self.opts.max_steps {
                self.violation(&st, "hang", format!("more than {} instructions on one path", self.opts.max_steps));
                break Stop::Viol;
            }
        };
        self.rep.steps += st.steps;
        self.rep.max_steps = self.rep.max_steps.max(st.steps);
        self.rep.max_vars = self.rep.max_vars.max(st.nvars as u64);
        match r {
            Stop::Done => {
                self.rep.paths += 1;
                self.sample(&st);
            }
            Stop::Viol => self.rep.paths += 1,
            Stop::Dead => self.rep.dead += 1,
            Stop::Err(s) => {
                let s = format!("{} [in {}]", s, self.stack(&st).join(" < "));
                *self.rep.errors.entry(s).or_insert(0) += 1;
            }
        }
    }
    fn sample(&mut self, st: &State) {
        // reservoir over completed paths, deterministic
        self.sample_ctr += 1;
        let k = self.opts.samples;
        if k == 0 {
            return;
        }
        let mk = |st: &State| Sample { bytes: st.bytes(), obs: st.obs.iter().map(|e| st.ev(*e) as u64).collect() };
        if self.rep.samples.len() < k {
            let s = mk(st);
            self.rep.samples.push(s);
        } else {
            let mut x = self.sample_ctr.wrapping_mul(0x9e3779b97f4a7c15);
            x ^= x >> 32;
            let j = x % self.sample_ctr;
            if (j as usize) < k {
                self.rep.samples[j as usize] = mk(st);
            }
        }
    }

    fn step(&mut self, st: &mut State) -> R<()> {
        let (fi, b, ip) = {
            let t = st.top();
            (t.func, t.block, t.ip)
        };
        let m: &'static Module = self.m;
        let ins = &m.funcs[fi].blocks[b as usize].ins[ip as usize];
        st.steps += 1;
        let v = match &ins.i {
            Inst::Bin(op, ty, x, y) => {
                if let Ty::Int(_) = ty {
                    let (x, y) = (self.ope(st, x, ty)?, self.ope(st, y, ty)?);
                    V::E(Self::scalar2(*op, x, y))
                } else {
                    let (x, y) = (self.op(st, x, ty), self.op(st, y, ty));
                    Self::map2(&x, &y, &|p, q| Self::scalar2(*op, p, q))?
                }
            }
            Inst::ICmp(p, ty, x, y) => match ty {
                Ty::Int(_) | Ty::Ptr => {
                    let (x, y) = (self.ope(st, x, ty)?, self.ope(st, y, ty)?);
                    V::E(Self::scalarcmp(*p, x, y))
                }
                _ => {
                    let (x, y) = (self.op(st, x, ty), self.op(st, y, ty));
                    Self::map2(&x, &y, &|a, b| Self::scalarcmp(*p, a, b))?
                }
            },
            Inst::Cast(k, t1, o, t2) => {
                let x = self.op(st, o, t1);
                match k {
                    Cast::Bitcast => {
                        let vec = |t: &Ty| matches!(t, Ty::Vector(..));
                        if vec(t1) || vec(t2) {
                            let e = self.to_bits(&x, t1)?;
                            self.from_bits(e, t2)
                        } else {
                            x
                        }
                    }
                    _ => {
                        let w = match t2 {
                            Ty::Vector(_, t) => t.bits() as u16,
                            t => t.bits() as u16,
                        };
                        if w > 128 {
                            return Err(Stop::Err(format!("cast to {} bits", w)));
                        }
                        let s = matches!(k, Cast::SExt);
                        Self::map1(&x, &|e| if s { resize_s(e, w) } else { resize_u(e, w) })?
                    }
                }
            }
            Inst::Select(k, ty, x, y, vec) => {
                if *vec {
                    let n = ty.nfields();
                    let kv = self.op(st, k, &Ty::Vector(n as u64, Rc::new(Ty::Int(1))));
                    let (a, b) = (self.op(st, x, ty), self.op(st, y, ty));
                    match (kv, a, b) {
                        (V::A(k), V::A(a), V::A(b)) => {
                            let mut v = vec![];
                            for i in 0..n {
                                let ke = match &k[i] {
                                    V::E(e) => *e,
                                    _ => fls(),
                                };
                                v.push(Self::ite_v(ke, &a[i], &b[i])?);
                            }
                            V::A(Rc::new(v))
                        }
                        _ => return Err(Stop::Err("vector select".into())),
                    }
                } else {
                    let k = self.ope(st, k, &Ty::Int(1))?;
                    if k.is_true() {
                        self.op(st, x, ty)
                    } else if k.is_false() {
                        self.op(st, y, ty)
                    } else {
                        let (a, b) = (self.op(st, x, ty), self.op(st, y, ty));
                        Self::ite_v(k, &a, &b)?
                    }
                }
            }
            Inst::Alloca(ty, n) => {
                let n = self.ope(st, n, &Ty::Int(64))?;
                let n = self.concretize(st, n)?;
                let id = st.mem.alloc((ty.size() * n as u64) as usize);
                st.topm().allocas.push(id);
                V::E(c(obj_addr(id as u64) as u128, 64))
            }
            Inst::Load(ty, a) => {
                let a = self.ope(st, a, &Ty::Ptr)?;
                self.load(st, a, ty)?
            }
            Inst::Store(ty, v, a) => {
                let a = self.ope(st, a, &Ty::Ptr)?;
                let v = self.op(st, v, ty);
                self.store(st, a, &v, ty)?;
                V::U
            }
            Inst::Gep(ty, base, idx) => {
                let mut a = self.ope(st, base, &Ty::Ptr)?;
                let mut t = ty.clone();
                for (i, (it, o)) in idx.iter().enumerate() {
                    let e = self.ope(st, o, it)?;
                    if i == 0 {
                        a = add(a, mul(resize_s(e, 64), c(t.size() as u128, 64)));
                    } else {
                        match &t {
                            Ty::Struct(..) => {
                                let k = e.cv().unwrap() as usize;
                                a = add(a, c(t.field_offset(k) as u128, 64));
                                t = t.field(k);
                            }
                            _ => {
                                let f = t.field(0);
                                a = add(a, mul(resize_s(e, 64), c(f.size() as u128, 64)));
                                t = f;
                            }
                        }
                    }
                }
                V::E(a)
            }
            Inst::ExtractValue(o, idx) => {
                let mut v = match o {
                    Opnd::Reg(r) => st.top().regs[*r as usize].clone(),
                    Opnd::C(_) => return Err(Stop::Err("extractvalue of a constant".into())),
                };
                for i in idx {
                    v = match &v {
                        V::A(x) => x[*i as usize].clone(),
                        _ => V::U,
                    };
                }
                v
            }
            Inst::InsertValue(ty, a, x, idx) => {
                let base = self.op(st, a, ty);
                let mut ft = ty.clone();
                for i in idx {
                    ft = ft.field(*i as usize);
                }
                let x = self.op(st, x, &ft);
                fn ins(b: V, x: V, idx: &[u32], ty: &Ty) -> V {
                    if idx.is_empty() {
                        return x;
                    }
                    let b = if let V::U = b { zero_of(ty) } else { b };
                    if let V::A(mut r) = b {
                        let k = idx[0] as usize;
                        let v = Rc::make_mut(&mut r);
                        let old = std::mem::replace(&mut v[k], V::U);
                        v[k] = ins(old, x, &idx[1..], &ty.field(k));
                        V::A(r)
                    } else {
                        x
                    }
                }
                ins(base, x, idx, ty)
            }
            Inst::ExtractElement(a, i) => {
                let v = match a {
                    Opnd::Reg(r) => st.top().regs[*r as usize].clone(),
                    _ => return Err(Stop::Err("extractelement of a constant".into())),
                };
                let i = self.ope(st, i, &Ty::Int(64))?;
                let i = self.concretize(st, i)? as usize;
                match v {
                    V::A(x) => x[i].clone(),
                    _ => V::U,
                }
            }
            Inst::InsertElement(ty, a, x, i) => {
                let v = self.op(st, a, ty);
                let x = self.op(st, x, &ty.field(0));
                let i = self.ope(st, i, &Ty::Int(64))?;
                let i = self.concretize(st, i)? as usize;
                match v {
                    V::A(mut r) => {
                        Rc::make_mut(&mut r)[i] = x;
                        V::A(r)
                    }
                    _ => return Err(Stop::Err("insertelement".into())),
                }
            }
            Inst::Shuffle(ty, a, b, mask) => {
                let (a, b) = (self.op(st, a, ty), self.op(st, b, ty));
                let n = ty.nfields() as i64;
                match (a, b) {
                    (V::A(a), V::A(b)) => V::A(Rc::new(
                        mask.iter()
                            .map(|k| {
                                if *k < 0 {
                                    zero_of(&ty.field(0))
                                } else if *k < n {
                                    a[*k as usize].clone()
                                } else {
                                    b[(*k - n) as usize].clone()
                                }
                            })
                            .collect(),
                    )),
                    _ => return Err(Stop::Err("shuffle".into())),
                }
            }
            Inst::Freeze(o) => match o {
                Opnd::Reg(r) => st.top().regs[*r as usize].clone(),
                _ => V::U,
            },
            Inst::CmpXchg(ty, a, x, n) => {
                let a = self.ope(st, a, &Ty::Ptr)?;
                let old = match self.load(st, a, ty)? {
                    V::E(e) => e,
                    _ => return Err(Stop::Err("cmpxchg".into())),
                };
                let x = self.ope(st, x, ty)?;
                let n = self.ope(st, n, ty)?;
                let k = eq(old, x);
                self.store(st, a, &V::E(ite(k, n, old)), ty)?;
                V::A(Rc::new(vec![V::E(old), V::E(k)]))
            }
            Inst::AtomicRmw(o, ty, a, x) => {
                let a = self.ope(st, a, &Ty::Ptr)?;
                let old = match self.load(st, a, ty)? {
                    V::E(e) => e,
                    _ => return Err(Stop::Err("atomicrmw".into())),
                };
                let x = self.ope(st, x, ty)?;
                let n = match o.as_str() {
                    "xchg" => x,
                    "add" => add(old, x),
                    "sub" => sub(old, x),
                    "and" => and(old, x),
                    "or" => or(old, x),
                    "xor" => xor(old, x),
                    "umax" => umax(old, x),
                    "umin" => umin(old, x),
                    _ => return Err(Stop::Err(format!("atomicrmw {}", o))),
                };
                self.store(st, a, &V::E(n), ty)?;
                V::E(old)
            }
            Inst::Call { callee, ret, args, normal } => {
                return self.call(st, ins, callee, ret, args, *normal);
            }
            Inst::Br(t) => {
                return self.jump(st, *t);
            }
            Inst::CondBr(k, a, b2) => {
                let k = self.ope(st, k, &Ty::Int(1))?;
                if a == b2 {
                    return self.jump(st, *a);
                }
                // the sibling re-executes this branch with its decision in its path condition
                let d = self.branch(st, k, |_, _| {})?;
                return self.jump(st, if d { *a } else { *b2 });
            }
            Inst::Switch(ty, v, def, cases) => {
                let e = self.ope(st, v, ty)?;
                let w = e.w();
                let e = subst(e, &st.bind);
                if let Some(x) = e.cv() {
                    let t = cases.iter().find(|k| k.0 & mask(w) == x).map(|k| k.1).unwrap_or(*def);
                    return self.jump(st, t);
                }
                // targets in order, conditions per target
                let mut tg: Vec<(u32, Ex)> = vec![];
                let mut dcond = tru();
                for (kv, t) in cases {
                    let k = eq(e, c(*kv, w));
                    if k.is_false() {
                        continue;
                    }
                    if t == def {
                        continue;
                    }
                    dcond = and(dcond, not(k));
                    match tg.iter_mut().find(|x| x.0 == *t) {
                        Some(x) => x.1 = or(x.1, k),
                        None => tg.push((*t, k)),
                    }
                }
                let x = st.ev(e);
                let mine = cases.iter().find(|k| k.0 & mask(w) == x).map(|k| k.1).unwrap_or(*def);
                tg.push((*def, dcond));
                let mut mcond = tru();
                for (t, k) in &tg {
                    if *t == mine {
                        mcond = *k;
                        continue;
                    }
                    if k.is_false() {
                        continue;
                    }
                    match self.solver.check(&st.pc, *k) {
                        Res::Sat(mm) => {
                            let mut o = st.clone();
                            o.patch_model(&mm);
                            o.add(*k);
                            o.forks += 1;
                            self.rep.forks += 1;
                            match self.jump(&mut o, *t) {
                                Ok(()) => self.work.push(o),
                                Err(e) => return Err(e),
                            }
                        }
                        Res::Unsat => {}
                        Res::Unknown => self.rep.inconclusive += 1,
                    }
                }
                st.add(mcond);
                return self.jump(st, mine);
            }
            Inst::Ret(o) => {
                let v = match o {
                    None => V::U,
                    Some((ty, o)) => self.op(st, o, ty),
                };
                let fr = st.frames.pop().unwrap();
                for a in &fr.allocas {
                    st.mem.release(*a as u64);
                }
                if st.frames.is_empty() {
                    return Err(Stop::Done);
                }
                return self.ret(st, v);
            }
            Inst::Unreachable => {
                self.violation(st, "unreachable", "unreachable code executed".into());
                return Err(Stop::Viol);
            }
            Inst::Phi(..) => return Err(Stop::Err("phi in the middle".into())),
            Inst::Nop => V::U,
            Inst::Unsupported(s) => return Err(Stop::Err(format!("unsupported: {}", s))),
        };
        st.set(ins.dst, v);
        st.topm().ip += 1;
        Ok(())
    }

    fn ret(&mut self, st: &mut State, v: V) -> R<()> {
        // back in the caller, at the call instruction
        let (fi, b, ip) = {
            let t = st.top();
            (t.func, t.block, t.ip)
        };
        let ins = &self.m.funcs[fi].blocks[b as usize].ins[ip as usize];
        st.set(ins.dst, v);
        if let Inst::Call { normal: Some(n), .. } = &ins.i {
            return self.jump(st, *n);
        }
        st.topm().ip += 1;
        Ok(())
    }

    fn call(&mut self, st: &mut State, ins: &'static Ins, callee: &'static Callee, ret: &Ty, args: &'static [(Ty, Opnd)], normal: Option<u32>) -> R<()> {
        let fi = match callee {
            Callee::Func(i) => *i,
            Callee::Reg(o) => {
                let p = self.ope(st, o, &Ty::Ptr)?;
                let p = self.concretize(st, p)? as u64;
                let id = p >> SLOT_SHIFT;
                if p & 0xffff_ffff != SLOT_BASE || id == 0 || id as usize > self.m.funcs.len() {
                    return self.memerr(st, format!("call through a bad pointer {:#x}", p));
                }
                id as usize - 1
            }
            Callee::Asm(s) => {
                if s.trim().is_empty() {
                    // optimisation barrier (black_box)
                    let v = if ret == &Ty::Void || args.is_empty() { V::U } else { self.op(st, &args[0].1, &args[0].0) };
                    return self.finish(st, ins, v, normal);
                }
                return Err(Stop::Err(format!("inline asm {}", s)));
            }
        };
        self.fcount[fi] += 1;
        let k = self.kinds[fi];
        if k == FK::Defined {
            let f = &self.m.funcs[fi];
            if st.frames.len() > 2000 {
                self.violation(st, "stack", "call depth over 2000".into());
                return Err(Stop::Viol);
            }
            let mut regs = vec![V::U; f.nregs];
            for (i, (ty, o)) in args.iter().enumerate().take(f.nparams) {
                regs[i] = self.op(st, o, ty);
            }
            st.frames.push(Rc::new(Frame { func: fi, block: 0, ip: 0, prev: 0, regs, allocas: vec![] }));
            return Ok(());
        }
        let mut a: Vec<V> = Vec::with_capacity(args.len());
        for (ty, o) in args {
            a.push(self.op(st, o, ty));
        }
        let v = self.intrinsic(st, k, fi, &a, ret)?;
        self.finish(st, ins, v, normal)
    }
    fn finish(&mut self, st: &mut State, ins: &Ins, v: V, normal: Option<u32>) -> R<()> {
        st.set(ins.dst, v);
        if let Some(n) = normal {
            return self.jump(st, n);
        }
        st.topm().ip += 1;
        Ok(())
    }

    fn copy(&mut self, st: &mut State, d: Ex, s: Ex, n: u64) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let (si, so) = self.resolve(st, s, n, "memcpy source")?;
        let so = self.conc_off(st, so, si, n)?;
        let (di, dof) = self.resolve(st, d, n, "memcpy destination")?;
        let data: Vec<u32> = match so {
            Ok(so) => st.mem.get(si).unwrap().bytes[so..so + n as usize].to_vec(),
            Err(so) => {
                // symbolic source offset, small object: per-byte selection
                let o = st.mem.get(si).unwrap().clone();
                let (lo, hi) = so.range();
                let hi = hi.min((o.bytes.len() as u64 - n) as u128);
                (0..n as usize)
                    .map(|i| {
                        let mut acc = b2e(o.bytes[hi as usize + i]);
                        for j in (lo..hi).rev() {
                            acc = ite(eq(so, c(j, 64)), b2e(o.bytes[j as usize + i]), acc);
                        }
                        e2b(acc)
                    })
                    .collect()
            }
        };
        let dof = self.concretize(st, dof)? as usize;
        match st.mem.get_mut(di) {
            Some(o) if !o.ro => o.bytes[dof..dof + n as usize].copy_from_slice(&data),
            _ => return self.memerr(st, "memcpy to read-only memory".into()),
        }
        Ok(())
    }
    fn conc_off(&mut self, st: &mut State, off: Ex, id: u64, n: u64) -> R<Result<usize, Ex>> {
        if let Some(k) = off.cv() {
            return Ok(Ok(k as usize));
        }
        let (lo, hi) = off.range();
        let hi = hi.min((st.mem.get(id).unwrap().bytes.len() as u64 - n) as u128);
        if st.mem.get(id).unwrap().ro && (hi - lo + 1) * n as u128 <= 2048 {
            return Ok(Err(off));
        }
        Ok(Ok(self.concretize(st, off)? as usize))
    }

    fn bytes_eq(&mut self, st: &mut State, p: Ex, q: Ex, n: u64) -> R<Ex> {
        let mut acc = tru();
        for i in 0..n {
            let x = self.load_sc(st, add(p, c(i as u128, 64)), 8)?;
            let y = self.load_sc(st, add(q, c(i as u128, 64)), 8)?;
            acc = and(acc, eq(x, y));
            if acc.is_false() {
                break;
            }
        }
        Ok(acc)
    }

    fn intrinsic(&mut self, st: &mut State, k: FK, fi: usize, a: &[V], ret: &Ty) -> R<V> {
        let e = |i: usize| -> R<Ex> {
            match a.get(i) {
                Some(V::E(x)) => Ok(*x),
                _ => Err(Stop::Err("intrinsic operand".into())),
            }
        };
        let pair = |x: Ex, o: Ex| V::A(Rc::new(vec![V::E(x), V::E(o)]));
        Ok(match k {
            FK::Memcpy => {
                let n = self.concretize(st, e(2)?)? as u64;
                self.copy(st, e(0)?, e(1)?, n)?;
                if ret == &Ty::Void {
                    V::U
                } else {
                    a[0].clone()
                }
            }
            FK::Getrandom => {
                let n = self.concretize(st, e(1)?)? as u64;
                let (id, off) = self.resolve(st, e(0)?, n, "getrandom")?;
                let off = self.concretize(st, off)? as usize;
                match st.mem.get_mut(id) {
                    Some(o) if !o.ro => o.bytes[off..off + n as usize].iter_mut().for_each(|x| *x = e2b(c(0x5a, 8))),
                    _ => return self.memerr(st, "getrandom to read-only memory".into()),
                }
                V::U
            }
            FK::Memset => {
                let n = self.concretize(st, e(2)?)? as u64;
                if n > 0 {
                    let v = extract(e(1)?, 0, 8);
                    let (id, off) = self.resolve(st, e(0)?, n, "memset")?;
                    let off = self.concretize(st, off)? as usize;
                    let b = e2b(v);
                    match st.mem.get_mut(id) {
                        Some(o) if !o.ro => o.bytes[off..off + n as usize].iter_mut().for_each(|x| *x = b),
                        _ => return self.memerr(st, "memset of read-only memory".into()),
                    }
                }
                if ret == &Ty::Void {
                    V::U
                } else {
                    a[0].clone()
                }
            }
            FK::Bswap => Self::map1(&a[0], &|x| {
                let n = x.w() / 8;
                let mut r = extract(x, 0, 8);
                for i in 1..n {
                    r = concat(r, extract(x, 8 * i, 8));
                }
                r
            })?,
            FK::Bitreverse => Self::map1(&a[0], &|x| {
                let mut r = extract(x, 0, 1);
                for i in 1..x.w() {
                    r = concat(r, extract(x, i, 1));
                }
                r
            })?,
            FK::Umax => Self::map2(&a[0], &a[1], &umax)?,
            FK::Umin => Self::map2(&a[0], &a[1], &umin)?,
            FK::Smax => Self::map2(&a[0], &a[1], &|x, y| ite(slt(x, y), y, x))?,
            FK::Smin => Self::map2(&a[0], &a[1], &|x, y| ite(slt(y, x), y, x))?,
            FK::Abs => Self::map1(&a[0], &|x| ite(slt(x, c(0, x.w())), sub(c(0, x.w()), x), x))?,
            FK::UaddO => {
                let (x, y) = (e(0)?, e(1)?);
                let r = add(x, y);
                if x.range().1.checked_add(y.range().1).map_or(false, |h| h <= mask(x.w())) {
                    pair(r, fls())
                } else {
                    pair(r, ult(r, x))
                }
            }
            FK::UsubO => {
                let (x, y) = (e(0)?, e(1)?);
                pair(sub(x, y), ult(x, y))
            }
            FK::UmulO => {
                let (x, y) = (e(0)?, e(1)?);
                let w = x.w();
                if w > 64 {
                    return Err(Stop::Err("wide umul.with.overflow".into()));
                }
                let (h1, h2) = (x.range().1, y.range().1);
                if h1.checked_mul(h2).map_or(false, |m| m <= mask(w)) {
                    pair(mul(x, y), fls())
                } else {
                    let r = mul(zext(x, 2 * w), zext(y, 2 * w));
                    pair(extract(r, 0, w), nz(extract(r, w, w)))
                }
            }
            FK::SaddO | FK::SsubO | FK::SmulO => {
                let (x, y) = (e(0)?, e(1)?);
                let w = x.w();
                if w > 64 {
                    return Err(Stop::Err("wide signed overflow intrinsic".into()));
                }
                let (x2, y2) = (sext(x, 2 * w), sext(y, 2 * w));
                let r = match k {
                    FK::SaddO => add(x2, y2),
                    FK::SsubO => sub(x2, y2),
                    _ => mul(x2, y2),
                };
                let lo = extract(r, 0, w);
                pair(lo, not(eq(sext(lo, 2 * w), r)))
            }
            FK::UaddSat => Self::map2(&a[0], &a[1], &|x, y| {
                let r = add(x, y);
                ite(ult(r, x), c(u128::MAX, x.w()), r)
            })?,
            FK::UsubSat => Self::map2(&a[0], &a[1], &|x, y| ite(ult(x, y), c(0, x.w()), sub(x, y)))?,
            FK::SaddSat | FK::SsubSat => return Err(Stop::Err("signed saturation".into())),
            FK::Ctlz => Self::map1(&a[0], &|x| {
                let w = x.w();
                let mut r = c(w as u128, w);
                for i in 0..w {
                    r = ite(extract(x, i, 1), c((w - 1 - i) as u128, w), r);
                }
                r
            })?,
            FK::Cttz => Self::map1(&a[0], &|x| {
                let w = x.w();
                let mut r = c(w as u128, w);
                for i in (0..w).rev() {
                    r = ite(extract(x, i, 1), c(i as u128, w), r);
                }
                r
            })?,
            FK::Ctpop => Self::map1(&a[0], &|x| {
                let w = x.w();
                let mut r = c(0, w);
                for i in 0..w {
                    r = add(r, zext(extract(x, i, 1), w));
                }
                r
            })?,
            FK::Fshl | FK::Fshr => {
                let s = match &a[2] {
                    V::E(s) => *s,
                    _ => return Err(Stop::Err("vector funnel shift".into())),
                };
                let (x, y) = (e(0)?, e(1)?);
                let w = x.w();
                let s = urem(s, c(w as u128, w));
                if let Some(sv) = s.cv() {
                    let sv = sv as u16;
                    if sv == 0 {
                        V::E(if k == FK::Fshl { x } else { y })
                    } else {
                        let sv = if k == FK::Fshl { sv } else { w - sv };
                        V::E(concat(extract(x, 0, w - sv), extract(y, w - sv, sv)))
                    }
                } else {
                    let z = eq(s, c(0, w));
                    let inv = sub(c(w as u128, w), s);
                    let r = if k == FK::Fshl { or(shl(x, s), lshr(y, inv)) } else { or(shl(x, inv), lshr(y, s)) };
                    V::E(ite(z, if k == FK::Fshl { x } else { y }, r))
                }
            }
            FK::ReduceAdd | FK::ReduceOr | FK::ReduceAnd | FK::ReduceXor | FK::ReduceUmax | FK::ReduceUmin => {
                let x = match &a[0] {
                    V::A(x) => x.clone(),
                    _ => return Err(Stop::Err("reduce".into())),
                };
                let mut acc: Option<Ex> = None;
                for y in x.iter() {
                    if let V::E(y) = y {
                        acc = Some(match acc {
                            None => *y,
                            Some(p) => match k {
                                FK::ReduceAdd => add(p, *y),
                                FK::ReduceOr => or(p, *y),
                                FK::ReduceAnd => and(p, *y),
                                FK::ReduceXor => xor(p, *y),
                                FK::ReduceUmax => umax(p, *y),
                                _ => umin(p, *y),
                            },
                        });
                    }
                }
                V::E(acc.unwrap())
            }
            FK::Ucmp | FK::Scmp => {
                let (x, y) = (e(0)?, e(1)?);
                let w = ret.bits() as u16;
                let lt = if k == FK::Ucmp { ult(x, y) } else { slt(x, y) };
                V::E(ite(lt, c(u128::MAX, w), ite(eq(x, y), c(0, w), c(1, w))))
            }
            FK::Expect => a[0].clone(),
            FK::Nop => V::U,
            FK::ObjSize => V::E(c(u128::MAX, ret.bits() as u16)),
            FK::IsConst => V::E(fls()),
            FK::Trap => {
                self.violation(st, "abort", "trap/abort reached".into());
                return Err(Stop::Viol);
            }
            FK::Alloc => {
                let n = self.concretize(st, e(0)?)? as u64;
                if n > 64 << 20 {
                    return Err(Stop::Err(format!("allocation of {} bytes", n)));
                }
                let id = st.mem.alloc(n as usize);
                V::E(c(obj_addr(id as u64) as u128, 64))
            }
            FK::Calloc => {
                let n = self.concretize(st, mul(e(0)?, e(1)?))? as u64;
                let id = st.mem.alloc(n as usize);
                V::E(c(obj_addr(id as u64) as u128, 64))
            }
            FK::Realloc => {
                let p = self.concretize(st, e(0)?)? as u64;
                let n = self.concretize(st, e(1)?)? as usize;
                let oid = p >> SLOT_SHIFT;
                let old = match st.mem.get(oid) {
                    Some(o) => o.clone(),
                    None => return self.memerr(st, "realloc of a bad pointer".into()),
                };
                let id = st.mem.alloc(n);
                let l = old.bytes.len().min(n);
                st.mem.get_mut(id as u64).unwrap().bytes[..l].copy_from_slice(&old.bytes[..l]);
                st.mem.release(oid);
                V::E(c(obj_addr(id as u64) as u128, 64))
            }
            FK::Free => {
                let p = self.concretize(st, e(0)?)? as u64;
                if p != 0 {
                    let id = p >> SLOT_SHIFT;
                    if p & 0xffff_ffff != SLOT_BASE || st.mem.get(id).is_none() {
                        return self.memerr(st, "free of a bad pointer".into());
                    }
                    st.mem.release(id);
                }
                V::U
            }
            FK::Bcmp => {
                let n = self.concretize(st, e(2)?)? as u64;
                let q = self.bytes_eq(st, e(0)?, e(1)?, n)?;
                V::E(ite(q, c(0, 32), c(1, 32)))
            }
            FK::LMemEq => {
                let n = self.concretize(st, e(2)?)? as u64;
                let q = self.bytes_eq(st, e(0)?, e(1)?, n)?;
                V::E(zext(q, 32))
            }
            FK::LMemIte => {
                // dst = cond ? a : b, n bytes, no fork
                let n = self.concretize(st, e(4)?)? as u64;
                let k = nz(e(0)?);
                for i in 0..n {
                    let o = c(i as u128, 64);
                    let x = self.load_sc(st, add(e(2)?, o), 8)?;
                    let y = self.load_sc(st, add(e(3)?, o), 8)?;
                    self.store_sc(st, add(e(1)?, o), ite(k, x, y))?;
                }
                V::U
            }
            FK::Memcmp => {
                let n = self.concretize(st, e(2)?)? as u64;
                let mut acc = c(0, 32);
                for i in (0..n).rev() {
                    let x = self.load_sc(st, add(e(0)?, c(i as u128, 64)), 8)?;
                    let y = self.load_sc(st, add(e(1)?, c(i as u128, 64)), 8)?;
                    acc = ite(eq(x, y), acc, ite(ult(x, y), c(u128::MAX, 32), c(1, 32)));
                }
                V::E(acc)
            }
            FK::LSym => {
                let n = self.concretize(st, e(1)?)? as u64;
                if n > 0 {
                    let (id, off) = self.resolve(st, e(0)?, n, "lsx_sym")?;
                    let off = self.concretize(st, off)? as usize;
                    for i in 0..n as usize {
                        let v = var(st.nvars);
                        st.nvars += 1;
                        st.mem.get_mut(id).unwrap().bytes[off + i] = e2b(v);
                    }
                }
                V::U
            }
            FK::LChoose => {
                let n = self.concretize(st, e(0)?)?;
                if n == 0 || n > 256 {
                    return Err(Stop::Err("lsx_choose range".into()));
                }
                // one byte of input, then one path per value
                let v = var(st.nvars);
                st.nvars += 1;
                let nv = st.nvars - 1;
                for x in 1..n {
                    let mut o = st.clone();
                    o.add(eq(v, c(x, 8)));
                    o.patch_model(&[(nv, x as u8)]);
                    o.forks += 1;
                    self.rep.forks += 1;
                    let (fi, b, ip) = {
                        let t = o.top();
                        (t.func, t.block, t.ip)
                    };
                    let ins = &self.m.funcs[fi].blocks[b as usize].ins[ip as usize];
                    let normal = if let Inst::Call { normal, .. } = &ins.i { *normal } else { None };
                    self.finish(&mut o, ins, V::E(c(x, ret.bits() as u16)), normal)?;
                    self.work.push(o);
                }
                st.add(eq(v, c(0, 8)));
                V::E(c(0, ret.bits() as u16))
            }
            FK::LAssume => {
                let k = subst(nz(e(0)?), &st.bind);
                if k.is_false() {
                    return Err(Stop::Dead);
                }
                if !k.is_true() {
                    if st.ev(k) == 1 {
                        st.add(k);
                    } else {
                        match self.solver.check(&st.pc, k) {
                            Res::Sat(m) => {
                                st.patch_model(&m);
                                st.add(k);
                            }
                            Res::Unsat => return Err(Stop::Dead),
                            Res::Unknown => {
                                self.rep.inconclusive += 1;
                                return Err(Stop::Dead);
                            }
                        }
                    }
                }
                V::U
            }
            FK::LCheck => {
                let label = self.read_str(st, e(1)?, e(2)?)?;
                *self.rep.check_labels.entry(label.clone()).or_insert(0) += 1;
                self.rep.checks += 1;
                let k0 = nz(e(0)?);
                let k = subst(k0, &st.bind);
                if k.is_true() {
                    self.rep.checks_const += 1;
                    return Ok(V::U);
                }
                let nk = not(k);
                let mut bad = None;
                if st.ev(k) == 0 {
                    bad = Some(st.clone());
                } else {
                    match self.solver.check(&st.pc, nk) {
                        Res::Sat(m) => {
                            let mut o = st.clone();
                            o.patch_model(&m);
                            bad = Some(o);
                        }
                        Res::Unsat => {}
                        Res::Unknown => self.rep.inconclusive += 1,
                    }
                }
                if let Some(mut o) = bad {
                    o.add(nk);
                    self.violation(&o, "check", label);
                    // go on where the assertion holds, if anywhere
                    match self.solver.check(&st.pc, k) {
                        Res::Sat(m) => {
                            st.patch_model(&m);
                            st.add(k);
                        }
                        _ => return Err(Stop::Viol),
                    }
                }
                V::U
            }
            FK::LReach => {
                let label = self.read_str(st, e(0)?, e(1)?)?;
                let r = self.rep.reach.entry(label).or_insert((0, vec![]));
                r.0 += 1;
                if r.0 == 1 {
                    r.1 = st.bytes();
                }
                V::U
            }
            FK::LObserve => {
                let x = e(0)?;
                st.obs.push(x);
                V::U
            }
            FK::LParam => {
                let i = self.concretize(st, e(0)?)? as usize;
                V::E(c(self.opts.params.get(i).copied().unwrap_or(0) as u128, 64))
            }
            FK::LPanic => {
                let file = self.read_str(st, e(0)?, e(1)?)?;
                let line = self.concretize(st, e(2)?)?;
                self.violation(st, "panic", format!("{}:{}", file, line));
                return Err(Stop::Viol);
            }
            FK::StdPanic => {
                let name = self.m.funcs[fi].name.clone();
                let short = if name.contains("nounwind") { "ub-check".to_string() } else { name.chars().skip(4).take(40).collect() };
                let mut label = short;
                if let Some(V::E(l)) = a.last() {
                    if l.w() == 64 && a.len() >= 1 && !name.contains("14panic_nounwind") && !name.contains("rust_begin_unwind") {
                        // &core::panic::Location
                        let fp = self.load_sc(st, *l, 64)?;
                        let fl = self.load_sc(st, add(*l, c(8, 64)), 64)?;
                        let ln = self.load_sc(st, add(*l, c(16, 64)), 32)?;
                        let file = self.read_str(st, fp, fl)?;
                        let line = self.concretize(st, ln)?;
                        label = format!("{}:{}", file, line);
                    } else if name.contains("14panic_nounwind") && a.len() >= 2 {
                        if let (V::E(p), V::E(n)) = (&a[0], &a[1]) {
                            label = self.read_str(st, *p, *n)?;
                        }
                    }
                }
                self.violation(st, "panic", label);
                return Err(Stop::Viol);
            }
            FK::LConc => {
                let x = e(0)?;
                V::E(c(self.concretize(st, x)?, x.w()))
            }
            FK::LIte => {
                let k = nz(e(0)?);
                V::E(ite(k, e(1)?, e(2)?))
            }
            FK::LIsSym => V::E(c(e(0)?.cv().is_none() as u128, 32)),
            FK::Defined | FK::Unknown => return Err(Stop::Err(format!("external function {}", self.m.funcs[fi].name))),
        })
    }
}
