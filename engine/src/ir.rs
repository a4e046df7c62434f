//! Parser for the textual LLVM IR that `llvm-dis` prints for the post-LTO harness module.
use std::collections::HashMap;
use std::rc::Rc;

#[derive(Debug, Clone, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Array(u64, Rc<Ty>),
    Vector(u64, Rc<Ty>),
    Struct(Rc<Vec<Ty>>, bool),
    Other(String),
}

impl Ty {
    pub fn align(&self) -> u64 {
        match self {
            Ty::Int(n) => match n {
                0..=8 => 1,
                9..=16 => 2,
                17..=32 => 4,
                33..=64 => 8,
                _ => 16,
            },
            Ty::Ptr => 8,
            Ty::Array(_, t) => t.align(),
            Ty::Vector(..) => self.size().next_power_of_two().max(1),
            Ty::Struct(f, packed) => {
                if *packed {
                    1
                } else {
                    f.iter().map(|t| t.align()).max().unwrap_or(1)
                }
            }
            Ty::Other(s) if s == "double" => 8,
            Ty::Other(s) if s == "float" => 4,
            _ => 1,
        }
    }
    pub fn size(&self) -> u64 {
        match self {
            Ty::Int(n) => {
                let b = ((*n as u64) + 7) / 8;
                let a = self.align();
                (b + a - 1) / a * a
            }
            Ty::Ptr => 8,
            Ty::Array(n, t) => n * t.size(),
            Ty::Vector(n, t) => (n * t.bits() + 7) / 8,
            Ty::Struct(f, packed) => {
                let mut off = 0;
                for t in f.iter() {
                    if !*packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    off += t.size();
                }
                if !*packed {
                    let a = self.align();
                    off = (off + a - 1) / a * a;
                }
                off
            }
            Ty::Other(s) if s == "double" => 8,
            Ty::Other(s) if s == "float" => 4,
            _ => 0,
        }
    }
    pub fn bits(&self) -> u64 {
        match self {
            Ty::Int(n) => *n as u64,
            Ty::Ptr => 64,
            Ty::Vector(n, t) => n * t.bits(),
            _ => self.size() * 8,
        }
    }
    pub fn field_offset(&self, i: usize) -> u64 {
        match self {
            Ty::Struct(f, packed) => {
                let mut off = 0;
                for (j, t) in f.iter().enumerate() {
                    if !*packed {
                        let a = t.align();
                        off = (off + a - 1) / a * a;
                    }
                    if j == i {
                        return off;
                    }
                    off += t.size();
                }
                panic!("field_offset")
            }
            Ty::Array(_, t) => t.size() * i as u64,
            Ty::Vector(_, t) => t.size() * i as u64,
            _ => panic!("field_offset on {:?}", self),
        }
    }
    pub fn field(&self, i: usize) -> Ty {
        match self {
            Ty::Struct(f, _) => f[i].clone(),
            Ty::Array(_, t) | Ty::Vector(_, t) => (**t).clone(),
            _ => panic!("field of {:?}", self),
        }
    }
    pub fn nfields(&self) -> usize {
        match self {
            Ty::Struct(f, _) => f.len(),
            Ty::Array(n, _) | Ty::Vector(n, _) => *n as usize,
            _ => 0,
        }
    }
}

/// A constant, already resolved (global addresses are fixed before parsing bodies).
#[derive(Debug, Clone)]
pub enum Const {
    Int(u128),
    Agg(Vec<Const>),
    Zero,
    Undef,
}

#[derive(Debug, Clone)]
pub enum Opnd {
    Reg(u32),
    C(Const),
}

#[derive(Debug, Clone, Copy, PartialEq, Eq, Hash)]
pub enum Bin {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Debug, Clone, Copy, PartialEq, Eq)]
pub enum Cast {
    Trunc,
    ZExt,
    SExt,
    PtrToInt,
    IntToPtr,
    Bitcast,
}

#[derive(Debug, Clone)]
pub enum Callee {
    Func(usize),
    Reg(Opnd),
    Asm(String),
}

#[derive(Debug, Clone)]
pub enum Inst {
    Bin(Bin, Ty, Opnd, Opnd),
    ICmp(Pred, Ty, Opnd, Opnd),
    Cast(Cast, Ty, Opnd, Ty),
    Select(Opnd, Ty, Opnd, Opnd, bool),
    Alloca(Ty, Opnd),
    Load(Ty, Opnd),
    Store(Ty, Opnd, Opnd),
    Gep(Ty, Opnd, Vec<(Ty, Opnd)>),
    ExtractValue(Opnd, Vec<u32>),
    InsertValue(Ty, Opnd, Opnd, Vec<u32>),
    ExtractElement(Opnd, Opnd),
    InsertElement(Ty, Opnd, Opnd, Opnd),
    Shuffle(Ty, Opnd, Opnd, Vec<i64>),
    Call { callee: Callee, ret: Ty, args: Vec<(Ty, Opnd)>, normal: Option<u32> },
    CmpXchg(Ty, Opnd, Opnd, Opnd),
    AtomicRmw(String, Ty, Opnd, Opnd),
    Freeze(Opnd),
    Br(u32),
    CondBr(Opnd, u32, u32),
    Switch(Ty, Opnd, u32, Vec<(u128, u32)>),
    Ret(Option<(Ty, Opnd)>),
    Unreachable,
    Phi(Ty, Vec<(Opnd, u32)>),
    Nop,
    Unsupported(String),
}

#[derive(Debug, Clone)]
pub struct Ins {
    pub dst: Option<u32>,
    pub i: Inst,
}

#[derive(Debug, Clone)]
pub struct Block {
    pub nphi: usize,
    pub ins: Vec<Ins>,
}

#[derive(Debug)]
pub struct Func {
    pub name: String,
    pub nparams: usize,
    pub nregs: usize,
    pub blocks: Vec<Block>,
    pub defined: bool,
    pub ret: Ty,
}

#[derive(Debug)]
pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<Const>,
    pub constant: bool,
}

pub struct Module {
    pub funcs: Vec<Func>,
    pub globals: Vec<Global>,
    pub func_by_name: HashMap<String, usize>,
}

/// objects 1..=nfuncs are functions, then globals, then dynamic ones.
pub const SLOT_SHIFT: u32 = 32;
pub const SLOT_BASE: u64 = 0x1_0000;
pub fn obj_addr(id: u64) -> u64 {
    (id << SLOT_SHIFT) + SLOT_BASE
}

#[derive(Debug, Clone, PartialEq)]
pub enum Tok {
    Id(String),
    Glob(String),
    Loc(String),
    Int(String),
    Str(Vec<u8>),
    CStr(Vec<u8>),
    Meta,
    Attr,
    P(char),
    Ellipsis,
}

fn is_idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

fn lex_str(b: &[u8], mut i: usize) -> (Vec<u8>, usize) {
    // b[i] == '"'
    i += 1;
    let mut out = Vec::new();
    while b[i] != b'"' {
        if b[i] == b'\\' {
            if b[i + 1] == b'\\' {
                out.push(b'\\');
                i += 2;
            } else {
                let h = u8::from_str_radix(std::str::from_utf8(&b[i + 1..i + 3]).unwrap(), 16).unwrap();
                out.push(h);
                i += 3;
            }
        } else {
            out.push(b[i]);
            i += 1;
        }
    }
    (out, i + 1)
}

pub fn lex(line: &str) -> Vec<Tok> {
    let b = line.as_bytes();
    let mut i = 0;
    let mut out = Vec::new();
    while i < b.len() {
        let c = b[i];
        match c {
            b' ' | b'\t' | b'\n' | b'\r' => i += 1,
            b';' => {
                while i < b.len() && b[i] != b'\n' {
                    i += 1;
                }
            }
            b'@' | b'%' => {
                let name;
                if i + 1 < b.len() && b[i + 1] == b'"' {
                    let (s, j) = lex_str(b, i + 1);
                    name = String::from_utf8_lossy(&s).into_owned();
                    i = j;
                } else {
                    let mut j = i + 1;
                    while j < b.len() && is_idc(b[j]) {
                        j += 1;
                    }
                    name = line[i + 1..j].to_string();
                    i = j;
                }
                out.push(if c == b'@' { Tok::Glob(name) } else { Tok::Loc(name) });
            }
            b'!' => {
                let mut j = i + 1;
                while j < b.len() && is_idc(b[j]) {
                    j += 1;
                }
                out.push(Tok::Meta);
                i = j;
            }
            b'#' => {
                let mut j = i + 1;
                while j < b.len() && is_idc(b[j]) {
                    j += 1;
                }
                out.push(Tok::Attr);
                i = j;
            }
            b'"' => {
                let (s, j) = lex_str(b, i);
                out.push(Tok::Str(s));
                i = j;
            }
            b'c' if i + 1 < b.len() && b[i + 1] == b'"' => {
                let (s, j) = lex_str(b, i + 1);
                out.push(Tok::CStr(s));
                i = j;
            }
            b'.' if line[i..].starts_with("...") => {
                out.push(Tok::Ellipsis);
                i += 3;
            }
            b'-' | b'0'..=b'9' => {
                let mut j = i + 1;
                while j < b.len() && is_idc(b[j]) {
                    j += 1;
                }
                out.push(Tok::Int(line[i..j].to_string()));
                i = j;
            }
            _ if is_idc(c) => {
                let mut j = i + 1;
                while j < b.len() && is_idc(b[j]) {
                    j += 1;
                }
                out.push(Tok::Id(line[i..j].to_string()));
                i = j;
            }
            _ => {
                out.push(Tok::P(c as char));
                i += 1;
            }
        }
    }
    out
}

struct Ctx {
    gaddr: HashMap<String, u64>,
    func_idx: HashMap<String, usize>,
    named: HashMap<String, Ty>,
}

struct P<'a> {
    t: &'a [Tok],
    i: usize,
    cx: &'a Ctx,
    regs: Option<&'a mut Regs>,
}

#[derive(Default)]
struct Regs {
    map: HashMap<String, u32>,
    blocks: HashMap<String, u32>,
}
impl Regs {
    fn reg(&mut self, n: &str) -> u32 {
        let l = self.map.len() as u32;
        *self.map.entry(n.to_string()).or_insert(l)
    }
}

impl<'a> P<'a> {
    fn peek(&self) -> Option<&Tok> {
        self.t.get(self.i)
    }
    fn next(&mut self) -> Tok {
        let t = self.t[self.i].clone();
        self.i += 1;
        t
    }
    fn is_p(&self, c: char) -> bool {
        self.peek() == Some(&Tok::P(c))
    }
    fn eat_p(&mut self, c: char) -> bool {
        if self.is_p(c) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn exp_p(&mut self, c: char) {
        if !self.eat_p(c) {
            panic!("expected {:?} at {:?} in {:?}", c, self.i, &self.t);
        }
    }
    fn is_id(&self, s: &str) -> bool {
        matches!(self.peek(), Some(Tok::Id(x)) if x == s)
    }
    fn eat_id(&mut self, s: &str) -> bool {
        if self.is_id(s) {
            self.i += 1;
            true
        } else {
            false
        }
    }
    fn skip_parens(&mut self) {
        // at '('
        let mut d = 0;
        loop {
            match self.next() {
                Tok::P('(') => d += 1,
                Tok::P(')') => {
                    d -= 1;
                    if d == 0 {
                        return;
                    }
                }
                _ => {}
            }
        }
    }
    fn at_type(&self) -> bool {
        match self.peek() {
            Some(Tok::Id(s)) => {
                s == "void" || s == "ptr" || s == "float" || s == "double" || s == "half" || s == "fp128" || s == "x86_fp80"
                    || s == "metadata" || s == "label" || s == "token"
                    || (s.starts_with('i') && s.len() > 1 && s[1..].bytes().all(|c| c.is_ascii_digit()))
            }
            Some(Tok::P('{')) | Some(Tok::P('[')) | Some(Tok::P('<')) => true,
            Some(Tok::Loc(n)) => self.cx.named.contains_key(n),
            _ => false,
        }
    }
    fn skip_attrs_until_type(&mut self) {
        while !self.at_type() {
            self.i += 1;
            if self.is_p('(') {
                self.skip_parens();
            }
        }
    }
    fn ty(&mut self) -> Ty {
        let t = match self.next() {
            Tok::Id(s) => {
                if s == "void" {
                    Ty::Void
                } else if s == "ptr" {
                    if self.eat_id("addrspace") {
                        self.skip_parens();
                    }
                    Ty::Ptr
                } else if s.starts_with('i') && s[1..].bytes().all(|c| c.is_ascii_digit()) && s.len() > 1 {
                    Ty::Int(s[1..].parse().unwrap())
                } else {
                    Ty::Other(s)
                }
            }
            Tok::P('{') => {
                let f = self.struct_fields('}');
                Ty::Struct(Rc::new(f), false)
            }
            Tok::P('[') => {
                let n = self.int_lit();
                assert!(self.eat_id("x"));
                let t = self.ty();
                self.exp_p(']');
                Ty::Array(n as u64, Rc::new(t))
            }
            Tok::P('<') => {
                if self.eat_p('{') {
                    let f = self.struct_fields('}');
                    self.exp_p('>');
                    Ty::Struct(Rc::new(f), true)
                } else {
                    let n = self.int_lit();
                    assert!(self.eat_id("x"));
                    let t = self.ty();
                    self.exp_p('>');
                    Ty::Vector(n as u64, Rc::new(t))
                }
            }
            Tok::Loc(n) => self.cx.named.get(&n).unwrap_or_else(|| panic!("type {}", n)).clone(),
            x => panic!("bad type {:?} in {:?}", x, self.t),
        };
        t
    }
    fn struct_fields(&mut self, end: char) -> Vec<Ty> {
        let mut f = Vec::new();
        if self.eat_p(end) {
            return f;
        }
        loop {
            f.push(self.ty());
            if self.eat_p(end) {
                return f;
            }
            self.exp_p(',');
        }
    }
    fn int_lit(&mut self) -> u128 {
        match self.next() {
            Tok::Int(s) => parse_int(&s),
            x => panic!("int {:?} in {:?}", x, self.t),
        }
    }
    fn cst(&mut self, ty: &Ty) -> Const {
        match self.opnd(ty) {
            Opnd::C(c) => c,
            _ => panic!("const expected"),
        }
    }
    fn typed_const(&mut self) -> (Ty, Const) {
        let t = self.ty();
        self.skip_param_attrs();
        let c = self.cst(&t);
        (t, c)
    }
    fn skip_param_attrs(&mut self) {
        loop {
            match self.peek() {
                Some(Tok::Id(s)) => {
                    match s.as_str() {
                        "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "getelementptr" | "inttoptr" | "ptrtoint" | "bitcast"
                        | "trunc" | "add" | "sub" | "xor" | "splat" | "select" | "icmp" | "asm" | "blockaddress" | "none" | "shl" | "mul" | "and" | "or" | "dso_local_equivalent" | "ptrtoaddr" => return,
                        "align" => {
                            self.i += 1;
                            if let Some(Tok::Int(_)) = self.peek() {
                                self.i += 1;
                            } else if self.is_p('(') {
                                self.skip_parens();
                            }
                        }
                        _ => {
                            self.i += 1;
                            if self.is_p('(') {
                                self.skip_parens();
                            }
                        }
                    }
                }
                Some(Tok::Str(_)) => {
                    self.i += 1;
                    if self.eat_p('=') {
                        self.i += 1;
                    }
                }
                _ => return,
            }
        }
    }
    fn opnd(&mut self, ty: &Ty) -> Opnd {
        match self.next() {
            Tok::Loc(n) => {
                let r = self.regs.as_mut().expect("reg in const").reg(&n);
                Opnd::Reg(r)
            }
            Tok::Glob(n) => {
                let a = *self.cx.gaddr.get(&n).unwrap_or_else(|| panic!("global {}", n));
                Opnd::C(Const::Int(a as u128))
            }
            Tok::Int(s) => Opnd::C(Const::Int(trunc128(parse_int(&s), ty.bits().min(128) as u32))),
            Tok::CStr(s) => Opnd::C(Const::Agg(s.iter().map(|b| Const::Int(*b as u128)).collect())),
            Tok::Id(s) => match s.as_str() {
                "true" => Opnd::C(Const::Int(1)),
                "false" => Opnd::C(Const::Int(0)),
                "null" | "none" => Opnd::C(Const::Int(0)),
                "undef" | "poison" => Opnd::C(Const::Undef),
                "zeroinitializer" => Opnd::C(Const::Zero),
                "splat" => {
                    self.exp_p('(');
                    let (_, c) = self.typed_const();
                    self.exp_p(')');
                    Opnd::C(Const::Agg(vec![c; ty.nfields()]))
                }
                "getelementptr" => {
                    while !self.is_p('(') {
                        self.i += 1;
                        // `inrange(-16, 32)` style
                        if let Some(Tok::Id(x)) = self.t.get(self.i - 1) {
                            if x == "inrange" {
                                self.skip_parens();
                            }
                        }
                    }
                    self.exp_p('(');
                    let sty = self.ty();
                    self.exp_p(',');
                    let (_, base) = self.typed_const();
                    let mut addr = match base {
                        Const::Int(a) => a as u64,
                        _ => 0,
                    };
                    let mut cur = sty;
                    let mut first = true;
                    while self.eat_p(',') {
                        self.eat_id("inrange");
                        let (ity, c) = self.typed_const();
                        let v = match c {
                            Const::Int(v) => sext128(v, ity.bits() as u32) as i64,
                            _ => 0,
                        };
                        if first {
                            addr = addr.wrapping_add((cur.size() as i64).wrapping_mul(v) as u64);
                            first = false;
                        } else {
                            addr = addr.wrapping_add(cur.field_offset(v as usize));
                            cur = cur.field(match cur {
                                Ty::Struct(..) => v as usize,
                                _ => 0,
                            });
                        }
                    }
                    self.exp_p(')');
                    Opnd::C(Const::Int(addr as u128))
                }
                "inttoptr" | "ptrtoint" | "bitcast" | "trunc" | "ptrtoaddr" => {
                    self.exp_p('(');
                    let (_, c) = self.typed_const();
                    assert!(self.eat_id("to"));
                    let t = self.ty();
                    self.exp_p(')');
                    match c {
                        Const::Int(v) => Opnd::C(Const::Int(trunc128(v, t.bits() as u32))),
                        c => Opnd::C(c),
                    }
                }
                "add" | "sub" | "xor" | "and" | "or" | "mul" | "shl" => {
                    while !self.is_p('(') {
                        self.i += 1;
                    }
                    self.exp_p('(');
                    let (t, a) = self.typed_const();
                    self.exp_p(',');
                    let (_, b) = self.typed_const();
                    self.exp_p(')');
                    let (a, b) = match (a, b) {
                        (Const::Int(a), Const::Int(b)) => (a, b),
                        _ => return Opnd::C(Const::Undef),
                    };
                    let r = match s.as_str() {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "xor" => a ^ b,
                        "and" => a & b,
                        "or" => a | b,
                        "mul" => a.wrapping_mul(b),
                        _ => a.wrapping_shl(b as u32),
                    };
                    Opnd::C(Const::Int(trunc128(r, t.bits() as u32)))
                }
                "icmp" => {
                    self.i += 1;
                    self.skip_parens();
                    Opnd::C(Const::Undef)
                }
                x => panic!("const {} in {:?}", x, self.t),
            },
            Tok::P('{') => Opnd::C(Const::Agg(self.const_list('}'))),
            Tok::P('[') => Opnd::C(Const::Agg(self.const_list(']'))),
            Tok::P('<') => {
                if self.eat_p('{') {
                    let l = self.const_list('}');
                    self.exp_p('>');
                    Opnd::C(Const::Agg(l))
                } else {
                    Opnd::C(Const::Agg(self.const_list('>')))
                }
            }
            x => panic!("operand {:?} in {:?}", x, self.t),
        }
    }
    fn const_list(&mut self, end: char) -> Vec<Const> {
        let mut v = Vec::new();
        if self.eat_p(end) {
            return v;
        }
        loop {
            v.push(self.typed_const().1);
            if self.eat_p(end) {
                return v;
            }
            self.exp_p(',');
        }
    }
    fn label(&mut self) -> u32 {
        assert!(self.eat_id("label"), "label {:?}", self.t);
        self.blockref()
    }
    fn blockref(&mut self) -> u32 {
        match self.next() {
            Tok::Loc(n) => *self.regs.as_ref().unwrap().blocks.get(&n).unwrap_or_else(|| panic!("block {}", n)),
            x => panic!("block {:?}", x),
        }
    }
    fn typed_opnd(&mut self) -> (Ty, Opnd) {
        let t = self.ty();
        self.skip_param_attrs();
        let o = self.opnd(&t);
        (t, o)
    }
}

pub fn trunc128(v: u128, w: u32) -> u128 {
    if w >= 128 {
        v
    } else {
        v & ((1u128 << w) - 1)
    }
}
pub fn sext128(v: u128, w: u32) -> i128 {
    if w >= 128 || w == 0 {
        return v as i128;
    }
    let s = 128 - w;
    ((v << s) as i128) >> s
}
fn parse_int(s: &str) -> u128 {
    if let Some(r) = s.strip_prefix('-') {
        (r.parse::<u128>().unwrap() as i128).wrapping_neg() as u128
    } else if s.starts_with("0x") {
        u128::from_str_radix(&s[2..], 16).unwrap_or(0)
    } else if let Ok(v) = s.parse::<u128>() {
        v
    } else {
        0 // floating point literals; never used
    }
}

pub fn parse_module(text: &str) -> Module {
    let lines: Vec<&str> = text.lines().collect();
    let mut cx = Ctx { gaddr: HashMap::new(), func_idx: HashMap::new(), named: HashMap::new() };
    // Pass 1: names
    let mut funcs: Vec<Func> = Vec::new();
    let mut globals: Vec<Global> = Vec::new();
    let mut fdefs: Vec<(usize, usize, usize)> = Vec::new(); // func idx, first line, last line
    let mut gdefs: Vec<usize> = Vec::new();
    let mut aliases: Vec<(String, usize)> = Vec::new();
    let mut i = 0;
    let mut named_lines = vec![];
    while i < lines.len() {
        let l = lines[i];
        if l.starts_with("define") || l.starts_with("declare") {
            let toks = lex(l);
            let name = toks
                .iter()
                .find_map(|t| if let Tok::Glob(n) = t { Some(n.clone()) } else { None })
                .unwrap();
            let fi = funcs.len();
            cx.func_idx.insert(name.clone(), fi);
            let def = l.starts_with("define");
            funcs.push(Func { name, nparams: 0, nregs: 0, blocks: vec![], defined: def, ret: Ty::Void });
            if def {
                let s = i;
                while lines[i] != "}" {
                    i += 1;
                }
                fdefs.push((fi, s, i));
            }
        } else if l.starts_with('@') {
            gdefs.push(i);
        } else if l.starts_with('%') && l.contains(" = type ") {
            named_lines.push(i);
        }
        i += 1;
    }
    // named types, iterate until all resolved
    let mut pending = named_lines;
    let mut guard = 0;
    while !pending.is_empty() {
        guard += 1;
        if guard > 100 {
            break;
        }
        let mut rest = vec![];
        for ln in pending {
            let t = lex(lines[ln]);
            let name = if let Tok::Loc(n) = &t[0] { n.clone() } else { unreachable!() };
            let body = &t[3..];
            if body.first() == Some(&Tok::Id("opaque".into())) {
                cx.named.insert(name, Ty::Other("opaque".into()));
                continue;
            }
            let ok = body.iter().all(|x| if let Tok::Loc(n) = x { cx.named.contains_key(n) } else { true });
            if ok {
                let ty = P { t: body, i: 0, cx: &cx, regs: None }.ty();
                cx.named.insert(name, ty);
            } else {
                rest.push(ln);
            }
        }
        pending = rest;
    }
    for (k, f) in funcs.iter().enumerate() {
        cx.gaddr.insert(f.name.clone(), obj_addr(k as u64 + 1));
    }
    let gbase = funcs.len() as u64 + 1;
    let mut gl: Vec<(String, usize)> = Vec::new();
    for ln in gdefs {
        let t = lex(lines[ln]);
        let name = if let Tok::Glob(n) = &t[0] { n.clone() } else { unreachable!() };
        if t.iter().any(|x| *x == Tok::Id("alias".into())) {
            aliases.push((name, ln));
            continue;
        }
        cx.gaddr.insert(name.clone(), obj_addr(gbase + gl.len() as u64));
        gl.push((name, ln));
    }
    for (name, ln) in aliases {
        let t = lex(lines[ln]);
        let target = t[1..].iter().find_map(|x| if let Tok::Glob(n) = x { Some(n.clone()) } else { None }).unwrap();
        let a = cx.gaddr[&target];
        cx.gaddr.insert(name.clone(), a);
        if let Some(fi) = cx.func_idx.get(&target).copied() {
            cx.func_idx.insert(name, fi);
        }
    }
    // Pass 2: globals
    for (name, ln) in gl {
        let t = lex(lines[ln]);
        let mut p = P { t: &t, i: 2, cx: &cx, regs: None };
        let mut external = false;
        let constant;
        loop {
            match p.next() {
                Tok::Id(s) => {
                    if s == "global" {
                        constant = false;
                        break;
                    }
                    if s == "constant" {
                        constant = true;
                        break;
                    }
                    if s == "external" || s == "extern_weak" {
                        external = true;
                    }
                    if p.is_p('(') {
                        p.skip_parens();
                    }
                }
                _ => {}
            }
        }
        let ty = p.ty();
        let init = if external { None } else { Some(p.cst(&ty)) };
        globals.push(Global { name, ty, init, constant });
    }
    // Pass 3: functions
    let hook = std::panic::take_hook();
    if std::env::var("LSX_PARSE_DEBUG").is_err() {
        std::panic::set_hook(Box::new(|_| {}));
    }
    for (fi, s, e) in fdefs {
        let name = funcs[fi].name.clone();
        let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| parse_func(&cx, &lines[s..=e], &name)));
        funcs[fi] = match r {
            Ok(f) => f,
            // only an error when executed
            Err(_) => Func {
                nparams: 0,
                nregs: 1,
                blocks: vec![Block { nphi: 0, ins: vec![Ins { dst: None, i: Inst::Unsupported(format!("function {} (not parsed)", name)) }] }],
                name,
                defined: true,
                ret: Ty::Void,
            },
        };
    }
    std::panic::set_hook(hook);
    let func_by_name = cx.func_idx.clone();
    Module { funcs, globals, func_by_name }
}

fn is_label_line(l: &str) -> Option<String> {
    if l.starts_with(' ') || l.is_empty() || l.starts_with(';') {
        return None;
    }
    if l.starts_with('"') {
        let (s, j) = lex_str(l.as_bytes(), 0);
        if l.as_bytes().get(j) == Some(&b':') {
            return Some(String::from_utf8_lossy(&s).into_owned());
        }
        return None;
    }
    let j = l.find(':')?;
    if l[..j].bytes().all(is_idc) {
        Some(l[..j].to_string())
    } else {
        None
    }
}

fn parse_func(cx: &Ctx, lines: &[&str], fname: &str) -> Func {
    let mut regs = Regs::default();
    // header
    let ht = lex(lines[0]);
    let mut nparams = 0;
    let ret;
    let mut unnamed = 0u32; // implicit numbering
    {
        let mut p = P { t: &ht, i: 1, cx, regs: Some(&mut regs) };
        p.skip_attrs_until_type();
        ret = p.ty();
        p.next(); // @name
        p.exp_p('(');
        if !p.eat_p(')') {
            loop {
                if p.peek() == Some(&Tok::Ellipsis) {
                    p.i += 1;
                } else {
                    let _t = p.ty();
                    p.skip_param_attrs();
                    if let Some(Tok::Loc(n)) = p.peek().cloned() {
                        p.i += 1;
                        if n.bytes().all(|c| c.is_ascii_digit()) {
                            unnamed = unnamed.max(n.parse::<u32>().unwrap() + 1);
                        }
                        let r = p.regs.as_mut().unwrap().reg(&n);
                        assert_eq!(r as usize, nparams);
                    } else {
                        let n = format!("{}", unnamed);
                        unnamed += 1;
                        p.regs.as_mut().unwrap().reg(&n);
                    }
                    nparams += 1;
                }
                if p.eat_p(')') {
                    break;
                }
                p.exp_p(',');
            }
        }
    }
    // join continuation lines and split into blocks
    let mut blocks: Vec<(String, Vec<String>)> = Vec::new();
    let body = &lines[1..lines.len() - 1];
    let mut k = 0;
    while k < body.len() {
        let l = body[k];
        if let Some(n) = is_label_line(l) {
            blocks.push((n, vec![]));
            k += 1;
            continue;
        }
        let tl = l.trim();
        if tl.is_empty() || tl.starts_with(';') || tl.starts_with("#dbg") {
            k += 1;
            continue;
        }
        if blocks.is_empty() {
            blocks.push((format!("{}", unnamed), vec![]));
        }
        let mut s = tl.to_string();
        if tl.starts_with("switch ") {
            while !s.contains(']') {
                k += 1;
                s.push(' ');
                s.push_str(body[k].trim());
            }
        } else if tl.contains("invoke ") && !tl.starts_with("call") {
            while k + 1 < body.len() && body[k + 1].starts_with("          ") {
                k += 1;
                s.push(' ');
                s.push_str(body[k].trim());
            }
        } else if tl.contains("landingpad ") {
            while k + 1 < body.len() && body[k + 1].starts_with("          ") {
                k += 1;
            }
        }
        blocks.last_mut().unwrap().1.push(s);
        k += 1;
    }
    for (n, (name, _)) in blocks.iter().enumerate() {
        regs.blocks.insert(name.clone(), n as u32);
    }
    let mut out = Vec::new();
    for (_, ins) in &blocks {
        let mut v = Vec::new();
        let mut nphi = 0;
        for l in ins {
            let t = lex(l);
            let i = parse_ins(cx, &t, &mut regs, l);
            if let Inst::Phi(..) = i.i {
                nphi += 1;
            }
            if let (Inst::Nop, None) = (&i.i, &i.dst) {
                continue;
            }
            v.push(i);
        }
        out.push(Block { nphi, ins: v });
    }
    Func { name: fname.to_string(), nparams, nregs: regs.map.len(), blocks: out, defined: true, ret }
}

fn parse_ins(cx: &Ctx, t: &[Tok], regs: &mut Regs, line: &str) -> Ins {
    let mut dst = None;
    let mut i = 0;
    if let (Some(Tok::Loc(n)), Some(Tok::P('='))) = (t.get(0), t.get(1)) {
        dst = Some(regs.reg(n));
        i = 2;
    }
    let mut p = P { t, i, cx, regs: Some(regs) };
    let op = match p.next() {
        Tok::Id(s) => s,
        x => panic!("instr {:?} in {}", x, line),
    };
    let bin = |s: &str| -> Option<Bin> {
        Some(match s {
            "add" => Bin::Add,
            "sub" => Bin::Sub,
            "mul" => Bin::Mul,
            "udiv" => Bin::UDiv,
            "sdiv" => Bin::SDiv,
            "urem" => Bin::URem,
            "srem" => Bin::SRem,
            "shl" => Bin::Shl,
            "lshr" => Bin::LShr,
            "ashr" => Bin::AShr,
            "and" => Bin::And,
            "or" => Bin::Or,
            "xor" => Bin::Xor,
            _ => return None,
        })
    };
    let cast = |s: &str| -> Option<Cast> {
        Some(match s {
            "trunc" => Cast::Trunc,
            "zext" => Cast::ZExt,
            "sext" => Cast::SExt,
            "ptrtoint" | "ptrtoaddr" => Cast::PtrToInt,
            "inttoptr" => Cast::IntToPtr,
            "bitcast" => Cast::Bitcast,
            _ => return None,
        })
    };
    if let Some(b) = bin(&op) {
        p.skip_attrs_until_type();
        let ty = p.ty();
        let a = p.opnd(&ty);
        p.exp_p(',');
        let c = p.opnd(&ty);
        return Ins { dst, i: Inst::Bin(b, ty, a, c) };
    }
    if let Some(c) = cast(&op) {
        p.skip_attrs_until_type();
        let (ty, a) = p.typed_opnd();
        assert!(p.eat_id("to"));
        let t2 = p.ty();
        return Ins { dst, i: Inst::Cast(c, ty, a, t2) };
    }
    let inst = match op.as_str() {
        "icmp" => {
            let pred;
            loop {
                if let Tok::Id(s) = p.next() {
                    pred = match s.as_str() {
                        "samesign" => continue,
                        "eq" => Pred::Eq,
                        "ne" => Pred::Ne,
                        "ugt" => Pred::Ugt,
                        "uge" => Pred::Uge,
                        "ult" => Pred::Ult,
                        "ule" => Pred::Ule,
                        "sgt" => Pred::Sgt,
                        "sge" => Pred::Sge,
                        "slt" => Pred::Slt,
                        "sle" => Pred::Sle,
                        x => panic!("pred {}", x),
                    };
                    break;
                } else {
                    panic!("icmp")
                }
            }
            let ty = p.ty();
            let a = p.opnd(&ty);
            p.exp_p(',');
            let b = p.opnd(&ty);
            Inst::ICmp(pred, ty, a, b)
        }
        "select" => {
            p.skip_attrs_until_type();
            let (ct, c) = p.typed_opnd();
            p.exp_p(',');
            let (ty, a) = p.typed_opnd();
            p.exp_p(',');
            let (_, b) = p.typed_opnd();
            Inst::Select(c, ty, a, b, matches!(ct, Ty::Vector(..)))
        }
        "alloca" => {
            p.eat_id("inalloca");
            let ty = p.ty();
            let mut n = Opnd::C(Const::Int(1));
            if p.eat_p(',') && !p.is_id("align") {
                if p.at_type() {
                    n = p.typed_opnd().1;
                }
            }
            Inst::Alloca(ty, n)
        }
        "load" => {
            p.eat_id("atomic");
            p.eat_id("volatile");
            let ty = p.ty();
            p.exp_p(',');
            let (_, a) = p.typed_opnd();
            Inst::Load(ty, a)
        }
        "store" => {
            p.eat_id("atomic");
            p.eat_id("volatile");
            let (ty, v) = p.typed_opnd();
            p.exp_p(',');
            let (_, a) = p.typed_opnd();
            Inst::Store(ty, v, a)
        }
        "getelementptr" => {
            p.skip_attrs_until_type();
            let ty = p.ty();
            p.exp_p(',');
            let (_, b) = p.typed_opnd();
            let mut idx = vec![];
            while p.eat_p(',') {
                if !p.at_type() {
                    break;
                }
                idx.push(p.typed_opnd());
            }
            Inst::Gep(ty, b, idx)
        }
        "extractvalue" => {
            let (_, a) = p.typed_opnd();
            let mut idx = vec![];
            while p.eat_p(',') {
                if let Some(Tok::Int(_)) = p.peek() {
                    idx.push(p.int_lit() as u32);
                } else {
                    break;
                }
            }
            Inst::ExtractValue(a, idx)
        }
        "insertvalue" => {
            let (ty, a) = p.typed_opnd();
            p.exp_p(',');
            let (_, b) = p.typed_opnd();
            let mut idx = vec![];
            while p.eat_p(',') {
                if let Some(Tok::Int(_)) = p.peek() {
                    idx.push(p.int_lit() as u32);
                } else {
                    break;
                }
            }
            Inst::InsertValue(ty, a, b, idx)
        }
        "extractelement" => {
            let (_, a) = p.typed_opnd();
            p.exp_p(',');
            let (_, b) = p.typed_opnd();
            Inst::ExtractElement(a, b)
        }
        "insertelement" => {
            let (ty, a) = p.typed_opnd();
            p.exp_p(',');
            let (_, b) = p.typed_opnd();
            p.exp_p(',');
            let (_, c) = p.typed_opnd();
            Inst::InsertElement(ty, a, b, c)
        }
        "shufflevector" => {
            let (ty, a) = p.typed_opnd();
            p.exp_p(',');
            let (_, b) = p.typed_opnd();
            p.exp_p(',');
            let mt = p.ty();
            let m = p.cst(&mt);
            let mask = match m {
                Const::Agg(v) => v
                    .iter()
                    .map(|c| match c {
                        Const::Int(x) => *x as i64,
                        _ => -1,
                    })
                    .collect(),
                Const::Zero => vec![0; mt.nfields()],
                _ => vec![-1; mt.nfields()],
            };
            Inst::Shuffle(ty, a, b, mask)
        }
        "freeze" => {
            let (_, a) = p.typed_opnd();
            Inst::Freeze(a)
        }
        "fence" => Inst::Nop,
        "cmpxchg" => {
            p.eat_id("weak");
            p.eat_id("volatile");
            let (_, a) = p.typed_opnd();
            p.exp_p(',');
            let (ty, c) = p.typed_opnd();
            p.exp_p(',');
            let (_, n) = p.typed_opnd();
            Inst::CmpXchg(ty, a, c, n)
        }
        "atomicrmw" => {
            p.eat_id("volatile");
            let o = match p.next() {
                Tok::Id(s) => s,
                _ => panic!(),
            };
            let (_, a) = p.typed_opnd();
            p.exp_p(',');
            let (ty, v) = p.typed_opnd();
            Inst::AtomicRmw(o, ty, a, v)
        }
        "tail" | "musttail" | "notail" | "call" | "invoke" => {
            if op != "call" && op != "invoke" {
                assert!(p.eat_id("call"));
            }
            // skip intrinsics with metadata arguments
            if line.contains("@llvm.experimental.noalias.scope.decl") || line.contains("@llvm.dbg.") || line.contains("@llvm.lifetime.")
                || line.contains("@llvm.assume(") || line.contains("@llvm.donothing") || line.contains("@llvm.prefetch")
                || line.contains("@llvm.fake.use") || line.contains("@llvm.invariant.")
            {
                return Ins { dst: None, i: Inst::Nop };
            }
            p.skip_attrs_until_type();
            let ret = p.ty();
            // optional function type
            if p.is_p('(') {
                // either function type, e.g. void (ptr, ...)
                p.skip_parens();
            }
            let callee = match p.next() {
                Tok::Glob(n) => Callee::Func(*cx.func_idx.get(&n).unwrap_or_else(|| panic!("callee {}", n))),
                Tok::Loc(n) => {
                    let r = p.regs.as_mut().unwrap().reg(&n);
                    Callee::Reg(Opnd::Reg(r))
                }
                Tok::Id(s) if s == "asm" => {
                    let mut txt = String::new();
                    loop {
                        match p.next() {
                            Tok::Str(s) => {
                                txt = String::from_utf8_lossy(&s).into_owned();
                                break;
                            }
                            _ => {}
                        }
                    }
                    p.exp_p(',');
                    p.next();
                    Callee::Asm(txt)
                }
                Tok::Id(s) if s == "inttoptr" => {
                    p.i -= 1;
                    let o = p.opnd(&Ty::Ptr);
                    Callee::Reg(o)
                }
                x => panic!("callee {:?} in {}", x, line),
            };
            p.exp_p('(');
            let mut args = vec![];
            if !p.eat_p(')') {
                loop {
                    let ty = p.ty();
                    if ty == Ty::Other("metadata".into()) {
                        // skip to , or )
                        let mut d = 0;
                        while !(d == 0 && (p.is_p(',') || p.is_p(')'))) {
                            if p.is_p('(') {
                                d += 1
                            }
                            if p.is_p(')') {
                                d -= 1
                            }
                            p.i += 1;
                        }
                    } else {
                        p.skip_param_attrs();
                        let o = p.opnd(&ty);
                        args.push((ty, o));
                    }
                    if p.eat_p(')') {
                        break;
                    }
                    p.exp_p(',');
                }
            }
            let mut normal = None;
            if op == "invoke" {
                while !p.is_id("to") {
                    p.i += 1;
                }
                p.i += 1;
                normal = Some(p.label());
            }
            Inst::Call { callee, ret, args, normal }
        }
        "br" => {
            if p.is_id("label") {
                Inst::Br(p.label())
            } else {
                let (_, c) = p.typed_opnd();
                p.exp_p(',');
                let a = p.label();
                p.exp_p(',');
                let b = p.label();
                Inst::CondBr(c, a, b)
            }
        }
        "switch" => {
            let (ty, v) = p.typed_opnd();
            p.exp_p(',');
            let d = p.label();
            p.exp_p('[');
            let mut cases = vec![];
            while !p.eat_p(']') {
                let (_, c) = p.typed_const();
                p.exp_p(',');
                let l = p.label();
                if let Const::Int(x) = c {
                    cases.push((x, l));
                } else {
                    cases.push((0, l));
                }
            }
            Inst::Switch(ty, v, d, cases)
        }
        "ret" => {
            let ty = p.ty();
            if ty == Ty::Void {
                Inst::Ret(None)
            } else {
                let o = p.opnd(&ty);
                Inst::Ret(Some((ty, o)))
            }
        }
        "unreachable" => Inst::Unreachable,
        "resume" => Inst::Unreachable,
        "landingpad" => Inst::Unsupported("landingpad".into()),
        "phi" => {
            p.skip_attrs_until_type();
            let ty = p.ty();
            let mut v = vec![];
            loop {
                p.exp_p('[');
                let o = p.opnd(&ty);
                p.exp_p(',');
                let b = p.blockref();
                p.exp_p(']');
                v.push((o, b));
                if !p.eat_p(',') {
                    break;
                }
                if !p.is_p('[') {
                    break;
                }
            }
            Inst::Phi(ty, v)
        }
        _ => Inst::Unsupported(line.to_string()),
    };
    Ins { dst, i: inst }
}
