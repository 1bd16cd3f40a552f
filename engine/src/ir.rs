//! Textual LLVM IR parser (the subset rustc emits) and lowering to a compact register form.
use std::collections::HashMap;
use std::sync::{Arc, OnceLock};

#[derive(Clone, Debug, PartialEq)]
pub enum Ty {
    Void,
    Int(u32),
    Ptr,
    Float(u32),
    Array(u64, Arc<Ty>),
    Struct(Arc<Vec<Ty>>, bool),
    Vector(u64, Arc<Ty>),
    Named(Arc<str>),
    Other,
}

#[derive(Clone, Debug)]
pub enum CV {
    I(u128),
    Agg(Arc<Vec<CV>>),
}

#[derive(Clone, Debug)]
pub enum Opd {
    R(u32),
    I(u128),
    Agg(Arc<Vec<CV>>),
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum BinOp {
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Xchg,
    Nand,
    Max,
    Min,
    UMax,
    UMin,
    FAdd,
    FSub,
    FMul,
    FDiv,
    FRem,
}
#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Pred {
    Eq,
    Ne,
    Ugt,
    Uge,
    Ult,
    Ule,
    Sgt,
    Sge,
    Slt,
    Sle,
}

#[derive(Clone, Debug)]
pub enum Callee {
    Func(u32),
    Ind(Opd),
}

/// Flattened memory layout of a first-class type: scalars or aggregates.
#[derive(Clone, Debug)]
pub enum Lay {
    Int(u32),                       // bits
    Agg(Arc<Vec<(u64, Lay)>>),      // offset, element
    Vec(u64, u32),                  // n elements of given bit width (bit-packed)
}

#[derive(Clone, Debug)]
pub struct Edge {
    pub to: u32,
    pub copies: Vec<(u32, Opd)>,
}

#[derive(Clone, Debug)]
pub enum Inst {
    Bin { op: BinOp, w: u32, d: u32, a: Opd, b: Opd },
    VBin { op: BinOp, w: u32, d: u32, a: Opd, b: Opd },
    ICmp { p: Pred, w: u32, d: u32, a: Opd, b: Opd },
    VICmp { p: Pred, w: u32, d: u32, a: Opd, b: Opd },
    FCmp { p: String, w: u32, d: u32, a: Opd, b: Opd },
    Select { d: u32, c: Opd, a: Opd, b: Opd, w: Option<u32>, vec: bool },
    Load { d: u32, p: Opd, lay: Lay },
    Store { v: Opd, p: Opd, lay: Lay },
    Alloca { d: u32, size: u64, n: Opd, align: u64 },
    Gep { d: u32, base: Opd, off: i64, idx: Vec<(Opd, u32, i64)> },
    Trunc { d: u32, a: Opd, to: u32 },
    ZExt { d: u32, a: Opd, from: u32, to: u32 },
    SExt { d: u32, a: Opd, from: u32, to: u32 },
    VCast { d: u32, a: Opd, kind: u8, from: u32, to: u32 },
    Mov { d: u32, a: Opd },
    BitcastVI { d: u32, a: Opd, n: u64, ew: u32 },
    BitcastIV { d: u32, a: Opd, n: u64, ew: u32 },
    BitcastVV { d: u32, a: Opd, n: u64, ew: u32, n2: u64, ew2: u32 },
    FConv { d: u32, a: Opd, kind: &'static str, from: u32, to: u32 },
    FNeg { d: u32, a: Opd, w: u32 },
    ExtractValue { d: u32, a: Opd, path: Vec<u32> },
    InsertValue { d: u32, a: Opd, v: Opd, path: Vec<u32>, lay: Lay },
    ExtractElt { d: u32, a: Opd, i: Opd },
    InsertElt { d: u32, a: Opd, v: Opd, i: Opd, n: u64 },
    Shuffle { d: u32, a: Opd, b: Opd, n: u64, mask: Vec<i64> },
    CmpXchg { d: u32, p: Opd, cmp: Opd, new: Opd, w: u32 },
    AtomicRmw { d: u32, op: BinOp, p: Opd, v: Opd, w: u32 },
    Fence,
    Call { d: Option<u32>, f: Callee, args: Vec<Opd>, retlay: Option<Lay>, inv: Option<Box<(Edge, Edge)>>, argtys: Vec<u32> },
    Landing { d: u32 },
    Br(Edge),
    CondBr { c: Opd, t: Edge, f: Edge },
    Switch { v: Opd, w: u32, def: Edge, cases: Vec<(u128, Edge)> },
    Ret(Option<Opd>),
    Resume(Opd),
    Unreachable,
    Unsupported(String),
}

pub struct Block {
    pub insts: Vec<Inst>,
}
pub struct Code {
    pub nregs: u32,
    pub blocks: Vec<Block>,
    pub ninst: usize,
}

pub struct Func {
    pub name: String,
    pub params: Vec<String>,
    pub body: Option<(usize, usize)>, // byte range in source
    pub code: OnceLock<Arc<Code>>,
    pub intr: OnceLock<u32>,
    pub ret_void: bool,
}

pub struct Global {
    pub name: String,
    pub ty: Ty,
    pub init: Option<(usize, usize)>,
    pub constant: bool,
    pub size: u64,
    pub align: u64,
}

pub struct Module {
    pub src: Vec<u8>,
    pub types: HashMap<String, Ty>,
    pub funcs: Vec<Func>,
    pub fidx: HashMap<String, u32>,
    pub globals: Vec<Global>,
    pub gidx: HashMap<String, u32>,
    pub aliases: HashMap<String, String>,
    /// indices of thread-local globals
    pub tls: Vec<usize>,
}

pub const GLOBAL_BASE: u64 = 1; // global g lives in object GLOBAL_BASE+g
pub const FUNC_BASE: u64 = 0x3000_0000;
pub const STACK_BASE: u64 = 0x4000_0000;
pub const HEAP_BASE: u64 = 0x1000_0000;

pub fn faddr(f: u32) -> u64 {
    (FUNC_BASE + f as u64) << 32
}
pub fn gaddr(g: u32) -> u64 {
    (GLOBAL_BASE + g as u64) << 32
}

// ------------------------------------------------------------------ lexer
#[derive(Clone, Debug, PartialEq)]
pub enum Tok<'a> {
    Local(&'a str),
    Global(&'a str),
    Word(&'a str),
    Num(&'a str),
    Str(&'a str),
    CStr(&'a [u8]),
    Meta(&'a str),
    P(u8),
    Ellipsis,
    Eof,
}

#[derive(Clone)]
pub struct Lex<'a> {
    s: &'a [u8],
    pub i: usize,
    end: usize,
}

fn idc(c: u8) -> bool {
    c.is_ascii_alphanumeric() || c == b'_' || c == b'.' || c == b'$' || c == b'-'
}

impl<'a> Lex<'a> {
    pub fn new(s: &'a [u8], i: usize, end: usize) -> Self {
        Lex { s, i, end }
    }
    fn ws(&mut self) {
        while self.i < self.end {
            let c = self.s[self.i];
            if c == b';' {
                while self.i < self.end && self.s[self.i] != b'\n' {
                    self.i += 1;
                }
            } else if c.is_ascii_whitespace() {
                self.i += 1;
            } else {
                break;
            }
        }
    }
    fn name(&mut self) -> &'a str {
        if self.i < self.end && self.s[self.i] == b'"' {
            let st = self.i + 1;
            self.i += 1;
            while self.s[self.i] != b'"' {
                self.i += 1;
            }
            self.i += 1;
            return std::str::from_utf8(&self.s[st..self.i - 1]).unwrap_or("?");
        }
        let st = self.i;
        while self.i < self.end && idc(self.s[self.i]) {
            self.i += 1;
        }
        std::str::from_utf8(&self.s[st..self.i]).unwrap()
    }
    pub fn next(&mut self) -> Tok<'a> {
        self.ws();
        if self.i >= self.end {
            return Tok::Eof;
        }
        let c = self.s[self.i];
        match c {
            b'%' => {
                self.i += 1;
                Tok::Local(self.name())
            }
            b'@' => {
                self.i += 1;
                Tok::Global(self.name())
            }
            b'!' => {
                self.i += 1;
                if self.i < self.end && (idc(self.s[self.i]) || self.s[self.i] == b'"') {
                    Tok::Meta(self.name())
                } else {
                    Tok::Meta("")
                }
            }
            b'#' => {
                self.i += 1;
                let n = self.name();
                let _ = n;
                Tok::Word("#attr")
            }
            b'"' => Tok::Str(self.name()),
            b'c' if self.i + 1 < self.end && self.s[self.i + 1] == b'"' => {
                self.i += 2;
                let st = self.i;
                while self.s[self.i] != b'"' {
                    self.i += 1;
                }
                self.i += 1;
                Tok::CStr(&self.s[st..self.i - 1])
            }
            b'.' if self.i + 2 < self.end && &self.s[self.i..self.i + 3] == b"..." => {
                self.i += 3;
                Tok::Ellipsis
            }
            _ if c.is_ascii_digit() || c == b'-' || c == b'+' => {
                let st = self.i;
                self.i += 1;
                while self.i < self.end && (self.s[self.i].is_ascii_alphanumeric() || self.s[self.i] == b'.' || ((self.s[self.i] == b'+' || self.s[self.i] == b'-') && (self.s[self.i - 1] == b'e'))) {
                    self.i += 1;
                }
                Tok::Num(std::str::from_utf8(&self.s[st..self.i]).unwrap())
            }
            _ if c.is_ascii_alphabetic() || c == b'_' => {
                let st = self.i;
                while self.i < self.end && idc(self.s[self.i]) {
                    self.i += 1;
                }
                Tok::Word(std::str::from_utf8(&self.s[st..self.i]).unwrap())
            }
            _ => {
                self.i += 1;
                Tok::P(c)
            }
        }
    }
    pub fn peek(&mut self) -> Tok<'a> {
        let save = self.i;
        let t = self.next();
        self.i = save;
        t
    }
    pub fn eat(&mut self, c: u8) -> bool {
        if self.peek() == Tok::P(c) {
            self.next();
            true
        } else {
            false
        }
    }
    pub fn eatw(&mut self, w: &str) -> bool {
        if self.peek() == Tok::Word(w) {
            self.next();
            true
        } else {
            false
        }
    }
    fn expect(&mut self, c: u8) -> Result<(), String> {
        let t = self.next();
        if t == Tok::P(c) {
            Ok(())
        } else {
            let ctx = String::from_utf8_lossy(&self.s[self.i.saturating_sub(80)..(self.i + 40).min(self.end)]).to_string();
            Err(format!("expected '{}' got {:?} near …{}", c as char, t, ctx))
        }
    }
    fn skip_balanced(&mut self) {
        // current position is at an opening paren
        let mut depth = 0;
        loop {
            match self.next() {
                Tok::P(b'(') | Tok::P(b'[') | Tok::P(b'{') => depth += 1,
                Tok::P(b')') | Tok::P(b']') | Tok::P(b'}') => {
                    depth -= 1;
                    if depth == 0 {
                        return;
                    }
                }
                Tok::Eof => return,
                _ => {}
            }
        }
    }
    fn at_eol(&self) -> bool {
        // true if only spaces remain on this line
        let mut j = self.i;
        while j < self.end {
            match self.s[j] {
                b' ' | b'\t' | b'\r' => j += 1,
                b'\n' => return true,
                _ => return false,
            }
        }
        true
    }
    fn skip_line(&mut self) {
        while self.i < self.end && self.s[self.i] != b'\n' {
            self.i += 1;
        }
    }
}

fn is_type_start(t: &Tok) -> bool {
    match t {
        Tok::Word(w) => {
            (w.len() > 1 && w.starts_with('i') && w[1..].bytes().all(|b| b.is_ascii_digit()))
                || matches!(*w, "void" | "ptr" | "float" | "double" | "half" | "bfloat" | "fp128" | "x86_fp80" | "metadata" | "label" | "token" | "opaque")
        }
        Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => true,
        Tok::Local(_) => true,
        _ => false,
    }
}

impl Module {
    pub fn resolve<'b>(&'b self, t: &'b Ty) -> &'b Ty {
        match t {
            Ty::Named(n) => self.resolve(self.types.get(&**n).unwrap_or(&Ty::Other)),
            _ => t,
        }
    }
    pub fn size_align(&self, t: &Ty) -> (u64, u64) {
        match self.resolve(t) {
            Ty::Void | Ty::Other => (0, 1),
            Ty::Int(w) => {
                let b = (*w as u64).div_ceil(8);
                let a = b.next_power_of_two().min(16);
                (b.div_ceil(a) * a, a)
            }
            Ty::Ptr => (8, 8),
            Ty::Float(w) => {
                if *w == 80 {
                    (16, 16)
                } else {
                    (*w as u64 / 8, *w as u64 / 8)
                }
            }
            Ty::Array(n, e) => {
                let (s, a) = self.size_align(e);
                (s * n, a)
            }
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                let mut al = 1;
                for f in fs.iter() {
                    let (s, a) = self.size_align(f);
                    let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a;
                    off += s;
                    al = al.max(a);
                }
                ((off + al - 1) / al * al, al)
            }
            Ty::Vector(n, e) => {
                let bits = match self.resolve(e) {
                    Ty::Int(w) => *w as u64,
                    Ty::Ptr => 64,
                    Ty::Float(w) => *w as u64,
                    _ => 64,
                } * n;
                let b = bits.div_ceil(8);
                let a = b.next_power_of_two();
                (b.div_ceil(a) * a, a)
            }
            Ty::Named(_) => unreachable!(),
        }
    }
    pub fn offset_of(&self, t: &Ty, i: usize) -> (u64, Ty) {
        match self.resolve(t) {
            Ty::Struct(fs, packed) => {
                let mut off = 0;
                for (j, f) in fs.iter().enumerate() {
                    let (s, a) = self.size_align(f);
                    let a = if *packed { 1 } else { a };
                    off = (off + a - 1) / a * a;
                    if j == i {
                        return (off, f.clone());
                    }
                    off += s;
                }
                panic!("field index")
            }
            Ty::Array(_, e) => (self.size_align(e).0 * i as u64, (**e).clone()),
            Ty::Vector(_, e) => (self.size_align(e).0 * i as u64, (**e).clone()),
            t => panic!("offset_of {:?}", t),
        }
    }
    pub fn scalar_bits(&self, t: &Ty) -> u32 {
        match self.resolve(t) {
            Ty::Int(w) => *w,
            Ty::Ptr => 64,
            Ty::Float(w) => *w,
            _ => 0,
        }
    }
    pub fn lay(&self, t: &Ty) -> Lay {
        match self.resolve(t) {
            Ty::Int(w) => Lay::Int(*w),
            Ty::Ptr => Lay::Int(64),
            Ty::Float(w) => Lay::Int(*w),
            Ty::Array(n, e) => {
                let (s, _) = self.size_align(e);
                let l = self.lay(e);
                Lay::Agg(Arc::new((0..*n).map(|i| (i * s, l.clone())).collect()))
            }
            Ty::Struct(fs, _) => Lay::Agg(Arc::new((0..fs.len()).map(|i| {
                let (o, f) = self.offset_of(t, i);
                (o, self.lay(&f))
            }).collect())),
            Ty::Vector(n, e) => Lay::Vec(*n, self.scalar_bits(e)),
            t => panic!("layout of {:?}", t),
        }
    }
    fn zero(&self, t: &Ty) -> CV {
        match self.resolve(t) {
            Ty::Array(n, e) => {
                let z = self.zero(e);
                CV::Agg(Arc::new(vec![z; *n as usize]))
            }
            Ty::Vector(n, e) => {
                let z = self.zero(e);
                CV::Agg(Arc::new(vec![z; *n as usize]))
            }
            Ty::Struct(fs, _) => CV::Agg(Arc::new(fs.iter().map(|f| self.zero(f)).collect())),
            _ => CV::I(0),
        }
    }

    // ---------------------------------------------------------- types
    pub fn ty(&self, l: &mut Lex) -> Result<Ty, String> {
        let t = l.next();
        let mut r = match t {
            Tok::Word(w) => match w {
                "void" => Ty::Void,
                "ptr" => {
                    if l.eatw("addrspace") {
                        l.skip_balanced();
                    }
                    Ty::Ptr
                }
                "float" => Ty::Float(32),
                "double" => Ty::Float(64),
                "half" | "bfloat" => Ty::Float(16),
                "fp128" => Ty::Float(128),
                "x86_fp80" => Ty::Float(80),
                "metadata" | "label" | "token" | "opaque" => Ty::Other,
                _ if w.starts_with('i') => Ty::Int(w[1..].parse().map_err(|_| format!("type {}", w))?),
                _ => return Err(format!("type {}", w)),
            },
            Tok::Local(n) => Ty::Named(Arc::from(n)),
            Tok::P(b'{') => self.struct_body(l, false)?,
            Tok::P(b'[') => {
                let n = self.uint(l)?;
                if !l.eatw("x") {
                    return Err("array x".into());
                }
                let e = self.ty(l)?;
                l.expect(b']')?;
                Ty::Array(n, Arc::new(e))
            }
            Tok::P(b'<') => {
                if l.eat(b'{') {
                    let s = self.struct_body(l, true)?;
                    l.expect(b'>')?;
                    s
                } else {
                    let n = self.uint(l)?;
                    if !l.eatw("x") {
                        return Err("vector x".into());
                    }
                    let e = self.ty(l)?;
                    l.expect(b'>')?;
                    Ty::Vector(n, Arc::new(e))
                }
            }
            t => return Err(format!("type expected, got {:?}", t)),
        };
        // function type (only in call instructions): ret (args)
        if let Ty::Ptr = r {
            while l.eat(b'*') {
                r = Ty::Ptr;
            }
        }
        Ok(r)
    }
    fn struct_body(&self, l: &mut Lex, packed: bool) -> Result<Ty, String> {
        let mut fs = vec![];
        if !l.eat(b'}') {
            loop {
                fs.push(self.ty(l)?);
                if l.eat(b',') {
                    continue;
                }
                l.expect(b'}')?;
                break;
            }
        }
        Ok(Ty::Struct(Arc::new(fs), packed))
    }
    fn uint(&self, l: &mut Lex) -> Result<u64, String> {
        match l.next() {
            Tok::Num(n) => n.parse().map_err(|e| format!("{} {:?}", n, e)),
            t => Err(format!("number expected, got {:?}", t)),
        }
    }

    // ---------------------------------------------------------- constants
    pub fn sym_addr(&self, n: &str) -> Result<u64, String> {
        let n = match self.aliases.get(n) {
            Some(a) => a.as_str(),
            None => n,
        };
        if let Some(&f) = self.fidx.get(n) {
            return Ok(faddr(f));
        }
        if let Some(&g) = self.gidx.get(n) {
            return Ok(gaddr(g));
        }
        Err(format!("unknown symbol @{}", n))
    }
    pub fn constant(&self, l: &mut Lex, t: &Ty) -> Result<CV, String> {
        let tok = l.next();
        let rt = self.resolve(t).clone();
        match tok {
            Tok::Num(n) => Ok(CV::I(match rt {
                Ty::Float(w) => {
                    if let Some(h) = n.strip_prefix("0x") {
                        let h = h.trim_start_matches(['K', 'L', 'M', 'H', 'R']);
                        let v = u128::from_str_radix(h, 16).map_err(|e| format!("{:?}", e))?;
                        if w == 32 {
                            (f64::from_bits(v as u64) as f32).to_bits() as u128
                        } else {
                            v
                        }
                    } else {
                        let f: f64 = n.parse().map_err(|_| format!("float {}", n))?;
                        if w == 32 {
                            (f as f32).to_bits() as u128
                        } else {
                            f.to_bits() as u128
                        }
                    }
                }
                _ => {
                    let w = self.scalar_bits(&rt);
                    let v: u128 = if let Some(m) = n.strip_prefix('-') {
                        (m.parse::<u128>().map_err(|e| format!("{} {:?}", n, e))?).wrapping_neg()
                    } else if let Some(h) = n.strip_prefix("u0x") {
                        u128::from_str_radix(h, 16).map_err(|e| format!("{:?}", e))?
                    } else {
                        n.parse::<u128>().map_err(|e| format!("{} {:?}", n, e))?
                    };
                    v & crate::expr::mask(w)
                }
            })),
            Tok::Word(w) => match w {
                "true" => Ok(CV::I(1)),
                "false" => Ok(CV::I(0)),
                "null" | "undef" | "poison" | "zeroinitializer" | "none" => Ok(self.zero(t)),
                "splat" => {
                    l.expect(b'(')?;
                    let et = self.ty(l)?;
                    let v = self.constant(l, &et)?;
                    l.expect(b')')?;
                    let n = match rt {
                        Ty::Vector(n, _) | Ty::Array(n, _) => n,
                        _ => return Err("splat".into()),
                    };
                    Ok(CV::Agg(Arc::new(vec![v; n as usize])))
                }
                "dso_local_equivalent" | "no_cfi" => self.constant(l, t),
                "getelementptr" => {
                    while let Tok::Word(_) = l.peek() {
                        l.next();
                        if l.peek() == Tok::P(b'(') && false {
                            break;
                        }
                    }
                    // optional inrange(...)
                    l.expect(b'(')?;
                    let bt = self.ty(l)?;
                    // handle "inrange(-8, 16)" form that precedes the parenthesis in new IR
                    l.expect(b',')?;
                    self.ty(l)?;
                    let base = self.cint(l, &Ty::Ptr)?;
                    let mut off: i128 = 0;
                    let mut cur = bt.clone();
                    let mut first = true;
                    while l.eat(b',') {
                        let it = self.ty(l)?;
                        let v = self.cint(l, &it)?;
                        let s = crate::expr::sext(v, self.scalar_bits(&it));
                        if first {
                            off += s * self.size_align(&cur).0 as i128;
                            first = false;
                        } else {
                            match self.resolve(&cur).clone() {
                                Ty::Struct(..) => {
                                    let (o, f) = self.offset_of(&cur, s as usize);
                                    off += o as i128;
                                    cur = f;
                                }
                                Ty::Array(_, e) | Ty::Vector(_, e) => {
                                    off += s * self.size_align(&e).0 as i128;
                                    cur = (*e).clone();
                                }
                                _ => return Err("gep const".into()),
                            }
                        }
                    }
                    l.expect(b')')?;
                    Ok(CV::I((base as i128 + off) as u64 as u128))
                }
                "ptrtoint" | "inttoptr" | "bitcast" | "addrspacecast" | "trunc" | "zext" | "sext" | "ptrtoaddr" => {
                    while let Tok::Word(_) = l.peek() {
                        l.next();
                    }
                    l.expect(b'(')?;
                    let ft = self.ty(l)?;
                    let v = self.cint(l, &ft)?;
                    if !l.eatw("to") {
                        return Err("cast to".into());
                    }
                    let tt = self.ty(l)?;
                    l.expect(b')')?;
                    let v = if w == "sext" { crate::expr::sext(v, self.scalar_bits(&ft)) as u128 } else { v };
                    Ok(CV::I(v & crate::expr::mask(self.scalar_bits(&tt))))
                }
                "add" | "sub" | "mul" | "xor" | "shl" => {
                    while let Tok::Word(_) = l.peek() {
                        l.next();
                    }
                    l.expect(b'(')?;
                    let ft = self.ty(l)?;
                    let a = self.cint(l, &ft)?;
                    l.expect(b',')?;
                    self.ty(l)?;
                    let b = self.cint(l, &ft)?;
                    l.expect(b')')?;
                    let r = match w {
                        "add" => a.wrapping_add(b),
                        "sub" => a.wrapping_sub(b),
                        "mul" => a.wrapping_mul(b),
                        "shl" => a << b,
                        _ => a ^ b,
                    };
                    Ok(CV::I(r & crate::expr::mask(self.scalar_bits(&ft))))
                }
                _ => Err(format!("constant {}", w)),
            },
            Tok::Global(n) => Ok(CV::I(self.sym_addr(n)? as u128)),
            Tok::CStr(b) => {
                let mut v = vec![];
                let mut i = 0;
                while i < b.len() {
                    if b[i] == b'\\' {
                        if b[i + 1] == b'\\' {
                            v.push(CV::I(b'\\' as u128));
                            i += 2;
                        } else {
                            let h = std::str::from_utf8(&b[i + 1..i + 3]).unwrap();
                            v.push(CV::I(u8::from_str_radix(h, 16).map_err(|e| format!("{:?}", e))? as u128));
                            i += 3;
                        }
                    } else {
                        v.push(CV::I(b[i] as u128));
                        i += 1;
                    }
                }
                Ok(CV::Agg(Arc::new(v)))
            }
            Tok::P(b'[') | Tok::P(b'{') => {
                let close = if tok == Tok::P(b'[') { b']' } else { b'}' };
                self.celems(l, close)
            }
            Tok::P(b'<') => {
                if l.eat(b'{') {
                    let r = self.celems(l, b'}')?;
                    l.expect(b'>')?;
                    Ok(r)
                } else {
                    self.celems(l, b'>')
                }
            }
            t => Err(format!("constant {:?}", t)),
        }
    }
    fn celems(&self, l: &mut Lex, close: u8) -> Result<CV, String> {
        let mut v = vec![];
        if !l.eat(close) {
            loop {
                let t = self.ty(l)?;
                v.push(self.constant(l, &t)?);
                if l.eat(b',') {
                    continue;
                }
                l.expect(close)?;
                break;
            }
        }
        Ok(CV::Agg(Arc::new(v)))
    }
    fn cint(&self, l: &mut Lex, t: &Ty) -> Result<u128, String> {
        match self.constant(l, t)? {
            CV::I(v) => Ok(v),
            CV::Agg(_) => Err("aggregate where scalar expected".into()),
        }
    }

    // ---------------------------------------------------------- module level
    pub fn parse(src: Vec<u8>) -> Result<Module, String> {
        let mut m = Module { src, types: HashMap::new(), funcs: vec![], fidx: HashMap::new(), globals: vec![], gidx: HashMap::new(), aliases: HashMap::new(), tls: vec![] };
        let src = std::mem::take(&mut m.src);
        let mut i = 0;
        let n = src.len();
        let mut gl: Vec<(String, usize)> = vec![];
        while i < n {
            let eol = src[i..].iter().position(|&b| b == b'\n').map(|p| i + p).unwrap_or(n);
            let line = &src[i..eol];
            if line.starts_with(b"%") {
                let mut l = Lex::new(&src, i, eol);
                if let Tok::Local(name) = l.next() {
                    let name = name.to_string();
                    l.expect(b'=')?;
                    if l.eatw("type") {
                        let t = if l.eatw("opaque") { Ty::Other } else { m.ty(&mut l)? };
                        m.types.insert(name, t);
                    }
                }
            } else if line.starts_with(b"@") {
                gl.push((String::new(), i));
            } else if line.starts_with(b"define") || line.starts_with(b"declare") {
                let def = line.starts_with(b"define");
                let mut l = Lex::new(&src, i, n);
                l.next();
                let name;
                let mut ret_void = false;
                loop {
                    match l.next() {
                        Tok::Global(g) => {
                            name = g.to_string();
                            break;
                        }
                        Tok::Word("void") => ret_void = true,
                        Tok::Eof => return Err("eof in define".into()),
                        _ => {}
                    }
                }
                let mut params = vec![];
                l.expect(b'(')?;
                let mut depth = 1;
                let mut last_local: Option<String> = None;
                let mut npar = 0;
                let mut any = false;
                loop {
                    match l.next() {
                        Tok::P(b'(') | Tok::P(b'{') | Tok::P(b'[') | Tok::P(b'<') => {
                            depth += 1;
                            any = true;
                        }
                        Tok::P(b')') | Tok::P(b'}') | Tok::P(b']') | Tok::P(b'>') => {
                            depth -= 1;
                            if depth == 0 {
                                if any {
                                    params.push(last_local.take().unwrap_or_else(|| npar.to_string()));
                                }
                                break;
                            }
                        }
                        Tok::P(b',') if depth == 1 => {
                            params.push(last_local.take().unwrap_or_else(|| npar.to_string()));
                            npar += 1;
                        }
                        Tok::Local(x) if depth == 1 => {
                            last_local = Some(x.to_string());
                            any = true;
                        }
                        Tok::Eof => return Err("eof in params".into()),
                        _ => any = true,
                    }
                }
                let mut body = None;
                let mut endpos = eol;
                if def {
                    // body starts after the first '{' at end of a line
                    let mut j = l.i;
                    while !(src[j] == b'{' && src[j + 1] == b'\n') {
                        j += 1;
                    }
                    let st = j + 2;
                    // ends with a line consisting of '}'
                    let mut k = st;
                    loop {
                        if src[k] == b'}' {
                            break;
                        }
                        while src[k] != b'\n' {
                            k += 1;
                        }
                        k += 1;
                    }
                    body = Some((st, k));
                    endpos = k + 1;
                }
                let id = m.funcs.len() as u32;
                m.fidx.insert(name.clone(), id);
                m.funcs.push(Func { name, params, body, code: OnceLock::new(), intr: OnceLock::new(), ret_void });
                i = endpos + 1;
                continue;
            }
            i = eol + 1;
        }
        // globals (types are known now)
        for (_, st) in gl {
            let eol = src[st..].iter().position(|&b| b == b'\n').map(|p| st + p).unwrap_or(n);
            let mut l = Lex::new(&src, st, eol);
            let name = match l.next() {
                Tok::Global(g) => g.to_string(),
                _ => continue,
            };
            l.expect(b'=')?;
            let mut external = false;
            let mut constant = false;
            let mut alias = false;
            let mut tl = false;
            loop {
                match l.next() {
                    Tok::Word("external") | Tok::Word("extern_weak") => external = true,
                    Tok::Word("global") => break,
                    Tok::Word("constant") => {
                        constant = true;
                        break;
                    }
                    Tok::Word("alias") | Tok::Word("ifunc") => {
                        alias = true;
                        break;
                    }
                    x @ (Tok::Word("thread_local") | Tok::Word("addrspace")) => {
                        tl |= x == Tok::Word("thread_local");
                        if l.peek() == Tok::P(b'(') {
                            l.skip_balanced();
                        }
                    }
                    Tok::Eof => return Err(format!("global {}", name)),
                    _ => {}
                }
            }
            if alias {
                m.ty(&mut l)?;
                l.expect(b',')?;
                m.ty(&mut l)?;
                if let Tok::Global(t) = l.next() {
                    m.aliases.insert(name, t.to_string());
                }
                continue;
            }
            let ty = m.ty(&mut l)?;
            let (size, mut align) = m.size_align(&ty);
            let init = if external { None } else { Some((l.i, eol)) };
            if let Some(p) = find(&src[st..eol], b", align ") {
                let q = &src[st + p + 8..eol];
                let e = q.iter().position(|b| !b.is_ascii_digit()).unwrap_or(q.len());
                align = std::str::from_utf8(&q[..e]).unwrap().parse().unwrap_or(align);
            }
            let id = m.globals.len() as u32;
            m.gidx.insert(name.clone(), id);
            if tl {
                m.tls.push(id as usize);
            }
            m.globals.push(Global { name, ty, init, constant, size, align });
        }
        m.src = src;
        Ok(m)
    }
    pub fn global_bytes(&self, g: &Global) -> Result<Vec<u8>, String> {
        let mut out = vec![0u8; g.size as usize];
        if let Some((s, e)) = g.init {
            let mut l = Lex::new(&self.src, s, e);
            let v = self.constant(&mut l, &g.ty).map_err(|e| format!("global {}: {}", g.name, e))?;
            self.emit(&v, &g.ty, &mut out, 0);
        }
        Ok(out)
    }
    fn emit(&self, v: &CV, t: &Ty, out: &mut [u8], off: usize) {
        match (v, self.resolve(t)) {
            (CV::I(x), rt) => {
                let n = (self.scalar_bits(rt) as usize).div_ceil(8);
                for i in 0..n {
                    out[off + i] = (x >> (8 * i)) as u8;
                }
            }
            (CV::Agg(vs), Ty::Array(_, e)) => {
                let s = self.size_align(e).0 as usize;
                for (i, x) in vs.iter().enumerate() {
                    self.emit(x, e, out, off + i * s);
                }
            }
            (CV::Agg(vs), Ty::Struct(..)) => {
                for (i, x) in vs.iter().enumerate() {
                    let (o, f) = self.offset_of(t, i);
                    self.emit(x, &f, out, off + o as usize);
                }
            }
            (CV::Agg(vs), Ty::Vector(_, e)) => {
                let s = self.size_align(e).0 as usize;
                for (i, x) in vs.iter().enumerate() {
                    self.emit(x, e, out, off + i * s);
                }
            }
            _ => {}
        }
    }
    pub fn code(&self, f: u32) -> Result<Arc<Code>, String> {
        let fun = &self.funcs[f as usize];
        if let Some(c) = fun.code.get() {
            return Ok(c.clone());
        }
        let c = Lower::new(self, fun).run().map_err(|e| format!("in {}: {}", fun.name, e))?;
        let c = Arc::new(c);
        let _ = fun.code.set(c.clone());
        Ok(fun.code.get().unwrap().clone())
    }
}
fn find(h: &[u8], n: &[u8]) -> Option<usize> {
    h.windows(n.len()).position(|w| w == n)
}

// ------------------------------------------------------------------ lowering
struct Lower<'m> {
    m: &'m Module,
    f: &'m Func,
    regs: HashMap<&'m str, u32>,
    labels: HashMap<&'m str, u32>,
}

enum PTerm<'m> {
    Br(&'m str),
    Cond(Opd, &'m str, &'m str),
    Switch(Opd, u32, &'m str, Vec<(u128, &'m str)>),
    Invoke(Inst, &'m str, &'m str),
    Other(Inst),
}
struct PBlock<'m> {
    phis: Vec<(u32, Vec<(Opd, &'m str)>)>,
    insts: Vec<Inst>,
    term: Option<PTerm<'m>>,
    label: &'m str,
}

impl<'m> Lower<'m> {
    fn new(m: &'m Module, f: &'m Func) -> Self {
        Lower { m, f, regs: HashMap::new(), labels: HashMap::new() }
    }
    fn reg(&mut self, n: &'m str) -> u32 {
        let k = self.regs.len() as u32;
        *self.regs.entry(n).or_insert(k)
    }
    fn opd(&mut self, l: &mut Lex<'m>, t: &Ty) -> Result<Opd, String> {
        if let Tok::Local(n) = l.peek() {
            l.next();
            return Ok(Opd::R(self.reg(n)));
        }
        Ok(match self.m.constant(l, t)? {
            CV::I(v) => Opd::I(v),
            CV::Agg(a) => Opd::Agg(a),
        })
    }
    fn tyopd(&mut self, l: &mut Lex<'m>) -> Result<(Ty, Opd), String> {
        let t = self.m.ty(l)?;
        let o = self.opd(l, &t)?;
        Ok((t, o))
    }
    fn label(&mut self, l: &mut Lex<'m>) -> Result<&'m str, String> {
        if !l.eatw("label") {
            return Err("label expected".into());
        }
        match l.next() {
            Tok::Local(n) => Ok(n),
            t => Err(format!("label name {:?}", t)),
        }
    }

    fn run(mut self) -> Result<Code, String> {
        let m = self.m;
        let f = self.f;
        let (s, e) = f.body.ok_or("no body")?;
        for p in f.params.iter() {
            self.reg(p.as_str());
        }
        let mut blocks: Vec<PBlock<'m>> = vec![];
        // entry label: either explicit ("start:") or implicit number
        let mut l = Lex::new(&m.src, s, e);
        let mut first = true;
        loop {
            l.ws();
            if l.i >= e {
                break;
            }
            // label?
            let save = l.i;
            let isl = {
                let nm = if m.src[l.i] == b'"' || idc(m.src[l.i]) { Some(l.name()) } else { None };
                match nm {
                    Some(n) if l.i < e && m.src[l.i] == b':' => {
                        l.i += 1;
                        Some(n)
                    }
                    _ => None,
                }
            };
            if let Some(n) = isl {
                blocks.push(PBlock { phis: vec![], insts: vec![], term: None, label: n });
                first = false;
                continue;
            }
            l.i = save;
            if first {
                blocks.push(PBlock { phis: vec![], insts: vec![], term: None, label: "" });
                first = false;
            }
            let st = l.i;
            if let Err(er) = self.inst(&mut l, blocks.last_mut().unwrap()) {
                let line = &m.src[st..];
                let eol = line.iter().position(|&b| b == b'\n').unwrap_or(line.len());
                let txt = String::from_utf8_lossy(&line[..eol]).trim().to_string();
                // an instruction we cannot lower becomes a trap reported only when reached
                l.i = st;
                self.skip_inst(&mut l, e);
                // define destination register if any
                let mut l2 = Lex::new(&m.src, st, e);
                if let Tok::Local(n) = l2.next() {
                    self.reg(n);
                }
                let i = Inst::Unsupported(format!("{} [{}]", txt, er));
                let b = blocks.last_mut().unwrap();
                let w = txt.split_whitespace().next().unwrap_or("");
                if matches!(w, "br" | "switch" | "ret" | "invoke" | "resume" | "unreachable") || txt.contains("= invoke") {
                    b.term = Some(PTerm::Other(i));
                } else {
                    b.insts.push(i);
                }
            }
            // trailing metadata / attachments
            loop {
                if l.at_eol() {
                    break;
                }
                match l.peek() {
                    Tok::P(b',') => {
                        l.skip_line();
                        break;
                    }
                    Tok::Eof => break,
                    _ => {
                        l.skip_line();
                        break;
                    }
                }
            }
        }
        for (i, b) in blocks.iter().enumerate() {
            self.labels.insert(b.label, i as u32);
        }
        // implicit entry label: number after params; phi uses of it are resolved as block 0
        let mut out = vec![];
        let phis: Vec<Vec<(u32, Vec<(Opd, &str)>)>> = blocks.iter().map(|b| b.phis.clone()).collect();
        let labels = self.labels.clone();
        let nlab: Vec<&str> = blocks.iter().map(|b| b.label).collect();
        let edge = |from: usize, to: &str| -> Result<Edge, String> {
            let t = *labels.get(to).ok_or_else(|| format!("label {}", to))?;
            let mut copies = vec![];
            for (d, ins) in &phis[t as usize] {
                let mut got = false;
                for (o, lb) in ins {
                    let is = *lb == nlab[from] || (from == 0 && nlab[0].is_empty() && !labels.contains_key(lb));
                    if is {
                        copies.push((*d, o.clone()));
                        got = true;
                        break;
                    }
                }
                if !got {
                    return Err(format!("phi without edge {} -> {}", nlab[from], to));
                }
            }
            Ok(Edge { to: t, copies })
        };
        let mut ninst = 0;
        for (bi, b) in blocks.into_iter().enumerate() {
            let mut insts = b.insts;
            match b.term.ok_or_else(|| format!("block {} without terminator", b.label))? {
                PTerm::Br(t) => insts.push(Inst::Br(edge(bi, t)?)),
                PTerm::Cond(c, t, f) => {
                    insts.push(Inst::CondBr { c, t: edge(bi, t)?, f: edge(bi, f)? });
                }
                PTerm::Switch(v, w, d, cs) => {
                    let mut cases = vec![];
                    for (k, t) in cs {
                        cases.push((k, edge(bi, t)?));
                    }
                    insts.push(Inst::Switch { v, w, def: edge(bi, d)?, cases });
                }
                PTerm::Invoke(i, n, u) => {
                    let e = (edge(bi, n)?, edge(bi, u)?);
                    if let Inst::Call { d, f, args, retlay, argtys, .. } = i {
                        insts.push(Inst::Call { d, f, args, retlay, argtys, inv: Some(Box::new(e)) });
                    }
                }
                PTerm::Other(i) => insts.push(i),
            }
            ninst += insts.len();
            out.push(Block { insts });
        }
        Ok(Code { nregs: self.regs.len() as u32, blocks: out, ninst })
    }

    fn skip_inst(&self, l: &mut Lex<'m>, e: usize) {
        // skip to end of instruction: end of line, except multi-line switch / landingpad / invoke
        loop {
            l.skip_line();
            let mut j = l.i;
            while j < e && (m_ws(l.s[j])) {
                j += 1;
            }
            if j >= e {
                return;
            }
            let rest = &l.s[j..e.min(j + 12)];
            if rest.starts_with(b"to label") || rest.starts_with(b"catch ") || rest.starts_with(b"cleanup") || rest.starts_with(b"filter ") || rest.starts_with(b"]") {
                l.i = j;
                continue;
            }
            // switch case lines: "i64 5, label"
            let ls = &l.s[j..e];
            let eol = ls.iter().position(|&b| b == b'\n').unwrap_or(ls.len());
            let line = &ls[..eol];
            if line.starts_with(b"i") && find(line, b", label %").is_some() && find(line, b"=").is_none() && !line.starts_with(b"invoke") {
                l.i = j;
                continue;
            }
            return;
        }
    }

    fn inst(&mut self, l: &mut Lex<'m>, b: &mut PBlock<'m>) -> Result<(), String> {
        let m = self.m;
        let mut dst: Option<u32> = None;
        let mut t = l.next();
        if let Tok::Local(n) = t {
            dst = Some(self.reg(n));
            l.expect(b'=')?;
            t = l.next();
        }
        let w = match t {
            Tok::Word(w) => w,
            t => return Err(format!("instruction {:?}", t)),
        };
        let d = dst.unwrap_or(u32::MAX);
        let vecty = |t: &Ty| matches!(m.resolve(t), Ty::Vector(..));
        let ebits = |t: &Ty| match m.resolve(t) {
            Ty::Vector(_, e) => m.scalar_bits(e),
            x => m.scalar_bits(x),
        };
        match w {
            "add" | "sub" | "mul" | "udiv" | "sdiv" | "urem" | "srem" | "shl" | "lshr" | "ashr" | "and" | "or" | "xor" | "fadd" | "fsub" | "fmul" | "fdiv" | "frem" => {
                let op = match w {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    "mul" => BinOp::Mul,
                    "udiv" => BinOp::UDiv,
                    "sdiv" => BinOp::SDiv,
                    "urem" => BinOp::URem,
                    "srem" => BinOp::SRem,
                    "shl" => BinOp::Shl,
                    "lshr" => BinOp::LShr,
                    "ashr" => BinOp::AShr,
                    "and" => BinOp::And,
                    "or" => BinOp::Or,
                    "xor" => BinOp::Xor,
                    "fadd" => BinOp::FAdd,
                    "fsub" => BinOp::FSub,
                    "fmul" => BinOp::FMul,
                    "fdiv" => BinOp::FDiv,
                    _ => BinOp::FRem,
                };
                while !is_type_start(&l.peek()) {
                    l.next();
                }
                let (t, a) = self.tyopd(l)?;
                l.expect(b',')?;
                let bb = self.opd(l, &t)?;
                let wd = ebits(&t);
                b.insts.push(if vecty(&t) { Inst::VBin { op, w: wd, d, a, b: bb } } else { Inst::Bin { op, w: wd, d, a, b: bb } });
            }
            "icmp" => {
                let mut p = l.next();
                if p == Tok::Word("samesign") {
                    p = l.next();
                }
                let p = match p {
                    Tok::Word("eq") => Pred::Eq,
                    Tok::Word("ne") => Pred::Ne,
                    Tok::Word("ugt") => Pred::Ugt,
                    Tok::Word("uge") => Pred::Uge,
                    Tok::Word("ult") => Pred::Ult,
                    Tok::Word("ule") => Pred::Ule,
                    Tok::Word("sgt") => Pred::Sgt,
                    Tok::Word("sge") => Pred::Sge,
                    Tok::Word("slt") => Pred::Slt,
                    Tok::Word("sle") => Pred::Sle,
                    t => return Err(format!("icmp {:?}", t)),
                };
                let (t, a) = self.tyopd(l)?;
                l.expect(b',')?;
                let bb = self.opd(l, &t)?;
                let wd = ebits(&t);
                b.insts.push(if vecty(&t) { Inst::VICmp { p, w: wd, d, a, b: bb } } else { Inst::ICmp { p, w: wd, d, a, b: bb } });
            }
            "fcmp" => {
                let mut p = String::new();
                while !is_type_start(&l.peek()) {
                    if let Tok::Word(x) = l.next() {
                        p = x.to_string();
                    }
                }
                let (t, a) = self.tyopd(l)?;
                l.expect(b',')?;
                let bb = self.opd(l, &t)?;
                b.insts.push(Inst::FCmp { p, w: ebits(&t), d, a, b: bb });
            }
            "fneg" => {
                while !is_type_start(&l.peek()) {
                    l.next();
                }
                let (t, a) = self.tyopd(l)?;
                b.insts.push(Inst::FNeg { d, a, w: ebits(&t) });
            }
            "select" => {
                while !is_type_start(&l.peek()) {
                    l.next();
                }
                let (ct, c) = self.tyopd(l)?;
                l.expect(b',')?;
                let (t, a) = self.tyopd(l)?;
                l.expect(b',')?;
                let (_, bb) = self.tyopd(l)?;
                let wd = match m.resolve(&t) {
                    Ty::Int(_) | Ty::Ptr | Ty::Float(_) => Some(m.scalar_bits(&t)),
                    _ => None,
                };
                b.insts.push(Inst::Select { d, c, a, b: bb, w: wd, vec: vecty(&ct) });
            }
            "load" => {
                while !is_type_start(&l.peek()) {
                    l.next();
                }
                let t = m.ty(l)?;
                l.expect(b',')?;
                let (_, p) = self.tyopd(l)?;
                b.insts.push(Inst::Load { d, p, lay: m.lay(&t) });
            }
            "store" => {
                while !is_type_start(&l.peek()) {
                    l.next();
                }
                let (t, v) = self.tyopd(l)?;
                l.expect(b',')?;
                let (_, p) = self.tyopd(l)?;
                b.insts.push(Inst::Store { v, p, lay: m.lay(&t) });
            }
            "alloca" => {
                l.eatw("inalloca");
                let t = m.ty(l)?;
                let (size, mut align) = m.size_align(&t);
                let mut n = Opd::I(1);
                while l.eat(b',') {
                    if l.eatw("align") {
                        align = m.uint(l)?;
                    } else if let Tok::Meta(_) = l.peek() {
                        break;
                    } else {
                        n = self.tyopd(l)?.1;
                    }
                }
                b.insts.push(Inst::Alloca { d, size, n, align });
            }
            "getelementptr" => {
                while let Tok::Word(x) = l.peek() {
                    if matches!(x, "inbounds" | "nuw" | "nusw") {
                        l.next();
                    } else if x == "inrange" {
                        l.next();
                        l.skip_balanced();
                    } else {
                        break;
                    }
                }
                let bt = m.ty(l)?;
                l.expect(b',')?;
                let (pt, base) = self.tyopd(l)?;
                if vecty(&pt) {
                    return Err("vector gep".into());
                }
                let mut off: i64 = 0;
                let mut idx = vec![];
                let mut cur = bt;
                let mut first = true;
                loop {
                    let save = l.i;
                    if !l.eat(b',') {
                        break;
                    }
                    if let Tok::Meta(_) = l.peek() {
                        l.i = save;
                        break;
                    }
                    let (it, o) = self.tyopd(l)?;
                    let iw = m.scalar_bits(&it);
                    let scale: i64;
                    if first {
                        scale = m.size_align(&cur).0 as i64;
                        first = false;
                    } else {
                        match m.resolve(&cur).clone() {
                            Ty::Struct(..) => {
                                let Opd::I(k) = o else { return Err("gep struct index".into()) };
                                let (fo, f) = m.offset_of(&cur, k as usize);
                                off += fo as i64;
                                cur = f;
                                continue;
                            }
                            Ty::Array(_, e) | Ty::Vector(_, e) => {
                                scale = m.size_align(&e).0 as i64;
                                cur = (*e).clone();
                            }
                            _ => return Err("gep".into()),
                        }
                    }
                    match o {
                        Opd::I(k) => off = off.wrapping_add((crate::expr::sext(k, iw) as i64).wrapping_mul(scale)),
                        o => idx.push((o, iw, scale)),
                    }
                }
                b.insts.push(Inst::Gep { d, base, off, idx });
            }
            "trunc" | "zext" | "sext" | "ptrtoint" | "inttoptr" | "ptrtoaddr" | "bitcast" | "addrspacecast" | "fptrunc" | "fpext" | "fptoui" | "fptosi" | "uitofp" | "sitofp" => {
                while !is_type_start(&l.peek()) {
                    l.next();
                }
                let (ft, a) = self.tyopd(l)?;
                if !l.eatw("to") {
                    return Err("cast".into());
                }
                let tt = m.ty(l)?;
                let (fw, tw) = (ebits(&ft), ebits(&tt));
                let i = match w {
                    "trunc" | "zext" | "sext" if vecty(&ft) => Inst::VCast { d, a, kind: w.as_bytes()[0], from: fw, to: tw },
                    "trunc" => Inst::Trunc { d, a, to: tw },
                    "zext" => Inst::ZExt { d, a, from: fw, to: tw },
                    "sext" => Inst::SExt { d, a, from: fw, to: tw },
                    "ptrtoint" | "inttoptr" | "ptrtoaddr" => {
                        if vecty(&ft) {
                            return Err("vector ptr cast".into());
                        }
                        if tw < fw {
                            Inst::Trunc { d, a, to: tw }
                        } else if tw > fw {
                            Inst::ZExt { d, a, from: fw, to: tw }
                        } else {
                            Inst::Mov { d, a }
                        }
                    }
                    "bitcast" | "addrspacecast" => match (m.resolve(&ft), m.resolve(&tt)) {
                        (Ty::Vector(n, e), Ty::Vector(n2, e2)) => Inst::BitcastVV { d, a, n: *n, ew: m.scalar_bits(e), n2: *n2, ew2: m.scalar_bits(e2) },
                        (Ty::Vector(n, e), _) => Inst::BitcastVI { d, a, n: *n, ew: m.scalar_bits(e) },
                        (_, Ty::Vector(n, e)) => Inst::BitcastIV { d, a, n: *n, ew: m.scalar_bits(e) },
                        _ => Inst::Mov { d, a },
                    },
                    k => {
                        if vecty(&ft) {
                            return Err("vector fp cast".into());
                        }
                        let kind: &'static str = match k {
                            "fptrunc" => "fptrunc",
                            "fpext" => "fpext",
                            "fptoui" => "fptoui",
                            "fptosi" => "fptosi",
                            "uitofp" => "uitofp",
                            _ => "sitofp",
                        };
                        Inst::FConv { d, a, kind, from: fw, to: tw }
                    }
                };
                b.insts.push(i);
            }
            "freeze" => {
                let (_, a) = self.tyopd(l)?;
                b.insts.push(Inst::Mov { d, a });
            }
            "extractvalue" => {
                let (_, a) = self.tyopd(l)?;
                let mut path = vec![];
                while l.eat(b',') {
                    if let Tok::Meta(_) = l.peek() {
                        break;
                    }
                    path.push(m.uint(l)? as u32);
                }
                b.insts.push(Inst::ExtractValue { d, a, path });
            }
            "insertvalue" => {
                let (t, a) = self.tyopd(l)?;
                l.expect(b',')?;
                let (_, v) = self.tyopd(l)?;
                let mut path = vec![];
                while l.eat(b',') {
                    if let Tok::Meta(_) = l.peek() {
                        break;
                    }
                    path.push(m.uint(l)? as u32);
                }
                b.insts.push(Inst::InsertValue { d, a, v, path, lay: m.lay(&t) });
            }
            "extractelement" => {
                let (_, a) = self.tyopd(l)?;
                l.expect(b',')?;
                let (_, i) = self.tyopd(l)?;
                b.insts.push(Inst::ExtractElt { d, a, i });
            }
            "insertelement" => {
                let (t, a) = self.tyopd(l)?;
                l.expect(b',')?;
                let (_, v) = self.tyopd(l)?;
                l.expect(b',')?;
                let (_, i) = self.tyopd(l)?;
                let n = match m.resolve(&t) {
                    Ty::Vector(n, _) => *n,
                    _ => return Err("insertelement".into()),
                };
                b.insts.push(Inst::InsertElt { d, a, v, i, n });
            }
            "shufflevector" => {
                let (t, a) = self.tyopd(l)?;
                l.expect(b',')?;
                let (_, b2) = self.tyopd(l)?;
                l.expect(b',')?;
                let (_, mk) = self.tyopd(l)?;
                let n = match m.resolve(&t) {
                    Ty::Vector(n, _) => *n,
                    _ => return Err("shuffle".into()),
                };
                let mask = match mk {
                    Opd::Agg(v) => v.iter().map(|c| match c { CV::I(x) => *x as i64, _ => 0 }).collect(),
                    _ => return Err("shuffle mask".into()),
                };
                b.insts.push(Inst::Shuffle { d, a, b: b2, n, mask });
            }
            "cmpxchg" => {
                while !is_type_start(&l.peek()) {
                    l.next();
                }
                let (_, p) = self.tyopd(l)?;
                l.expect(b',')?;
                let (t, cmp) = self.tyopd(l)?;
                l.expect(b',')?;
                let (_, new) = self.tyopd(l)?;
                b.insts.push(Inst::CmpXchg { d, p, cmp, new, w: m.scalar_bits(&t) });
            }
            "atomicrmw" => {
                l.eatw("volatile");
                let op = match l.next() {
                    Tok::Word("xchg") => BinOp::Xchg,
                    Tok::Word("add") => BinOp::Add,
                    Tok::Word("sub") => BinOp::Sub,
                    Tok::Word("and") => BinOp::And,
                    Tok::Word("nand") => BinOp::Nand,
                    Tok::Word("or") => BinOp::Or,
                    Tok::Word("xor") => BinOp::Xor,
                    Tok::Word("max") => BinOp::Max,
                    Tok::Word("min") => BinOp::Min,
                    Tok::Word("umax") => BinOp::UMax,
                    Tok::Word("umin") => BinOp::UMin,
                    t => return Err(format!("atomicrmw {:?}", t)),
                };
                let (_, p) = self.tyopd(l)?;
                l.expect(b',')?;
                let (t, v) = self.tyopd(l)?;
                b.insts.push(Inst::AtomicRmw { d, op, p, v, w: m.scalar_bits(&t) });
            }
            "fence" => b.insts.push(Inst::Fence),
            "phi" => {
                while !is_type_start(&l.peek()) {
                    l.next();
                }
                let t = m.ty(l)?;
                let mut ins = vec![];
                loop {
                    l.expect(b'[')?;
                    let o = self.opd(l, &t)?;
                    l.expect(b',')?;
                    let n = match l.next() {
                        Tok::Local(n) => n,
                        t => return Err(format!("phi {:?}", t)),
                    };
                    l.expect(b']')?;
                    ins.push((o, n));
                    let save = l.i;
                    if l.eat(b',') {
                        if let Tok::Meta(_) = l.peek() {
                            l.i = save;
                            break;
                        }
                        continue;
                    }
                    break;
                }
                b.phis.push((d, ins));
            }
            "br" => {
                if l.peek() == Tok::Word("label") {
                    let t = self.label(l)?;
                    b.term = Some(PTerm::Br(t));
                } else {
                    let (_, c) = self.tyopd(l)?;
                    l.expect(b',')?;
                    let t = self.label(l)?;
                    l.expect(b',')?;
                    let f = self.label(l)?;
                    b.term = Some(PTerm::Cond(c, t, f));
                }
            }
            "switch" => {
                let (t, v) = self.tyopd(l)?;
                l.expect(b',')?;
                let def = self.label(l)?;
                l.expect(b'[')?;
                let mut cs = vec![];
                while !l.eat(b']') {
                    let ct = m.ty(l)?;
                    let k = m.cint(l, &ct)?;
                    l.expect(b',')?;
                    let lb = self.label(l)?;
                    cs.push((k, lb));
                }
                b.term = Some(PTerm::Switch(v, m.scalar_bits(&t), def, cs));
            }
            "ret" => {
                let t = m.ty(l)?;
                if t == Ty::Void {
                    b.term = Some(PTerm::Other(Inst::Ret(None)));
                } else {
                    let o = self.opd(l, &t)?;
                    b.term = Some(PTerm::Other(Inst::Ret(Some(o))));
                }
            }
            "resume" => {
                let (_, o) = self.tyopd(l)?;
                b.term = Some(PTerm::Other(Inst::Resume(o)));
            }
            "unreachable" => b.term = Some(PTerm::Other(Inst::Unreachable)),
            "landingpad" => {
                m.ty(l)?;
                loop {
                    match l.peek() {
                        Tok::Word("cleanup") => {
                            l.next();
                        }
                        Tok::Word("catch") | Tok::Word("filter") => {
                            l.next();
                            let t = m.ty(l)?;
                            m.constant(l, &t)?;
                        }
                        _ => break,
                    }
                }
                b.insts.push(Inst::Landing { d });
            }
            "tail" | "musttail" | "notail" | "call" | "invoke" => {
                if w != "call" && w != "invoke" {
                    if !l.eatw("call") {
                        return Err("call".into());
                    }
                }
                // cc, return attributes
                loop {
                    let p = l.peek();
                    if is_type_start(&p) {
                        break;
                    }
                    l.next();
                    if l.peek() == Tok::P(b'(') {
                        l.skip_balanced();
                    } else if matches!(p, Tok::Word("align")) || matches!(p, Tok::Word("cc")) {
                        l.next();
                    }
                }
                let rt = m.ty(l)?;
                if l.peek() == Tok::P(b'(') {
                    l.skip_balanced(); // explicit function type
                }
                let callee = match l.next() {
                    Tok::Global(n) => {
                        let n2 = m.aliases.get(n).map(|s| s.as_str()).unwrap_or(n);
                        Callee::Func(*m.fidx.get(n2).ok_or_else(|| format!("callee {}", n))?)
                    }
                    Tok::Local(n) => Callee::Ind(Opd::R(self.reg(n))),
                    Tok::Word("asm") => {
                        // inline asm: barriers only
                        let mut empty = false;
                        let mut cpuid = false;
                        loop {
                            match l.next() {
                                Tok::Str(s) => {
                                    empty = s.is_empty();
                                    cpuid = s.contains("cpuid");
                                    break;
                                }
                                Tok::Word(_) => {}
                                _ => break,
                            }
                        }
                        if cpuid {
                            // a processor without optional features
                            if let CV::Agg(a) = m.zero(&rt) {
                                b.insts.push(Inst::Mov { d, a: Opd::Agg(a) });
                                l.skip_line();
                                return Ok(());
                            }
                        }
                        if !empty {
                            return Err("inline asm".into());
                        }
                        b.insts.push(Inst::Fence);
                        l.skip_line();
                        return Ok(());
                    }
                    t => return Err(format!("callee {:?}", t)),
                };
                l.expect(b'(')?;
                let mut args = vec![];
                let mut argtys = vec![];
                if !l.eat(b')') {
                    loop {
                        if l.peek() == Tok::Word("metadata") {
                            l.next();
                            // skip metadata operand
                            let mut depth = 0;
                            loop {
                                match l.peek() {
                                    Tok::P(b'(') => {
                                        depth += 1;
                                        l.next();
                                    }
                                    Tok::P(b')') if depth == 0 => break,
                                    Tok::P(b')') => {
                                        depth -= 1;
                                        l.next();
                                    }
                                    Tok::P(b',') if depth == 0 => break,
                                    Tok::Eof => return Err("eof".into()),
                                    _ => {
                                        l.next();
                                    }
                                }
                            }
                            args.push(Opd::I(0));
                            argtys.push(0);
                        } else {
                            let t = m.ty(l)?;
                            // parameter attributes
                            loop {
                                match l.peek() {
                                    Tok::Word(x) if !matches!(x, "true" | "false" | "null" | "undef" | "poison" | "zeroinitializer" | "splat" | "getelementptr" | "ptrtoint" | "inttoptr" | "bitcast" | "none" | "trunc" | "zext" | "sext" | "add" | "sub" | "mul" | "xor" | "shl" | "ptrtoaddr" | "addrspacecast") => {
                                        l.next();
                                        if l.peek() == Tok::P(b'(') {
                                            l.skip_balanced();
                                        } else if x == "align" {
                                            l.next();
                                        }
                                    }
                                    Tok::Str(_) => {
                                        l.next();
                                        if l.eat(b'=') {
                                            l.next();
                                        }
                                    }
                                    _ => break,
                                }
                            }
                            let o = self.opd(l, &t)?;
                            argtys.push(match m.resolve(&t) {
                                Ty::Vector(..) => 0,
                                _ => m.scalar_bits(&t),
                            });
                            args.push(o);
                        }
                        if l.eat(b',') {
                            continue;
                        }
                        l.expect(b')')?;
                        break;
                    }
                }
                let retlay = if rt == Ty::Void { None } else { Some(m.lay(&rt)) };
                let c = Inst::Call { d: dst, f: callee, args, retlay, inv: None, argtys };
                if w == "invoke" {
                    // attributes up to "to"
                    loop {
                        match l.next() {
                            Tok::Word("to") => break,
                            Tok::P(b'[') => {}
                            Tok::Eof => return Err("invoke".into()),
                            _ => {}
                        }
                    }
                    let n = self.label(l)?;
                    if !l.eatw("unwind") {
                        return Err("unwind".into());
                    }
                    let u = self.label(l)?;
                    b.term = Some(PTerm::Invoke(c, n, u));
                } else {
                    b.insts.push(c);
                }
            }
            _ => return Err(format!("unknown instruction {}", w)),
        }
        Ok(())
    }
}
fn m_ws(b: u8) -> bool {
    b.is_ascii_whitespace()
}
