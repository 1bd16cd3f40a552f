//! Hash-consed bit-vector expressions with local simplification.
use std::collections::HashMap;
use std::hash::{BuildHasherDefault, Hash, Hasher};
use std::rc::Rc;

#[derive(Default, Clone)]
pub struct FxHasher(u64);
impl Hasher for FxHasher {
    fn finish(&self) -> u64 {
        self.0
    }
    fn write(&mut self, bytes: &[u8]) {
        for b in bytes {
            self.write_u64(*b as u64);
        }
    }
    fn write_u8(&mut self, i: u8) {
        self.write_u64(i as u64)
    }
    fn write_u16(&mut self, i: u16) {
        self.write_u64(i as u64)
    }
    fn write_u32(&mut self, i: u32) {
        self.write_u64(i as u64)
    }
    fn write_u64(&mut self, i: u64) {
        self.0 = (self.0.rotate_left(5) ^ i).wrapping_mul(0x517cc1b727220a95);
    }
    fn write_u128(&mut self, i: u128) {
        self.write_u64(i as u64);
        self.write_u64((i >> 64) as u64);
    }
    fn write_usize(&mut self, i: usize) {
        self.write_u64(i as u64)
    }
}
pub type FxMap<K, V> = HashMap<K, V, BuildHasherDefault<FxHasher>>;

pub type Ex = u32;

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Op {
    Const,
    Var,
    Not,
    Add,
    Sub,
    Mul,
    UDiv,
    SDiv,
    URem,
    SRem,
    Shl,
    LShr,
    AShr,
    And,
    Or,
    Xor,
    Eq,
    Ult,
    Ule,
    Slt,
    Sle,
    Ite,
    Concat,
    Extract, // a = expr, k = low bit, w = width
    ZExt,
    SExt,
}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Node {
    pub op: Op,
    pub w: u16,
    pub a: Ex,
    pub b: Ex,
    pub c: Ex,
    pub k: u128, // constant value / var id / extract low
}

pub fn mask(w: u32) -> u128 {
    if w >= 128 {
        u128::MAX
    } else {
        (1u128 << w) - 1
    }
}
pub fn sext(v: u128, w: u32) -> i128 {
    if w >= 128 {
        v as i128
    } else {
        let s = 128 - w;
        ((v << s) as i128) >> s
    }
}

pub fn fold(op: Op, w: u32, a: u128, b: u128) -> u128 {
    let m = mask(w);
    match op {
        Op::Add => a.wrapping_add(b) & m,
        Op::Sub => a.wrapping_sub(b) & m,
        Op::Mul => a.wrapping_mul(b) & m,
        Op::UDiv => {
            if b == 0 {
                m
            } else {
                a / b
            }
        }
        Op::URem => {
            if b == 0 {
                a
            } else {
                a % b
            }
        }
        Op::SDiv => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                (if x < 0 { 1 } else { m }) & m
            } else {
                (x.wrapping_div(y)) as u128 & m
            }
        }
        Op::SRem => {
            let (x, y) = (sext(a, w), sext(b, w));
            if y == 0 {
                a
            } else {
                (x.wrapping_rem(y)) as u128 & m
            }
        }
        Op::Shl => {
            if b >= w as u128 {
                0
            } else {
                (a << b) & m
            }
        }
        Op::LShr => {
            if b >= w as u128 {
                0
            } else {
                a >> b
            }
        }
        Op::AShr => {
            let s = sext(a, w);
            let sh = if b >= w as u128 { w - 1 } else { b as u32 };
            (s >> sh.min(127)) as u128 & m
        }
        Op::And => a & b,
        Op::Or => a | b,
        Op::Xor => a ^ b,
        _ => unreachable!(),
    }
}
pub fn foldcmp(op: Op, w: u32, a: u128, b: u128) -> bool {
    match op {
        Op::Eq => a == b,
        Op::Ult => a < b,
        Op::Ule => a <= b,
        Op::Slt => sext(a, w) < sext(b, w),
        Op::Sle => sext(a, w) <= sext(b, w),
        _ => unreachable!(),
    }
}

pub struct Pool {
    pub nodes: Vec<Node>,
    map: FxMap<Node, Ex>,
    /// structural hash: the same expression is built the same way in every thread's pool
    hash: Vec<u64>,
    vars: Vec<Option<Rc<[u32]>>>,
    pub widths: Vec<u16>,
    ev: Vec<u128>,
    ev_ep: Vec<u32>,
    epoch: u32,
}

impl Pool {
    pub fn new() -> Self {
        let mut p = Pool { nodes: vec![], map: FxMap::default(), hash: vec![], vars: vec![], widths: vec![], ev: vec![], ev_ep: vec![], epoch: 0 };
        p.cst(0, 1);
        p.cst(1, 1);
        p
    }
    pub fn w(&self, e: Ex) -> u32 {
        self.nodes[e as usize].w as u32
    }
    fn mk(&mut self, n: Node) -> Ex {
        if let Some(&e) = self.map.get(&n) {
            return e;
        }
        let e = self.nodes.len() as Ex;
        let kid = |x: Ex| if x == 0 || (x as usize) >= self.hash.len() { 1 } else { self.hash[x as usize] };
        let mut h = (n.op as u64) << 32 | n.w as u64;
        for x in [kid(n.a), kid(n.b), kid(n.c), n.k as u64, (n.k >> 64) as u64] {
            h = (h ^ x).wrapping_mul(0x9e37_79b9_7f4a_7c15);
            h ^= h >> 29;
        }
        self.hash.push(h);
        self.nodes.push(n);
        self.vars.push(None);
        self.map.insert(n, e);
        e
    }
    pub fn cst(&mut self, v: u128, w: u32) -> Ex {
        self.mk(Node { op: Op::Const, w: w as u16, a: 0, b: 0, c: 0, k: v & mask(w) })
    }
    pub fn var_width(&self, id: u32) -> u32 {
        self.widths[id as usize] as u32
    }
    pub fn var(&mut self, id: u32, w: u32) -> Ex {
        // variable ids are interned per (sequence number, width): see exec::State::fresh
        while self.widths.len() <= id as usize {
            self.widths.push(0);
        }
        self.widths[id as usize] = w as u16;
        self.mk(Node { op: Op::Var, w: w as u16, a: 0, b: 0, c: 0, k: id as u128 })
    }
    pub fn is_const(&self, e: Ex) -> Option<u128> {
        let n = &self.nodes[e as usize];
        if n.op == Op::Const {
            Some(n.k)
        } else {
            None
        }
    }
    fn n(&self, e: Ex) -> Node {
        self.nodes[e as usize]
    }
    fn raw(&mut self, op: Op, w: u32, a: Ex, b: Ex, c: Ex, k: u128) -> Ex {
        self.mk(Node { op, w: w as u16, a, b, c, k })
    }
    pub fn not(&mut self, a: Ex) -> Ex {
        let n = self.n(a);
        let w = n.w as u32;
        match n.op {
            Op::Const => return self.cst(!n.k, w),
            Op::Not => return n.a,
            Op::Ult if w == 1 => return self.cmp(Op::Ule, n.b, n.a),
            Op::Ule if w == 1 => return self.cmp(Op::Ult, n.b, n.a),
            Op::Slt if w == 1 => return self.cmp(Op::Sle, n.b, n.a),
            Op::Sle if w == 1 => return self.cmp(Op::Slt, n.b, n.a),
            Op::Ite if w == 1 => {
                if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                    let b = self.not(n.b);
                    let c = self.not(n.c);
                    return self.ite(n.a, b, c);
                }
            }
            _ => {}
        }
        self.raw(Op::Not, w, a, 0, 0, 0)
    }
    pub fn and1(&mut self, a: Ex, b: Ex) -> Ex {
        self.bin(Op::And, a, b)
    }
    pub fn or1(&mut self, a: Ex, b: Ex) -> Ex {
        self.bin(Op::Or, a, b)
    }
    pub fn extract(&mut self, e: Ex, lo: u32, w: u32) -> Ex {
        let n = self.n(e);
        let ew = n.w as u32;
        debug_assert!(lo + w <= ew);
        if lo == 0 && w == ew {
            return e;
        }
        match n.op {
            Op::Const => return self.cst(n.k >> lo, w),
            Op::Extract => return self.extract(n.a, lo + n.k as u32, w),
            Op::Concat => {
                let lw = self.w(n.b);
                if lo + w <= lw {
                    return self.extract(n.b, lo, w);
                }
                if lo >= lw {
                    return self.extract(n.a, lo - lw, w);
                }
                let l = self.extract(n.b, lo, lw - lo);
                let h = self.extract(n.a, 0, w - (lw - lo));
                return self.concat(h, l);
            }
            Op::ZExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo >= iw {
                    return self.cst(0, w);
                }
                let l = self.extract(n.a, lo, iw - lo);
                return self.zext(l, w);
            }
            Op::SExt => {
                let iw = self.w(n.a);
                if lo + w <= iw {
                    return self.extract(n.a, lo, w);
                }
                if lo < iw {
                    let l = self.extract(n.a, lo, iw - lo);
                    return self.sext(l, w);
                }
            }
            Op::Ite => {
                if self.is_const(n.b).is_some() || self.is_const(n.c).is_some() {
                    let b = self.extract(n.b, lo, w);
                    let c = self.extract(n.c, lo, w);
                    return self.ite(n.a, b, c);
                }
            }
            Op::And | Op::Or | Op::Xor => {
                if self.is_const(n.b).is_some() || self.is_const(n.a).is_some() || w == 1 {
                    let a = self.extract(n.a, lo, w);
                    let b = self.extract(n.b, lo, w);
                    return self.bin(n.op, a, b);
                }
            }
            Op::Not => {
                let a = self.extract(n.a, lo, w);
                return self.not(a);
            }
            Op::Add | Op::Sub | Op::Mul if lo == 0 => {
                // low bits depend on low bits only
                let a = self.extract(n.a, 0, w);
                let b = self.extract(n.b, 0, w);
                return self.bin(n.op, a, b);
            }
            _ => {}
        }
        self.raw(Op::Extract, w, e, 0, 0, lo as u128)
    }
    pub fn concat(&mut self, h: Ex, l: Ex) -> Ex {
        let (nh, nl) = (self.n(h), self.n(l));
        let w = nh.w as u32 + nl.w as u32;
        debug_assert!(w <= 128, "concat too wide");
        if nh.op == Op::Const && nl.op == Op::Const {
            return self.cst((nh.k << nl.w) | nl.k, w);
        }
        if nh.op == Op::Const && nh.k == 0 {
            return self.zext(l, w);
        }
        // extract(e, m..) ++ extract(e, ..m)
        let (he, hlo, hw) = if nh.op == Op::Extract { (nh.a, nh.k as u32, nh.w as u32) } else { (h, 0, nh.w as u32) };
        let (le, llo, lw) = if nl.op == Op::Extract { (nl.a, nl.k as u32, nl.w as u32) } else { (l, 0, nl.w as u32) };
        if he == le && hlo == llo + lw {
            return self.extract(he, llo, hw + lw);
        }
        if nl.op == Op::Concat {
            // (h ++ a) ++ b when h,a fuse
            let na = self.n(nl.a);
            let (ae, alo, aw) = if na.op == Op::Extract { (na.a, na.k as u32, na.w as u32) } else { (nl.a, 0, na.w as u32) };
            if (he == ae && hlo == alo + aw) || (nh.op == Op::Const && na.op == Op::Const) {
                let f = self.concat(h, nl.a);
                return self.concat(f, nl.b);
            }
        }
        if nh.op == Op::ZExt {
            let hi = nh.w as u32 - self.w(nh.a);
            let _ = hi;
            let inner = self.concat(nh.a, l);
            return self.zext(inner, w);
        }
        self.raw(Op::Concat, w, h, l, 0, 0)
    }
    pub fn zext(&mut self, e: Ex, w: u32) -> Ex {
        let n = self.n(e);
        let ew = n.w as u32;
        if ew == w {
            return e;
        }
        match n.op {
            Op::Const => return self.cst(n.k, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => {
                if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
                    let b = self.zext(n.b, w);
                    let c = self.zext(n.c, w);
                    return self.ite(n.a, b, c);
                }
            }
            _ => {}
        }
        self.raw(Op::ZExt, w, e, 0, 0, 0)
    }
    pub fn sext(&mut self, e: Ex, w: u32) -> Ex {
        let n = self.n(e);
        let ew = n.w as u32;
        if ew == w {
            return e;
        }
        match n.op {
            Op::Const => return self.cst(sext(n.k, ew) as u128, w),
            Op::SExt => return self.sext(n.a, w),
            Op::ZExt => return self.zext(n.a, w),
            Op::Ite => {
                if self.is_const(n.b).is_some() && self.is_const(n.c).is_some() {
                    let b = self.sext(n.b, w);
                    let c = self.sext(n.c, w);
                    return self.ite(n.a, b, c);
                }
            }
            _ => {}
        }
        self.raw(Op::SExt, w, e, 0, 0, 0)
    }
    pub fn ite(&mut self, c: Ex, a: Ex, b: Ex) -> Ex {
        if let Some(k) = self.is_const(c) {
            return if k != 0 { a } else { b };
        }
        if a == b {
            return a;
        }
        let nc = self.n(c);
        if nc.op == Op::Not {
            return self.ite(nc.a, b, a);
        }
        let w = self.w(a);
        if w == 1 {
            match (self.is_const(a), self.is_const(b)) {
                (Some(1), Some(0)) => return c,
                (Some(0), Some(1)) => return self.not(c),
                (Some(1), None) => return self.or1(c, b),
                (Some(0), None) => {
                    let n = self.not(c);
                    return self.and1(n, b);
                }
                (None, Some(0)) => return self.and1(c, a),
                (None, Some(1)) => {
                    let n = self.not(c);
                    return self.or1(n, a);
                }
                _ => {}
            }
        }
        let na = self.n(a);
        if na.op == Op::Ite && na.a == c {
            return self.ite(c, na.b, b);
        }
        let nb = self.n(b);
        if nb.op == Op::Ite && nb.a == c {
            return self.ite(c, a, nb.c);
        }
        self.raw(Op::Ite, w, c, a, b, 0)
    }
    fn low_zero_bits(&self, e: Ex) -> u32 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => {
                if n.k == 0 {
                    n.w as u32
                } else {
                    n.k.trailing_zeros()
                }
            }
            Op::Concat => {
                let l = self.low_zero_bits(n.b);
                if l == self.w(n.b) {
                    l + self.low_zero_bits(n.a)
                } else {
                    l
                }
            }
            Op::ZExt => {
                let l = self.low_zero_bits(n.a);
                if l == self.w(n.a) {
                    n.w as u32
                } else {
                    l
                }
            }
            _ => 0,
        }
    }
    /// number of significant low bits (upper bits known zero)
    fn sig_bits(&self, e: Ex) -> u32 {
        let n = &self.nodes[e as usize];
        match n.op {
            Op::Const => 128 - n.k.leading_zeros(),
            Op::ZExt => self.sig_bits(n.a),
            Op::Concat => {
                let h = self.sig_bits(n.a);
                if h == 0 {
                    self.sig_bits(n.b)
                } else {
                    h + self.w(n.b)
                }
            }
            Op::And => self.sig_bits(n.a).min(self.sig_bits(n.b)),
            Op::Or | Op::Xor => self.sig_bits(n.a).max(self.sig_bits(n.b)),
            Op::Ite => self.sig_bits(n.b).max(self.sig_bits(n.c)),
            Op::URem => self.sig_bits(n.b).min(self.sig_bits(n.a)),
            Op::UDiv => self.sig_bits(n.a),
            _ => n.w as u32,
        }
    }
    pub fn bin(&mut self, op: Op, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (mut ca, mut cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(fold(op, w, x, y), w);
        }
        // commutative: constant to the right, else ordered
        if matches!(op, Op::Add | Op::Mul | Op::And | Op::Or | Op::Xor) {
            if ca.is_some() || (cb.is_none() && self.hash[a as usize] > self.hash[b as usize]) {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut ca, &mut cb);
            }
        }
        let m = mask(w);
        let na = self.n(a);
        match op {
            Op::Add => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if na.op == Op::Add {
                        if let Some(k2) = self.is_const(na.b) {
                            let c = self.cst(k.wrapping_add(k2), w);
                            return self.bin(Op::Add, na.a, c);
                        }
                    }
                    if w == 1 {
                        return self.not(a);
                    }
                }
            }
            Op::Sub => {
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(k) = cb {
                    let c = self.cst(0u128.wrapping_sub(k), w);
                    return self.bin(Op::Add, a, c);
                }
                if na.op == Op::Add && na.a == b {
                    return na.b;
                }
                if na.op == Op::Add && na.b == b {
                    return na.a;
                }
            }
            Op::Mul => {
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::Shl, a, s);
                    }
                }
            }
            Op::UDiv => {
                if let Some(k) = cb {
                    if k == 1 {
                        return a;
                    }
                    if k.is_power_of_two() {
                        let s = self.cst(k.trailing_zeros() as u128, w);
                        return self.bin(Op::LShr, a, s);
                    }
                }
            }
            Op::URem => {
                if let Some(k) = cb {
                    if k.is_power_of_two() {
                        let s = self.cst(k - 1, w);
                        return self.bin(Op::And, a, s);
                    }
                }
            }
            Op::Shl => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(0, w);
                    }
                    let h = self.extract(a, 0, w - k as u32);
                    let z = self.cst(0, k as u32);
                    return self.concat(h, z);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::LShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k >= w as u128 {
                        return self.cst(0, w);
                    }
                    let h = self.extract(a, k as u32, w - k as u32);
                    return self.zext(h, w);
                }
                if ca == Some(0) {
                    return a;
                }
            }
            Op::AShr => {
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    let k = (k as u32).min(w - 1);
                    let h = self.extract(a, k, w - k);
                    return self.sext(h, w);
                }
            }
            Op::And => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return b;
                    }
                    if k == m {
                        return a;
                    }
                    if (k + 1).is_power_of_two() {
                        let t = self.extract(a, 0, k.count_ones());
                        return self.zext(t, w);
                    }
                    // contiguous mask
                    let tz = k.trailing_zeros();
                    if ((k >> tz) + 1).is_power_of_two() {
                        let t = self.extract(a, tz, (k >> tz).count_ones());
                        let z = self.cst(0, tz);
                        let c = self.concat(t, z);
                        return self.zext(c, w);
                    }
                    if na.op == Op::And {
                        if let Some(k2) = self.is_const(na.b) {
                            let c = self.cst(k & k2, w);
                            return self.bin(Op::And, na.a, c);
                        }
                    }
                }
                if w == 1 {
                    let nb = self.n(b);
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                        return self.cst(0, 1);
                    }
                }
            }
            Op::Or => {
                if a == b {
                    return a;
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return b;
                    }
                }
                if w == 1 {
                    let nb = self.n(b);
                    if (na.op == Op::Not && na.a == b) || (nb.op == Op::Not && nb.a == a) {
                        return self.cst(1, 1);
                    }
                } else {
                    // disjoint parts -> concat
                    for (x, y) in [(a, b), (b, a)] {
                        let lz = self.low_zero_bits(x);
                        let sb = self.sig_bits(y);
                        if lz > 0 && sb <= lz && lz < w {
                            let h = self.extract(x, lz, w - lz);
                            let l = self.extract(y, 0, lz);
                            return self.concat(h, l);
                        }
                    }
                }
            }
            Op::Xor => {
                if a == b {
                    return self.cst(0, w);
                }
                if let Some(k) = cb {
                    if k == 0 {
                        return a;
                    }
                    if k == m {
                        return self.not(a);
                    }
                    if na.op == Op::Xor {
                        if let Some(k2) = self.is_const(na.b) {
                            let c = self.cst(k ^ k2, w);
                            return self.bin(Op::Xor, na.a, c);
                        }
                    }
                }
            }
            _ => {}
        }
        // push constants through ite for cheap ops
        if let Some(_) = cb {
            if na.op == Op::Ite && self.is_const(na.b).is_some() && self.is_const(na.c).is_some() {
                let x = self.bin(op, na.b, b);
                let y = self.bin(op, na.c, b);
                return self.ite(na.a, x, y);
            }
        }
        self.raw(op, w, a, b, 0, 0)
    }
    pub fn eq(&mut self, a: Ex, b: Ex) -> Ex {
        self.cmp(Op::Eq, a, b)
    }
    pub fn cmp(&mut self, op: Op, mut a: Ex, mut b: Ex) -> Ex {
        let w = self.w(a);
        debug_assert_eq!(w, self.w(b));
        let (mut ca, mut cb) = (self.is_const(a), self.is_const(b));
        if let (Some(x), Some(y)) = (ca, cb) {
            return self.cst(foldcmp(op, w, x, y) as u128, 1);
        }
        if a == b {
            return self.cst(matches!(op, Op::Eq | Op::Ule | Op::Sle) as u128, 1);
        }
        let m = mask(w);
        if op == Op::Eq {
            if ca.is_some() || (cb.is_none() && self.hash[a as usize] > self.hash[b as usize]) {
                std::mem::swap(&mut a, &mut b);
                std::mem::swap(&mut ca, &mut cb);
            }
            let na = self.n(a);
            let nb = self.n(b);
            if let Some(k) = cb {
                if w == 1 {
                    return if k == 1 { a } else { self.not(a) };
                }
                match na.op {
                    Op::ZExt => {
                        let iw = self.w(na.a);
                        if k >> iw != 0 {
                            return self.cst(0, 1);
                        }
                        let c = self.cst(k, iw);
                        return self.cmp(Op::Eq, na.a, c);
                    }
                    Op::SExt => {
                        let iw = self.w(na.a);
                        if sext(k & mask(iw), iw) as u128 & m != k {
                            return self.cst(0, 1);
                        }
                        let c = self.cst(k, iw);
                        return self.cmp(Op::Eq, na.a, c);
                    }
                    Op::Concat => {
                        let lw = self.w(na.b);
                        let hw = self.w(na.a);
                        let kh = self.cst(k >> lw, hw);
                        let kl = self.cst(k, lw);
                        let x = self.cmp(Op::Eq, na.a, kh);
                        let y = self.cmp(Op::Eq, na.b, kl);
                        return self.and1(x, y);
                    }
                    Op::Ite => {
                        let kb = self.is_const(na.b);
                        let kc = self.is_const(na.c);
                        if kb.is_some() || kc.is_some() {
                            let x = self.cmp(Op::Eq, na.b, b);
                            let y = self.cmp(Op::Eq, na.c, b);
                            return self.ite(na.a, x, y);
                        }
                    }
                    Op::Add => {
                        if let Some(k2) = self.is_const(na.b) {
                            let c = self.cst(k.wrapping_sub(k2), w);
                            return self.cmp(Op::Eq, na.a, c);
                        }
                    }
                    Op::Xor => {
                        if let Some(k2) = self.is_const(na.b) {
                            let c = self.cst(k ^ k2, w);
                            return self.cmp(Op::Eq, na.a, c);
                        }
                        if k == 0 {
                            return self.cmp(Op::Eq, na.a, na.b);
                        }
                    }
                    Op::Sub if k == 0 => return self.cmp(Op::Eq, na.a, na.b),
                    Op::Not => {
                        let c = self.cst(!k, w);
                        return self.cmp(Op::Eq, na.a, c);
                    }
                    Op::Or if k == 0 => {
                        let x = self.cmp(Op::Eq, na.a, b);
                        let y = self.cmp(Op::Eq, na.b, b);
                        return self.and1(x, y);
                    }
                    _ => {}
                }
            } else {
                if w == 1 {
                    let x = self.bin(Op::Xor, a, b);
                    return self.not(x);
                }
                if na.op == Op::ZExt && nb.op == Op::ZExt && self.w(na.a) == self.w(nb.a) {
                    return self.cmp(Op::Eq, na.a, nb.a);
                }
                if na.op == Op::Concat && nb.op == Op::Concat && self.w(na.b) == self.w(nb.b) {
                    let x = self.cmp(Op::Eq, na.a, nb.a);
                    let y = self.cmp(Op::Eq, na.b, nb.b);
                    return self.and1(x, y);
                }
            }
            return self.raw(Op::Eq, 1, a, b, 0, 0);
        }
        let na = self.n(a);
        let nb = self.n(b);
        match op {
            Op::Ult => {
                if cb == Some(0) || ca == Some(m) {
                    return self.cst(0, 1);
                }
                if cb == Some(1) {
                    let z = self.cst(0, w);
                    return self.cmp(Op::Eq, a, z);
                }
                if ca == Some(0) {
                    let z = self.cst(0, w);
                    let e = self.cmp(Op::Eq, b, z);
                    return self.not(e);
                }
            }
            Op::Ule => {
                if ca == Some(0) || cb == Some(m) {
                    return self.cst(1, 1);
                }
                if cb == Some(0) {
                    return self.cmp(Op::Eq, a, b);
                }
            }
            _ => {}
        }
        if matches!(op, Op::Ult | Op::Ule) {
            if na.op == Op::ZExt {
                let iw = self.w(na.a);
                if let Some(k) = cb {
                    if k >> iw != 0 {
                        return self.cst(1, 1);
                    }
                    let c = self.cst(k, iw);
                    return self.cmp(op, na.a, c);
                }
                if nb.op == Op::ZExt && self.w(nb.a) == iw {
                    return self.cmp(op, na.a, nb.a);
                }
            }
            if nb.op == Op::ZExt {
                let iw = self.w(nb.a);
                if let Some(k) = ca {
                    if k >> iw != 0 {
                        return self.cst(0, 1);
                    }
                    let c = self.cst(k, iw);
                    return self.cmp(op, c, nb.a);
                }
            }
        }
        if matches!(op, Op::Slt | Op::Sle) {
            // non-negative operands: use the unsigned comparison
            let pa = self.sig_bits(a) < w;
            let pb = self.sig_bits(b) < w;
            if pa && pb {
                return self.cmp(if op == Op::Slt { Op::Ult } else { Op::Ule }, a, b);
            }
            if pa && cb.is_some() {
                // a >= 0, b negative constant
                return self.cst(0, 1);
            }
            if pb && ca.is_some() {
                return self.cst(1, 1);
            }
        }
        if cb.is_some() && na.op == Op::Ite && (self.is_const(na.b).is_some() && self.is_const(na.c).is_some()) {
            let x = self.cmp(op, na.b, b);
            let y = self.cmp(op, na.c, b);
            return self.ite(na.a, x, y);
        }
        if ca.is_some() && nb.op == Op::Ite && (self.is_const(nb.b).is_some() && self.is_const(nb.c).is_some()) {
            let x = self.cmp(op, a, nb.b);
            let y = self.cmp(op, a, nb.c);
            return self.ite(nb.a, x, y);
        }
        self.raw(op, 1, a, b, 0, 0)
    }

    /// `variable = constant`?
    pub fn is_var_eq_const(&self, e: Ex) -> bool {
        let n = self.n(e);
        n.op == Op::Eq && (self.n(n.a).op == Op::Var || self.n(n.b).op == Op::Var) && (self.n(n.a).op == Op::Const || self.n(n.b).op == Op::Const)
    }
    pub fn vars(&mut self, e: Ex) -> Rc<[u32]> {
        if let Some(v) = &self.vars[e as usize] {
            return v.clone();
        }
        // iterative post-order to avoid deep recursion
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.vars[x as usize].is_some() {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            let kids: &[Ex] = match n.op {
                Op::Const | Op::Var => &[],
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => &[n.a][..],
                Op::Ite => &[n.a, n.b, n.c][..],
                _ => &[n.a, n.b][..],
            };
            let mut ready = true;
            for &k in kids {
                if self.vars[k as usize].is_none() {
                    stack.push(k);
                    ready = false;
                }
            }
            if !ready {
                continue;
            }
            let r: Rc<[u32]> = match n.op {
                Op::Const => Rc::from(vec![]),
                Op::Var => Rc::from(vec![n.k as u32]),
                _ if kids.len() == 1 => self.vars[kids[0] as usize].clone().unwrap(),
                _ => {
                    let mut v: Vec<u32> = vec![];
                    let first = self.vars[kids[0] as usize].clone().unwrap();
                    if kids[1..].iter().all(|&k| {
                        let o = self.vars[k as usize].as_ref().unwrap();
                        o.iter().all(|x| first.binary_search(x).is_ok())
                    }) {
                        first
                    } else {
                        for &k in kids {
                            v.extend_from_slice(self.vars[k as usize].as_ref().unwrap());
                        }
                        v.sort();
                        v.dedup();
                        Rc::from(v)
                    }
                }
            };
            self.vars[x as usize] = Some(r);
            stack.pop();
        }
        self.vars[e as usize].clone().unwrap()
    }

    pub fn new_epoch(&mut self) {
        self.epoch += 1;
        self.ev.resize(self.nodes.len(), 0);
        self.ev_ep.resize(self.nodes.len(), 0);
    }
    /// Evaluate under a model; call new_epoch() before switching models.
    pub fn eval(&mut self, e: Ex, model: &dyn Fn(u32) -> u128) -> u128 {
        self.new_epoch();
        let mut stack = vec![e];
        while let Some(&x) = stack.last() {
            if self.ev_ep[x as usize] == self.epoch {
                stack.pop();
                continue;
            }
            let n = self.n(x);
            let w = n.w as u32;
            let r = match n.op {
                Op::Const => n.k,
                Op::Var => model(n.k as u32) & mask(w),
                Op::Not | Op::Extract | Op::ZExt | Op::SExt => {
                    if self.ev_ep[n.a as usize] != self.epoch {
                        stack.push(n.a);
                        continue;
                    }
                    let a = self.ev[n.a as usize];
                    match n.op {
                        Op::Not => !a & mask(w),
                        Op::Extract => (a >> (n.k as u32)) & mask(w),
                        Op::ZExt => a,
                        _ => sext(a, self.w(n.a)) as u128 & mask(w),
                    }
                }
                Op::Ite => {
                    if self.ev_ep[n.a as usize] != self.epoch {
                        stack.push(n.a);
                        continue;
                    }
                    let k = if self.ev[n.a as usize] != 0 { n.b } else { n.c };
                    if self.ev_ep[k as usize] != self.epoch {
                        stack.push(k);
                        continue;
                    }
                    self.ev[k as usize]
                }
                _ => {
                    let mut go = true;
                    for k in [n.a, n.b] {
                        if self.ev_ep[k as usize] != self.epoch {
                            stack.push(k);
                            go = false;
                        }
                    }
                    if !go {
                        continue;
                    }
                    let (a, b) = (self.ev[n.a as usize], self.ev[n.b as usize]);
                    match n.op {
                        Op::Concat => (a << self.w(n.b)) | b,
                        Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => foldcmp(n.op, self.w(n.a), a, b) as u128,
                        _ => fold(n.op, w, a, b),
                    }
                }
            };
            self.ev[x as usize] = r;
            self.ev_ep[x as usize] = self.epoch;
            stack.pop();
        }
        self.ev[e as usize]
    }
}
impl Pool {
    /// Readable form (diagnostics).
    pub fn show(&self, e: Ex) -> String {
        let n = self.nodes[e as usize];
        match n.op {
            Op::Const => format!("{}:{}", n.k, n.w),
            Op::Var => format!("v{}:{}", n.k, n.w),
            _ => {
                let mut s = format!("({:?}:{}", n.op, n.w);
                let ar = match n.op {
                    Op::Not | Op::ZExt | Op::SExt | Op::Extract => 1,
                    Op::Ite => 3,
                    _ => 2,
                };
                for x in [n.a, n.b, n.c].iter().take(ar) {
                    s.push(' ');
                    s.push_str(&self.show(*x));
                }
                format!("{} k{})", s, n.k)
            }
        }
    }
}
