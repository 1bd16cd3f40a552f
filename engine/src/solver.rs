//! Z3 (C API) back end: satisfiability of conjunctions of width-1 expressions.
use crate::expr::*;
use std::ffi::{c_char, c_int, c_uint, c_void, CStr, CString};
use std::rc::Rc;
use std::time::Instant;

type P = *mut c_void;
#[allow(dead_code)]
extern "C" {
    fn Z3_mk_config() -> P;
    fn Z3_set_param_value(c: P, k: *const c_char, v: *const c_char);
    fn Z3_mk_context_rc(c: P) -> P;
    fn Z3_inc_ref(c: P, a: P);
    fn Z3_mk_solver(c: P) -> P;
    fn Z3_mk_simple_solver(c: P) -> P;
    fn Z3_mk_solver_for_logic(c: P, l: P) -> P;
    fn Z3_mk_solver_from_tactic(c: P, t: P) -> P;
    fn Z3_mk_tactic(c: P, n: *const c_char) -> P;
    fn Z3_tactic_inc_ref(c: P, t: P);
    fn Z3_tactic_and_then(c: P, a: P, b: P) -> P;
    fn Z3_solver_reset(c: P, s: P);
    fn Z3_mk_string_symbol(c: P, s: *const c_char) -> P;
    fn Z3_solver_inc_ref(c: P, s: P);
    fn Z3_solver_push(c: P, s: P);
    fn Z3_solver_pop(c: P, s: P, n: c_uint);
    fn Z3_solver_assert(c: P, s: P, a: P);
    fn Z3_solver_check(c: P, s: P) -> c_int;
    fn Z3_solver_get_model(c: P, s: P) -> P;
    fn Z3_solver_to_string(c: P, s: P) -> *const c_char;
    fn Z3_solver_set_params(c: P, s: P, p: P);
    fn Z3_mk_params(c: P) -> P;
    fn Z3_params_inc_ref(c: P, p: P);
    fn Z3_params_set_uint(c: P, p: P, k: P, v: c_uint);
    fn Z3_model_inc_ref(c: P, m: P);
    fn Z3_model_dec_ref(c: P, m: P);
    fn Z3_model_eval(c: P, m: P, t: P, completion: bool, v: *mut P) -> bool;
    fn Z3_get_numeral_string(c: P, a: P) -> *const c_char;
    fn Z3_mk_int_symbol(c: P, i: c_int) -> P;
    fn Z3_mk_bv_sort(c: P, sz: c_uint) -> P;
    fn Z3_mk_const(c: P, s: P, ty: P) -> P;
    fn Z3_mk_numeral(c: P, n: *const c_char, ty: P) -> P;
    fn Z3_mk_eq(c: P, a: P, b: P) -> P;
    fn Z3_mk_ite(c: P, a: P, b: P, d: P) -> P;
    fn Z3_mk_true(c: P) -> P;
    fn Z3_mk_false(c: P) -> P;
    fn Z3_mk_not(c: P, a: P) -> P;
    fn Z3_mk_and(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_or(c: P, n: c_uint, a: *const P) -> P;
    fn Z3_mk_xor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvnot(c: P, a: P) -> P;
    fn Z3_mk_bvadd(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsub(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvmul(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvudiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsdiv(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvurem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsrem(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvshl(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvlshr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvashr(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvand(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvxor(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvult(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvule(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvslt(c: P, a: P, b: P) -> P;
    fn Z3_mk_bvsle(c: P, a: P, b: P) -> P;
    fn Z3_mk_concat(c: P, a: P, b: P) -> P;
    fn Z3_mk_extract(c: P, h: c_uint, l: c_uint, a: P) -> P;
    fn Z3_mk_zero_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_mk_sign_ext(c: P, i: c_uint, a: P) -> P;
    fn Z3_set_error_handler(c: P, h: Option<extern "C" fn(P, c_int)>);
}
extern "C" fn on_err(_c: P, e: c_int) {
    eprintln!("z3 error {}", e);
    std::process::exit(3);
}

pub type Model = Rc<FxMap<u32, u128>>;

#[derive(Clone)]
pub enum Res {
    Sat(Model),
    Unsat,
    Unknown,
}

pub struct Solver {
    ctx: P,
    s: P,
    bools: FxMap<Ex, P>, // width-1 expressions as z3 Bool
    bvs: FxMap<Ex, P>,
    cache: FxMap<(Vec<Ex>, Ex), Res>,
    feasibles: u64,
    feasible_seen: std::collections::HashSet<Vec<Ex>>,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub time: f64,
    pub max_time: f64,
    /// conflicts found by the order closure, without z3
    pub order: u64,
    pub use_order: bool,
    pub dump: Option<std::path::PathBuf>,
    pub dump_every: u64,
    pub dumped: u64,
}

impl Solver {
    pub fn new(timeout_ms: u32) -> Self {
        unsafe {
            let cfg = Z3_mk_config();
            let ctx = Z3_mk_context_rc(cfg);
            Z3_set_error_handler(ctx, Some(on_err));
            let mut t: P = std::ptr::null_mut();
            for n in ["simplify", "propagate-values", "solve-eqs", "simplify", "bit-blast", "sat"] {
                let n = CString::new(n).unwrap();
                let u = Z3_mk_tactic(ctx, n.as_ptr());
                Z3_tactic_inc_ref(ctx, u);
                t = if t.is_null() { u } else { Z3_tactic_and_then(ctx, t, u) };
                Z3_tactic_inc_ref(ctx, t);
            }
            let s = Z3_mk_solver_from_tactic(ctx, t);
            Z3_solver_inc_ref(ctx, s);
            let p = Z3_mk_params(ctx);
            Z3_params_inc_ref(ctx, p);
            let k = CString::new("timeout").unwrap();
            Z3_params_set_uint(ctx, p, Z3_mk_string_symbol(ctx, k.as_ptr()), timeout_ms);
            Z3_solver_set_params(ctx, s, p);
            Solver {
                ctx,
                s,
                feasibles: 0,
                feasible_seen: Default::default(),
                bools: FxMap::default(),
                bvs: FxMap::default(),
                cache: FxMap::default(),
                queries: 0,
                sat: 0,
                unsat: 0,
                unknown: 0,
                cached: 0,
                time: 0.0,
                max_time: 0.0,
                order: 0,
                use_order: true,
                dump: None,
                dump_every: 0,
                dumped: 0,
            }
        }
    }
    fn keep(&self, a: P) -> P {
        unsafe { Z3_inc_ref(self.ctx, a) };
        a
    }
    fn num(&self, v: u128, w: u32) -> P {
        unsafe {
            let s = CString::new(v.to_string()).unwrap();
            self.keep(Z3_mk_numeral(self.ctx, s.as_ptr(), Z3_mk_bv_sort(self.ctx, w)))
        }
    }
    /// translation; expression trees are shallow enough for recursion on a big stack
    pub fn bv(&mut self, p: &Pool, e: Ex) -> P {
        if let Some(&a) = self.bvs.get(&e) {
            return a;
        }
        let n = p.nodes[e as usize];
        let w = n.w as u32;
        let c = self.ctx;
        let r = unsafe {
            if w == 1 && n.op != Op::Var && n.op != Op::Const && n.op != Op::Extract {
                let b = self.boolean(p, e);
                let one = self.num(1, 1);
                let zero = self.num(0, 1);
                Z3_mk_ite(c, b, one, zero)
            } else {
                match n.op {
                    Op::Const => self.num(n.k, w),
                    Op::Var => Z3_mk_const(c, Z3_mk_int_symbol(c, n.k as c_int), Z3_mk_bv_sort(c, w)),
                    Op::Not => {
                        let a = self.bv(p, n.a);
                        Z3_mk_bvnot(c, a)
                    }
                    Op::Extract => {
                        let a = self.bv(p, n.a);
                        Z3_mk_extract(c, n.k as u32 + w - 1, n.k as u32, a)
                    }
                    Op::ZExt => {
                        let a = self.bv(p, n.a);
                        Z3_mk_zero_ext(c, w - p.w(n.a), a)
                    }
                    Op::SExt => {
                        let a = self.bv(p, n.a);
                        Z3_mk_sign_ext(c, w - p.w(n.a), a)
                    }
                    Op::Ite => {
                        let k = self.boolean(p, n.a);
                        let a = self.bv(p, n.b);
                        let b = self.bv(p, n.c);
                        Z3_mk_ite(c, k, a, b)
                    }
                    _ => {
                        let a = self.bv(p, n.a);
                        let b = self.bv(p, n.b);
                        match n.op {
                            Op::Add => Z3_mk_bvadd(c, a, b),
                            Op::Sub => Z3_mk_bvsub(c, a, b),
                            Op::Mul => Z3_mk_bvmul(c, a, b),
                            Op::UDiv => Z3_mk_bvudiv(c, a, b),
                            Op::SDiv => Z3_mk_bvsdiv(c, a, b),
                            Op::URem => Z3_mk_bvurem(c, a, b),
                            Op::SRem => Z3_mk_bvsrem(c, a, b),
                            Op::Shl => Z3_mk_bvshl(c, a, b),
                            Op::LShr => Z3_mk_bvlshr(c, a, b),
                            Op::AShr => Z3_mk_bvashr(c, a, b),
                            Op::And => Z3_mk_bvand(c, a, b),
                            Op::Or => Z3_mk_bvor(c, a, b),
                            Op::Xor => Z3_mk_bvxor(c, a, b),
                            Op::Concat => Z3_mk_concat(c, a, b),
                            _ => unreachable!(),
                        }
                    }
                }
            }
        };
        let r = self.keep(r);
        self.bvs.insert(e, r);
        r
    }
    pub fn boolean(&mut self, p: &Pool, e: Ex) -> P {
        if let Some(&a) = self.bools.get(&e) {
            return a;
        }
        let n = p.nodes[e as usize];
        debug_assert_eq!(n.w, 1);
        let c = self.ctx;
        let r = unsafe {
            match n.op {
                Op::Const => {
                    if n.k != 0 {
                        Z3_mk_true(c)
                    } else {
                        Z3_mk_false(c)
                    }
                }
                Op::Not => {
                    let a = self.boolean(p, n.a);
                    Z3_mk_not(c, a)
                }
                Op::And | Op::Or | Op::Xor => {
                    let a = self.boolean(p, n.a);
                    let b = self.boolean(p, n.b);
                    let v = [a, b];
                    match n.op {
                        Op::And => Z3_mk_and(c, 2, v.as_ptr()),
                        Op::Or => Z3_mk_or(c, 2, v.as_ptr()),
                        _ => Z3_mk_xor(c, a, b),
                    }
                }
                Op::Ite => {
                    let k = self.boolean(p, n.a);
                    let a = self.boolean(p, n.b);
                    let b = self.boolean(p, n.c);
                    Z3_mk_ite(c, k, a, b)
                }
                Op::Eq | Op::Ult | Op::Ule | Op::Slt | Op::Sle => {
                    let a = self.bv(p, n.a);
                    let b = self.bv(p, n.b);
                    match n.op {
                        Op::Eq => Z3_mk_eq(c, a, b),
                        Op::Ult => Z3_mk_bvult(c, a, b),
                        Op::Ule => Z3_mk_bvule(c, a, b),
                        Op::Slt => Z3_mk_bvslt(c, a, b),
                        _ => Z3_mk_bvsle(c, a, b),
                    }
                }
                Op::Var | Op::Extract => {
                    let a = self.bv(p, e);
                    let one = self.num(1, 1);
                    Z3_mk_eq(c, a, one)
                }
                Op::Add | Op::Sub => {
                    let a = self.boolean(p, n.a);
                    let b = self.boolean(p, n.b);
                    Z3_mk_xor(c, a, b)
                }
                Op::Mul => {
                    let a = self.boolean(p, n.a);
                    let b = self.boolean(p, n.b);
                    let v = [a, b];
                    Z3_mk_and(c, 2, v.as_ptr())
                }
                o => panic!("boolean translation of {:?}", o),
            }
        };
        let r = self.keep(r);
        self.bools.insert(e, r);
        r
    }

    /// Constraints of `pc` transitively sharing variables with `cond`.
    pub fn slice(&self, p: &mut Pool, pc: &[Ex], cond: Ex) -> Vec<Ex> {
        let mut vs: Vec<u32> = p.vars(cond).to_vec();
        let mut used = vec![false; pc.len()];
        let mut out = vec![];
        loop {
            let mut ch = false;
            for (i, &c) in pc.iter().enumerate() {
                if used[i] {
                    continue;
                }
                let cv = p.vars(c);
                if cv.iter().any(|x| vs.binary_search(x).is_ok()) {
                    used[i] = true;
                    out.push(c);
                    let before = vs.len();
                    vs.extend_from_slice(&cv);
                    vs.sort();
                    vs.dedup();
                    if vs.len() != before {
                        ch = true;
                    }
                }
            }
            if !ch {
                break;
            }
        }
        out.sort();
        out.dedup();
        out
    }

    /// Is the whole path condition satisfiable? None: unknown.
    pub fn feasible(&mut self, p: &mut Pool, pc: &[Ex]) -> Option<bool> {
        // after many paths: a condition `v = k` on a variable that occurs nowhere else cannot matter, and
        // sets of conditions that were decided before are not asked again
        self.feasibles += 1;
        let mut reduced: Vec<Ex> = pc.to_vec();
        if self.feasibles > 300 {
            let mut n: FxMap<u32, u32> = FxMap::default();
            for &c in pc {
                for &v in p.vars(c).iter() {
                    *n.entry(v).or_default() += 1;
                }
            }
            reduced.retain(|&c| {
                let vs = p.vars(c);
                !(vs.len() == 1 && n[&vs[0]] == 1 && p.is_var_eq_const(c))
            });
            reduced.sort();
            reduced.dedup();
            if reduced.is_empty() {
                return Some(true);
            }
            if self.feasible_seen.contains(&reduced) {
                self.cached += 1;
                return Some(true);
            }
        }
        let pc = &reduced[..];
        let t = Instant::now();
        let r = unsafe {
            Z3_solver_reset(self.ctx, self.s);
            for &c in pc {
                let a = self.boolean(p, c);
                Z3_solver_assert(self.ctx, self.s, a);
            }
            self.queries += 1;
            Z3_solver_check(self.ctx, self.s)
        };
        let dt = t.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        match r {
            1 => {
                self.sat += 1;
                if self.feasibles > 300 {
                    self.feasible_seen.insert(reduced);
                }
                Some(true)
            }
            -1 => {
                self.unsat += 1;
                Some(false)
            }
            _ => {
                self.unknown += 1;
                None
            }
        }
    }

    /// Is pc ∧ cond satisfiable? The model covers the variables of the slice.
    pub fn check(&mut self, p: &mut Pool, pc: &[Ex], cond: Ex) -> Res {
        if let Some(k) = p.is_const(cond) {
            if k == 0 {
                return Res::Unsat;
            }
        }
        let sl = self.slice(p, pc, cond);
        let key = (sl, cond);
        if let Some(r) = self.cache.get(&key) {
            self.cached += 1;
            return r.clone();
        }
        if self.use_order && order_conflict(p, &key.0, cond) {
            self.order += 1;
            self.cache.insert(key, Res::Unsat);
            return Res::Unsat;
        }
        let t = Instant::now();
        let r = unsafe {
            Z3_solver_reset(self.ctx, self.s);
            for &c in key.0.iter() {
                let a = self.boolean(p, c);
                Z3_solver_assert(self.ctx, self.s, a);
            }
            let a = self.boolean(p, cond);
            Z3_solver_assert(self.ctx, self.s, a);
            let r = Z3_solver_check(self.ctx, self.s);
            self.queries += 1;
            if self.dump_every > 0 && self.queries % self.dump_every == 0 && r != 0 {
                if let Some(d) = &self.dump {
                    let txt = CStr::from_ptr(Z3_solver_to_string(self.ctx, self.s)).to_string_lossy().into_owned();
                    // what follows belongs to the model converter
                    let txt = txt.split("\n(model-").next().unwrap_or("");
                    let f = d.join(format!("q{}_{:p}.smt2", self.queries, self));
                    let _ = std::fs::write(f, format!("; expect {}\n(set-logic QF_BV)\n{}\n(check-sat)\n", if r > 0 { "sat" } else { "unsat" }, txt));
                    self.dumped += 1;
                }
            }
            let res = match r {
                1 => {
                    self.sat += 1;
                    let m = Z3_solver_get_model(self.ctx, self.s);
                    Z3_model_inc_ref(self.ctx, m);
                    let mut vs: Vec<u32> = p.vars(cond).to_vec();
                    for &c in key.0.iter() {
                        vs.extend_from_slice(&p.vars(c));
                    }
                    vs.sort();
                    vs.dedup();
                    let mut map = FxMap::default();
                    for v in vs {
                        let w = p.var_width(v);
                        let e = p.var(v, w);
                        let a = self.bv(p, e);
                        let mut out: P = std::ptr::null_mut();
                        if Z3_model_eval(self.ctx, m, a, true, &mut out) {
                            let s = CStr::from_ptr(Z3_get_numeral_string(self.ctx, out)).to_string_lossy();
                            map.insert(v, s.parse::<u128>().unwrap());
                        }
                    }
                    Z3_model_dec_ref(self.ctx, m);
                    Res::Sat(Rc::new(map))
                }
                -1 => {
                    self.unsat += 1;
                    Res::Unsat
                }
                _ => {
                    self.unknown += 1;
                    Res::Unknown
                }
            };
            res
        };
        let dt = t.elapsed().as_secs_f64();
        self.time += dt;
        if dt > self.max_time {
            self.max_time = dt;
        }
        self.cache.insert(key, r.clone());
        r
    }
}

/// Sound, incomplete: do the unsigned-order literals of the conjunction contradict each other?
/// Terms that are not comparisons are opaque; a cycle with a strict edge, or a disequality inside
/// a cycle, is a contradiction. Everything else goes to z3.
pub fn order_conflict(p: &Pool, pc: &[Ex], cond: Ex) -> bool {
    let mut nodes: Vec<Ex> = vec![];
    let mut edges: Vec<(u8, u8, bool)> = vec![]; // a <= b, or a < b if strict
    let mut ne: Vec<(u8, u8)> = vec![];
    let mut todo: Vec<(Ex, bool)> = pc.iter().map(|&e| (e, true)).collect();
    todo.push((cond, true));
    let mut seen: Vec<(Ex, bool)> = vec![];
    while let Some((e, pos)) = todo.pop() {
        let n = p.nodes[e as usize];
        match n.op {
            Op::Not => todo.push((n.a, !pos)),
            Op::And if n.w == 1 && pos => {
                todo.push((n.a, true));
                todo.push((n.b, true));
            }
            Op::Or if n.w == 1 && !pos => {
                todo.push((n.a, false));
                todo.push((n.b, false));
            }
            Op::Eq | Op::Ult | Op::Ule if p.w(n.a) > 1 => {
                if nodes.len() > 60 {
                    return false;
                }
                let mut id = |x: Ex| match nodes.iter().position(|&y| y == x) {
                    Some(i) => i as u8,
                    None => {
                        nodes.push(x);
                        (nodes.len() - 1) as u8
                    }
                };
                let (a, b) = (id(n.a), id(n.b));
                match (n.op, pos) {
                    (Op::Eq, true) => {
                        edges.push((a, b, false));
                        edges.push((b, a, false));
                    }
                    (Op::Eq, false) => ne.push((a, b)),
                    (Op::Ult, true) => edges.push((a, b, true)),
                    (Op::Ult, false) => edges.push((b, a, false)),
                    (Op::Ule, true) => edges.push((a, b, false)),
                    _ => edges.push((b, a, true)),
                }
            }
            _ => {
                if seen.contains(&(e, !pos)) {
                    return true;
                }
                seen.push((e, pos));
            }
        }
    }
    let k = nodes.len();
    if k < 2 {
        return false;
    }
    let consts: Vec<(u128, u8, usize)> =
        nodes.iter().enumerate().filter_map(|(i, &x)| p.is_const(x).map(|v| (v, p.w(x) as u8, i))).collect();
    for x in &consts {
        for y in &consts {
            if x.1 == y.1 && x.0 < y.0 {
                edges.push((x.2 as u8, y.2 as u8, true));
            }
        }
    }
    // r[i][j]: 0 none, 1 <=, 2 <
    let mut r = vec![0u8; k * k];
    for (a, b, st) in edges {
        let x = &mut r[a as usize * k + b as usize];
        *x = (*x).max(1 + st as u8);
    }
    for m in 0..k {
        for i in 0..k {
            let a = r[i * k + m];
            if a == 0 {
                continue;
            }
            for j in 0..k {
                let b = r[m * k + j];
                if b != 0 {
                    let x = &mut r[i * k + j];
                    *x = (*x).max(a.max(b));
                }
            }
        }
    }
    for i in 0..k {
        if r[i * k + i] == 2 {
            return true;
        }
    }
    ne.iter().any(|&(a, b)| a == b || (r[a as usize * k + b as usize] != 0 && r[b as usize * k + a as usize] != 0))
}
