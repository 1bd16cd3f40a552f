//! The symbolic interpreter.
use crate::expr::*;
use crate::ir::*;
use crate::mem::*;
use crate::solver::*;
use std::collections::{HashMap, HashSet};
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering};
use std::sync::{Arc, Mutex};
use std::time::Instant;

#[derive(Clone, Debug)]
pub enum Val {
    I(u128),
    E(Ex),
    A(Rc<Vec<Val>>),
}

/// Allocations larger than this fail.
const ALLOC_FAIL: u64 = 1 << 36;

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Dec {
    Br(bool, bool), // side, forced
    Val(u128, bool, bool), // value, taken, forced
    Choice(u32),
}

#[derive(Clone)]
pub struct Frame {
    func: u32,
    code: &'static Code,
    blk: u32,
    ip: u32,
    base: u32,
    sbase: u32,
}

#[derive(Clone)]
pub struct VarInfo {
    pub id: u32,
    pub bits: u32,
    pub name: String,
}

#[derive(Clone)]
pub struct State {
    frames: Vec<Frame>,
    regs: Vec<Val>,
    heap: Table,
    stack: Vec<Rc<Obj>>,
    globals: Table,
    pub pc: Vec<Ex>,
    pub model: Model,
    pub vars: Vec<Rc<VarInfo>>,
    pub trace: Vec<Dec>,
    conc: Rc<FxMap<Ex, u128>>,
    /// conditions decided without a fork by the current instruction, which a fork makes start over
    forced: Vec<Ex>,
    pub icount: u64,
    exc: u128,
    replay: Option<Rc<(Vec<Dec>, usize)>>,
    rpos: usize,
    pub log: Vec<Rc<str>>,
    live_heap: i64,
    /// the running coroutine and the parked ones
    cur: u32,
    cos: Vec<Option<Rc<Co>>>,
}

/// A parked coroutine: its call stack, its stack objects and its thread-local storage.
#[derive(Clone)]
pub struct Co {
    frames: Vec<Frame>,
    regs: Vec<Val>,
    stack: Vec<Rc<Obj>>,
    exc: u128,
    tls: Vec<Option<Rc<Obj>>>,
}
const CO_SHIFT: u32 = 16;

#[derive(Debug)]
pub enum Stop {
    Done,
    Pruned,
    Violation(String),
    Engine(String),
    Limit,
    Cancel,
}
type R<T> = Result<T, Stop>;

fn err<T>(s: impl Into<String>) -> R<T> {
    Err(Stop::Engine(s.into()))
}

pub struct Shared {
    pub m: &'static Module,
    pub entry: u32,
    pub queue: Mutex<Vec<Vec<Dec>>>,
    pub idle: AtomicUsize,
    pub threads: usize,
    pub stop: AtomicBool,
    pub deadline: Instant,
    pub max_inst: u64,
    pub params: Vec<u64>,
    pub timeout_ms: u32,
    pub alloc_enum: u64,
    pub verbose: bool,
    pub stop_on_violation: bool,
    pub res: Mutex<Results>,
    pub paths: AtomicU64,
    pub dump: Option<(std::path::PathBuf, u64)>,
    pub max_paths: u64,
}

#[derive(Default)]
pub struct Results {
    pub done: u64,
    pub pruned: u64,
    pub limit: u64,
    pub engine_errors: HashMap<String, u64>,
    pub violations: Vec<(String, Vec<(String, u32, u128)>, Vec<String>)>,
    pub vio_msgs: HashMap<String, u64>,
    pub covers: HashMap<u32, u64>,
    pub funcs: HashSet<u32>,
    pub insts: u64,
    pub forks: u64,
    pub queries: u64,
    pub sat: u64,
    pub unsat: u64,
    pub unknown: u64,
    pub cached: u64,
    pub order: u64,
    pub solver_time: f64,
    pub max_query: f64,
    pub checks: u64,
    pub checks_symbolic: u64,
    pub timed_out: bool,
    pub max_icount: u64,
    pub dumped: u64,
    pub max_vars: usize,
    pub fork_sites: HashMap<String, u64>,
    /// inputs of some completed paths (for native validation)
    pub representatives: u64,
    pub samples: Vec<Vec<(String, u32, u128)>>,
}

pub struct Exec<'a> {
    sh: &'a Shared,
    m: &'static Module,
    p: Pool,
    s: Solver,
    gcache: Vec<Option<Rc<Obj>>>,
    st: State,
    work: Vec<State>,
    res: Results,
    covers: Vec<u32>,
    prof: HashMap<u32, u64>,
}

fn base_state() -> State {
    State {
        frames: vec![],
        regs: vec![],
        heap: Table::new(),
        stack: vec![],
        globals: Table::new(),
        pc: vec![],
        model: Rc::new(FxMap::default()),
        vars: vec![],
        trace: vec![],
        forced: vec![],
        conc: Rc::new(FxMap::default()),
        icount: 0,
        exc: 0,
        replay: None,
        rpos: 0,
        log: vec![],
        live_heap: 0,
        cur: 0,
        cos: vec![None],
    }
}

fn cv_val(c: &CV) -> Val {
    match c {
        CV::I(v) => Val::I(*v),
        CV::Agg(a) => Val::A(Rc::new(a.iter().map(cv_val).collect())),
    }
}

pub fn demangle(n: &str) -> String {
    n.to_string()
}

impl<'a> Exec<'a> {
    pub fn new(sh: &'a Shared) -> Self {
        let m = sh.m;
        let mut s = Solver::new(sh.timeout_ms);
        if let Some((d, n)) = &sh.dump {
            s.dump = Some(d.clone());
            s.dump_every = *n;
        }
        Exec { sh, m, p: Pool::new(), s, gcache: vec![None; m.globals.len()], st: base_state(), work: vec![], res: Results::default(), covers: vec![], prof: HashMap::new() }
    }

    // -------------------------------------------------------------- driver
    pub fn worker(&mut self) {
        loop {
            let item = {
                let mut q = self.sh.queue.lock().unwrap();
                q.pop()
            };
            let Some(prefix) = item else {
                // idle
                let n = self.sh.idle.fetch_add(1, Ordering::SeqCst) + 1;
                if n == self.sh.threads && self.sh.queue.lock().unwrap().is_empty() {
                    self.sh.stop.store(true, Ordering::SeqCst);
                }
                let mut got = false;
                while !self.sh.stop.load(Ordering::SeqCst) {
                    if !self.sh.queue.lock().unwrap().is_empty() {
                        got = true;
                        break;
                    }
                    if self.sh.idle.load(Ordering::SeqCst) == self.sh.threads && self.sh.queue.lock().unwrap().is_empty() {
                        self.sh.stop.store(true, Ordering::SeqCst);
                        break;
                    }
                    std::thread::sleep(std::time::Duration::from_micros(300));
                }
                if !got {
                    break;
                }
                self.sh.idle.fetch_sub(1, Ordering::SeqCst);
                continue;
            };
            let mut st = base_state();
            st.replay = if prefix.is_empty() { None } else { Some(Rc::new((prefix, 0))) };
            self.st = st;
            if let Err(e) = self.call_entry() {
                self.finish(e);
                continue;
            }
            self.run_all();
        }
        self.merge();
    }
    fn merge(&mut self) {
        let mut g = self.sh.res.lock().unwrap();
        let r = std::mem::take(&mut self.res);
        g.done += r.done;
        g.pruned += r.pruned;
        g.limit += r.limit;
        for (k, v) in r.engine_errors {
            *g.engine_errors.entry(k).or_default() += v;
        }
        for (k, v) in r.vio_msgs {
            *g.vio_msgs.entry(k).or_default() += v;
        }
        for (k, v) in r.fork_sites {
            *g.fork_sites.entry(k).or_default() += v;
        }
        g.violations.extend(r.violations);
        g.representatives += r.representatives;
        g.samples.extend(r.samples);
        for (k, v) in r.covers {
            *g.covers.entry(k).or_default() += v;
        }
        g.funcs.extend(r.funcs);
        g.insts += r.insts;
        g.forks += r.forks;
        g.checks += r.checks;
        g.checks_symbolic += r.checks_symbolic;
        g.queries += self.s.queries;
        g.sat += self.s.sat;
        g.unsat += self.s.unsat;
        g.unknown += self.s.unknown;
        g.cached += self.s.cached;
        g.order += self.s.order;
        g.solver_time += self.s.time;
        g.max_query = g.max_query.max(self.s.max_time);
        g.timed_out |= r.timed_out;
        g.max_icount = g.max_icount.max(r.max_icount);
        g.max_vars = g.max_vars.max(r.max_vars);
        g.dumped += self.s.dumped;
    }
    fn call_entry(&mut self) -> R<()> {
        let code = self.code(self.sh.entry)?;
        self.st.regs.resize(code.nregs as usize, Val::I(0));
        self.st.frames.push(Frame { func: self.sh.entry, code, blk: 0, ip: 0, base: 0, sbase: 0 });
        self.res.funcs.insert(self.sh.entry);
        Ok(())
    }
    fn run_all(&mut self) {
        loop {
            let r = self.run_path();
            self.finish(r);
            if self.sh.stop.load(Ordering::Relaxed) {
                self.work.clear();
                return;
            }
            match self.work.pop() {
                Some(s) => self.st = s,
                None => return,
            }
        }
    }
    fn donate(&mut self) {
        if self.work.len() > 1 || (self.work.len() == 1) {
            if self.sh.idle.load(Ordering::Relaxed) > 0 {
                let mut q = self.sh.queue.lock().unwrap();
                if q.len() < self.sh.threads {
                    let s = self.work.remove(0);
                    q.push(s.trace);
                }
            }
        }
    }
    fn values(&mut self, model: &Model) -> Vec<(String, u32, u128)> {
        self.st.vars.iter().map(|v| (v.name.clone(), v.bits, *model.get(&v.id).unwrap_or(&0))).collect()
    }
    fn finish(&mut self, e: Stop) {
        self.res.insts += self.st.icount;
        self.res.max_icount = self.res.max_icount.max(self.st.icount);
        self.res.max_vars = self.res.max_vars.max(self.st.vars.len());
        let n = self.sh.paths.fetch_add(1, Ordering::Relaxed);
        if self.sh.max_paths > 0 && n + 1 >= self.sh.max_paths {
            self.res.timed_out = true;
            self.sh.stop.store(true, Ordering::SeqCst);
        }
        match e {
            Stop::Done => {
                self.res.done += 1;
                // the path is not vacuous: its whole condition is satisfiable
                if self.st.replay.is_none() {
                    let pc = self.st.pc.clone();
                    match self.s.feasible(&mut self.p, &pc) {
                        Some(true) => {}
                        Some(false) => *self.res.engine_errors.entry("a finished path has an unsatisfiable condition".into()).or_default() += 1,
                        None => *self.res.engine_errors.entry("solver unknown for a path condition".into()).or_default() += 1,
                    }
                }
                if self.res.done.is_power_of_two() && self.res.done != 2 {
                    let m = self.st.model.clone();
                    let v = self.values(&m);
                    self.res.samples.push(v);
                }
                let c = std::mem::take(&mut self.covers);
                for i in c {
                    *self.res.covers.entry(i).or_default() += 1;
                }
            }
            Stop::Pruned => self.res.pruned += 1,
            Stop::Limit => {
                self.res.limit += 1;
                let m = self.st.model.clone();
                let v = self.values(&m);
                let log = self.st.log.iter().map(|s| s.to_string()).collect();
                let bt = self.backtrace();
                self.res.violations.push((format!("instruction limit exceeded (possible endless loop) at {}", bt), v, log));
                *self.res.vio_msgs.entry("limit".into()).or_default() += 1;
                if self.sh.stop_on_violation {
                    self.sh.stop.store(true, Ordering::SeqCst);
                }
            }
            Stop::Violation(msg) => {
                if self.sh.verbose {
                    eprintln!("violation {} @ {}", msg, self.backtrace());
                }
                let c = self.res.vio_msgs.entry(msg.clone()).or_default();
                *c += 1;
                if *c <= 3 {
                    let m = self.st.model.clone();
                    let v = self.values(&m);
                    let log = self.st.log.iter().map(|s| s.to_string()).collect();
                    self.res.violations.push((msg, v, log));
                }
                if self.sh.stop_on_violation {
                    self.sh.stop.store(true, Ordering::SeqCst);
                }
            }
            Stop::Engine(msg) => {
                let k = format!("{} @ {}", msg, self.backtrace());
                *self.res.engine_errors.entry(k).or_default() += 1;
                if self.res.engine_errors.len() > 50 {
                    self.sh.stop.store(true, Ordering::SeqCst);
                }
            }
            Stop::Cancel => {}
        }
        self.covers.clear();
    }
    fn backtrace(&self) -> String {
        let mut s = String::new();
        for f in self.st.frames.iter().rev().take(14) {
            s.push_str(&self.m.funcs[f.func as usize].name);
            s.push_str(" < ");
        }
        s
    }

    // -------------------------------------------------------------- values
    fn code(&mut self, f: u32) -> R<&'static Code> {
        match self.m.code(f) {
            Ok(c) => {
                // the module owns the Arc for the whole program run
                let p: *const Code = Arc::as_ptr(&c);
                Ok(unsafe { &*p })
            }
            Err(e) => err(e),
        }
    }
    #[inline]
    fn get(&self, base: u32, o: &Opd) -> Val {
        match o {
            Opd::R(r) => self.st.regs[(base + r) as usize].clone(),
            Opd::I(v) => Val::I(*v),
            Opd::Agg(a) => Val::A(Rc::new(a.iter().map(cv_val).collect())),
        }
    }
    #[inline]
    fn set(&mut self, base: u32, d: u32, v: Val) {
        self.st.regs[(base + d) as usize] = v;
    }
    fn ex(&mut self, v: &Val, w: u32) -> R<Ex> {
        match v {
            Val::I(x) => Ok(self.p.cst(*x, w)),
            Val::E(e) => Ok(*e),
            Val::A(_) => err("aggregate used as scalar"),
        }
    }
    fn wrap(&self, e: Ex) -> Val {
        match self.p.is_const(e) {
            Some(k) => Val::I(k),
            None => Val::E(e),
        }
    }

    // -------------------------------------------------------------- forking
    fn eval_model(&mut self, e: Ex) -> u128 {
        let m = self.st.model.clone();
        self.p.eval(e, &|v| *m.get(&v).unwrap_or(&0))
    }
    fn add_pc(&mut self, c: Ex) {
        if self.p.is_const(c).is_none() && !self.st.pc.contains(&c) {
            self.st.pc.push(c);
        }
    }
    fn update_model(&mut self, m: &Model) {
        let mut n = (*self.st.model).clone();
        for (k, v) in m.iter() {
            n.insert(*k, *v);
        }
        self.st.model = Rc::new(n);
    }
    fn known(&mut self, c: Ex) -> Option<bool> {
        if self.st.pc.contains(&c) {
            return Some(true);
        }
        let n = self.p.not(c);
        if self.st.pc.contains(&n) {
            return Some(false);
        }
        if !self.st.forced.is_empty() {
            if self.st.forced.contains(&c) {
                return Some(true);
            }
            if self.st.forced.contains(&n) {
                return Some(false);
            }
        }
        None
    }
    fn next_dec(&mut self) -> Option<Dec> {
        if let Some(r) = self.st.replay.clone() {
            if self.st.rpos < r.0.len() {
                let d = r.0[self.st.rpos];
                self.st.rpos += 1;
                if self.st.rpos == r.0.len() {
                    self.st.replay = None;
                }
                return Some(d);
            }
            self.st.replay = None;
        }
        None
    }
    fn site(&mut self) {
        if self.sh.verbose {
            let f = self.st.frames.last().map(|f| self.m.funcs[f.func as usize].name.clone()).unwrap_or_default();
            let g = self.st.frames.iter().rev().nth(1).map(|f| self.m.funcs[f.func as usize].name.clone()).unwrap_or_default();
            *self.res.fork_sites.entry(format!("{} < {}", f, g)).or_default() += 1;
        }
    }
    /// Ensures the model satisfies the path condition after a replayed prefix.
    fn sync_model(&mut self) -> R<()> {
        let pc = self.st.pc.clone();
        for c in pc {
            if self.eval_model(c) == 0 {
                match self.s.check(&mut self.p, &self.st.pc, c) {
                    Res::Sat(m) => self.update_model(&m),
                    Res::Unsat => return err("replayed prefix is infeasible"),
                    Res::Unknown => return err("solver unknown"),
                }
            }
        }
        Ok(())
    }
    /// Decide a width-1 expression; forks when both sides are feasible.
    fn branch_val(&mut self, v: &Val) -> R<bool> {
        match v {
            Val::I(x) => Ok(*x & 1 != 0),
            Val::E(e) => self.branch(*e, None),
            Val::A(_) => err("branch on aggregate"),
        }
    }
    fn branch(&mut self, c: Ex, value: Option<u128>) -> R<bool> {
        if let Some(k) = self.p.is_const(c) {
            return Ok(k != 0);
        }
        if let Some(k) = self.known(c) {
            return Ok(k);
        }
        if self.st.replay.is_some() {
            if let Some(d) = self.next_dec() {
                let (side, forced) = match d {
                    Dec::Br(s, f) if value.is_none() => (s, f),
                    Dec::Val(_, s, f) if value.is_some() => (s, f),
                    _ => return err("replay divergence"),
                };
                self.st.trace.push(d);
                let n = self.p.not(c);
                let f = if side { c } else { n };
                if forced {
                    self.st.forced.push(f);
                } else {
                    self.add_pc(f);
                }
                if self.st.replay.is_none() {
                    self.sync_model()?;
                }
                return Ok(side);
            }
        }
        let side = self.eval_model(c) != 0;
        let n = self.p.not(c);
        let other = if side { n } else { c };
        let mkdec = |s: bool, f: bool| match value {
            Some(v) => Dec::Val(v, s, f),
            None => Dec::Br(s, f),
        };
        match self.s.check(&mut self.p, &self.st.pc, other) {
            Res::Unsat => {
                self.st.trace.push(mkdec(side, true));
                self.st.forced.push(if side { c } else { n });
                Ok(side)
            }
            Res::Unknown => err("solver unknown"),
            Res::Sat(m) => {
                self.site();
                self.res.forks += 1;
                let mut alt = self.st.clone();
                alt.trace.push(mkdec(!side, false));
                alt.pc.push(other);
                let mut nm = (*alt.model).clone();
                for (k, v) in m.iter() {
                    nm.insert(*k, *v);
                }
                alt.model = Rc::new(nm);
                self.work.push(alt);
                self.st.trace.push(mkdec(side, false));
                let mine = if side { c } else { n };
                self.add_pc(mine);
                Ok(side)
            }
        }
    }
    /// Complete enumeration of the feasible values of an expression (one path per value).
    fn concretize(&mut self, v: &Val) -> R<u128> {
        let e = match v {
            Val::I(x) => return Ok(*x),
            Val::E(e) => *e,
            Val::A(_) => return err("concretize aggregate"),
        };
        if let Some(k) = self.st.conc.get(&e) {
            return Ok(*k);
        }
        let w = self.p.w(e);
        loop {
            // every round leaves exactly one decision in the trace, so that a replay reads the same rounds
            if let Some(d) = self.next_dec() {
                let Dec::Val(k, side, forced) = d else { return err("replay divergence (value)") };
                self.st.trace.push(d);
                let kc = self.p.cst(k, w);
                let c = self.p.eq(e, kc);
                if !forced {
                    let n = self.p.not(c);
                    self.add_pc(if side { c } else { n });
                }
                if self.st.replay.is_none() {
                    self.sync_model()?;
                }
                if side {
                    Rc::make_mut(&mut self.st.conc).insert(e, k);
                    return Ok(k);
                }
                continue;
            }
            let k = self.eval_model(e);
            let kc = self.p.cst(k, w);
            let c = self.p.eq(e, kc);
            let known = match self.p.is_const(c) {
                Some(x) => Some(x != 0),
                None => self.known(c),
            };
            let side = match known {
                Some(true) => {
                    self.st.trace.push(Dec::Val(k, true, true));
                    true
                }
                Some(false) => {
                    let mut bad = vec![];
                    for c in self.st.pc.clone() {
                        if self.eval_model(c) == 0 {
                            bad.push(self.p.show(c));
                        }
                    }
                    return err(format!("model out of step: {} = {} but {}; violated: {:?}", self.p.show(e), k, self.p.show(c), bad));
                }
                None => self.branch(c, Some(k))?,
            };
            if side {
                Rc::make_mut(&mut self.st.conc).insert(e, k);
                return Ok(k);
            }
        }
    }

    /// Size of an allocation: every value up to 512, above that one representative and (if feasible) a failing size.
    fn alloc_size(&mut self, v: &Val) -> R<u64> {
        let e = match v {
            Val::I(x) => return Ok(*x as u64),
            Val::E(e) => *e,
            Val::A(_) => return err("size aggregate"),
        };
        if let Some(k) = self.st.conc.get(&e) {
            return Ok(*k as u64);
        }
        let small = self.sh.alloc_enum;
        for lim in [small, ALLOC_FAIL] {
            let l = self.p.cst(lim as u128, 64);
            let gt = self.p.cmp(Op::Ult, l, e);
            if !self.branch(gt, None)? {
                if lim == small {
                    return Ok(self.concretize(v)? as u64);
                }
                break;
            }
        }
        let d = if self.st.replay.is_some() { self.next_dec() } else { None };
        let k = match d {
            Some(Dec::Val(k, _, _)) => k,
            Some(_) => return err("replay divergence (size)"),
            None => self.eval_model(e),
        };
        self.st.trace.push(Dec::Val(k, true, false));
        let kc = self.p.cst(k, 64);
        let c = self.p.eq(e, kc);
        self.add_pc(c);
        if self.st.replay.is_none() {
            self.sync_model()?;
        }
        Rc::make_mut(&mut self.st.conc).insert(e, k);
        self.res.representatives += 1;
        Ok(k as u64)
    }

    // -------------------------------------------------------------- memory
    fn alloc(&mut self, n: usize) -> u64 {
        self.st.live_heap += 1;
        // huge objects are only backed up to a page (accesses beyond it are reported)
        let i = self.st.heap.push(Rc::new(Obj::new(if n > 1 << 24 { 4096 } else { n })));
        (HEAP_BASE + i as u64) << 32
    }
    fn stk(&self, id: u64) -> Option<&Rc<Obj>> {
        let k = id - STACK_BASE;
        let (co, i) = ((k >> CO_SHIFT) as u32, (k & ((1 << CO_SHIFT) - 1)) as usize);
        if co == self.st.cur {
            self.st.stack.get(i)
        } else {
            self.st.cos.get(co as usize)?.as_ref()?.stack.get(i)
        }
    }
    fn co_switch(&mut self, to: u32) -> R<()> {
        if to == self.st.cur {
            return Ok(());
        }
        let Some(Some(next)) = self.st.cos.get_mut(to as usize).map(|x| x.take()) else {
            return err("switch to an unknown coroutine");
        };
        let next = Rc::try_unwrap(next).unwrap_or_else(|r| (*r).clone());
        let mut tls = Vec::with_capacity(self.m.tls.len());
        for (k, g) in self.m.tls.iter().enumerate() {
            tls.push(self.st.globals.get(*g).cloned());
            self.st.globals.set(*g, next.tls.get(k).cloned().flatten());
        }
        let old = Co {
            frames: std::mem::replace(&mut self.st.frames, next.frames),
            regs: std::mem::replace(&mut self.st.regs, next.regs),
            stack: std::mem::replace(&mut self.st.stack, next.stack),
            exc: std::mem::replace(&mut self.st.exc, next.exc),
            tls,
        };
        let c = self.st.cur as usize;
        self.st.cos[c] = Some(Rc::new(old));
        self.st.cur = to;
        Ok(())
    }
    fn obj(&mut self, id: u64, what: &str, addr: u64) -> R<Rc<Obj>> {
        if id >= STACK_BASE {
            if let Some(o) = self.stk(id) {
                return Ok(o.clone());
            }
        } else if id >= FUNC_BASE {
            return err(format!("{} of code address {:#x}", what, addr));
        } else if id >= HEAP_BASE {
            if let Some(o) = self.st.heap.get((id - HEAP_BASE) as usize) {
                return Ok(o.clone());
            }
            return Err(Stop::Violation(format!("memory error: {} of freed or invalid heap object at {:#x}", what, addr)));
        } else if id >= GLOBAL_BASE {
            let g = (id - GLOBAL_BASE) as usize;
            if let Some(o) = self.st.globals.get(g) {
                return Ok(o.clone());
            }
            if g < self.m.globals.len() {
                return self.gobj(g);
            }
        }
        Err(Stop::Violation(format!("memory error: {} of invalid address {:#x}", what, addr)))
    }
    fn gobj(&mut self, g: usize) -> R<Rc<Obj>> {
        if let Some(o) = &self.gcache[g] {
            return Ok(o.clone());
        }
        let gl = &self.m.globals[g];
        if gl.init.is_none() {
            // external global: give it zeroed storage
            let o = Rc::new(Obj::new(gl.size.max(64) as usize));
            self.gcache[g] = Some(o.clone());
            return Ok(o);
        }
        let b = match self.m.global_bytes(gl) {
            Ok(b) => b,
            Err(e) => return err(e),
        };
        let o = Rc::new(Obj { data: b, sym: None, constant: gl.constant });
        self.gcache[g] = Some(o.clone());
        Ok(o)
    }
    /// Reference for reading; bounds-checked.
    fn rd(&mut self, addr: u64, n: usize) -> R<&Obj> {
        let (id, off) = (addr >> 32, (addr & 0xffff_ffff) as usize);
        // fast paths without touching the reference count
        let len;
        {
            let o: Option<&Rc<Obj>> = if id >= STACK_BASE {
                self.stk(id)
            } else if id >= FUNC_BASE {
                None
            } else if id >= HEAP_BASE {
                self.st.heap.get((id - HEAP_BASE) as usize)
            } else if id >= GLOBAL_BASE {
                let g = (id - GLOBAL_BASE) as usize;
                match self.st.globals.get(g) {
                    Some(o) => Some(o),
                    None => self.gcache.get(g).and_then(|x| x.as_ref()),
                }
            } else {
                None
            };
            if let Some(o) = o {
                len = o.data.len();
                if off + n <= len {
                    let p: *const Obj = &**o;
                    return Ok(unsafe { &*p });
                }
                return Err(Stop::Violation(format!("memory error: read of {} bytes at {:#x} beyond object of {} bytes", n, addr, len)));
            }
        }
        let o = self.obj(id, "read", addr)?;
        if off + n > o.data.len() {
            return Err(Stop::Violation(format!("memory error: read of {} bytes at {:#x} beyond object of {} bytes", n, addr, o.data.len())));
        }
        // obj() filled the cache
        let p: *const Obj = &*o;
        Ok(unsafe { &*p })
    }
    fn wr(&mut self, addr: u64, n: usize) -> R<&mut Obj> {
        let (id, off) = (addr >> 32, (addr & 0xffff_ffff) as usize);
        let o: &mut Rc<Obj> = if id >= STACK_BASE {
            let k = id - STACK_BASE;
            let (co, i) = ((k >> CO_SHIFT) as u32, (k & ((1 << CO_SHIFT) - 1)) as usize);
            let o = if co == self.st.cur {
                self.st.stack.get_mut(i)
            } else {
                match self.st.cos.get_mut(co as usize) {
                    Some(Some(c)) => Rc::make_mut(c).stack.get_mut(i),
                    _ => None,
                }
            };
            match o {
                Some(o) => o,
                None => return Err(Stop::Violation(format!("memory error: write to invalid stack address {:#x}", addr))),
            }
        } else if id >= FUNC_BASE {
            return err("write to code");
        } else if id >= HEAP_BASE {
            match self.st.heap.get_mut((id - HEAP_BASE) as usize) {
                Some(o) => o,
                None => return Err(Stop::Violation(format!("memory error: write to freed heap object {:#x}", addr))),
            }
        } else if id >= GLOBAL_BASE {
            let g = (id - GLOBAL_BASE) as usize;
            if g >= self.m.globals.len() {
                return Err(Stop::Violation(format!("memory error: write to invalid address {:#x}", addr)));
            }
            if self.st.globals.get(g).is_none() {
                let o = self.gobj(g)?;
                if o.constant {
                    return Err(Stop::Violation(format!("memory error: write to constant {}", self.m.globals[g].name)));
                }
                self.st.globals.set(g, Some(o));
            }
            self.st.globals.get_mut(g).unwrap()
        } else {
            return Err(Stop::Violation(format!("memory error: write to invalid address {:#x}", addr)));
        };
        let o = Rc::make_mut(o);
        if off + n > o.data.len() {
            return Err(Stop::Violation(format!("memory error: write of {} bytes at {:#x} beyond object of {} bytes", n, addr, o.data.len())));
        }
        Ok(o)
    }
    fn byte(&mut self, addr: u64) -> R<Val> {
        let o = self.rd(addr, 1)?;
        let off = (addr & 0xffff_ffff) as usize;
        if let Some(s) = &o.sym {
            if let Some(e) = s.get(&(off as u32)) {
                return Ok(Val::E(*e));
            }
        }
        Ok(Val::I(o.data[off] as u128))
    }
    fn load_int(&mut self, addr: u64, bits: u32) -> R<Val> {
        let n = bits.div_ceil(8) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        let o = self.rd(addr, n)?;
        if o.sym.is_none() || !o.has_sym(off, n) {
            let d = &o.data[off..off + n];
            let v = match n {
                8 => u64::from_le_bytes(d.try_into().unwrap()) as u128,
                4 => u32::from_le_bytes(d.try_into().unwrap()) as u128,
                1 => d[0] as u128,
                2 => u16::from_le_bytes(d.try_into().unwrap()) as u128,
                _ => {
                    let mut v = 0u128;
                    for (i, b) in d.iter().enumerate() {
                        v |= (*b as u128) << (8 * i);
                    }
                    v
                }
            };
            return Ok(Val::I(v & mask(bits)));
        }
        let mut parts = vec![];
        for i in 0..n {
            let b = match o.sym.as_ref().unwrap().get(&((off + i) as u32)) {
                Some(e) => Val::E(*e),
                None => Val::I(o.data[off + i] as u128),
            };
            parts.push(b);
        }
        let mut acc = self.ex(&parts[n - 1], 8)?;
        for i in (0..n - 1).rev() {
            let l = self.ex(&parts[i], 8)?;
            acc = self.p.concat(acc, l);
        }
        let acc = if (n * 8) as u32 != bits { self.p.extract(acc, 0, bits) } else { acc };
        Ok(self.wrap(acc))
    }
    fn load(&mut self, addr: u64, lay: &Lay) -> R<Val> {
        match lay {
            Lay::Int(b) => self.load_int(addr, *b),
            Lay::Agg(fs) => {
                let mut v = Vec::with_capacity(fs.len());
                for (o, l) in fs.iter() {
                    v.push(self.load(addr + o, l)?);
                }
                Ok(Val::A(Rc::new(v)))
            }
            Lay::Vec(n, ew) => {
                let mut v = vec![];
                if *ew >= 8 {
                    for i in 0..*n {
                        v.push(self.load_int(addr + i * (*ew as u64 / 8), *ew)?);
                    }
                } else {
                    let b = self.load_int(addr, (*n as u32 * ew).div_ceil(8) * 8)?;
                    for i in 0..*n as u32 {
                        let e = self.ext(&b, (*n as u32 * ew).div_ceil(8) * 8, i * ew, *ew)?;
                        v.push(e);
                    }
                }
                Ok(Val::A(Rc::new(v)))
            }
        }
    }
    fn ext(&mut self, v: &Val, _w: u32, lo: u32, n: u32) -> R<Val> {
        match v {
            Val::I(x) => Ok(Val::I((x >> lo) & mask(n))),
            Val::E(e) => {
                let r = self.p.extract(*e, lo, n);
                Ok(self.wrap(r))
            }
            _ => err("ext"),
        }
    }
    fn store_int(&mut self, addr: u64, v: &Val, bits: u32) -> R<()> {
        let n = bits.div_ceil(8) as usize;
        let off = (addr & 0xffff_ffff) as usize;
        match v {
            Val::I(x) => {
                let o = self.wr(addr, n)?;
                if o.sym.is_some() {
                    o.clear_sym(off, n);
                }
                let d = &mut o.data[off..off + n];
                match n {
                    8 => d.copy_from_slice(&(*x as u64).to_le_bytes()),
                    4 => d.copy_from_slice(&(*x as u32).to_le_bytes()),
                    1 => d[0] = *x as u8,
                    _ => {
                        for (i, b) in d.iter_mut().enumerate() {
                            *b = (x >> (8 * i)) as u8;
                        }
                    }
                }
                Ok(())
            }
            Val::E(e) => {
                let mut e = *e;
                if (n * 8) as u32 != bits {
                    e = self.p.zext(e, (n * 8) as u32);
                }
                let bytes: Vec<Ex> = (0..n).map(|i| self.p.extract(e, 8 * i as u32, 8)).collect();
                let consts: Vec<Option<u128>> = bytes.iter().map(|b| self.p.is_const(*b)).collect();
                let o = self.wr(addr, n)?;
                for i in 0..n {
                    match consts[i] {
                        Some(k) => {
                            o.data[off + i] = k as u8;
                            if let Some(s) = &mut o.sym {
                                s.remove(&((off + i) as u32));
                            }
                        }
                        None => {
                            o.sym.get_or_insert_with(Default::default).insert((off + i) as u32, bytes[i]);
                        }
                    }
                }
                Ok(())
            }
            Val::A(_) => err("store_int aggregate"),
        }
    }
    fn store(&mut self, addr: u64, v: &Val, lay: &Lay) -> R<()> {
        match lay {
            Lay::Int(b) => self.store_int(addr, v, *b),
            Lay::Agg(fs) => {
                let Val::A(vs) = v else { return err("store agg") };
                for (i, (o, l)) in fs.iter().enumerate() {
                    self.store(addr + o, &vs[i], l)?;
                }
                Ok(())
            }
            Lay::Vec(n, ew) => {
                let Val::A(vs) = v else { return err("store vec") };
                if *ew >= 8 {
                    for i in 0..*n as usize {
                        self.store_int(addr + i as u64 * (*ew as u64 / 8), &vs[i], *ew)?;
                    }
                    Ok(())
                } else {
                    let r = self.vec_to_int(vs, *ew)?;
                    self.store_int(addr, &r, *n as u32 * ew)
                }
            }
        }
    }
    fn vec_to_int(&mut self, vs: &[Val], ew: u32) -> R<Val> {
        if vs.iter().all(|v| matches!(v, Val::I(_))) {
            let mut r = 0u128;
            for (i, v) in vs.iter().enumerate() {
                if let Val::I(x) = v {
                    if (i as u32) * ew < 128 {
                        r |= x << (i as u32 * ew);
                    }
                }
            }
            return Ok(Val::I(r));
        }
        let mut acc = self.ex(&vs[vs.len() - 1], ew)?;
        for i in (0..vs.len() - 1).rev() {
            let l = self.ex(&vs[i], ew)?;
            acc = self.p.concat(acc, l);
        }
        Ok(self.wrap(acc))
    }
    fn int_to_vec(&mut self, v: &Val, n: u64, ew: u32) -> R<Vec<Val>> {
        let mut out = vec![];
        for i in 0..n as u32 {
            out.push(self.ext(v, 0, i * ew, ew)?);
        }
        Ok(out)
    }
    fn addr(&mut self, v: &Val) -> R<u64> {
        match v {
            Val::I(x) => Ok(*x as u64),
            _ => Ok(self.concretize(v)? as u64),
        }
    }
    fn copy(&mut self, d: u64, s: u64, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let soff = (s & 0xffff_ffff) as usize;
        let doff = (d & 0xffff_ffff) as usize;
        let o = self.rd(s, n)?;
        let data = o.data[soff..soff + n].to_vec();
        let sy: Vec<(u32, Ex)> = match &o.sym {
            None => vec![],
            Some(m) => m.range(soff as u32..(soff + n) as u32).map(|(k, v)| (*k - soff as u32, *v)).collect(),
        };
        let o = self.wr(d, n)?;
        if o.sym.is_some() {
            o.clear_sym(doff, n);
        }
        o.data[doff..doff + n].copy_from_slice(&data);
        for (k, e) in sy {
            o.sym.get_or_insert_with(Default::default).insert(doff as u32 + k, e);
        }
        Ok(())
    }
    fn str_at(&mut self, a: u64, n: usize) -> R<String> {
        if n == 0 {
            return Ok(String::new());
        }
        let off = (a & 0xffff_ffff) as usize;
        let o = self.rd(a, n)?;
        Ok(String::from_utf8_lossy(&o.data[off..off + n]).into_owned())
    }

    // -------------------------------------------------------------- arithmetic
    fn bin(&mut self, op: BinOp, w: u32, a: &Val, b: &Val) -> R<Val> {
        let o = match op {
            BinOp::Add => Op::Add,
            BinOp::Sub => Op::Sub,
            BinOp::Mul => Op::Mul,
            BinOp::UDiv => Op::UDiv,
            BinOp::SDiv => Op::SDiv,
            BinOp::URem => Op::URem,
            BinOp::SRem => Op::SRem,
            BinOp::Shl => Op::Shl,
            BinOp::LShr => Op::LShr,
            BinOp::AShr => Op::AShr,
            BinOp::And => Op::And,
            BinOp::Or => Op::Or,
            BinOp::Xor => Op::Xor,
            _ => {
                let (Val::I(x), Val::I(y)) = (a, b) else { return err("symbolic float") };
                return Ok(Val::I(if w == 64 {
                    let (x, y) = (f64::from_bits(*x as u64), f64::from_bits(*y as u64));
                    match op {
                        BinOp::FAdd => x + y,
                        BinOp::FSub => x - y,
                        BinOp::FMul => x * y,
                        BinOp::FDiv => x / y,
                        _ => x % y,
                    }
                    .to_bits() as u128
                } else {
                    let (x, y) = (f32::from_bits(*x as u32), f32::from_bits(*y as u32));
                    match op {
                        BinOp::FAdd => x + y,
                        BinOp::FSub => x - y,
                        BinOp::FMul => x * y,
                        BinOp::FDiv => x / y,
                        _ => x % y,
                    }
                    .to_bits() as u128
                }));
            }
        };
        if let (Val::I(x), Val::I(y)) = (a, b) {
            if matches!(o, Op::UDiv | Op::SDiv | Op::URem | Op::SRem) && *y == 0 {
                return Err(Stop::Violation("division by zero".into()));
            }
            return Ok(Val::I(fold(o, w, *x, *y)));
        }
        let (x, y) = (self.ex(a, w)?, self.ex(b, w)?);
        let r = self.p.bin(o, x, y);
        Ok(self.wrap(r))
    }
    fn icmp(&mut self, p: Pred, w: u32, a: &Val, b: &Val) -> R<Val> {
        let (o, neg, swap) = match p {
            Pred::Eq => (Op::Eq, false, false),
            Pred::Ne => (Op::Eq, true, false),
            Pred::Ult => (Op::Ult, false, false),
            Pred::Ule => (Op::Ule, false, false),
            Pred::Ugt => (Op::Ult, false, true),
            Pred::Uge => (Op::Ule, false, true),
            Pred::Slt => (Op::Slt, false, false),
            Pred::Sle => (Op::Sle, false, false),
            Pred::Sgt => (Op::Slt, false, true),
            Pred::Sge => (Op::Sle, false, true),
        };
        let (a, b) = if swap { (b, a) } else { (a, b) };
        if let (Val::I(x), Val::I(y)) = (a, b) {
            return Ok(Val::I((foldcmp(o, w, *x, *y) ^ neg) as u128));
        }
        let (x, y) = (self.ex(a, w)?, self.ex(b, w)?);
        let mut r = self.p.cmp(o, x, y);
        if neg {
            r = self.p.not(r);
        }
        Ok(self.wrap(r))
    }
    fn select(&mut self, c: &Val, a: &Val, b: &Val, w: Option<u32>) -> R<Val> {
        match c {
            Val::I(x) => Ok(if x & 1 != 0 { a.clone() } else { b.clone() }),
            Val::E(ce) => match w {
                Some(w) => {
                    let (x, y) = (self.ex(a, w)?, self.ex(b, w)?);
                    // keep pointers concrete: fork instead of building an ite over addresses
                    if w == 64 {
                        if let (Val::I(p), Val::I(q)) = (a, b) {
                            if p >> 32 >= 1 && q >> 32 >= 1 && (p >> 32) < (1 << 31) && (q >> 32) < (1 << 31) {
                                return Ok(if self.branch(*ce, None)? { a.clone() } else { b.clone() });
                            }
                        }
                    }
                    let r = self.p.ite(*ce, x, y);
                    Ok(self.wrap(r))
                }
                None => Ok(if self.branch(*ce, None)? { a.clone() } else { b.clone() }),
            },
            _ => err("select on vector"),
        }
    }

    // -------------------------------------------------------------- control
    fn goto(&mut self, base: u32, e: &Edge) {
        match e.copies.len() {
            0 => {}
            1 => {
                let v = self.get(base, &e.copies[0].1);
                self.set(base, e.copies[0].0, v);
            }
            _ => {
                let vs: Vec<Val> = e.copies.iter().map(|c| self.get(base, &c.1)).collect();
                for (c, v) in e.copies.iter().zip(vs) {
                    self.set(base, c.0, v);
                }
            }
        }
        let f = self.st.frames.last_mut().unwrap();
        f.blk = e.to;
        f.ip = 0;
    }
    fn push_frame(&mut self, func: u32, args: &[Val]) -> R<()> {
        let code = self.code(func)?;
        let base = self.st.regs.len() as u32;
        if self.st.frames.len() > 6000 {
            return Err(Stop::Violation("stack overflow (call depth 6000)".into()));
        }
        self.st.regs.resize(base as usize + code.nregs as usize, Val::I(0));
        for (i, a) in args.iter().enumerate() {
            self.st.regs[base as usize + i] = a.clone();
        }
        let sbase = self.st.stack.len() as u32;
        self.res.funcs.insert(func);
        self.st.frames.push(Frame { func, code, blk: 0, ip: 0, base, sbase });
        Ok(())
    }
    fn pop_frame(&mut self) -> Frame {
        let f = self.st.frames.pop().unwrap();
        self.st.regs.truncate(f.base as usize);
        self.st.stack.truncate(f.sbase as usize);
        f
    }
    /// complete the call instruction the top frame is waiting at
    fn ret(&mut self, v: Option<Val>) -> R<()> {
        let f = self.st.frames.last().unwrap();
        let base = f.base;
        let inst = &f.code.blocks[f.blk as usize].insts[f.ip as usize];
        let Inst::Call { d, inv, .. } = inst else { return err("return into non-call") };
        if let Some(d) = d {
            self.set(base, *d, v.unwrap_or(Val::I(0)));
        }
        match inv {
            Some(e) => self.goto(base, &e.0),
            None => self.st.frames.last_mut().unwrap().ip += 1,
        }
        Ok(())
    }
    fn unwind(&mut self, exc: u128) -> R<()> {
        self.st.exc = exc;
        loop {
            if self.st.frames.is_empty() {
                return Err(Stop::Violation("uncaught panic".into()));
            }
            let f = self.st.frames.last().unwrap();
            let base = f.base;
            if let Inst::Call { inv: Some(e), .. } = &f.code.blocks[f.blk as usize].insts[f.ip as usize] {
                self.goto(base, &e.1);
                return Ok(());
            }
            self.pop_frame();
        }
    }

    pub fn run_path(&mut self) -> Stop {
        loop {
            match self.steps() {
                Ok(()) => {}
                Err(e) => return e,
            }
        }
    }
    fn steps(&mut self) -> R<()> {
        if self.sh.stop.load(Ordering::Relaxed) {
            return Err(Stop::Cancel);
        }
        if Instant::now() > self.sh.deadline {
            self.res.timed_out = true;
            self.sh.stop.store(true, Ordering::SeqCst);
            return Err(Stop::Cancel);
        }
        if self.st.icount > self.sh.max_inst {
            return Err(Stop::Limit);
        }
        self.donate();
        for _ in 0..4096 {
            self.st.icount += 1;
            self.step()?;
            if !self.st.forced.is_empty() {
                self.st.forced.clear();
            }
        }
        Ok(())
    }

    #[inline(always)]
    fn step(&mut self) -> R<()> {
        let f = self.st.frames.last().unwrap();
        let base = f.base;
        let code = f.code;
        let inst: &'static Inst = &code.blocks[f.blk as usize].insts[f.ip as usize];
        macro_rules! next {
            () => {
                self.st.frames.last_mut().unwrap().ip += 1
            };
        }
        match inst {
            Inst::Bin { op, w, d, a, b } => {
                let (x, y) = (self.get(base, a), self.get(base, b));
                let r = self.bin(*op, *w, &x, &y)?;
                self.set(base, *d, r);
                next!();
            }
            Inst::ICmp { p, w, d, a, b } => {
                let (x, y) = (self.get(base, a), self.get(base, b));
                let r = self.icmp(*p, *w, &x, &y)?;
                self.set(base, *d, r);
                next!();
            }
            Inst::Load { d, p, lay } => {
                let a = self.get(base, p);
                let a = self.addr(&a)?;
                let v = self.load(a, lay)?;
                self.set(base, *d, v);
                next!();
            }
            Inst::Store { v, p, lay } => {
                let a = self.get(base, p);
                let a = self.addr(&a)?;
                let x = self.get(base, v);
                self.store(a, &x, lay)?;
                next!();
            }
            Inst::Gep { d, base: b, off, idx } => {
                let p = self.get(base, b);
                let r = self.gep(base, &p, *off, idx)?;
                self.set(base, *d, r);
                next!();
            }
            Inst::Br(e) => self.goto(base, e),
            Inst::CondBr { c, t, f } => {
                let v = self.get(base, c);
                if self.branch_val(&v)? {
                    self.goto(base, t)
                } else {
                    self.goto(base, f)
                }
            }
            Inst::Select { d, c, a, b, w, vec } => {
                let (cv, x, y) = (self.get(base, c), self.get(base, a), self.get(base, b));
                let r = if *vec {
                    let (Val::A(cs), Val::A(xs), Val::A(ys)) = (&cv, &x, &y) else { return err("vector select") };
                    let mut o = vec![];
                    for i in 0..cs.len() {
                        let ww = match (&xs[i], &ys[i]) {
                            (Val::E(e), _) | (_, Val::E(e)) => Some(self.p.w(*e)),
                            _ => None,
                        };
                        o.push(self.select(&cs[i], &xs[i], &ys[i], ww)?);
                    }
                    Val::A(Rc::new(o))
                } else {
                    self.select(&cv, &x, &y, *w)?
                };
                self.set(base, *d, r);
                next!();
            }
            Inst::Switch { v, w, def, cases } => {
                let x = self.get(base, v);
                match x {
                    Val::I(k) => {
                        let e = cases.iter().find(|c| c.0 == k).map(|c| &c.1).unwrap_or(def);
                        self.goto(base, e);
                    }
                    Val::E(e) => {
                        // group cases by target edge would lose values; decide case by case
                        for (k, ed) in cases {
                            let kc = self.p.cst(*k, *w);
                            let c = self.p.eq(e, kc);
                            if self.branch(c, None)? {
                                self.goto(base, ed);
                                return Ok(());
                            }
                        }
                        self.goto(base, def);
                    }
                    _ => return err("switch"),
                }
            }
            Inst::Call { f, args, retlay, argtys, .. } => {
                let func = match f {
                    Callee::Func(i) => *i,
                    Callee::Ind(o) => {
                        let v = self.get(base, o);
                        let a = self.addr(&v)?;
                        let id = a >> 32;
                        if id < FUNC_BASE || id >= FUNC_BASE + self.m.funcs.len() as u64 || a & 0xffff_ffff != 0 {
                            return Err(Stop::Violation(format!("memory error: call of invalid address {:#x}", a)));
                        }
                        (id - FUNC_BASE) as u32
                    }
                };
                let mut vs: Vec<Val> = Vec::with_capacity(args.len());
                for a in args {
                    vs.push(self.get(base, a));
                }
                self.call(func, &vs, retlay.as_ref(), argtys)?;
            }
            Inst::Ret(o) => {
                let v = o.as_ref().map(|o| self.get(base, o));
                self.pop_frame();
                if self.st.frames.is_empty() {
                    if self.st.cur != 0 {
                        return err("coroutine function returned");
                    }
                    return Err(Stop::Done);
                }
                self.ret(v)?;
            }
            Inst::Trunc { d, a, to } => {
                let v = self.get(base, a);
                let r = match v {
                    Val::I(x) => Val::I(x & mask(*to)),
                    Val::E(e) => {
                        let r = self.p.extract(e, 0, *to);
                        self.wrap(r)
                    }
                    _ => return err("trunc"),
                };
                self.set(base, *d, r);
                next!();
            }
            Inst::ZExt { d, a, to, .. } => {
                let v = self.get(base, a);
                let r = match v {
                    Val::I(x) => Val::I(x),
                    Val::E(e) => Val::E(self.p.zext(e, *to)),
                    _ => return err("zext"),
                };
                self.set(base, *d, r);
                next!();
            }
            Inst::SExt { d, a, from, to } => {
                let v = self.get(base, a);
                let r = match v {
                    Val::I(x) => Val::I(sext(x, *from) as u128 & mask(*to)),
                    Val::E(e) => Val::E(self.p.sext(e, *to)),
                    _ => return err("sext"),
                };
                self.set(base, *d, r);
                next!();
            }
            Inst::Mov { d, a } => {
                let v = self.get(base, a);
                self.set(base, *d, v);
                next!();
            }
            Inst::Alloca { d, size, n, .. } => {
                let k = self.get(base, n);
                let k = self.concretize(&k)? as u64;
                let id = ((self.st.cur as u64) << CO_SHIFT) + self.st.stack.len() as u64;
                self.st.stack.push(Rc::new(Obj::new((size * k) as usize)));
                self.set(base, *d, Val::I((((STACK_BASE + id) << 32) as u128) as u128));
                next!();
            }
            Inst::ExtractValue { d, a, path } => {
                let mut v = self.get(base, a);
                for i in path {
                    let Val::A(x) = &v else { return err("extractvalue") };
                    v = x[*i as usize].clone();
                }
                self.set(base, *d, v);
                next!();
            }
            Inst::InsertValue { d, a, v, path, .. } => {
                let mut agg = self.get(base, a);
                let x = self.get(base, v);
                fn ins(a: &mut Val, path: &[u32], x: Val) -> bool {
                    if path.is_empty() {
                        *a = x;
                        return true;
                    }
                    let Val::A(v) = a else { return false };
                    ins(&mut Rc::make_mut(v)[path[0] as usize], &path[1..], x)
                }
                if !ins(&mut agg, path, x) {
                    return err("insertvalue");
                }
                self.set(base, *d, agg);
                next!();
            }
            Inst::CmpXchg { d, p, cmp, new, w } => {
                let a = self.get(base, p);
                let a = self.addr(&a)?;
                let old = self.load_int(a, *w)?;
                let c = self.get(base, cmp);
                let n = self.get(base, new);
                let eq = self.icmp(Pred::Eq, *w, &old, &c)?;
                let ok = self.branch_val(&eq)?;
                if ok {
                    self.store_int(a, &n, *w)?;
                }
                self.set(base, *d, Val::A(Rc::new(vec![old, Val::I(ok as u128)])));
                next!();
            }
            Inst::AtomicRmw { d, op, p, v, w } => {
                let a = self.get(base, p);
                let a = self.addr(&a)?;
                let old = self.load_int(a, *w)?;
                let x = self.get(base, v);
                let new = match op {
                    BinOp::Xchg => x,
                    BinOp::Nand => {
                        let r = self.bin(BinOp::And, *w, &old, &x)?;
                        self.bin(BinOp::Xor, *w, &r, &Val::I(mask(*w)))?
                    }
                    BinOp::Max | BinOp::Min | BinOp::UMax | BinOp::UMin => {
                        let p = match op {
                            BinOp::Max => Pred::Sgt,
                            BinOp::Min => Pred::Slt,
                            BinOp::UMax => Pred::Ugt,
                            _ => Pred::Ult,
                        };
                        let c = self.icmp(p, *w, &old, &x)?;
                        self.select(&c, &old, &x, Some(*w))?
                    }
                    _ => self.bin(*op, *w, &old, &x)?,
                };
                self.store_int(a, &new, *w)?;
                self.set(base, *d, old);
                next!();
            }
            Inst::Fence => next!(),
            Inst::Landing { d } => {
                let e = self.st.exc;
                self.set(base, *d, Val::A(Rc::new(vec![Val::I(e), Val::I(1)])));
                next!();
            }
            Inst::Resume(o) => {
                let v = self.get(base, o);
                let Val::A(a) = v else { return err("resume") };
                let Val::I(e) = a[0] else { return err("resume") };
                self.pop_frame();
                self.unwind(e)?;
            }
            Inst::Unreachable => return Err(Stop::Violation("reached unreachable code".into())),
            Inst::VBin { op, w, d, a, b } => {
                let (x, y) = (self.get(base, a), self.get(base, b));
                let (Val::A(x), Val::A(y)) = (x, y) else { return err("vbin") };
                let mut o = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    o.push(self.bin(*op, *w, &x[i], &y[i])?);
                }
                self.set(base, *d, Val::A(Rc::new(o)));
                next!();
            }
            Inst::VICmp { p, w, d, a, b } => {
                let (x, y) = (self.get(base, a), self.get(base, b));
                let (Val::A(x), Val::A(y)) = (x, y) else { return err("vicmp") };
                let mut o = Vec::with_capacity(x.len());
                for i in 0..x.len() {
                    o.push(self.icmp(*p, *w, &x[i], &y[i])?);
                }
                self.set(base, *d, Val::A(Rc::new(o)));
                next!();
            }
            Inst::VCast { d, a, kind, from, to } => {
                let Val::A(x) = self.get(base, a) else { return err("vcast") };
                let mut o = vec![];
                for v in x.iter() {
                    o.push(match v {
                        Val::I(k) => Val::I(match kind {
                            b's' => sext(*k, *from) as u128 & mask(*to),
                            _ => *k & mask(*to),
                        }),
                        Val::E(e) => {
                            let r = match kind {
                                b't' => self.p.extract(*e, 0, *to),
                                b'z' => self.p.zext(*e, *to),
                                _ => self.p.sext(*e, *to),
                            };
                            self.wrap(r)
                        }
                        _ => return err("vcast"),
                    });
                }
                self.set(base, *d, Val::A(Rc::new(o)));
                next!();
            }
            Inst::BitcastVI { d, a, ew, .. } => {
                let Val::A(x) = self.get(base, a) else { return err("bitcast") };
                let r = self.vec_to_int(&x, *ew)?;
                self.set(base, *d, r);
                next!();
            }
            Inst::BitcastIV { d, a, n, ew } => {
                let v = self.get(base, a);
                let r = self.int_to_vec(&v, *n, *ew)?;
                self.set(base, *d, Val::A(Rc::new(r)));
                next!();
            }
            Inst::BitcastVV { d, a, ew, n2, ew2, .. } => {
                let Val::A(x) = self.get(base, a) else { return err("bitcast") };
                let r = self.vec_to_int(&x, *ew)?;
                let r = self.int_to_vec(&r, *n2, *ew2)?;
                self.set(base, *d, Val::A(Rc::new(r)));
                next!();
            }
            Inst::ExtractElt { d, a, i } => {
                let Val::A(x) = self.get(base, a) else { return err("extractelement") };
                let i = self.get(base, i);
                let i = self.concretize(&i)? as usize;
                self.set(base, *d, x[i].clone());
                next!();
            }
            Inst::InsertElt { d, a, v, i, n } => {
                let mut x = match self.get(base, a) {
                    Val::A(x) => (*x).clone(),
                    _ => vec![Val::I(0); *n as usize],
                };
                let i = self.get(base, i);
                let i = self.concretize(&i)? as usize;
                x[i] = self.get(base, v);
                self.set(base, *d, Val::A(Rc::new(x)));
                next!();
            }
            Inst::Shuffle { d, a, b, n, mask } => {
                let (Val::A(x), Val::A(y)) = (self.get(base, a), self.get(base, b)) else { return err("shuffle") };
                let o = mask.iter().map(|&i| {
                    if (i as u64) < *n {
                        x[i as usize].clone()
                    } else {
                        y[(i as u64 - *n) as usize].clone()
                    }
                }).collect();
                self.set(base, *d, Val::A(Rc::new(o)));
                next!();
            }
            Inst::FNeg { d, a, w } => {
                let v = self.get(base, a);
                let r = self.bin(BinOp::Xor, *w, &v, &Val::I(1u128 << (w - 1)))?;
                self.set(base, *d, r);
                next!();
            }
            Inst::FCmp { p, w, d, a, b } => {
                let (Val::I(x), Val::I(y)) = (self.get(base, a), self.get(base, b)) else { return err("symbolic float") };
                let (x, y) = if *w == 64 { (f64::from_bits(x as u64), f64::from_bits(y as u64)) } else { (f32::from_bits(x as u32) as f64, f32::from_bits(y as u32) as f64) };
                let un = x.is_nan() || y.is_nan();
                let core = match &p[1..] {
                    "eq" => x == y,
                    "ne" => x != y,
                    "lt" => x < y,
                    "le" => x <= y,
                    "gt" => x > y,
                    "ge" => x >= y,
                    _ => false,
                };
                let r = match p.as_str() {
                    "true" => true,
                    "false" => false,
                    "ord" => !un,
                    "uno" => un,
                    s if s.starts_with('o') => !un && core,
                    _ => un || core,
                };
                self.set(base, *d, Val::I(r as u128));
                next!();
            }
            Inst::FConv { d, a, kind, from, to } => {
                let Val::I(x) = self.get(base, a) else { return err("symbolic float") };
                let f = |x: u128, w: u32| if w == 64 { f64::from_bits(x as u64) } else { f32::from_bits(x as u32) as f64 };
                let tf = |v: f64, w: u32| if w == 64 { v.to_bits() as u128 } else { (v as f32).to_bits() as u128 };
                let r = match *kind {
                    "fptoui" => (f(x, *from) as u128) & mask(*to),
                    "fptosi" => (f(x, *from) as i128 as u128) & mask(*to),
                    "uitofp" => tf(x as f64, *to),
                    "sitofp" => tf(sext(x, *from) as f64, *to),
                    _ => tf(f(x, *from), *to),
                };
                self.set(base, *d, Val::I(r));
                next!();
            }
            Inst::Unsupported(s) => return err(format!("unsupported instruction: {}", s)),
        }
        Ok(())
    }

    fn gep(&mut self, base: u32, p: &Val, off: i64, idx: &[(Opd, u32, i64)]) -> R<Val> {
        if let Val::I(a) = p {
            let mut a = (*a as u64).wrapping_add(off as u64);
            let mut all = true;
            for (o, w, s) in idx {
                match self.get(base, o) {
                    Val::I(k) => a = a.wrapping_add((sext(k, *w) as i64).wrapping_mul(*s) as u64),
                    _ => {
                        all = false;
                        break;
                    }
                }
            }
            if all {
                return Ok(Val::I(a as u128));
            }
        }
        let mut acc = self.bin(BinOp::Add, 64, p, &Val::I(off as u64 as u128))?;
        for (o, w, s) in idx {
            let v = self.get(base, o);
            let v = match v {
                Val::I(k) => Val::I(sext(k, *w) as u64 as u128),
                Val::E(e) => {
                    let r = if *w < 64 { self.p.sext(e, 64) } else { e };
                    self.wrap(r)
                }
                _ => return err("gep index"),
            };
            let m = self.bin(BinOp::Mul, 64, &v, &Val::I(*s as u64 as u128))?;
            acc = self.bin(BinOp::Add, 64, &acc, &m)?;
        }
        Ok(acc)
    }

    // -------------------------------------------------------------- calls and intrinsics
    fn call(&mut self, func: u32, args: &[Val], retlay: Option<&Lay>, argtys: &[u32]) -> R<()> {
        let f = &self.m.funcs[func as usize];
        if f.body.is_some() {
            return self.push_frame(func, args);
        }
        self.external(func, args, retlay, argtys)
    }
    fn c(&mut self, v: &Val) -> R<u64> {
        Ok(self.concretize(v)? as u64)
    }
    fn free(&mut self, a: u64) -> R<()> {
        if a == 0 {
            return Ok(());
        }
        let id = a >> 32;
        if id < HEAP_BASE || id >= FUNC_BASE || a & 0xffff_ffff != 0 {
            return Err(Stop::Violation(format!("memory error: free of {:#x}", a)));
        }
        let i = (id - HEAP_BASE) as usize;
        if self.st.heap.get(i).is_none() {
            return Err(Stop::Violation(format!("memory error: double free of {:#x}", a)));
        }
        self.st.heap.set(i, None);
        self.st.live_heap -= 1;
        Ok(())
    }
    fn fresh(&mut self, bits: u32, name: String) -> Ex {
        let seq = self.st.vars.len() as u32;
        let class = match bits {
            8 => 0,
            16 => 1,
            32 => 2,
            64 => 3,
            1 => 4,
            _ => 5,
        };
        let id = seq * 8 + class;
        let e = self.p.var(id, bits);
        self.st.vars.push(Rc::new(VarInfo { id, bits, name }));
        e
    }
    fn cmp_bytes(&mut self, a: u64, b: u64, n: usize, ordered: bool) -> R<Val> {
        // concrete fast path
        let (ao, bo) = ((a & 0xffff_ffff) as usize, (b & 0xffff_ffff) as usize);
        let oa = self.rd(a, n)?;
        let sa = oa.has_sym(ao, n);
        let pa: *const Obj = oa;
        let ob = self.rd(b, n)?;
        let sb = ob.has_sym(bo, n);
        if !sa && !sb {
            let oa = unsafe { &*pa };
            let r = oa.data[ao..ao + n].cmp(&ob.data[bo..bo + n]);
            return Ok(Val::I(match r {
                std::cmp::Ordering::Equal => 0,
                std::cmp::Ordering::Less => mask(32),
                _ => 1,
            }));
        }
        if !ordered {
            let mut acc = self.p.cst(1, 1);
            for i in 0..n as u64 {
                let (x, y) = (self.byte(a + i)?, self.byte(b + i)?);
                let (x, y) = (self.ex(&x, 8)?, self.ex(&y, 8)?);
                let e = self.p.eq(x, y);
                acc = self.p.and1(acc, e);
            }
            let n = self.p.not(acc);
            let r = self.p.zext(n, 32);
            return Ok(self.wrap(r));
        }
        let mut acc = self.p.cst(0, 32);
        for i in (0..n as u64).rev() {
            let (x, y) = (self.byte(a + i)?, self.byte(b + i)?);
            let (x, y) = (self.ex(&x, 8)?, self.ex(&y, 8)?);
            let e = self.p.eq(x, y);
            let l = self.p.cmp(Op::Ult, x, y);
            let m1 = self.p.cst(mask(32), 32);
            let p1 = self.p.cst(1, 32);
            let d = self.p.ite(l, m1, p1);
            acc = self.p.ite(e, acc, d);
        }
        Ok(self.wrap(acc))
    }

    fn external(&mut self, func: u32, args: &[Val], retlay: Option<&Lay>, argtys: &[u32]) -> R<()> {
        let name: &'static str = &self.m.funcs[func as usize].name;
        if let Some(rest) = name.strip_prefix("llvm.") {
            return self.llvm(rest, args, argtys);
        }
        let ok = Val::I(0);
        let r: Option<Val> = match name {
            // ---- harness interface
            "vx_sym" => {
                let bits = self.c(&args[0])? as u32;
                let (p, n) = (self.c(&args[1])?, self.c(&args[2])?);
                let nm = self.str_at(p, n as usize)?;
                let e = self.fresh(bits, nm);
                let r = if bits < 64 { self.p.zext(e, 64) } else { e };
                Some(Val::E(r))
            }
            "vx_choice" => {
                let n = self.c(&args[0])? as u32;
                let (p, l) = (self.c(&args[1])?, self.c(&args[2])?);
                let nm = self.str_at(p, l as usize)?;
                if n <= 1 {
                    let e = self.fresh(32, nm);
                    let z = self.p.cst(0, 32);
                    let c = self.p.eq(e, z);
                    self.st.pc.push(c);
                    Some(Val::I(0))
                } else {
                    let e = self.fresh(32, nm);
                    let id = self.st.vars.last().unwrap().id;
                    if self.st.replay.is_some() {
                        if let Some(d) = self.next_dec() {
                            let Dec::Choice(k) = d else { return err("replay divergence (choice)") };
                            self.st.trace.push(d);
                            let kc = self.p.cst(k as u128, 32);
                            let c = self.p.eq(e, kc);
                            self.st.pc.push(c);
                            Rc::make_mut(&mut self.st.model).insert(id, k as u128);
                            if self.st.replay.is_none() {
                                self.sync_model()?;
                            }
                            return self.ret(Some(Val::I(k as u128)));
                        }
                    }
                    self.site();
                    for k in (1..n).rev() {
                        self.res.forks += 1;
                        let mut alt = self.st.clone();
                        let kc = self.p.cst(k as u128, 32);
                        let c = self.p.eq(e, kc);
                        alt.pc.push(c);
                        alt.trace.push(Dec::Choice(k));
                        Rc::make_mut(&mut alt.model).insert(id, k as u128);
                        std::mem::swap(&mut self.st, &mut alt);
                        self.ret(Some(Val::I(k as u128)))?;
                        std::mem::swap(&mut self.st, &mut alt);
                        self.work.push(alt);
                    }
                    let kc = self.p.cst(0, 32);
                    let c = self.p.eq(e, kc);
                    self.st.pc.push(c);
                    self.st.trace.push(Dec::Choice(0));
                    Rc::make_mut(&mut self.st.model).insert(id, 0);
                    Some(Val::I(0))
                }
            }
            "vx_assume" => {
                match &args[0] {
                    Val::I(x) => {
                        if x & 1 == 0 {
                            return Err(Stop::Pruned);
                        }
                    }
                    Val::E(e) => {
                        let e = *e;
                        let e = if self.p.w(e) != 1 { self.p.extract(e, 0, 1) } else { e };
                        if self.p.is_const(e) == Some(0) {
                            return Err(Stop::Pruned);
                        }
                        if self.st.replay.is_some() {
                            self.add_pc(e);
                        } else if self.eval_model(e) != 0 {
                            self.add_pc(e);
                        } else {
                            match self.s.check(&mut self.p, &self.st.pc, e) {
                                Res::Sat(m) => {
                                    self.update_model(&m);
                                    self.add_pc(e);
                                }
                                Res::Unsat => return Err(Stop::Pruned),
                                Res::Unknown => return err("solver unknown"),
                            }
                        }
                    }
                    _ => return err("assume"),
                }
                Some(ok)
            }
            "vx_check" => {
                self.res.checks += 1;
                let (p, n) = (self.c(&args[1])?, self.c(&args[2])?);
                match &args[0] {
                    Val::I(x) => {
                        if x & 1 == 0 {
                            let m = self.str_at(p, n as usize)?;
                            return Err(Stop::Violation(m));
                        }
                    }
                    Val::E(e) => {
                        let e = *e;
                        let e = if self.p.w(e) != 1 { self.p.extract(e, 0, 1) } else { e };
                        self.res.checks_symbolic += 1;
                        if self.st.replay.is_none() {
                            let ne = self.p.not(e);
                            if self.eval_model(e) == 0 {
                                let m = self.str_at(p, n as usize)?;
                                return Err(Stop::Violation(m));
                            }
                            match self.s.check(&mut self.p, &self.st.pc, ne) {
                                Res::Sat(mo) => {
                                    self.update_model(&mo);
                                    let m = self.str_at(p, n as usize)?;
                                    return Err(Stop::Violation(m));
                                }
                                Res::Unsat => {}
                                Res::Unknown => return err("solver unknown in check"),
                            }
                        }
                    }
                    _ => return err("check"),
                }
                Some(ok)
            }
            "vx_cover" => {
                let id = self.c(&args[0])? as u32;
                // a cover point counts as reached with a satisfiable path condition (the state's model)
                *self.res.covers.entry(id).or_default() += 1;
                Some(ok)
            }
            "vx_param" => {
                let i = self.c(&args[0])? as usize;
                Some(Val::I(*self.sh.params.get(i).unwrap_or(&0) as u128))
            }
            "vx_conc" => Some(Val::I(self.concretize(&args[0])?)),
            "vx_end" => return Err(Stop::Done),
            "vx_fail" => {
                let (p, n) = (self.c(&args[0])?, self.c(&args[1])?);
                let m = self.str_at(p, n as usize)?;
                return Err(Stop::Violation(m));
            }
            "vx_note" => {
                if self.sh.verbose {
                    let (p, n) = (self.c(&args[0])?, self.c(&args[1])?);
                    let m = self.str_at(p, n as usize)?;
                    self.st.log.push(Rc::from(m));
                }
                Some(ok)
            }
            "vx_co_new" => {
                // a fresh coroutine that will call fn(arg) on its own stack
                let f = self.c(&args[0])?;
                let arg = args[1].clone();
                let id = f >> 32;
                if id < FUNC_BASE || id >= STACK_BASE {
                    return err("vx_co_new: not a function");
                }
                let fi = (id - FUNC_BASE) as u32;
                let code = self.code(fi)?;
                let mut regs = vec![Val::I(0); code.nregs as usize];
                regs[0] = arg;
                self.res.funcs.insert(fi);
                let co = Co {
                    frames: vec![Frame { func: fi, code, blk: 0, ip: 0, base: 0, sbase: 0 }],
                    regs,
                    stack: vec![],
                    exc: 0,
                    tls: vec![None; self.m.tls.len()],
                };
                self.st.cos.push(Some(Rc::new(co)));
                Some(Val::I((self.st.cos.len() - 1) as u128))
            }
            "vx_co_switch" => {
                let to = self.c(&args[0])? as u32;
                self.ret(Some(ok))?;
                return self.co_switch(to);
            }
            "vx_live" => Some(Val::I(self.st.live_heap as u128)),
            // ---- allocator
            "malloc" => {
                let n = self.alloc_size(&args[0])?;
                Some(Val::I(if n > ALLOC_FAIL { 0 } else { self.alloc(n as usize) as u128 }))
            }
            "calloc" => {
                let k = self.alloc_size(&args[0])?;
                let n = k.saturating_mul(self.alloc_size(&args[1])?);
                Some(Val::I(if n > ALLOC_FAIL { 0 } else { self.alloc(n as usize) as u128 }))
            }
            "realloc" => {
                let a = self.c(&args[0])?;
                let n = self.alloc_size(&args[1])?;
                if n > ALLOC_FAIL {
                    Some(Val::I(0))
                } else if a == 0 {
                    Some(Val::I(self.alloc(n as usize) as u128))
                } else {
                    let old = self.obj(a >> 32, "realloc", a)?.data.len();
                    let b = self.alloc(n as usize);
                    self.copy(b, a, old.min(n as usize))?;
                    self.free(a)?;
                    Some(Val::I(b as u128))
                }
            }
            "posix_memalign" => {
                let p = self.c(&args[0])?;
                let n = self.c(&args[2])?;
                let b = self.alloc(n as usize);
                self.store_int(p, &Val::I(b as u128), 64)?;
                Some(Val::I(0))
            }
            "aligned_alloc" => {
                let n = self.c(&args[1])?;
                Some(Val::I(self.alloc(n as usize) as u128))
            }
            "free" => {
                let a = self.c(&args[0])?;
                self.free(a)?;
                Some(ok)
            }
            "bcmp" | "memcmp" => {
                let (a, b, n) = (self.c(&args[0])?, self.c(&args[1])?, self.c(&args[2])?);
                if n == 0 {
                    Some(Val::I(0))
                } else {
                    Some(self.cmp_bytes(a, b, n as usize, name == "memcmp")?)
                }
            }
            "memcpy" | "memmove" => {
                let (d, s, n) = (self.c(&args[0])?, self.c(&args[1])?, self.c(&args[2])?);
                self.copy(d, s, n as usize)?;
                Some(args[0].clone())
            }
            "memset" => {
                let (d, n) = (self.c(&args[0])?, self.c(&args[2])?);
                let v = args[1].clone();
                self.fill(d, &v, n as usize)?;
                Some(args[0].clone())
            }
            "strlen" => {
                let a = self.c(&args[0])?;
                let mut n = 0;
                loop {
                    let b = self.byte(a + n)?;
                    if self.c(&b)? == 0 {
                        break;
                    }
                    n += 1;
                }
                Some(Val::I(n as u128))
            }
            // ---- unwinding
            "_Unwind_RaiseException" => {
                let Val::I(e) = args[0] else { return err("raise") };
                return self.unwind(e);
            }
            "_Unwind_DeleteException" => Some(ok),
            "_Unwind_Backtrace" => Some(Val::I(5)),
            "abort" | "exit" | "_exit" => return Err(Stop::Violation(format!("process {}", name))),
            // ---- environment
            "__cxa_thread_atexit_impl" => Some(Val::I(0)),
            "write" | "writev" => {
                let n = if name == "write" { args[2].clone() } else { Val::I(0) };
                Some(n)
            }
            "getenv" | "__errno_location" | "dlsym" | "gnu_get_libc_version" => {
                if name == "__errno_location" {
                    let a = self.alloc(4);
                    Some(Val::I(a as u128))
                } else {
                    Some(Val::I(0))
                }
            }
            "getrandom" => {
                // hash seeds: a fixed value (stated assumption)
                let (a, n) = (self.c(&args[0])?, self.c(&args[1])?);
                self.fill(a, &Val::I(7), n as usize)?;
                Some(Val::I(n as u128))
            }
            "gettid" | "getpid" => Some(Val::I(1)),
            "sched_yield" | "pthread_key_create" | "pthread_key_delete" | "pthread_setspecific" | "pthread_self" | "signal" | "sigaction" => Some(Val::I(0)),
            "syscall" | "vx_syscall" => {
                let n = self.c(&args[0])?;
                match n {
                    318 => {
                        let (a, l) = (self.c(&args[1])?, self.c(&args[2])?);
                        self.fill(a, &Val::I(7), l as usize)?;
                        Some(Val::I(l as u128))
                    }
                    202 => {
                        // futex: a wait would block the only thread of control for ever
                        let op = self.c(&args[2])? & 0x7f;
                        if op == 0 || op == 9 {
                            return Err(Stop::Violation("deadlock: blocking futex wait".into()));
                        }
                        Some(Val::I(0))
                    }
                    _ => return err(format!("syscall {}", n)),
                }
            }
            _ => {
                let _ = retlay;
                return err(format!("external function {}", name));
            }
        };
        self.ret(r)
    }
    fn fill(&mut self, d: u64, v: &Val, n: usize) -> R<()> {
        if n == 0 {
            return Ok(());
        }
        let off = (d & 0xffff_ffff) as usize;
        match v {
            Val::I(x) => {
                let o = self.wr(d, n)?;
                if o.sym.is_some() {
                    o.clear_sym(off, n);
                }
                for b in &mut o.data[off..off + n] {
                    *b = *x as u8;
                }
            }
            Val::E(e) => {
                let e = if self.p.w(*e) > 8 { self.p.extract(*e, 0, 8) } else { *e };
                for i in 0..n {
                    self.store_int(d + i as u64, &Val::E(e), 8)?;
                }
            }
            _ => return err("memset"),
        }
        Ok(())
    }

    fn llvm(&mut self, name: &'static str, args: &[Val], argtys: &[u32]) -> R<()> {
        let head = {
            // strip type suffixes: "umax.i64" -> "umax", "sadd.with.overflow.i32" -> ...
            let mut s = name;
            loop {
                match s.rfind('.') {
                    Some(i) => {
                        let t = &s[i + 1..];
                        let isty = (t.starts_with('i') && t.len() > 1 && t[1..].bytes().all(|b| b.is_ascii_digit())) || (t.starts_with('p') && t.len() > 1 && t[1..].bytes().all(|b| b.is_ascii_digit())) || t.starts_with('v') && t.len() > 1 && t.as_bytes()[1].is_ascii_digit() || t == "f64" || t == "f32";
                        if isty {
                            s = &s[..i];
                        } else {
                            break;
                        }
                    }
                    None => break,
                }
            }
            s
        };
        let w = argtys.first().copied().unwrap_or(0);
        let ok = Val::I(0);
        // element-wise on vectors
        if !args.is_empty() && matches!(args[0], Val::A(_)) && !head.starts_with("vector.reduce") {
            return self.llvm_vec(name, head, args);
        }
        let r: Val = match head {
            "lifetime.start" | "lifetime.end" | "assume" | "experimental.noalias.scope.decl" | "dbg.declare" | "dbg.value" | "donothing" | "prefetch" | "stackrestore" | "invariant.start" | "invariant.end" | "sideeffect" => ok,
            "stacksave" => ok,
            "expect" | "expect.with.probability" | "launder.invariant.group" | "strip.invariant.group" | "threadlocal.address" | "ssa.copy" => args[0].clone(),
            "ptrmask" => self.bin(BinOp::And, 64, &args[0], &args[1])?,
            "is.constant" => Val::I(0),
            "objectsize" => Val::I(mask(64)),
            "trap" | "ubsantrap" | "debugtrap" => return Err(Stop::Violation("process abort (trap)".into())),
            "memcpy" | "memmove" | "memcpy.inline" => {
                let (d, s, n) = (self.c(&args[0])?, self.c(&args[1])?, self.c(&args[2])?);
                self.copy(d, s, n as usize)?;
                ok
            }
            "memset" | "memset.inline" => {
                let (d, n) = (self.c(&args[0])?, self.c(&args[2])?);
                self.fill(d, &args[1].clone(), n as usize)?;
                ok
            }
            "umax" | "umin" | "smax" | "smin" => {
                let p = match head {
                    "umax" => Pred::Ugt,
                    "umin" => Pred::Ult,
                    "smax" => Pred::Sgt,
                    _ => Pred::Slt,
                };
                let c = self.icmp(p, w, &args[0], &args[1])?;
                self.select(&c, &args[0], &args[1], Some(w))?
            }
            "ucmp" | "scmp" => {
                // result width from the first suffix
                let rw: u32 = name.split('.').nth(1).and_then(|t| t[1..].parse().ok()).unwrap_or(8);
                let lt = self.icmp(if head == "ucmp" { Pred::Ult } else { Pred::Slt }, w, &args[0], &args[1])?;
                let gt = self.icmp(if head == "ucmp" { Pred::Ugt } else { Pred::Sgt }, w, &args[0], &args[1])?;
                let g = self.select(&gt, &Val::I(1), &Val::I(0), Some(rw))?;
                self.select(&lt, &Val::I(mask(rw)), &g, Some(rw))?
            }
            "abs" => {
                let c = self.icmp(Pred::Slt, w, &args[0], &Val::I(0))?;
                let n = self.bin(BinOp::Sub, w, &Val::I(0), &args[0])?;
                self.select(&c, &n, &args[0], Some(w))?
            }
            "uadd.with.overflow" | "usub.with.overflow" | "umul.with.overflow" | "sadd.with.overflow" | "ssub.with.overflow" | "smul.with.overflow" => {
                let op = match &head[1..4] {
                    "add" => BinOp::Add,
                    "sub" => BinOp::Sub,
                    _ => BinOp::Mul,
                };
                let r = self.bin(op, w, &args[0], &args[1])?;
                let o = self.overflow(head.starts_with('s'), op, w, &args[0], &args[1], &r)?;
                Val::A(Rc::new(vec![r, o]))
            }
            "uadd.sat" | "usub.sat" => {
                let op = if head == "uadd.sat" { BinOp::Add } else { BinOp::Sub };
                let r = self.bin(op, w, &args[0], &args[1])?;
                let o = self.overflow(false, op, w, &args[0], &args[1], &r)?;
                let sat = Val::I(if op == BinOp::Add { mask(w) } else { 0 });
                self.select(&o, &sat, &r, Some(w))?
            }
            "sadd.sat" | "ssub.sat" => {
                let op = if head == "sadd.sat" { BinOp::Add } else { BinOp::Sub };
                let r = self.bin(op, w, &args[0], &args[1])?;
                let o = self.overflow(true, op, w, &args[0], &args[1], &r)?;
                let neg = self.icmp(Pred::Slt, w, &args[0], &Val::I(0))?;
                let sat = self.select(&neg, &Val::I(1u128 << (w - 1)), &Val::I(mask(w) >> 1), Some(w))?;
                self.select(&o, &sat, &r, Some(w))?
            }
            "ctlz" | "cttz" | "ctpop" | "bswap" | "bitreverse" => match &args[0] {
                Val::I(x) => Val::I(match head {
                    "ctlz" => {
                        if *x == 0 {
                            w as u128
                        } else {
                            (w - (128 - x.leading_zeros())) as u128
                        }
                    }
                    "cttz" => {
                        if *x == 0 {
                            w as u128
                        } else {
                            x.trailing_zeros() as u128
                        }
                    }
                    "ctpop" => x.count_ones() as u128,
                    "bswap" => x.swap_bytes() >> (128 - w),
                    _ => x.reverse_bits() >> (128 - w),
                }),
                Val::E(e) => {
                    let e = *e;
                    let r = match head {
                        "bswap" => {
                            let n = w / 8;
                            let mut acc = self.p.extract(e, 0, 8);
                            for i in 1..n {
                                let b = self.p.extract(e, 8 * i, 8);
                                acc = self.p.concat(acc, b);
                            }
                            acc
                        }
                        "bitreverse" => {
                            let mut acc = self.p.extract(e, 0, 1);
                            for i in 1..w {
                                let b = self.p.extract(e, i, 1);
                                acc = self.p.concat(acc, b);
                            }
                            acc
                        }
                        "ctpop" => {
                            let mut acc = self.p.cst(0, w);
                            for i in 0..w {
                                let b = self.p.extract(e, i, 1);
                                let z = self.p.zext(b, w);
                                acc = self.p.bin(Op::Add, acc, z);
                            }
                            acc
                        }
                        _ => {
                            let mut acc = self.p.cst(w as u128, w);
                            let order: Vec<u32> = if head == "ctlz" { (0..w).collect() } else { (0..w).rev().collect() };
                            for i in order {
                                let b = self.p.extract(e, i, 1);
                                let k = if head == "ctlz" { w - 1 - i } else { i };
                                let kc = self.p.cst(k as u128, w);
                                acc = self.p.ite(b, kc, acc);
                            }
                            acc
                        }
                    };
                    self.wrap(r)
                }
                _ => return err(name),
            },
            "fshl" | "fshr" => {
                let sh = match &args[2] {
                    Val::I(k) => (*k % w as u128) as u32,
                    v => {
                        let v = v.clone();
                        (self.concretize(&v)? % w as u128) as u32
                    }
                };
                if sh == 0 {
                    if head == "fshl" {
                        args[0].clone()
                    } else {
                        args[1].clone()
                    }
                } else {
                    let (l, r) = if head == "fshl" { (sh, w - sh) } else { (w - sh, sh) };
                    let a = self.bin(BinOp::Shl, w, &args[0], &Val::I(l as u128))?;
                    let b = self.bin(BinOp::LShr, w, &args[1], &Val::I(r as u128))?;
                    self.bin(BinOp::Or, w, &a, &b)?
                }
            }
            "vector.reduce.or" | "vector.reduce.and" | "vector.reduce.add" | "vector.reduce.xor" => {
                let Val::A(v) = &args[0] else { return err("reduce") };
                let ew: u32 = name.rsplit('i').next().and_then(|s| s.parse().ok()).unwrap_or(8);
                let op = match head {
                    "vector.reduce.or" => BinOp::Or,
                    "vector.reduce.and" => BinOp::And,
                    "vector.reduce.xor" => BinOp::Xor,
                    _ => BinOp::Add,
                };
                let mut acc = v[0].clone();
                for x in v[1..].iter() {
                    acc = self.bin(op, ew, &acc, x)?;
                }
                acc
            }
            "x86.sse2.pause" => ok,
            _ => return err(format!("intrinsic llvm.{}", name)),
        };
        self.ret(Some(r))
    }
    fn llvm_vec(&mut self, name: &'static str, head: &str, args: &[Val]) -> R<()> {
        let ew: u32 = name.rsplit('i').next().and_then(|s| s.parse().ok()).unwrap_or(0);
        match head {
            "umax" | "umin" | "smax" | "smin" => {
                let (Val::A(x), Val::A(y)) = (&args[0], &args[1]) else { return err(name) };
                let (x, y) = (x.clone(), y.clone());
                let mut o = vec![];
                for i in 0..x.len() {
                    let p = match head {
                        "umax" => Pred::Ugt,
                        "umin" => Pred::Ult,
                        "smax" => Pred::Sgt,
                        _ => Pred::Slt,
                    };
                    let c = self.icmp(p, ew, &x[i], &y[i])?;
                    o.push(self.select(&c, &x[i], &y[i], Some(ew))?);
                }
                self.ret(Some(Val::A(Rc::new(o))))
            }
            "fshl" => {
                let (Val::A(x), Val::A(y), Val::A(z)) = (&args[0], &args[1], &args[2]) else { return err(name) };
                let (x, y, z) = (x.clone(), y.clone(), z.clone());
                let mut o = vec![];
                for i in 0..x.len() {
                    let Val::I(k) = z[i] else { return err(name) };
                    let k = k % ew as u128;
                    if k == 0 {
                        o.push(x[i].clone());
                        continue;
                    }
                    let a = self.bin(BinOp::Shl, ew, &x[i], &Val::I(k))?;
                    let b = self.bin(BinOp::LShr, ew, &y[i], &Val::I(ew as u128 - k))?;
                    o.push(self.bin(BinOp::Or, ew, &a, &b)?);
                }
                self.ret(Some(Val::A(Rc::new(o))))
            }
            _ => err(format!("vector intrinsic llvm.{}", name)),
        }
    }
    fn overflow(&mut self, signed: bool, op: BinOp, w: u32, a: &Val, b: &Val, r: &Val) -> R<Val> {
        if let (Val::I(x), Val::I(y), Val::I(_)) = (a, b, r) {
            let o = if signed {
                let (x, y) = (sext(*x, w), sext(*y, w));
                let t = match op {
                    BinOp::Add => x.checked_add(y),
                    BinOp::Sub => x.checked_sub(y),
                    _ => x.checked_mul(y),
                };
                match t {
                    None => true,
                    Some(t) => sext(t as u128 & mask(w), w) != t,
                }
            } else {
                match op {
                    BinOp::Add => x.checked_add(*y).is_none_or(|t| t > mask(w)),
                    BinOp::Sub => x < y,
                    _ => x.checked_mul(*y).is_none_or(|t| t > mask(w)),
                }
            };
            return Ok(Val::I(o as u128));
        }
        if !signed {
            return match op {
                BinOp::Add => self.icmp(Pred::Ult, w, r, a),
                BinOp::Sub => self.icmp(Pred::Ult, w, a, b),
                _ => {
                    if w > 64 {
                        return err("wide symbolic multiplication overflow");
                    }
                    let (x, y) = (self.ex(a, w)?, self.ex(b, w)?);
                    let (x, y) = (self.p.zext(x, 2 * w), self.p.zext(y, 2 * w));
                    let m = self.p.bin(Op::Mul, x, y);
                    let h = self.p.extract(m, w, w);
                    let z = self.p.cst(0, w);
                    let e = self.p.eq(h, z);
                    let r = self.p.not(e);
                    Ok(self.wrap(r))
                }
            };
        }
        if w > 64 {
            return err("wide symbolic signed overflow");
        }
        let (x, y) = (self.ex(a, w)?, self.ex(b, w)?);
        let (x, y) = (self.p.sext(x, 2 * w), self.p.sext(y, 2 * w));
        let m = match op {
            BinOp::Add => self.p.bin(Op::Add, x, y),
            BinOp::Sub => self.p.bin(Op::Sub, x, y),
            _ => self.p.bin(Op::Mul, x, y),
        };
        let l = self.p.extract(m, 0, w);
        let l = self.p.sext(l, 2 * w);
        let e = self.p.eq(l, m);
        let r = self.p.not(e);
        Ok(self.wrap(r))
    }
}
