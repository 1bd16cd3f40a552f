//! Task scheduler. One task poll runs at a time, on a coroutine, so a poll can be suspended at any shim operation
//! (a preempted worker thread) while other tasks are polled.
use crate::sym::*;
use std::collections::VecDeque;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, RawWaker, RawWakerVTable, Waker};

extern "C" {
    fn vx_co_new(f: extern "C" fn(usize), arg: usize) -> u32;
    fn vx_co_switch(to: u32);
}

/// Type-erased task body. `cancel` drops the future (abort); both run on a coroutine and never unwind.
pub trait Body {
    /// returns true when the task is finished
    fn poll(&mut self, cx: &mut Context<'_>) -> bool;
    fn cancel(&mut self);
}

#[derive(PartialEq, Clone, Copy, Debug)]
enum St {
    Idle,
    Ready,
    Running,
    Woken, // woken while running
    Done,
}
struct Task {
    body: Option<Box<dyn Body>>,
    st: St,
    abort: bool,
    waker_refs: u32,
}
struct Susp {
    co: u32,
    stalled: bool,
    blocked: Option<Box<dyn Fn() -> bool>>,
}
struct TimerEnt {
    id: usize,
    at: u64,
    waker: Waker,
}
#[derive(Clone, Copy)]
struct Slot {
    co: u32,
    task: usize,
}
pub struct Exec {
    tasks: Vec<Task>,
    ready: VecDeque<usize>,
    susp: Vec<Susp>,
    slots: Vec<Slot>, // coroutine slots, index = co-1
    idle: Vec<u32>,
    cur: u32, // running coroutine
    forced: Option<u32>,
    pub now: u64,
    timers: Vec<TimerEnt>,
    next_timer: usize,
    idle_waiters: Vec<Waker>,
    pub preempt: u32,
    pub delay: u32,
    /// scheduling slots after which an unfinished run counts as "no progress"
    pub max_steps: u32,
    pub steps: u32,
    no_preempt: u32,
    hooks: Vec<Box<dyn FnMut()>>,
    pub time_limit: u64,
    /// panics that reached the runtime, and how many of them the harness expects
    pub task_panics: u32,
    pub allowed_panics: u32,
    pub yields: u32,
    /// map iterations also run in reverse order
    pub iter_orders: bool,
}
static mut X: Option<Box<Exec>> = None;

#[allow(static_mut_refs)]
pub fn x() -> &'static mut Exec {
    unsafe {
        if X.is_none() {
            X = Some(Box::new(Exec {
                tasks: vec![],
                ready: VecDeque::new(),
                susp: vec![],
                slots: vec![],
                idle: vec![],
                cur: 0,
                forced: None,
                now: 0,
                timers: vec![],
                next_timer: 1,
                idle_waiters: vec![],
                preempt: 0,
                delay: 0,
                max_steps: 20_000,
                steps: 0,
                no_preempt: 0,
                hooks: vec![],
                time_limit: u64::MAX,
                task_panics: 0,
                allowed_panics: 0,
                yields: 0,
                iter_orders: false,
            }));
        }
        X.as_mut().unwrap()
    }
}
#[allow(static_mut_refs)]
pub(crate) fn now_or_zero() -> u64 {
    unsafe { X.as_ref().map(|x| x.now).unwrap_or(0) }
}
impl Exec {
    pub fn timer_add(&mut self, at: u64, waker: Waker) -> usize {
        let id = self.next_timer;
        self.next_timer += 1;
        self.timers.push(TimerEnt { id, at, waker });
        id
    }
    pub fn timer_waker(&mut self, id: usize, waker: Waker) {
        for t in self.timers.iter_mut() {
            if t.id == id {
                t.waker = waker;
                return;
            }
        }
    }
    pub fn timer_cancel(&mut self, id: usize) {
        if let Some(i) = self.timers.iter().position(|t| t.id == id) {
            self.timers.remove(i);
        }
    }
    /// number of tasks that are not finished
    pub fn alive(&self) -> usize {
        self.tasks.iter().filter(|t| t.st != St::Done).count()
    }
}

// ---------------------------------------------------------------- wakers
unsafe fn w_clone(p: *const ()) -> RawWaker {
    RawWaker::new(p, &VT)
}
unsafe fn w_wake(p: *const ()) {
    wake_task(p as usize)
}
unsafe fn w_drop(_: *const ()) {}
static VT: RawWakerVTable = RawWakerVTable::new(w_clone, w_wake, w_wake, w_drop);

fn wake_task(id: usize) {
    let e = x();
    let t = &mut e.tasks[id];
    match t.st {
        St::Idle => {
            t.st = St::Ready;
            e.ready.push_back(id);
        }
        St::Running => t.st = St::Woken,
        _ => {}
    }
}

// ---------------------------------------------------------------- tasks
pub fn spawn_body(b: Box<dyn Body>) -> usize {
    let e = x();
    let id = e.tasks.len();
    e.tasks.push(Task { body: Some(b), st: St::Ready, abort: false, waker_refs: 0 });
    e.ready.push_back(id);
    id
}
/// Request cancellation, as a runtime does: an idle task is dropped when it is next scheduled, a running one after
/// its current poll.
pub fn abort_task(id: usize) {
    let e = x();
    let t = &mut e.tasks[id];
    if t.st == St::Done {
        return;
    }
    t.abort = true;
    if t.st == St::Idle {
        t.st = St::Ready;
        e.ready.push_back(id);
    }
}
pub fn task_done(id: usize) -> bool {
    x().tasks[id].st == St::Done
}
/// The task being polled on the current coroutine.
pub fn current_task() -> Option<usize> {
    let e = x();
    if e.cur == 0 {
        None
    } else {
        Some(e.slots[e.cur as usize - 1].task)
    }
}
/// Identity of the running (virtual) thread.
pub fn current_thread() -> u32 {
    x().cur
}

extern "C" fn co_main(_: usize) {
    let me = x().cur;
    loop {
        let id = x().slots[me as usize - 1].task;
        poll_one(id);
        x().idle.push(me);
        x().cur = 0;
        unsafe { vx_co_switch(0) };
    }
}
fn poll_one(id: usize) {
    let e = x();
    let t = &mut e.tasks[id];
    let mut body = t.body.take().unwrap();
    t.st = St::Running;
    let mut done = false;
    if !t.abort {
        let w = unsafe { Waker::from_raw(RawWaker::new(id as *const (), &VT)) };
        let mut cx = Context::from_waker(&w);
        done = body.poll(&mut cx);
    }
    let t = &mut x().tasks[id];
    if !done && t.abort {
        body.cancel();
        done = true;
    }
    if done {
        drop(body);
        x().tasks[id].st = St::Done;
        return;
    }
    let e = x();
    let t = &mut e.tasks[id];
    t.body = Some(body);
    if t.st == St::Woken {
        t.st = St::Ready;
        e.ready.push_back(id);
    } else {
        t.st = St::Idle;
    }
    let _ = t.waker_refs;
}

// ---------------------------------------------------------------- scheduling
/// A point where the running thread may be preempted: another runnable task runs now; this thread continues right
/// after it, or only when everything else has come to rest.
#[inline(never)]
pub fn yield_point(what: &str) {
    let e = x();
    if e.cur == 0 || e.no_preempt > 0 {
        return;
    }
    e.yields += 1;
    if e.preempt == 0 || std::thread::panicking() {
        return;
    }
    let r = e.ready.len();
    let n = r + e.susp.iter().filter(|s| s.blocked.as_ref().map(|b| b()).unwrap_or(true)).count();
    if n == 0 {
        return;
    }
    let c = choice(1 + n, what);
    if c == 0 {
        return;
    }
    e.preempt -= 1;
    let stalled = choice(2, "stall") == 1;
    if c - 1 < r {
        let t = e.ready.remove(c - 1).unwrap();
        e.ready.push_front(t);
        e.forced = Some(0);
    } else {
        let s = e.susp.iter().filter(|s| s.blocked.as_ref().map(|b| b()).unwrap_or(true)).nth(c - 1 - r).unwrap();
        e.forced = Some(s.co);
    }
    let me = e.cur;
    e.susp.push(Susp { co: me, stalled, blocked: None });
    e.cur = 0;
    unsafe { vx_co_switch(0) };
}
/// Block the running thread until `ready()`.
pub fn block_until(what: &str, ready: Box<dyn Fn() -> bool>) {
    if ready() {
        return;
    }
    let e = x();
    if e.cur == 0 {
        fail(what);
    }
    let me = e.cur;
    e.susp.push(Susp { co: me, stalled: false, blocked: Some(ready) });
    e.cur = 0;
    unsafe { vx_co_switch(0) };
}
/// Runs `f` without preemption (harness bookkeeping).
pub fn atomically<T>(f: impl FnOnce() -> T) -> T {
    x().no_preempt += 1;
    let r = f();
    x().no_preempt -= 1;
    r
}

fn resume(co: u32) {
    x().cur = co;
    unsafe { vx_co_switch(co) };
}
fn run_task(id: usize) {
    let e = x();
    let co = match e.idle.pop() {
        Some(c) => {
            e.slots[c as usize - 1].task = id;
            c
        }
        None => {
            let c = unsafe { vx_co_new(co_main, 0) };
            e.slots.push(Slot { co: c, task: id });
            debug_assert_eq!(e.slots[c as usize - 1].co, c);
            c
        }
    };
    resume(co);
}

/// Runs one scheduling step; false when nothing can run at the current time.
fn step() -> bool {
    let e = x();
    // a switch chosen at a preemption point
    if let Some(f) = e.forced.take() {
        if f == 0 {
            let t = e.ready.pop_front().unwrap();
            run_task(t);
        } else {
            let i = e.susp.iter().position(|s| s.co == f).unwrap();
            let s = e.susp.remove(i);
            resume(s.co);
        }
        return true;
    }
    // suspended threads that are not stalled go on first
    for i in 0..e.susp.len() {
        let s = &e.susp[i];
        if !s.stalled && s.blocked.as_ref().map(|b| b()).unwrap_or(true) {
            let s = e.susp.remove(i);
            resume(s.co);
            return true;
        }
    }
    if !e.ready.is_empty() {
        let n = e.ready.len();
        let mut k = 0;
        if n > 1 && e.delay > 0 {
            k = choice(n, "sched");
            if k > 0 {
                e.delay -= 1;
            }
        }
        let t = e.ready.remove(k).unwrap();
        run_task(t);
        return true;
    }
    for i in 0..e.susp.len() {
        if e.susp[i].stalled {
            let s = e.susp.remove(i);
            resume(s.co);
            return true;
        }
    }
    false
}

/// Runs tasks until `done()` or until nothing can ever run again. Returns whether `done()`.
pub fn run_while(done: &mut dyn FnMut() -> bool) -> bool {
    loop {
        if done() {
            return true;
        }
        let e = x();
        e.steps += 1;
        if e.steps > e.max_steps {
            fail("no progress: the system is still busy after the step limit");
        }
        if step() {
            continue;
        }
        let e = x();
        if !e.idle_waiters.is_empty() {
            let w = e.idle_waiters.remove(0);
            w.wake();
            continue;
        }
        // advance virtual time
        if e.timers.is_empty() {
            if !e.susp.is_empty() {
                fail("deadlock: a thread waits for a lock that is never released");
            }
            return done();
        }
        let mut k = 0;
        for i in 1..e.timers.len() {
            if e.timers[i].at < e.timers[k].at {
                k = i;
            }
        }
        let at = e.timers[k].at;
        if at > e.time_limit {
            return done();
        }
        if at > e.now {
            e.now = at;
        }
        let t = e.timers.remove(k);
        t.waker.wake();
        // timers due at the same instant fire in any order, and interleaved
        if e.preempt > 0 || e.delay > 0 {
            let mut i = 0;
            while i < e.timers.len() {
                if e.timers[i].at <= e.now {
                    let t = e.timers.remove(i);
                    t.waker.wake();
                } else {
                    i += 1;
                }
            }
        }
    }
}

struct Root<F: Future> {
    fut: Pin<Box<F>>,
    out: *mut Option<std::thread::Result<F::Output>>,
}
impl<F: Future> Body for Root<F> {
    fn poll(&mut self, cx: &mut Context<'_>) -> bool {
        let f = &mut self.fut;
        match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| f.as_mut().poll(cx))) {
            Ok(std::task::Poll::Ready(v)) => {
                unsafe { *self.out = Some(Ok(v)) };
                true
            }
            // a panic of the main future is the caller's
            Err(e) => {
                unsafe { *self.out = Some(Err(e)) };
                true
            }
            _ => false,
        }
    }
    fn cancel(&mut self) {}
}
/// Runs `f` to completion together with everything it spawns; None when it can never complete.
pub fn try_block_on<F: Future>(f: F) -> Option<F::Output> {
    let mut out: Option<std::thread::Result<F::Output>> = None;
    let outer = x().cur;
    if outer != 0 {
        fail("block_on inside of a task");
    }
    let b: Box<dyn Body + '_> = Box::new(Root { fut: Box::pin(f), out: &mut out });
    let b: Box<dyn Body> = unsafe { std::mem::transmute(b) };
    let id = spawn_body(b);
    // the root runs first
    let e = x();
    if let Some(p) = e.ready.iter().position(|t| *t == id) {
        e.ready.remove(p);
        e.ready.push_front(id);
    }
    run_while(&mut || task_done(id));
    if !task_done(id) {
        // leave the future in place: it must not outlive the borrow, so drop it
        let t = &mut x().tasks[id];
        t.body = None;
        t.st = St::Done;
    }
    match out? {
        Ok(v) => Some(v),
        Err(e) => std::panic::resume_unwind(e),
    }
}
pub fn block_on<F: Future>(f: F) -> F::Output {
    match try_block_on(f) {
        Some(v) => v,
        None => fail("deadlock: the main future never completes"),
    }
}
/// Cancels every unfinished task (runtime shutdown).
pub fn cancel_all() {
    let n = x().tasks.len();
    for id in 0..n {
        if !task_done(id) && x().tasks[id].body.is_some() {
            abort_task(id);
        }
    }
    while step() {}
}

/// Resolves when nothing else can run at the current virtual time.
pub struct Quiesce(bool);
pub fn quiesce() -> Quiesce {
    Quiesce(false)
}
impl Future for Quiesce {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> std::task::Poll<()> {
        if self.0 {
            return std::task::Poll::Ready(());
        }
        self.0 = true;
        x().idle_waiters.push(cx.waker().clone());
        std::task::Poll::Pending
    }
}
/// Sets the schedule budgets: preemptions of a running thread, deviations from FIFO order at scheduling points.
pub fn budget(preempt: u32, delay: u32) {
    let e = x();
    e.preempt = preempt;
    e.delay = delay;
}
pub fn add_hook(f: Box<dyn FnMut()>) {
    x().hooks.push(f)
}

/// One of `n` equally likely alternatives; other ones than the first count as scheduling delays.
pub fn any_of(n: usize, what: &str) -> usize {
    let e = x();
    if n < 2 || e.delay == 0 || std::thread::panicking() {
        return 0;
    }
    let k = choice(n, what);
    if k > 0 {
        e.delay -= 1;
    }
    k
}
