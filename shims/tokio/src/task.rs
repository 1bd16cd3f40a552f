use std::any::Any;
use std::fmt;
use std::future::Future;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::pin::Pin;
use std::sync::Arc;
use std::task::{Context, Poll, Waker};

pub use tokio_real::task::{futures, LocalKey};

use std::cell::UnsafeCell;

/// Why a task did not return a value.
pub struct JoinError {
    repr: Repr,
    id: Id,
}
enum Repr {
    Cancelled,
    Panic(Box<dyn Any + Send + 'static>),
}
unsafe impl Sync for JoinError {}
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        matches!(self.repr, Repr::Cancelled)
    }
    pub fn is_panic(&self) -> bool {
        matches!(self.repr, Repr::Panic(_))
    }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        match self.repr {
            Repr::Panic(p) => p,
            _ => panic!("`JoinError` reason is not a panic."),
        }
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send + 'static>, JoinError> {
        match self.repr {
            Repr::Panic(p) => Ok(p),
            _ => Err(self),
        }
    }
    pub fn id(&self) -> Id {
        self.id
    }
}
fn panic_str<'a>(p: &'a Box<dyn Any + Send + 'static>) -> Option<&'a str> {
    if let Some(s) = p.downcast_ref::<String>() {
        return Some(s);
    }
    if let Some(s) = p.downcast_ref::<&'static str>() {
        return Some(s);
    }
    None
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.repr {
            Repr::Cancelled => write!(f, "task {} was cancelled", self.id),
            Repr::Panic(p) => match panic_str(p) {
                Some(s) => write!(f, "task {} panicked with message {:?}", self.id, s),
                None => write!(f, "task {} panicked", self.id),
            },
        }
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        match &self.repr {
            Repr::Cancelled => write!(f, "JoinError::Cancelled({:?})", self.id),
            Repr::Panic(_) => write!(f, "JoinError::Panic({:?}, ...)", self.id),
        }
    }
}
impl std::error::Error for JoinError {}

#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub struct Id(u64);
impl fmt::Display for Id {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.0.fmt(f)
    }
}
pub fn id() -> Id {
    try_id().expect("Can't get a task id when not inside a task")
}
pub fn try_id() -> Option<Id> {
    vxrt::current_task().map(|t| Id(t as u64 + 1))
}

struct Shared<T> {
    out: UnsafeCell<Option<Result<T, Repr>>>,
    waker: UnsafeCell<Option<Waker>>,
    done: UnsafeCell<bool>,
}
unsafe impl<T: Send> Send for Shared<T> {}
unsafe impl<T: Send> Sync for Shared<T> {}

pub struct JoinHandle<T> {
    sh: Arc<Shared<T>>,
    id: usize,
}
unsafe impl<T: Send> Send for JoinHandle<T> {}
unsafe impl<T: Send> Sync for JoinHandle<T> {}
impl<T> Unpin for JoinHandle<T> {}
impl<T> std::panic::UnwindSafe for JoinHandle<T> {}
impl<T> std::panic::RefUnwindSafe for JoinHandle<T> {}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("JoinHandle")
    }
}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        vxrt::yield_point("abort");
        vxrt::abort_task(self.id);
    }
    pub fn is_finished(&self) -> bool {
        unsafe { *self.sh.done.get() }
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { id: self.id }
    }
    pub fn id(&self) -> Id {
        Id(self.id as u64 + 1)
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        unsafe {
            if *self.sh.done.get() {
                let id = Id(self.id as u64 + 1);
                let r = (*self.sh.out.get()).take().expect("JoinHandle polled after completion");
                return Poll::Ready(r.map_err(|repr| JoinError { repr, id }));
            }
            *self.sh.waker.get() = Some(cx.waker().clone());
        }
        Poll::Pending
    }
}
#[derive(Clone, Debug)]
pub struct AbortHandle {
    id: usize,
}
impl AbortHandle {
    pub fn abort(&self) {
        vxrt::yield_point("abort");
        vxrt::abort_task(self.id);
    }
    pub fn is_finished(&self) -> bool {
        vxrt::task_done(self.id)
    }
}

struct TaskBody<F: Future> {
    fut: Option<Pin<Box<F>>>,
    sh: Arc<Shared<F::Output>>,
}
impl<F: Future> TaskBody<F> {
    fn finish(&mut self, r: Result<F::Output, Repr>) {
        if let Err(Repr::Panic(_)) = r {
            vxrt::x().task_panics += 1;
        }
        unsafe {
            // the runtime drops the future before it publishes the result
            *self.sh.out.get() = Some(r);
            *self.sh.done.get() = true;
            if let Some(w) = (*self.sh.waker.get()).take() {
                w.wake();
            }
            // the handle is gone: the output is dropped here
            if Arc::strong_count(&self.sh) == 1 {
                let o = (*self.sh.out.get()).take();
                let _ = catch_unwind(AssertUnwindSafe(move || drop(o)));
            }
        }
    }
    fn drop_fut(&mut self) -> Result<(), Box<dyn Any + Send>> {
        let f = self.fut.take();
        catch_unwind(AssertUnwindSafe(move || drop(f)))
    }
}
impl<F: Future> vxrt::Body for TaskBody<F> {
    fn poll(&mut self, cx: &mut Context<'_>) -> bool {
        let f = self.fut.as_mut().unwrap();
        match catch_unwind(AssertUnwindSafe(|| f.as_mut().poll(cx))) {
            Ok(Poll::Pending) => false,
            Ok(Poll::Ready(v)) => {
                match self.drop_fut() {
                    Ok(()) => self.finish(Ok(v)),
                    Err(p) => self.finish(Err(Repr::Panic(p))),
                }
                true
            }
            Err(p) => {
                if self.drop_fut().is_err() {
                    vxrt::x().task_panics += 1;
                }
                self.finish(Err(Repr::Panic(p)));
                true
            }
        }
    }
    fn cancel(&mut self) {
        match self.drop_fut() {
            Ok(()) => self.finish(Err(Repr::Cancelled)),
            Err(p) => self.finish(Err(Repr::Panic(p))),
        }
    }
}

pub(crate) fn spawn_any<F: Future + 'static>(future: F) -> JoinHandle<F::Output> {
    let sh = Arc::new(Shared { out: UnsafeCell::new(None), waker: UnsafeCell::new(None), done: UnsafeCell::new(false) });
    let b: Box<dyn vxrt::Body> = Box::new(TaskBody { fut: Some(Box::pin(future)), sh: sh.clone() });
    let id = vxrt::spawn_body(b);
    let h = JoinHandle { sh, id };
    // the new task may run (and finish) before the spawner goes on
    vxrt::yield_point("spawn");
    h
}
#[track_caller]
pub fn spawn<F>(future: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn_any(future)
}
pub fn spawn_local<F>(future: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    spawn_any(future)
}
/// Runs the closure as a task of its own (a blocking-pool thread); cancellation before it starts prevents it.
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn_any(async move { f() })
}
pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}
pub async fn yield_now() {
    struct Y(bool);
    impl Future for Y {
        type Output = ();
        fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
            if self.0 {
                return Poll::Ready(());
            }
            self.0 = true;
            cx.waker().wake_by_ref();
            Poll::Pending
        }
    }
    Y(false).await
}
pub async fn consume_budget() {}
pub async fn unconstrained<F: Future>(f: F) -> F::Output {
    f.await
}

/// A set of tasks; results in completion order.
pub struct JoinSet<T> {
    hs: Vec<JoinHandle<T>>,
}
impl<T: Send + 'static> JoinSet<T> {
    pub fn new() -> Self {
        JoinSet { hs: vec![] }
    }
    pub fn len(&self) -> usize {
        self.hs.len()
    }
    pub fn is_empty(&self) -> bool {
        self.hs.is_empty()
    }
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
    {
        let h = spawn(f);
        let a = h.abort_handle();
        self.hs.push(h);
        a
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        if self.hs.is_empty() {
            return None;
        }
        std::future::poll_fn(|cx| {
            for i in 0..self.hs.len() {
                if let Poll::Ready(r) = Pin::new(&mut self.hs[i]).poll(cx) {
                    self.hs.remove(i);
                    return Poll::Ready(Some(r));
                }
            }
            Poll::Pending
        })
        .await
    }
    pub fn abort_all(&mut self) {
        for h in &self.hs {
            h.abort();
        }
    }
    pub fn detach_all(&mut self) {
        self.hs.clear();
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
}
impl<T: Send + 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in &self.hs {
            h.abort();
        }
    }
}
