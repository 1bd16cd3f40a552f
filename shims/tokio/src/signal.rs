//! Process signals raised by the harness (`vx_raise`).
use std::cell::UnsafeCell;
use std::io;
use std::task::{Context, Poll, Waker};

struct Ent {
    kind: i32,
    pending: bool,
    waker: Option<Waker>,
}
struct Cell_(UnsafeCell<Vec<Ent>>);
unsafe impl Sync for Cell_ {}
static G: Cell_ = Cell_(UnsafeCell::new(Vec::new()));
fn g() -> &'static mut Vec<Ent> {
    unsafe { &mut *G.0.get() }
}
fn listen(kind: i32) -> usize {
    g().push(Ent { kind, pending: false, waker: None });
    g().len() - 1
}
fn poll(i: usize, cx: &mut Context<'_>) -> Poll<()> {
    let e = &mut g()[i];
    if e.pending {
        e.pending = false;
        return Poll::Ready(());
    }
    e.waker = Some(cx.waker().clone());
    Poll::Pending
}
/// Delivers signal `kind` to every listener; returns how many there were.
pub fn vx_raise(kind: i32) -> usize {
    let mut n = 0;
    for e in g() {
        if e.kind == kind {
            n += 1;
            e.pending = true;
            if let Some(w) = e.waker.take() {
                w.wake();
            }
        }
    }
    n
}
pub async fn ctrl_c() -> io::Result<()> {
    let i = listen(2);
    std::future::poll_fn(|cx| poll(i, cx)).await;
    Ok(())
}
pub mod unix {
    use std::io;
    use std::task::{Context, Poll};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct SignalKind(i32);
    impl SignalKind {
        pub const fn from_raw(n: i32) -> Self {
            SignalKind(n)
        }
        pub const fn terminate() -> Self {
            SignalKind(15)
        }
        pub const fn interrupt() -> Self {
            SignalKind(2)
        }
        pub const fn hangup() -> Self {
            SignalKind(1)
        }
        pub const fn quit() -> Self {
            SignalKind(3)
        }
        pub const fn user_defined1() -> Self {
            SignalKind(10)
        }
        pub const fn user_defined2() -> Self {
            SignalKind(12)
        }
        pub const fn as_raw_value(&self) -> i32 {
            self.0
        }
    }
    #[derive(Debug)]
    pub struct Signal(usize);
    impl Signal {
        pub async fn recv(&mut self) -> Option<()> {
            let i = self.0;
            std::future::poll_fn(|cx| super::poll(i, cx)).await;
            Some(())
        }
        pub fn poll_recv(&mut self, cx: &mut Context<'_>) -> Poll<Option<()>> {
            super::poll(self.0, cx).map(Some)
        }
    }
    pub fn signal(kind: SignalKind) -> io::Result<Signal> {
        Ok(Signal(super::listen(kind.0)))
    }
}
