//! Virtual time. It only advances when nothing else can run. Encoded as seconds * 2^30 + nanoseconds, so that symbolic
//! durations need no multiplication or division.
use crate::exec::*;
use std::future::Future;
use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;

/// Virtual clock origin in seconds, as seen through clock_gettime (so that `Instant - Duration` has room).
pub const ORIGIN: u64 = 1_000_000;

pub fn now() -> u64 {
    x().now
}
/// The encoding of a span; anything beyond ~290 years is "never".
pub fn dur(d: Duration) -> u64 {
    let s = d.as_secs();
    if s >= 9_000_000_000 {
        return NEVER;
    }
    (s << 30) | d.subsec_nanos() as u64
}
/// `t + d`, both encoded and not `NEVER`.
pub fn add(t: u64, d: u64) -> u64 {
    const M: u64 = (1 << 30) - 1;
    let s = (t >> 30) + (d >> 30);
    let n = (t & M) + (d & M);
    let c = (n >= 1_000_000_000) as u64;
    ((s + c) << 30) + (n - c * 1_000_000_000)
}
/// The point in time `d` from now.
pub fn after(d: Duration) -> u64 {
    let d = dur(d);
    if d == NEVER {
        NEVER
    } else {
        add(now(), d)
    }
}
pub const NEVER: u64 = u64::MAX;

/// A timer future: ready when virtual time reaches `deadline`.
pub struct Timer {
    pub deadline: u64,
    id: usize,
}
impl Timer {
    pub fn at(deadline: u64) -> Self {
        Timer { deadline, id: 0 }
    }
    pub fn after(d: Duration) -> Self {
        Timer { deadline: after(d), id: 0 }
    }
    pub fn elapsed(&self) -> bool {
        self.deadline <= now()
    }
    pub fn reset(&mut self, deadline: u64) {
        if self.id != 0 {
            x().timer_cancel(self.id);
            self.id = 0;
        }
        self.deadline = deadline;
    }
}
impl Future for Timer {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        if self.elapsed() {
            return Poll::Ready(());
        }
        if self.deadline != NEVER {
            if self.id == 0 {
                self.id = x().timer_add(self.deadline, cx.waker().clone());
            } else {
                x().timer_waker(self.id, cx.waker().clone());
            }
        }
        Poll::Pending
    }
}
impl Drop for Timer {
    fn drop(&mut self) {
        if self.id != 0 {
            x().timer_cancel(self.id);
        }
    }
}

#[repr(C)]
pub struct Timespec {
    pub sec: i64,
    pub nsec: i64,
}

/// The clock the standard library reads.
///
/// # Safety
/// C ABI; `ts` must be valid.
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(_clk: i32, ts: *mut Timespec) -> i32 {
    let n = now_or_zero();
    (*ts).sec = (ORIGIN + (n >> 30)) as i64;
    (*ts).nsec = (n & ((1 << 30) - 1)) as i64;
    0
}
