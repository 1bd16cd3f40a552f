use std::fmt;
use std::future::Future;
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;
use vxrt::time::{after, add, dur, now, Timer};

/// Same clock as std's (both are virtual).
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash)]
pub struct Instant {
    std: std::time::Instant,
}
impl Instant {
    pub fn now() -> Instant {
        Instant { std: std::time::Instant::now() }
    }
    pub fn from_std(std: std::time::Instant) -> Instant {
        Instant { std }
    }
    pub fn into_std(self) -> std::time::Instant {
        self.std
    }
    pub fn duration_since(&self, e: Instant) -> Duration {
        self.std.saturating_duration_since(e.std)
    }
    pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> {
        self.std.checked_duration_since(e.std)
    }
    pub fn saturating_duration_since(&self, e: Instant) -> Duration {
        self.std.saturating_duration_since(e.std)
    }
    pub fn elapsed(&self) -> Duration {
        Instant::now() - *self
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.std.checked_add(d).map(Instant::from_std)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.std.checked_sub(d).map(Instant::from_std)
    }
    fn at(&self) -> u64 {
        // distance from the present, in virtual nanoseconds
        let n = std::time::Instant::now();
        match self.std.checked_duration_since(n) {
            Some(d) => after(d),
            None => 0,
        }
    }
}
impl From<std::time::Instant> for Instant {
    fn from(std: std::time::Instant) -> Instant {
        Instant { std }
    }
}
impl From<Instant> for std::time::Instant {
    fn from(i: Instant) -> std::time::Instant {
        i.std
    }
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant { std: self.std + d }
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d;
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant { std: self.std - d }
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d;
    }
}
impl Sub for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.std.saturating_duration_since(o.std)
    }
}
impl fmt::Debug for Instant {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        self.std.fmt(f)
    }
}

pub struct Sleep {
    t: Timer,
    deadline: Instant,
}
impl Sleep {
    pub fn deadline(&self) -> Instant {
        self.deadline
    }
    pub fn is_elapsed(&self) -> bool {
        self.t.elapsed()
    }
    pub fn reset(self: Pin<&mut Self>, deadline: Instant) {
        let s = self.get_mut();
        s.deadline = deadline;
        s.t.reset(deadline.at());
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        Pin::new(&mut self.t).poll(cx)
    }
}
fn far() -> Instant {
    Instant::now() + Duration::from_secs(86400 * 365 * 30)
}
#[track_caller]
pub fn sleep(d: Duration) -> Sleep {
    let deadline = Instant::now().checked_add(d).unwrap_or_else(far);
    Sleep { t: Timer::after(d), deadline }
}
pub fn sleep_until(deadline: Instant) -> Sleep {
    Sleep { t: Timer::at(deadline.at()), deadline }
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}
use error::Elapsed;

pub struct Timeout<F> {
    f: F,
    t: Timer,
}
impl<F> Timeout<F> {
    pub fn get_ref(&self) -> &F {
        &self.f
    }
    pub fn into_inner(self) -> F {
        self.f
    }
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let (f, t) = unsafe {
            let s = self.get_unchecked_mut();
            (Pin::new_unchecked(&mut s.f), Pin::new(&mut s.t))
        };
        if let Poll::Ready(v) = f.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match t.poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
pub fn timeout<F: std::future::IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> {
    Timeout { f: f.into_future(), t: Timer::after(d) }
}
pub fn timeout_at<F: std::future::IntoFuture>(d: Instant, f: F) -> Timeout<F::IntoFuture> {
    Timeout { f: f.into_future(), t: Timer::at(d.at()) }
}

#[derive(Debug, Copy, Clone, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}
pub struct Interval {
    next: u64,
    period: Duration,
    t: Timer,
    missed: MissedTickBehavior,
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        match Pin::new(&mut self.t).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                let p = dur(self.period);
                let mut n = add(self.next, p);
                if n < now() {
                    match self.missed {
                        MissedTickBehavior::Burst => {}
                        MissedTickBehavior::Delay => n = add(now(), p),
                        MissedTickBehavior::Skip => {
                            while n <= now() {
                                n = add(n, p)
                            }
                        }
                    }
                }
                self.next = n;
                self.t.reset(n);
                Poll::Ready(Instant::now())
            }
        }
    }
    pub fn reset(&mut self) {
        self.next = after(self.period);
        self.t.reset(self.next);
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) {
        self.missed = m;
    }
}
pub fn interval(period: Duration) -> Interval {
    assert!(period > Duration::new(0, 0), "`period` must be non-zero.");
    Interval { next: now(), period, t: Timer::at(now()), missed: Default::default() }
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::new(0, 0), "`period` must be non-zero.");
    Interval { next: start.at(), period, t: Timer::at(start.at()), missed: Default::default() }
}
