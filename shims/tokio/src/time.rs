//! Time passes when the environment says so.
pub use std::time::Duration;
use std::{
    fmt::{Display, Formatter},
    future::Future,
    ops::{Add, AddAssign, Sub, SubAssign},
    pin::Pin,
    task::{Context, Poll},
};

#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash)]
pub struct Instant(u64);
fn ns(d: Duration) -> u64 {
    u64::try_from(d.as_nanos()).unwrap_or(u64::MAX / 4).min(u64::MAX / 4)
}
impl Instant {
    pub fn now() -> Self {
        Self(vsched::time::now())
    }
    pub fn elapsed(&self) -> Duration {
        Duration::from_nanos(vsched::time::now().saturating_sub(self.0))
    }
    pub fn duration_since(&self, o: Self) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(o.0))
    }
    pub fn saturating_duration_since(&self, o: Self) -> Duration {
        self.duration_since(o)
    }
    pub fn checked_duration_since(&self, o: Self) -> Option<Duration> {
        self.0.checked_sub(o.0).map(Duration::from_nanos)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Self> {
        self.0.checked_add(ns(d)).map(Self)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Self> {
        self.0.checked_sub(ns(d)).map(Self)
    }
}
impl Add<Duration> for Instant {
    type Output = Self;
    fn add(self, d: Duration) -> Self {
        Self(self.0.saturating_add(ns(d)))
    }
}
impl Sub<Duration> for Instant {
    type Output = Self;
    fn sub(self, d: Duration) -> Self {
        Self(self.0.saturating_sub(ns(d)))
    }
}
impl Sub for Instant {
    type Output = Duration;
    fn sub(self, o: Self) -> Duration {
        self.duration_since(o)
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d;
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d;
    }
}

#[derive(Debug)]
pub struct Sleep {
    deadline: Instant,
    timer: Option<(u64, u64)>,
    done: bool,
    _pin: std::marker::PhantomPinned,
}
impl Sleep {
    fn at(deadline: Instant) -> Self {
        Self { deadline, timer: None, done: false, _pin: std::marker::PhantomPinned }
    }
    pub fn deadline(&self) -> Instant {
        self.deadline
    }
    pub fn is_elapsed(&self) -> bool {
        self.done || self.timer.is_some_and(vsched::time::gone_off)
    }
    pub fn reset(self: Pin<&mut Self>, deadline: Instant) {
        let this = unsafe { self.get_unchecked_mut() };
        if let Some(t) = this.timer.take() {
            vsched::time::clear_timer(t);
        }
        this.deadline = deadline;
        this.done = false;
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let this = unsafe { self.get_unchecked_mut() };
        if this.done {
            return Poll::Ready(());
        }
        match this.timer {
            None => {
                if this.deadline.0 <= vsched::time::now() {
                    this.done = true;
                    return Poll::Ready(());
                }
                this.timer = Some(vsched::time::set_timer(this.deadline.0, Some(cx.waker().clone())));
            }
            Some(t) => {
                if vsched::time::gone_off(t) {
                    this.done = true;
                    this.timer = None;
                    return Poll::Ready(());
                }
                vsched::time::rewake(t, cx.waker().clone());
            }
        }
        vsched::label("sleep");
        Poll::Pending
    }
}
impl Drop for Sleep {
    fn drop(&mut self) {
        if let Some(t) = self.timer.take() {
            vsched::time::clear_timer(t);
        }
    }
}
pub fn sleep(d: Duration) -> Sleep {
    Sleep::at(Instant::now() + d)
}
pub fn sleep_until(i: Instant) -> Sleep {
    Sleep::at(i)
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}
#[derive(Debug)]
pub struct Interval {
    next: Pin<Box<Sleep>>,
    period: Duration,
    missed: MissedTickBehavior,
}
pub fn interval(period: Duration) -> Interval {
    interval_at(Instant::now(), period)
}
pub fn interval_at(start: Instant, period: Duration) -> Interval {
    assert!(period > Duration::ZERO, "`period` must be non-zero.");
    Interval { next: Box::pin(Sleep::at(start)), period, missed: MissedTickBehavior::default() }
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        match self.next.as_mut().poll(cx) {
            Poll::Ready(()) => {
                let was = self.next.deadline();
                let now = Instant::now();
                let next = match self.missed {
                    MissedTickBehavior::Burst => was + self.period,
                    MissedTickBehavior::Delay => now + self.period,
                    MissedTickBehavior::Skip => {
                        let mut n = was + self.period;
                        while n <= now {
                            n += self.period;
                        }
                        n
                    }
                };
                self.next.as_mut().reset(next);
                Poll::Ready(was)
            }
            Poll::Pending => Poll::Pending,
        }
    }
    pub fn reset(&mut self) {
        let n = Instant::now() + self.period;
        self.next.as_mut().reset(n);
    }
    pub fn reset_immediately(&mut self) {
        self.next.as_mut().reset(Instant::now());
    }
    pub fn reset_after(&mut self, d: Duration) {
        self.next.as_mut().reset(Instant::now() + d);
    }
    pub fn reset_at(&mut self, i: Instant) {
        self.next.as_mut().reset(i);
    }
    pub fn period(&self) -> Duration {
        self.period
    }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
        self.missed
    }
    pub fn set_missed_tick_behavior(&mut self, m: MissedTickBehavior) {
        self.missed = m;
    }
}

pub mod error {
    pub use super::Elapsed;
}
#[derive(Debug, PartialEq, Eq)]
pub struct Elapsed(());
impl Display for Elapsed {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str("deadline has elapsed")
    }
}
impl std::error::Error for Elapsed {}
impl From<Elapsed> for std::io::Error {
    fn from(_: Elapsed) -> Self {
        std::io::ErrorKind::TimedOut.into()
    }
}
pub struct Timeout<F> {
    f: F,
    s: Sleep,
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(r) = unsafe { Pin::new_unchecked(&mut this.f) }.poll(cx) {
            return Poll::Ready(Ok(r));
        }
        match unsafe { Pin::new_unchecked(&mut this.s) }.poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
pub fn timeout<F: std::future::IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> {
    Timeout { f: f.into_future(), s: sleep(d) }
}
pub fn timeout_at<F: std::future::IntoFuture>(i: Instant, f: F) -> Timeout<F::IntoFuture> {
    Timeout { f: f.into_future(), s: sleep_until(i) }
}
