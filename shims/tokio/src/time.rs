use std::fmt;
use std::future::{Future, IntoFuture};
use std::ops::{Add, AddAssign, Sub, SubAssign};
use std::pin::Pin;
use std::task::{Context, Poll};
pub use std::time::Duration;

/// Virtual time.
#[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Hash, Debug)]
pub struct Instant(u64);
impl Instant {
    pub fn now() -> Self {
        Instant(simrt::sim().now())
    }
    pub fn elapsed(&self) -> Duration {
        Duration::from_nanos(simrt::sim().now().saturating_sub(self.0))
    }
    pub fn duration_since(&self, e: Instant) -> Duration {
        Duration::from_nanos(self.0.saturating_sub(e.0))
    }
    pub fn saturating_duration_since(&self, e: Instant) -> Duration {
        self.duration_since(e)
    }
    pub fn checked_duration_since(&self, e: Instant) -> Option<Duration> {
        self.0.checked_sub(e.0).map(Duration::from_nanos)
    }
    pub fn checked_add(&self, d: Duration) -> Option<Instant> {
        self.0.checked_add(ns(d)).map(Instant)
    }
    pub fn checked_sub(&self, d: Duration) -> Option<Instant> {
        self.0.checked_sub(ns(d)).map(Instant)
    }
}
fn ns(d: Duration) -> u64 {
    d.as_nanos().min(u64::MAX as u128 / 4) as u64
}
impl Add<Duration> for Instant {
    type Output = Instant;
    fn add(self, d: Duration) -> Instant {
        Instant(self.0.saturating_add(ns(d)))
    }
}
impl AddAssign<Duration> for Instant {
    fn add_assign(&mut self, d: Duration) {
        *self = *self + d
    }
}
impl Sub<Duration> for Instant {
    type Output = Instant;
    fn sub(self, d: Duration) -> Instant {
        Instant(self.0.saturating_sub(ns(d)))
    }
}
impl SubAssign<Duration> for Instant {
    fn sub_assign(&mut self, d: Duration) {
        *self = *self - d
    }
}
impl Sub<Instant> for Instant {
    type Output = Duration;
    fn sub(self, o: Instant) -> Duration {
        self.duration_since(o)
    }
}

pub struct Sleep(simrt::Sleep);
impl Sleep {
    pub fn deadline(&self) -> Instant {
        Instant(self.0.deadline())
    }
    pub fn is_elapsed(&self) -> bool {
        self.0.is_elapsed()
    }
    pub fn reset(mut self: Pin<&mut Self>, t: Instant) {
        self.0.reset(t.0)
    }
}
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        Pin::new(&mut self.0).poll(cx)
    }
}
pub fn sleep(d: Duration) -> Sleep {
    Sleep(simrt::sleep_ns(ns(d)))
}
pub fn sleep_until(t: Instant) -> Sleep {
    Sleep(simrt::Sleep::until(t.0))
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, Default)]
pub enum MissedTickBehavior {
    #[default]
    Burst,
    Delay,
    Skip,
}
pub struct Interval {
    sleep: simrt::Sleep,
    period: u64,
    behavior: MissedTickBehavior,
}
impl Interval {
    pub async fn tick(&mut self) -> Instant {
        std::future::poll_fn(|cx| self.poll_tick(cx)).await
    }
    pub fn poll_tick(&mut self, cx: &mut Context<'_>) -> Poll<Instant> {
        match Pin::new(&mut self.sleep).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(()) => {
                let due = self.sleep.deadline();
                let now = simrt::sim().now();
                let next = if now > due + 5_000_000 {
                    match self.behavior {
                        MissedTickBehavior::Burst => due + self.period,
                        MissedTickBehavior::Delay => now + self.period,
                        MissedTickBehavior::Skip => {
                            now + self.period - ((now - due) % self.period)
                        }
                    }
                } else {
                    due + self.period
                };
                self.sleep.reset(next);
                Poll::Ready(Instant(due))
            }
        }
    }
    pub fn set_missed_tick_behavior(&mut self, b: MissedTickBehavior) {
        self.behavior = b
    }
    pub fn missed_tick_behavior(&self) -> MissedTickBehavior {
        self.behavior
    }
    pub fn period(&self) -> Duration {
        Duration::from_nanos(self.period)
    }
    pub fn reset(&mut self) {
        self.sleep.reset(simrt::sim().now() + self.period)
    }
    pub fn reset_immediately(&mut self) {
        self.sleep.reset(simrt::sim().now())
    }
    pub fn reset_after(&mut self, d: Duration) {
        self.sleep.reset(simrt::sim().now() + ns(d))
    }
}
pub fn interval(p: Duration) -> Interval {
    interval_at(Instant::now(), p)
}
pub fn interval_at(start: Instant, p: Duration) -> Interval {
    assert!(p > Duration::ZERO, "`period` must be non-zero.");
    Interval { sleep: simrt::Sleep::until(start.0), period: ns(p), behavior: Default::default() }
}

pub mod error {
    #[derive(Debug, PartialEq, Eq)]
    pub struct Elapsed(pub(crate) ());
    impl std::fmt::Display for Elapsed {
        fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
            f.write_str("deadline has elapsed")
        }
    }
    impl std::error::Error for Elapsed {}
}

pub struct Timeout<F> {
    fut: F,
    sleep: simrt::Sleep,
}
impl<F> Timeout<F> {
    pub fn into_inner(self) -> F {
        self.fut
    }
}
impl<F> fmt::Debug for Timeout<F> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        f.write_str("Timeout")
    }
}
impl<F: Future> Future for Timeout<F> {
    type Output = Result<F::Output, error::Elapsed>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = unsafe { self.get_unchecked_mut() };
        if let Poll::Ready(v) = unsafe { Pin::new_unchecked(&mut this.fut) }.poll(cx) {
            return Poll::Ready(Ok(v));
        }
        match Pin::new(&mut this.sleep).poll(cx) {
            Poll::Ready(()) => Poll::Ready(Err(error::Elapsed(()))),
            Poll::Pending => Poll::Pending,
        }
    }
}
pub fn timeout<F: IntoFuture>(d: Duration, f: F) -> Timeout<F::IntoFuture> {
    Timeout { fut: f.into_future(), sleep: simrt::sleep_ns(ns(d)) }
}
pub fn timeout_at<F: IntoFuture>(t: Instant, f: F) -> Timeout<F::IntoFuture> {
    Timeout { fut: f.into_future(), sleep: simrt::Sleep::until(t.0) }
}
