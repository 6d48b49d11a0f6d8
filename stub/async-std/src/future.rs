use std::pin::Pin;
use std::task::{Context, Poll};
use std::time::Duration;
pub use std::future::{Future, pending, ready, poll_fn};

enum MaybeDone<F: Future> { Fut(F), Done(F::Output), Gone }
impl<F: Future> MaybeDone<F> {
    /// true when the output is there
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> bool {
        unsafe {
            let this = self.get_unchecked_mut();
            match this {
                MaybeDone::Fut(f) => match Pin::new_unchecked(f).poll(cx) {
                    Poll::Ready(o) => { *this = MaybeDone::Done(o); true }
                    Poll::Pending => false,
                },
                MaybeDone::Done(_) => true,
                MaybeDone::Gone => panic!("polled after completion"),
            }
        }
    }
    fn take(self: Pin<&mut Self>) -> F::Output {
        unsafe {
            match std::mem::replace(self.get_unchecked_mut(), MaybeDone::Gone) { MaybeDone::Done(o) => o, _ => panic!("not done") }
        }
    }
    fn out(&self) -> Option<&F::Output> { match self { MaybeDone::Done(o) => Some(o), _ => None } }
}

pub struct Join<L: Future, R: Future> { l: MaybeDone<L>, r: MaybeDone<R> }
impl<L: Future, R: Future> Future for Join<L, R> {
    type Output = (L::Output, R::Output);
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = unsafe { self.get_unchecked_mut() };
        let (mut l, mut r) = unsafe { (Pin::new_unchecked(&mut this.l), Pin::new_unchecked(&mut this.r)) };
        if l.as_mut().poll(cx) && r.as_ref().out().is_some() { return Poll::Ready((l.take(), r.take())); }
        if r.as_mut().poll(cx) && l.as_ref().out().is_some() { return Poll::Ready((l.take(), r.take())); }
        Poll::Pending
    }
}
pub struct Race<L: Future, R: Future> { l: MaybeDone<L>, r: MaybeDone<R> }
impl<L: Future, R: Future<Output = L::Output>> Future for Race<L, R> {
    type Output = L::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = unsafe { self.get_unchecked_mut() };
        let (mut l, mut r) = unsafe { (Pin::new_unchecked(&mut this.l), Pin::new_unchecked(&mut this.r)) };
        if l.as_mut().poll(cx) { return Poll::Ready(l.take()); }
        if r.as_mut().poll(cx) { return Poll::Ready(r.take()); }
        Poll::Pending
    }
}
pub struct TryJoin<L: Future, R: Future> { l: MaybeDone<L>, r: MaybeDone<R> }
impl<A, B, E, L: Future<Output = Result<A, E>>, R: Future<Output = Result<B, E>>> Future for TryJoin<L, R> {
    type Output = Result<(A, B), E>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let this = unsafe { self.get_unchecked_mut() };
        let (mut l, mut r) = unsafe { (Pin::new_unchecked(&mut this.l), Pin::new_unchecked(&mut this.r)) };
        let ld = l.as_mut().poll(cx);
        if ld && l.out().map_or(false, |x| x.is_err()) { return Poll::Ready(match l.take() { Err(e) => Err(e), Ok(_) => unreachable!() }); }
        let rd = r.as_mut().poll(cx);
        if rd && r.out().map_or(false, |x| x.is_err()) { return Poll::Ready(match r.take() { Err(e) => Err(e), Ok(_) => unreachable!() }); }
        if ld && rd {
            return Poll::Ready(match (l.take(), r.take()) { (Ok(a), Ok(b)) => Ok((a, b)), _ => unreachable!() });
        }
        Poll::Pending
    }
}

pub trait FutureExt: Future {
    fn delay(self, d: Duration) -> Pin<Box<dyn Future<Output = Self::Output>>> where Self: Sized + 'static {
        Box::pin(async move { crate::task::sleep(d).await; self.await })
    }
    fn race<F>(self, other: F) -> Race<Self, F> where Self: Sized, F: Future<Output = Self::Output> {
        Race { l: MaybeDone::Fut(self), r: MaybeDone::Fut(other) }
    }
    fn join<F>(self, other: F) -> Join<Self, F> where Self: Sized, F: Future {
        Join { l: MaybeDone::Fut(self), r: MaybeDone::Fut(other) }
    }
    fn try_join<A, B, E, F>(self, other: F) -> TryJoin<Self, F> where Self: Future<Output = Result<A, E>> + Sized, F: Future<Output = Result<B, E>> {
        TryJoin { l: MaybeDone::Fut(self), r: MaybeDone::Fut(other) }
    }
    fn timeout(self, d: Duration) -> Pin<Box<dyn Future<Output = Result<Self::Output, TimeoutError>>>> where Self: Sized + 'static {
        Box::pin(timeout(d, self))
    }
}
impl<T: Future + ?Sized> FutureExt for T {}

#[derive(Clone, Copy, Debug, Eq, PartialEq)]
pub struct TimeoutError { _p: () }
impl std::fmt::Display for TimeoutError { fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result { f.write_str("future has timed out") } }
impl std::error::Error for TimeoutError {}
pub async fn timeout<F: Future>(d: Duration, f: F) -> Result<F::Output, TimeoutError> {
    let a = async { Ok(f.await) };
    let b = async { crate::task::sleep(d).await; Err(TimeoutError { _p: () }) };
    a.race(b).await
}
