use crate::sx;
use std::cell::RefCell;
use std::future::Future;
use std::pin::Pin;
use std::rc::Rc;
use std::sync::atomic::{AtomicBool, Ordering};
use std::sync::Arc;
pub use std::task::{Context, Poll, Waker};
use std::time::Duration;

struct Flag(AtomicBool);
impl std::task::Wake for Flag { fn wake(self: Arc<Self>) { self.0.store(true, Ordering::SeqCst) } }

/// Polls one future to completion.  A poll that ends Pending without anybody
/// having called the waker can never be resumed: that is a deadlock.
pub fn block_on<F: Future>(f: F) -> F::Output {
    match block_on_quiet(f) {
        Ok(x) => x,
        Err(m) => { sxrt::check(false, m); sxrt::end() }
    }
}

/// As `block_on`, giving the reason when the future never completes.
pub fn block_on_quiet<F: Future>(f: F) -> Result<F::Output, &'static str> {
    let mut f = Box::pin(f);
    let flag = Arc::new(Flag(AtomicBool::new(false)));
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    loop {
        flag.0.store(false, Ordering::SeqCst);
        if let Poll::Ready(x) = f.as_mut().poll(&mut cx) { return Ok(x); }
        let mut n = sx::with(|w| std::mem::take(&mut w.spawned));
        for t in n.iter_mut() {
            if let Some(p) = t { if p.as_mut().poll(&mut cx).is_ready() { *t = None; flag.0.store(true, Ordering::SeqCst); } }
        }
        sx::with(|w| { n.retain(|t| t.is_some()); n.append(&mut w.spawned); w.spawned = n; });
        let over = sx::with(|w| { w.rounds += 1; w.rounds > w.max_rounds });
        if over { return Err("did not finish: round limit of the scheduler reached (livelock or hang)"); }
        if !flag.0.load(Ordering::SeqCst) { return Err("deadlock: nothing can ever wake this task again"); }
    }
}

/// Number of times a future has been polled to Pending since start.
pub fn rounds() -> usize { sx::with(|w| w.rounds) }

pub struct Sleep { polled: usize, d: Duration }
impl Future for Sleep {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let first = self.polled == 0;
        self.polled += 1;
        if first {
            let d = self.d;
            sx::with(|w| { w.sleeps.push(d.as_millis() as u64); let r = w.rounds; w.slept_at.push(r); });
            cx.waker().wake_by_ref();
            return Poll::Pending;
        }
        if sx::delay_sleep() { cx.waker().wake_by_ref(); return Poll::Pending; }
        Poll::Ready(())
    }
}
pub fn sleep(d: Duration) -> Sleep { Sleep { polled: 0, d } }

pub async fn yield_now() {
    let mut done = false;
    std::future::poll_fn(move |cx| if done { Poll::Ready(()) } else { done = true; cx.waker().wake_by_ref(); Poll::Pending }).await
}

pub struct JoinHandle<T> { r: Rc<RefCell<Option<T>>> }
impl<T> Future for JoinHandle<T> {
    type Output = T;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        match self.r.borrow_mut().take() { Some(x) => Poll::Ready(x), None => { cx.waker().wake_by_ref(); Poll::Pending } }
    }
}
unsafe impl<T> Send for JoinHandle<T> {}
pub fn spawn_local<T: 'static, F: Future<Output = T> + 'static>(f: F) -> JoinHandle<T> {
    let r = Rc::new(RefCell::new(None));
    let r2 = r.clone();
    sx::with(|w| w.spawned.push(Some(Box::pin(async move { let x = f.await; *r2.borrow_mut() = Some(x); }))));
    JoinHandle { r }
}
pub fn spawn<T: Send + 'static, F: Future<Output = T> + Send + 'static>(f: F) -> JoinHandle<T> { spawn_local(f) }
pub fn spawn_blocking<T: Send + 'static, F: FnOnce() -> T + Send + 'static>(f: F) -> JoinHandle<T> { spawn_local(async move { f() }) }
