use std::any::Any;
use std::fmt;
use std::future::Future;
use std::pin::Pin;
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll};

pub struct JoinError {
    cancelled: bool,
}
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        self.cancelled
    }
    pub fn is_panic(&self) -> bool {
        !self.cancelled
    }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        Box::new("task panicked")
    }
}
impl fmt::Debug for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JoinError(cancelled={})", self.cancelled)
    }
}
impl fmt::Display for JoinError {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        fmt::Debug::fmt(self, f)
    }
}
impl std::error::Error for JoinError {}

pub struct JoinHandle<T> {
    world: u64,
    id: usize,
    aborted: Arc<Mutex<bool>>,
    rx: simrt::oneshot::Rx<T>,
}
impl<T> Unpin for JoinHandle<T> {}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        *self.aborted.lock().unwrap() = true;
        abort(self.world, self.id);
    }
    pub fn is_finished(&self) -> bool {
        simrt::sim().is_finished(self.id)
    }
    pub fn abort_handle(&self) -> AbortHandle {
        AbortHandle { world: self.world, id: self.id, aborted: self.aborted.clone() }
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        match Pin::new(&mut self.rx).poll(cx) {
            Poll::Pending => Poll::Pending,
            Poll::Ready(Some(v)) => Poll::Ready(Ok(v)),
            Poll::Ready(None) => {
                Poll::Ready(Err(JoinError { cancelled: *self.aborted.lock().unwrap() }))
            }
        }
    }
}
impl<T> fmt::Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut fmt::Formatter<'_>) -> fmt::Result {
        write!(f, "JoinHandle({})", self.id)
    }
}

#[derive(Clone, Debug)]
pub struct AbortHandle {
    world: u64,
    id: usize,
    aborted: Arc<Mutex<bool>>,
}
impl AbortHandle {
    pub fn abort(&self) {
        *self.aborted.lock().unwrap() = true;
        abort(self.world, self.id);
    }
    pub fn is_finished(&self) -> bool {
        simrt::sim().is_finished(self.id)
    }
}

fn abort(world: u64, id: usize) {
    if simrt::active() && simrt::sim().id == world {
        simrt::sim().abort(id);
    }
}

pub fn spawn<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    spawn_local(fut)
}
pub fn spawn_local<F>(fut: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    let (tx, rx) = simrt::oneshot::channel();
    let s = simrt::sim();
    let id = s.spawn_on(s.cur_node(), async move {
        let v = fut.await;
        tx.send(v);
    });
    JoinHandle { world: s.id, id, aborted: Arc::new(Mutex::new(false)), rx }
}
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    spawn_local(async move { f() })
}
pub fn block_in_place<F: FnOnce() -> R, R>(f: F) -> R {
    f()
}

pub async fn yield_now() {
    simrt::yield_now().await
}

pub struct Unconstrained<F>(F);
pub fn unconstrained<F>(f: F) -> Unconstrained<F> {
    Unconstrained(f)
}
impl<F: Future> Future for Unconstrained<F> {
    type Output = F::Output;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<F::Output> {
        unsafe { self.map_unchecked_mut(|s| &mut s.0) }.poll(cx)
    }
}

/// A set of tasks; dropping it aborts them.
pub struct JoinSet<T> {
    hs: Vec<JoinHandle<T>>,
}
impl<T: Send + 'static> Default for JoinSet<T> {
    fn default() -> Self {
        Self::new()
    }
}
impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self {
        Self { hs: vec![] }
    }
    pub fn len(&self) -> usize {
        self.hs.len()
    }
    pub fn is_empty(&self) -> bool {
        self.hs.is_empty()
    }
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let h = spawn(f);
        let a = h.abort_handle();
        self.hs.push(h);
        a
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        std::future::poll_fn(|cx| self.poll_join_next(cx)).await
    }
    pub fn poll_join_next(&mut self, cx: &mut Context<'_>) -> Poll<Option<Result<T, JoinError>>> {
        if self.hs.is_empty() {
            return Poll::Ready(None);
        }
        for i in 0..self.hs.len() {
            if let Poll::Ready(r) = Pin::new(&mut self.hs[i]).poll(cx) {
                self.hs.remove(i);
                return Poll::Ready(Some(r));
            }
        }
        Poll::Pending
    }
    pub fn try_join_next(&mut self) -> Option<Result<T, JoinError>> {
        let mut cx = Context::from_waker(std::task::Waker::noop());
        match self.poll_join_next(&mut cx) {
            Poll::Ready(x) => x,
            Poll::Pending => None,
        }
    }
    pub async fn join_all(mut self) -> Vec<T> {
        let mut out = vec![];
        while let Some(x) = self.join_next().await {
            out.push(x.expect("a task of the set failed"));
        }
        out
    }
    pub fn abort_all(&mut self) {
        for h in &self.hs {
            h.abort();
        }
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
    pub fn detach_all(&mut self) {
        self.hs.clear();
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in &self.hs {
            h.abort();
        }
    }
}
