use crate::OneThread;
use std::{
    any::Any,
    cell::RefCell,
    fmt::{Debug, Display, Formatter},
    future::Future,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    pin::Pin,
    rc::Rc,
    task::{Context, Poll},
};
pub use real::task::{futures, unconstrained, Unconstrained};

pub struct JoinError {
    panic: Option<Box<dyn Any + Send + 'static>>,
}
unsafe impl Sync for JoinError {}
impl JoinError {
    pub fn is_cancelled(&self) -> bool {
        self.panic.is_none()
    }
    pub fn is_panic(&self) -> bool {
        self.panic.is_some()
    }
    pub fn into_panic(self) -> Box<dyn Any + Send + 'static> {
        self.panic.expect("not a panic")
    }
    pub fn try_into_panic(self) -> Result<Box<dyn Any + Send + 'static>, JoinError> {
        match self.panic {
            Some(p) => Ok(p),
            None => Err(JoinError { panic: None }),
        }
    }
}
impl Debug for JoinError {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "JoinError::{}", if self.is_panic() { "Panic(...)" } else { "Cancelled" })
    }
}
impl Display for JoinError {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}", if self.is_panic() { "task panicked" } else { "task was cancelled" })
    }
}
impl std::error::Error for JoinError {}
impl From<JoinError> for std::io::Error {
    fn from(e: JoinError) -> Self {
        std::io::Error::new(std::io::ErrorKind::Other, e.to_string())
    }
}

struct Shared<T> {
    result: Option<Result<T, JoinError>>,
    aborted: bool,
    task: vsched::TaskId,
}
pub struct JoinHandle<T> {
    shared: OneThread<Rc<RefCell<Shared<T>>>>,
}
impl<T> Unpin for JoinHandle<T> {}
impl<T> Debug for JoinHandle<T> {
    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
        f.write_str("JoinHandle")
    }
}
impl<T> JoinHandle<T> {
    pub fn abort(&self) {
        let mut s = self.shared.0.borrow_mut();
        s.aborted = true;
        if let Some(w) = vsched::waker_of(s.task) {
            w.wake();
        }
    }
    pub fn is_finished(&self) -> bool {
        vsched::is_done(self.shared.0.borrow().task)
    }
    pub fn abort_handle(&self) -> AbortHandle
    where
        T: 'static,
    {
        let s = OneThread(self.shared.0.clone());
        let task = self.shared.0.borrow().task;
        AbortHandle { abort: OneThread(Rc::new(move || s.0.borrow_mut().aborted = true)), task }
    }
}
#[derive(Clone)]
pub struct AbortHandle {
    abort: OneThread<Rc<dyn Fn()>>,
    task: vsched::TaskId,
}
impl Clone for OneThread<Rc<dyn Fn()>> {
    fn clone(&self) -> Self {
        OneThread(self.0.clone())
    }
}
impl AbortHandle {
    pub fn abort(&self) {
        (self.abort.0)();
        if let Some(w) = vsched::waker_of(self.task) {
            w.wake();
        }
    }
    pub fn is_finished(&self) -> bool {
        vsched::is_done(self.task)
    }
}
impl<T> Future for JoinHandle<T> {
    type Output = Result<T, JoinError>;
    fn poll(self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Self::Output> {
        let mut s = self.shared.0.borrow_mut();
        if vsched::is_done(s.task) {
            return Poll::Ready(s.result.take().unwrap_or(Err(JoinError { panic: None })));
        }
        vsched::wake_when_done(s.task, cx.waker());
        vsched::label("join");
        Poll::Pending
    }
}

thread_local! {
    ///how to abort each task of the runtime
    static TASKS: RefCell<Vec<Box<dyn Fn()>>> = RefCell::default();
}
pub fn reset() {
    TASKS.with(|t| t.borrow_mut().clear());
}
///When the runtime goes away, so do its tasks.
pub(crate) fn abort_all() {
    let all = TASKS.with(|t| std::mem::take(&mut *t.borrow_mut()));
    for a in all {
        a();
    }
}

fn start<T: 'static>(name: &'static str, run: impl FnOnce(Rc<RefCell<Shared<T>>>) -> Option<T> + 'static) -> JoinHandle<T> {
    let shared = Rc::new(RefCell::new(Shared { result: None, aborted: false, task: usize::MAX }));
    let s = shared.clone();
    let task = vsched::spawn(name, move || {
        let r = catch_unwind(AssertUnwindSafe(|| run(s.clone())));
        let r = match r {
            Ok(Some(v)) => Ok(v),
            Ok(None) => Err(JoinError { panic: None }),
            Err(p) => {
                if p.is::<vsched::Killed>() {
                    resume_unwind(p);
                }
                PANICS.with(|x| x.borrow_mut().push(vsched::text(&*p)));
                Err(JoinError { panic: Some(p) })
            }
        };
        s.borrow_mut().result = Some(r);
    });
    shared.borrow_mut().task = task;
    let weak = Rc::downgrade(&shared);
    TASKS.with(|t| {
        t.borrow_mut().push(Box::new(move || {
            if let Some(s) = weak.upgrade() {
                s.borrow_mut().aborted = true;
                let t = s.borrow().task;
                if let Some(w) = vsched::waker_of(t) {
                    w.wake();
                }
            }
        }));
    });
    JoinHandle { shared: OneThread(shared) }
}
thread_local! {
    static PANICS: RefCell<Vec<String>> = RefCell::default();
}
///What tasks panicked with since the last time.
pub fn take_panics() -> Vec<String> {
    PANICS.with(|p| std::mem::take(&mut *p.borrow_mut()))
}

pub fn spawn<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + Send + 'static,
    F::Output: Send + 'static,
{
    start("task", move |s| {
        if s.borrow().aborted {
            return None;
        }
        vsched::block_on_or_drop(f, false, || s.borrow().aborted)
    })
}
pub fn spawn_local<F>(f: F) -> JoinHandle<F::Output>
where
    F: Future + 'static,
    F::Output: 'static,
{
    start("task", move |s| {
        if s.borrow().aborted {
            return None;
        }
        vsched::block_on_or_drop(f, false, || s.borrow().aborted)
    })
}
pub fn spawn_blocking<F, R>(f: F) -> JoinHandle<R>
where
    F: FnOnce() -> R + Send + 'static,
    R: Send + 'static,
{
    start("blocking task", move |s| {
        //can only be aborted before it has started
        if s.borrow().aborted {
            return None;
        }
        Some(f())
    })
}
pub fn block_in_place<F, R>(f: F) -> R
where
    F: FnOnce() -> R,
{
    f()
}
pub async fn yield_now() {
    vsched::yield_now();
}

///A set of tasks.
pub struct JoinSet<T> {
    handles: Vec<JoinHandle<T>>,
}
impl<T> Default for JoinSet<T> {
    fn default() -> Self {
        Self { handles: vec![] }
    }
}
impl<T: 'static> JoinSet<T> {
    pub fn new() -> Self {
        Self::default()
    }
    pub fn len(&self) -> usize {
        self.handles.len()
    }
    pub fn is_empty(&self) -> bool {
        self.handles.is_empty()
    }
    pub fn spawn<F>(&mut self, f: F) -> AbortHandle
    where
        F: Future<Output = T> + Send + 'static,
        T: Send,
    {
        let h = spawn(f);
        let a = h.abort_handle();
        self.handles.push(h);
        a
    }
    pub fn spawn_blocking<F>(&mut self, f: F) -> AbortHandle
    where
        F: FnOnce() -> T + Send + 'static,
        T: Send,
    {
        let h = spawn_blocking(f);
        let a = h.abort_handle();
        self.handles.push(h);
        a
    }
    pub async fn join_next(&mut self) -> Option<Result<T, JoinError>> {
        if self.handles.is_empty() {
            return None;
        }
        std::future::poll_fn(|cx| {
            for i in 0..self.handles.len() {
                if let Poll::Ready(r) = Pin::new(&mut self.handles[i]).poll(cx) {
                    drop(self.handles.remove(i));
                    return Poll::Ready(Some(r));
                }
            }
            Poll::Pending
        })
        .await
    }
    pub async fn join_all(mut self) -> Vec<T> {
        let mut v = vec![];
        while let Some(r) = self.join_next().await {
            match r {
                Ok(x) => v.push(x),
                Err(e) if e.is_panic() => resume_unwind(e.into_panic()),
                Err(e) => panic!("{e}"),
            }
        }
        v
    }
    pub fn abort_all(&mut self) {
        for h in &self.handles {
            h.abort();
        }
    }
    pub async fn shutdown(&mut self) {
        self.abort_all();
        while self.join_next().await.is_some() {}
    }
    pub fn detach_all(&mut self) {
        self.handles.clear();
    }
}
impl<T> Drop for JoinSet<T> {
    fn drop(&mut self) {
        for h in &self.handles {
            h.abort();
        }
    }
}
