//! axum, except that serving hands the router to the harness instead of the network.
pub use real::*;
pub use serving::{serve, Serve, WithGracefulShutdown};

pub mod serving {
    use real::{extract::Request, response::Response, routing::IntoMakeService, Router};
    use std::{
        cell::RefCell,
        convert::Infallible,
        future::{poll_fn, Future, IntoFuture},
        io,
        pin::Pin,
        rc::Rc,
        task::{Poll, Waker},
    };
    use tower_service::Service;

    ///What clients of the daemon talk to.
    #[derive(Default)]
    pub struct Server {
        pub router: Option<Router>,
        pub accepting: bool,
        pub open: usize,
        pub starts: u32,
        waiting: Vec<Waker>,
    }
    thread_local! {
        static SERVER: RefCell<Rc<RefCell<Server>>> = RefCell::default();
    }
    pub fn server() -> Rc<RefCell<Server>> {
        SERVER.with(|s| s.borrow().clone())
    }
    ///For the next start of a daemon.
    pub fn reset() {
        SERVER.with(|s| *s.borrow_mut() = Rc::default());
    }
    impl Server {
        pub fn wake(&mut self) {
            for w in self.waiting.drain(..) {
                w.wake();
            }
        }
        pub fn wait(&mut self, w: Waker) {
            self.waiting.push(w);
        }
    }

    ///One request that has been accepted.
    pub struct Open(Rc<RefCell<Server>>);
    impl Drop for Open {
        fn drop(&mut self) {
            let mut s = self.0.borrow_mut();
            s.open -= 1;
            s.wake();
        }
    }
    ///The service for a new request, unless the server does not take any.
    pub fn accept() -> Option<(Open, Router)> {
        let s = server();
        let mut b = s.borrow_mut();
        if !b.accepting {
            return None;
        }
        let r = b.router.clone()?;
        b.open += 1;
        drop(b);
        Some((Open(s), r))
    }
    pub async fn call(mut r: Router, req: Request) -> Response {
        match poll_fn(|cx| Service::<Request>::poll_ready(&mut r, cx)).await {
            Ok(()) => {}
            Err(e) => {
                let e: Infallible = e;
                match e {}
            }
        }
        match Service::<Request>::call(&mut r, req).await {
            Ok(r) => r,
            Err(e) => match e {},
        }
    }

    pub trait Served {
        fn router(self) -> Router;
    }
    impl Served for Router {
        fn router(self) -> Router {
            self
        }
    }
    impl Served for IntoMakeService<Router> {
        fn router(mut self) -> Router {
            let f = Service::<()>::call(&mut self, ());
            let mut f = Box::pin(f);
            let mut cx = std::task::Context::from_waker(std::task::Waker::noop());
            match f.as_mut().poll(&mut cx) {
                Poll::Ready(Ok(r)) => r,
                _ => unreachable!("making the service never waits"),
            }
        }
    }

    #[must_use]
    pub struct Serve<L> {
        router: Router,
        listener: L,
    }
    pub fn serve<L, M: Served>(listener: L, m: M) -> Serve<L> {
        Serve { router: m.router(), listener }
    }
    #[must_use]
    pub struct WithGracefulShutdown<L, F> {
        router: Router,
        listener: L,
        signal: F,
    }
    impl<L> Serve<L> {
        pub fn with_graceful_shutdown<F: Future<Output = ()> + Send + 'static>(self, signal: F) -> WithGracefulShutdown<L, F> {
            WithGracefulShutdown { router: self.router, listener: self.listener, signal }
        }
        pub fn tcp_nodelay(self, _: bool) -> Self {
            self
        }
    }
    impl<L, F> WithGracefulShutdown<L, F> {
        pub fn tcp_nodelay(self, _: bool) -> Self {
            self
        }
    }
    type Fut = Pin<Box<dyn Future<Output = io::Result<()>> + Send>>;

    ///Everything of an execution stays on its thread.
    struct OneThread<T>(T);
    unsafe impl<T> Send for OneThread<T> {}
    unsafe impl<T> Sync for OneThread<T> {}

    fn start(r: Router) -> Rc<RefCell<Server>> {
        let s = server();
        let mut b = s.borrow_mut();
        b.router = Some(r);
        b.accepting = true;
        b.starts += 1;
        b.wake();
        vsched::log(vsched::Entry::Serving);
        drop(b);
        s
    }
    struct Stop(OneThread<Rc<RefCell<Server>>>);
    impl Drop for Stop {
        fn drop(&mut self) {
            let mut s = self.0 .0.borrow_mut();
            s.accepting = false;
            s.router = None;
            s.wake();
        }
    }
    impl<L: Send + 'static> IntoFuture for Serve<L> {
        type Output = io::Result<()>;
        type IntoFuture = Fut;
        fn into_future(self) -> Fut {
            Box::pin(async move {
                let _l = self.listener;
                let _stop = Stop(OneThread(start(self.router)));
                vsched::label("serve");
                std::future::pending::<()>().await;
                Ok(())
            })
        }
    }
    ///The real one runs the signal as a task of its own, beside accepting.
    struct Shutdown(OneThread<vsched::TaskId>);

    impl<L: Send + 'static, F: Future<Output = ()> + Send + 'static> IntoFuture for WithGracefulShutdown<L, F> {
        type Output = io::Result<()>;
        type IntoFuture = Fut;
        fn into_future(self) -> Fut {
            let signal = self.signal;
            let task = Shutdown(OneThread(vsched::spawn("shutdown signal", move || {
                vsched::block_on(signal);
            })));
            Box::pin(async move {
                let listener = self.listener;
                let s = OneThread(start(self.router));
                let stop = Stop(OneThread(s.0.clone()));
                let task = task;
                poll_fn(|cx| {
                    let task = &task;
                    let t = task.0 .0;
                    if vsched::is_done(t) {
                        return Poll::Ready(());
                    }
                    vsched::wake_when_done(t, cx.waker());
                    vsched::label("serve");
                    Poll::Pending
                })
                .await;
                //between the end of the signal and the end of accepting, connections are still taken
                vsched::point("stop accepting");
                drop(stop);
                drop(listener);
                vsched::log(vsched::Entry::Closing);
                poll_fn(|cx| {
                    let s = &s;
                    let mut b = s.0.borrow_mut();
                    if b.open == 0 {
                        return Poll::Ready(());
                    }
                    b.wait(cx.waker().clone());
                    vsched::label("serve: open requests");
                    Poll::Pending
                })
                .await;
                Ok(())
            })
        }
    }
}
