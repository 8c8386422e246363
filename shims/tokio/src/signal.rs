//! Signals are sent by the harness.
use std::{
    cell::RefCell,
    collections::HashMap,
    io,
    task::{Poll, Waker},
};

#[derive(Default)]
struct Signals {
    ///how often each has been sent
    sent: HashMap<i32, u64>,
    waiting: Vec<Waker>,
}
thread_local! {
    static SIGNALS: RefCell<Signals> = RefCell::default();
}
///For the harness.
pub fn send(signal: i32) {
    SIGNALS.with(|s| {
        let mut s = s.borrow_mut();
        *s.sent.entry(signal).or_default() += 1;
        for w in s.waiting.drain(..) {
            w.wake();
        }
    });
}
pub fn reset() {
    SIGNALS.with(|s| *s.borrow_mut() = Signals::default());
}
fn count(signal: i32) -> u64 {
    SIGNALS.with(|s| s.borrow().sent.get(&signal).copied().unwrap_or(0))
}
async fn wait(signal: i32, seen: &mut u64, what: &'static str) {
    std::future::poll_fn(|cx| {
        let n = count(signal);
        if n > *seen {
            *seen = n;
            return Poll::Ready(());
        }
        SIGNALS.with(|s| s.borrow_mut().waiting.push(cx.waker().clone()));
        vsched::label(what);
        Poll::Pending
    })
    .await;
}

pub async fn ctrl_c() -> io::Result<()> {
    let mut seen = count(libc::SIGINT);
    wait(libc::SIGINT, &mut seen, "ctrl-c").await;
    Ok(())
}
pub mod unix {
    use super::{count, io, wait};
    #[derive(Clone, Copy, Debug, PartialEq, Eq, Hash)]
    pub struct SignalKind(i32);
    impl SignalKind {
        pub const fn from_raw(n: i32) -> Self {
            Self(n)
        }
        pub const fn as_raw_value(&self) -> i32 {
            self.0
        }
        pub const fn terminate() -> Self {
            Self(libc::SIGTERM)
        }
        pub const fn interrupt() -> Self {
            Self(libc::SIGINT)
        }
        pub const fn hangup() -> Self {
            Self(libc::SIGHUP)
        }
        pub const fn quit() -> Self {
            Self(libc::SIGQUIT)
        }
        pub const fn user_defined1() -> Self {
            Self(libc::SIGUSR1)
        }
        pub const fn user_defined2() -> Self {
            Self(libc::SIGUSR2)
        }
    }
    #[derive(Debug)]
    pub struct Signal {
        kind: SignalKind,
        seen: u64,
    }
    pub fn signal(kind: SignalKind) -> io::Result<Signal> {
        Ok(Signal { kind, seen: count(kind.0) })
    }
    impl Signal {
        pub async fn recv(&mut self) -> Option<()> {
            wait(self.kind.0, &mut self.seen, "signal").await;
            Some(())
        }
    }
}
