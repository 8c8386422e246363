//! Executions of the real daemon in a world of our making: its files, clock, signals, schedule and clients.
use crate::ck::{guarded, h64, Ck, L};
use axum::{body::Body, extract::Request, serving};
use std::{
    cell::{Cell, RefCell},
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    rc::Rc,
    sync::atomic::{AtomicU64, Ordering},
};
use vsched::{vfs::Vfs, Choice, Config, End, Entry, Outcome};

pub const BASE: &str = "/souris/data";
pub static STEPS: AtomicU64 = AtomicU64::new(0);
pub static UNCONTROLLED: AtomicU64 = AtomicU64::new(0);

pub struct Run<T> {
    pub out: Outcome,
    pub data: T,
}

///Runs one execution on a thread of its own, so that nothing of one before is left.
pub fn execute<T: Send + Default + 'static>(cfg: Config, prefix: &[Choice], fs: &Vfs, root: impl FnOnce(&mut T) + Send) -> Result<Run<T>, String> {
    vsched::when_stuck(crate::sys::foreign_locks);
    std::thread::scope(|sc| {
        std::thread::Builder::new()
            .stack_size(1 << 20)
            .spawn_scoped(sc, || {
                guarded(|| {
                    foldhash::control::set_seed(0);
                    crate::sys::set_env(&[(c"BASE_LOCATION", BASE), (c"HOME", "/home/u")]);
                    crate::sys::set_uid(0);
                    let data: Rc<RefCell<T>> = Rc::default();
                    let d = data.clone();
                    let root: Box<dyn FnOnce(&mut T) + Send> = Box::new(root);
                    //the execution is over before this returns
                    let root: Box<dyn FnOnce(&mut T) + Send + 'static> = unsafe { std::mem::transmute(root) };
                    let out = vsched::run(cfg, prefix, fs.clone(), move || {
                        let mut t = T::default();
                        let r = catch_unwind(AssertUnwindSafe(|| root(&mut t)));
                        *d.borrow_mut() = t;
                        if let Err(p) = r {
                            resume_unwind(p);
                        }
                    });
                    STEPS.fetch_add(out.steps, Ordering::Relaxed);
                    let data = Rc::try_unwrap(data).ok().expect("still used").into_inner();
                    Run { out, data }
                })
            })
            .unwrap()
            .join()
            .unwrap_or_else(|_| Err("the execution's thread panicked".into()))
    })
}

///Every execution there is within the budgets of `cfg`; stops when `each` says so, or after `cap` of them.
pub fn explore<T: Send + Default + 'static>(l: &mut L, cap: u64, cfg: &Config, fs: &Vfs, root: impl Fn(&mut T) + Send + Sync, mut each: impl FnMut(&mut L, Run<T>) -> bool) {
    let mut prefix: Vec<Choice> = vec![];
    let mut n = 0;
    loop {
        let r = match execute(cfg.clone(), &prefix, fs, |t| root(t)) {
            Ok(r) => r,
            Err(e) => {
                l.fail("engine", format!("the exploration itself failed: {e}"));
                return;
            }
        };
        n += 1;
        let choices = r.out.choices.clone();
        if r.out.unsupported.iter().any(|u| u.starts_with("choice")) {
            UNCONTROLLED.fetch_add(1, Ordering::Relaxed);
            if std::env::var("VERIF_VERBOSE").is_ok() {
                eprintln!("  not under control: {:?}", r.out.unsupported);
            }
            l.cut = true;
            l.call(r.out.steps);
            each(l, r);
            return;
        }
        l.call(r.out.steps);
        l.run(h64(&choices.iter().map(|c| c.taken).collect::<Vec<_>>()));
        if !each(l, r) {
            return;
        }
        match choices.iter().rposition(|c| c.taken + 1 < c.of) {
            Some(i) => {
                prefix.clear();
                prefix.extend_from_slice(&choices[..i]);
                prefix.push(Choice { taken: choices[i].taken + 1, of: choices[i].of });
            }
            None => return,
        }
        if n >= cap || late(l.ck) {
            l.cut = true;
            return;
        }
    }
}
///Whether a check has used up its time; what is left then is reported as not covered.
pub fn late(ck: &Ck) -> bool {
    ck.told() || ck.start.elapsed().as_secs() > if ck.thorough { 5400 } else { 420 }
}

///A file system as the daemon finds it at its first start.
pub fn fresh() -> Vfs {
    let mut v = Vfs::default();
    v.mkdir_all(BASE);
    v
}

#[derive(Clone, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub enum Reply {
    Http(u16, Vec<u8>),
    ///not connected
    Refused,
    ///went away without waiting for an answer
    Gone,
    ///the connection broke, because the handler panicked
    Broken(String),
}

#[derive(Clone, Debug)]
pub struct Req {
    pub method: &'static str,
    pub uri: String,
    pub body: Vec<u8>,
    pub content_type: Option<&'static str>,
}

///Within a task: sends a request and waits for the answer.
pub fn send(r: &Req, may_go: bool) -> Reply {
    let Some((open, router)) = serving::accept() else { return Reply::Refused };
    let mut b = http::Request::builder().method(r.method).uri(&*r.uri).header("host", "localhost:7687");
    if let Some(c) = r.content_type {
        b = b.header("content-type", c);
    }
    let req: Request = match b.body(Body::from(r.body.clone())) {
        Ok(r) => r,
        Err(e) => panic!("bad request {}: {e}", r.uri),
    };
    let res = catch_unwind(AssertUnwindSafe(|| {
        vsched::block_on_or_drop(
            async move {
                let res = serving::call(router, req).await;
                let status = res.status().as_u16();
                let body = axum::body::to_bytes(res.into_body(), usize::MAX).await.map(|b| b.to_vec());
                match body {
                    Ok(b) => Reply::Http(status, b),
                    Err(e) => Reply::Broken(e.to_string()),
                }
            },
            may_go,
            || false,
        )
    }));
    let r = match res {
        Ok(Some(r)) => r,
        Ok(None) => Reply::Gone,
        Err(p) => {
            if p.is::<vsched::Killed>() {
                resume_unwind(p);
            }
            Reply::Broken(vsched::text(&*p))
        }
    };
    drop(open);
    r
}

///A daemon that has been started.
pub struct Daemon {
    pub task: vsched::TaskId,
    pub crashed: Rc<RefCell<Option<String>>>,
    ///how much had been logged when it exited
    pub ended_at: Rc<Cell<Option<usize>>>,
}
///Starts the daemon and waits until it serves, without exploring anything.
pub fn boot() -> Result<Daemon, String> {
    quietly(|| {
        let d = start();
        vsched::idle();
        if serving::server().borrow().accepting {
            Ok(d)
        } else if let Some(p) = d.crashed.borrow().clone() {
            Err(format!("the daemon panicked while starting: {p}"))
        } else {
            Err(format!("the daemon did not come up: {:?}", vsched::blocked()))
        }
    })
}
pub fn start() -> Daemon {
    serving::reset();
    crate::sys::started();
    tokio::signal::reset();
    tokio::task::reset();
    let crashed: Rc<RefCell<Option<String>>> = Rc::default();
    let c = crashed.clone();
    let ended_at: Rc<Cell<Option<usize>>> = Rc::default();
    let e = ended_at.clone();
    let task = vsched::spawn("daemon", move || {
        let r = catch_unwind(AssertUnwindSafe(sourisd::verif_main));
        e.set(Some(vsched::log_len()));
        if let Err(p) = r {
            if p.is::<vsched::Killed>() {
                resume_unwind(p);
            }
            *c.borrow_mut() = Some(vsched::text(&*p));
        }
    });
    Daemon { task, crashed, ended_at }
}
pub fn quietly<T>(f: impl FnOnce() -> T) -> T {
    let was = std::mem::replace(&mut vsched::config().unwrap().quiet, true);
    let r = f();
    vsched::config().unwrap().quiet = was;
    r
}
impl Daemon {
    pub fn gone(&self) -> bool {
        vsched::is_done(self.task) || crate::sys::exited()
    }
    ///Asks the daemon to stop and waits until it has.
    pub fn stop(&self) -> Result<(), String> {
        tokio::signal::send(libc::SIGTERM);
        self.wait_gone()
    }
    pub fn wait_gone(&self) -> Result<(), String> {
        vsched::idle();
        for _ in 0..8 {
            if self.gone() {
                break;
            }
            //it could be waiting for some time to pass
            if vsched::time::pending() == 0 {
                break;
            }
            vsched::force_tick();
            vsched::idle();
        }
        if !self.gone() {
            return Err(format!("asked to stop, the daemon never exits: {:?}", vsched::blocked()));
        }
        if let Some(p) = &*self.crashed.borrow() {
            return Err(format!("the daemon panicked: {p}"));
        }
        vsched::fs().close_all();
        Ok(())
    }
}
///Lets the clock go on to the next timer, which is when the daemon saves, and waits for what comes of it.
pub fn tick() {
    vsched::force_tick();
    vsched::idle();
}

pub fn ended(o: &Outcome) -> Result<(), String> {
    match &o.end {
        End::Done => {}
        End::Deadlock(w) => return Err(format!("nothing goes on any more: {}", w.join(", "))),
        End::Endless => return Err("more steps than this should ever take".into()),
    }
    if let Some((t, p)) = o.panics.first() {
        return Err(format!("{t} panicked: {p}"));
    }
    Ok(())
}
pub fn fs_ops(log: &[Entry]) -> usize {
    log.iter().filter(|e| matches!(e, Entry::Fs(_))).count()
}
