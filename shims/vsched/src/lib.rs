//! A controlled scheduler: everything that could happen in more than one order or way is a choice, made by replaying a
//! list of earlier choices and taking the first option afterwards. One execution runs on one operating system thread;
//! its tasks are coroutines, which only switch at schedule points and when they have to wait.
use std::{
    any::Any,
    cell::{Cell, RefCell},
    collections::BTreeMap,
    future::Future,
    panic::{catch_unwind, resume_unwind, AssertUnwindSafe},
    pin::Pin,
    rc::Rc,
    sync::{
        atomic::{AtomicBool, Ordering::Relaxed},
        Arc,
    },
    task::{Context, Poll, Wake, Waker},
};

mod coro;
pub mod vfs;
use coro::Coro;

pub type TaskId = usize;

///What the environment may do in an execution, and how many of each.
#[derive(Clone, Debug)]
pub struct Config {
    ///switches away from a task that could have gone on
    pub preemptions: u32,
    ///times someone other than the first task that can go on is chosen when the last one has to wait
    pub delays: u32,
    ///everything takes its first option, and that is no choice
    pub quiet: bool,
    ///requests whose client goes away while the daemon is waiting for something
    pub cancels: u32,
    ///timers that may go off while there is still something else to do
    pub ticks: u32,
    ///file operations that fail
    pub faults: u32,
    ///entries the cache forgets when they would have been found
    pub evictions: u32,
    ///which branch of a `select!` gets polled first
    pub select_start: u32,
    ///where std's hash maps start iterating
    pub seed: u64,
    pub max_steps: u64,
    pub trace: bool,
}
impl Default for Config {
    fn default() -> Self {
        Self { preemptions: u32::MAX, delays: u32::MAX, quiet: false, cancels: 0, ticks: 0, faults: 0, evictions: u32::MAX, select_start: 0, seed: 0, max_steps: 20_000, trace: false }
    }
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub struct Choice {
    pub taken: u16,
    pub of: u16,
}

///Something worth remembering about an execution, in the order it happened.
#[derive(Clone, Debug)]
pub enum Entry {
    Fs(vfs::Op),
    ///a timer was set by a task
    TimerSet { task: TaskId },
    TimerFired,
    Serving,
    ///the server stops taking connections
    Closing,
    ///whatever the harness wants to mark
    Mark(u32, u32),
}

#[derive(Clone, Debug, PartialEq, Eq)]
pub enum End {
    Done,
    ///nothing can go on: what everyone is waiting for
    Deadlock(Vec<String>),
    ///more steps than any of this should take
    Endless,
}

pub struct Outcome {
    pub end: End,
    pub choices: Vec<Choice>,
    pub log: Vec<Entry>,
    pub trace: Vec<String>,
    pub steps: u64,
    ///the first task that panicked, with what
    pub panics: Vec<(String, String)>,
    pub fs: vfs::Vfs,
    ///things the substitutes do not support
    pub unsupported: Vec<String>,
}

enum Kind {
    Co(Box<Coro>),
    Job(Option<Box<dyn FnOnce()>>),
}
#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum State {
    Ready,
    ///until woken
    Blocked,
    ///until nothing else can go on
    Idle,
    Done,
}
struct Flag {
    woken: AtomicBool,
}
impl Wake for Flag {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Relaxed);
    }
    fn wake_by_ref(self: &Arc<Self>) {
        self.woken.store(true, Relaxed);
    }
}
struct Task {
    name: Rc<str>,
    kind: Kind,
    state: State,
    flag: Arc<Flag>,
    label: &'static str,
    ///is waiting inside something that may be dropped instead
    cancellable: bool,
    cancelled: bool,
    ///woken when done
    joiners: Vec<Waker>,
    background: bool,
    ///woken by a job of its own, to be resumed at once
    waits_for_job: bool,
}
struct Timer {
    waker: Option<Waker>,
    task: TaskId,
}

struct Exec {
    cfg: Config,
    tasks: Vec<Task>,
    current: Option<TaskId>,
    home: usize,
    prefix: Vec<Choice>,
    choices: Vec<Choice>,
    steps: u64,
    kill: bool,
    in_job: bool,
    handoff: Option<TaskId>,
    timers: BTreeMap<(u64, u64), Timer>,
    timer_ids: u64,
    forced_ticks: u32,
    force_tick: bool,
    now: u64,
    fired: u64,
    log: Vec<Entry>,
    trace: Vec<String>,
    panics: Vec<(String, String)>,
    fs: vfs::Vfs,
    unsupported: Vec<String>,
}

thread_local! {
    static EXEC: Cell<*mut Exec> = const { Cell::new(std::ptr::null_mut()) };
    ///whether file operations and the clock go to the substitutes
    static ACTIVE: Cell<bool> = const { Cell::new(false) };
    static HASH_SEED: Cell<Option<u64>> = const { Cell::new(None) };
}

#[allow(clippy::mut_from_ref)]
fn ex<'a>() -> Option<&'a mut Exec> {
    //only ever one thread, and never held across a switch
    unsafe { EXEC.with(Cell::get).as_mut() }
}
///Whether this thread is inside a task of an execution.
pub fn active() -> bool {
    ACTIVE.try_with(Cell::get).unwrap_or(false)
}
pub fn hash_seed() -> Option<u64> {
    HASH_SEED.try_with(Cell::get).unwrap_or(None)
}
pub fn set_hash_seed(seed: u64) {
    HASH_SEED.with(|s| s.set(Some(seed)));
}

pub struct Killed;

impl Exec {
    fn choose(&mut self, n: usize) -> usize {
        debug_assert!(n > 0);
        if n == 1 || self.cfg.quiet {
            return 0;
        }
        let at = self.choices.len();
        let taken = match self.prefix.get(at) {
            Some(c) => {
                if usize::from(c.of) != n {
                    //would be a hole in the control over the execution
                    self.unsupported.push(format!("choice {at} had {} options and now has {n}", c.of));
                    usize::from(c.taken).min(n - 1)
                } else {
                    usize::from(c.taken)
                }
            }
            None => 0,
        };
        self.choices.push(Choice { taken: taken as u16, of: n as u16 });
        taken
    }
    fn runnable(&self, t: TaskId) -> bool {
        let k = &self.tasks[t];
        match k.state {
            State::Ready => true,
            State::Blocked => k.flag.woken.load(Relaxed),
            State::Idle | State::Done => false,
        }
    }
    fn add(&mut self, name: &str, kind: Kind, background: bool) -> TaskId {
        self.tasks.push(Task { name: name.into(), kind, state: State::Ready, flag: Arc::new(Flag { woken: AtomicBool::new(false) }), label: "start", cancellable: false, cancelled: false, joiners: vec![], background, waits_for_job: false });
        self.tasks.len() - 1
    }
    fn others(&self, t: TaskId) -> bool {
        (0..self.tasks.len()).any(|o| o != t && self.runnable(o)) || self.cancel_options() > 0 || self.tick_possible()
    }
    fn cancel_options(&self) -> usize {
        if self.cfg.cancels == 0 {
            return 0;
        }
        self.tasks.iter().filter(|t| t.cancellable && !t.cancelled && t.state == State::Blocked).count()
    }
    fn tick_possible(&self) -> bool {
        !self.timers.is_empty() && (self.cfg.ticks > 0)
    }
    fn tick(&mut self) {
        if let Some(((when, _), t)) = self.timers.pop_first() {
            self.now = self.now.max(when);
            self.fired += 1;
            self.log.push(Entry::TimerFired);
            if let Some(w) = t.waker {
                w.wake();
            }
        }
    }
    fn note(&mut self, what: impl FnOnce() -> String) {
        if self.cfg.trace {
            let s = what();
            self.trace.push(s);
        }
    }
}

enum Opt {
    Run(TaskId),
    Cancel(TaskId),
    Tick,
}

///Runs one execution: `root` is the first task, and the execution is over when it returns.
pub fn run(cfg: Config, prefix: &[Choice], fs: vfs::Vfs, root: impl FnOnce() + 'static) -> Outcome {
    assert!(EXEC.with(Cell::get).is_null(), "an execution within an execution");
    set_hash_seed(cfg.seed);
    let mut exec = Box::new(Exec {
        cfg,
        tasks: vec![],
        current: None,
        home: 0,
        prefix: prefix.to_vec(),
        choices: vec![],
        steps: 0,
        kill: false,
        in_job: false,
        handoff: None,
        timers: BTreeMap::new(),
        timer_ids: 0,
        forced_ticks: 0,
        force_tick: false,
        now: 0,
        fired: 0,
        log: vec![],
        trace: vec![],
        panics: vec![],
        fs,
        unsupported: vec![],
    });
    EXEC.with(|e| e.set(&mut *exec));
    spawn("root", root);
    let end = schedule();
    cleanup();
    EXEC.with(|e| e.set(std::ptr::null_mut()));
    let e = *exec;
    let out = Outcome { end, choices: e.choices, log: e.log, trace: e.trace, steps: e.steps, panics: e.panics, fs: e.fs, unsupported: e.unsupported };
    drop(e.tasks);
    out
}

static STUCK: std::sync::OnceLock<fn()> = std::sync::OnceLock::new();
///What to do when all tasks wait, in case that it is for something outside of the execution.
pub fn when_stuck(f: fn()) {
    let _ = STUCK.set(f);
}

fn schedule() -> End {
    let mut last: Option<TaskId> = None;
    loop {
        let e = ex().unwrap();
        if e.tasks[0].state == State::Done {
            return End::Done;
        }
        e.steps += 1;
        if e.steps > e.cfg.max_steps {
            return End::Endless;
        }
        let next = if let Some(t) = e.handoff.take().filter(|t| e.runnable(*t)) {
            Opt::Run(t)
        } else if std::mem::take(&mut e.force_tick) && !e.timers.is_empty() {
            e.forced_ticks += 1;
            Opt::Tick
        } else {
            //what waits for another thread of the operating system does not count as waiting
            if let Some(f) = STUCK.get() {
                if !(0..e.tasks.len()).any(|t| e.runnable(t)) {
                    f();
                }
            }
            let e = ex().unwrap();
            //going on with the same task is no switch
            let going_on = last.filter(|t| e.tasks[*t].state == State::Ready);
            let mut opts: Vec<Opt> = vec![];
            opts.extend(going_on.map(Opt::Run));
            if going_on.is_none() || e.cfg.preemptions > 0 {
                opts.extend((0..e.tasks.len()).filter(|t| Some(*t) != going_on && e.runnable(*t)).map(Opt::Run));
                if e.cfg.cancels > 0 {
                    opts.extend((0..e.tasks.len()).filter(|t| e.tasks[*t].cancellable && !e.tasks[*t].cancelled && e.tasks[*t].state == State::Blocked).map(Opt::Cancel));
                }
                //the clock alone never keeps things going, and neither does anything keep it from going on
                if e.tick_possible() && (e.tasks[0].state != State::Idle || opts.iter().any(|o| matches!(o, Opt::Run(_)))) {
                    opts.push(Opt::Tick);
                }
            }
            if !opts.iter().any(|o| matches!(o, Opt::Run(_))) {
                //the root last
                if let Some(t) = (0..e.tasks.len()).rfind(|t| e.tasks[*t].state == State::Idle) {
                    opts.insert(0, Opt::Run(t));
                }
            }
            if going_on.is_none() && e.cfg.delays == 0 {
                opts.truncate(1);
            }
            if opts.is_empty() {
                if !e.timers.is_empty() && e.forced_ticks < 40 {
                    e.forced_ticks += 1;
                    opts.push(Opt::Tick);
                } else {
                    return End::Deadlock(e.tasks.iter().filter(|t| t.state != State::Done).map(|t| format!("{} at {}", t.name, t.label)).collect());
                }
            }
            let forced = opts.len() == 1;
            let c = e.choose(opts.len());
            let o = opts.swap_remove(c);
            if going_on.is_some() && c > 0 && e.cfg.preemptions != u32::MAX {
                e.cfg.preemptions -= 1;
            }
            if going_on.is_none() && c > 0 && e.cfg.delays != u32::MAX {
                e.cfg.delays -= 1;
            }
            match o {
                Opt::Cancel(_) => e.cfg.cancels -= 1,
                Opt::Tick if !forced => e.cfg.ticks = e.cfg.ticks.saturating_sub(1),
                _ => {}
            }
            o
        };
        match next {
            Opt::Tick => {
                e.note(|| "clock: the next timer goes off".into());
                e.tick();
            }
            Opt::Cancel(t) => {
                e.tasks[t].cancelled = true;
                let n = e.tasks[t].name.clone();
                e.note(|| format!("{n}: goes away"));
                e.tasks[t].flag.woken.store(true, Relaxed);
                resume(t);
                last = Some(t);
            }
            Opt::Run(t) => {
                if e.cfg.trace && last != Some(t) {
                    let (n, l) = (e.tasks[t].name.clone(), e.tasks[t].label);
                    e.note(|| format!("{n}: goes on ({l})"));
                }
                resume(t);
                last = Some(t);
            }
        }
    }
}

fn resume(t: TaskId) {
    let e = ex().unwrap();
    e.current = Some(t);
    e.tasks[t].state = State::Ready;
    match &mut e.tasks[t].kind {
        Kind::Job(j) => {
            let j = j.take();
            e.in_job = true;
            e.tasks[t].state = State::Done;
            ACTIVE.with(|a| a.set(true));
            if let Some(j) = j {
                if let Err(p) = catch_unwind(AssertUnwindSafe(j)) {
                    ex().unwrap().panics.push(("a file operation".into(), text(&*p)));
                }
            }
            ACTIVE.with(|a| a.set(false));
            let e = ex().unwrap();
            e.in_job = false;
            e.handoff = (0..e.tasks.len()).find(|w| e.tasks[*w].waits_for_job && e.runnable(*w));
        }
        Kind::Co(c) => {
            let home: *mut usize = &mut e.home;
            let c: *mut Coro = &mut **c;
            ACTIVE.with(|a| a.set(true));
            unsafe { (*c).resume(home) };
            ACTIVE.with(|a| a.set(false));
        }
    }
    let e = ex().unwrap();
    e.current = None;
    if e.tasks[t].state == State::Done {
        if let Kind::Co(c) = &mut e.tasks[t].kind {
            c.finish();
        }
        for w in std::mem::take(&mut e.tasks[t].joiners) {
            w.wake();
        }
    }
}

///Ends every task that is still there, dropping all they hold.
fn cleanup() {
    let e = ex().unwrap();
    e.kill = true;
    //later ones first, the root last
    let mut t = e.tasks.len();
    while t > 0 {
        t -= 1;
        let e = ex().unwrap();
        if e.tasks[t].state == State::Done {
            continue;
        }
        if let Kind::Job(j) = &mut e.tasks[t].kind {
            drop(j.take());
            ex().unwrap().tasks[t].state = State::Done;
            continue;
        }
        if e.tasks[t].label == "start" && e.tasks[t].state == State::Ready {
            //has never run: it finds out by itself
        }
        resume(t);
        //tasks could have come up while dropping
        let e = ex().unwrap();
        debug_assert!(e.tasks[t].state == State::Done, "a killed task went on");
        if e.tasks.len() > t + 1 && (t + 1..e.tasks.len()).any(|x| e.tasks[x].state != State::Done) {
            t = e.tasks.len();
        }
    }
    ex().unwrap().timers.clear();
}

pub fn text(p: &(dyn Any + Send)) -> String {
    p.downcast_ref::<&str>().map(|s| (*s).to_string()).or_else(|| p.downcast_ref::<String>().cloned()).unwrap_or_else(|| "something that is no text".into())
}

struct Start(TaskId, Option<Box<dyn FnOnce()>>);
extern "C" fn entry(arg: *mut u8) {
    {
        let mut start = unsafe { Box::from_raw(arg.cast::<Start>()) };
        let f = start.1.take().unwrap();
        let id = start.0;
        let r = catch_unwind(AssertUnwindSafe(|| {
            if ex().unwrap().kill {
                drop(f);
            } else {
                f();
            }
        }));
        let e = ex().unwrap();
        if let Err(p) = r {
            if !p.is::<Killed>() {
                let n = e.tasks[id].name.to_string();
                e.panics.push((n, text(&*p)));
            }
        }
        e.tasks[id].state = State::Done;
    }
    suspend();
    std::process::abort();
}

fn suspend() {
    let e = ex().unwrap();
    let home: *const usize = &e.home;
    let t = e.current.expect("only tasks can wait");
    let Kind::Co(c) = &mut e.tasks[t].kind else { unreachable!() };
    let c: *mut Coro = &mut **c;
    unsafe { Coro::suspend(c, home) };
}
fn check_killed() {
    if ex().is_some_and(|e| e.kill) && !std::thread::panicking() {
        resume_unwind(Box::new(Killed));
    }
}

///Starts another task.
pub fn spawn(name: &str, f: impl FnOnce() + 'static) -> TaskId {
    let e = ex().expect("no execution is going on");
    let id = e.tasks.len();
    let start = Box::into_raw(Box::new(Start(id, Some(Box::new(f)))));
    e.add(name, Kind::Co(Box::new(Coro::new(entry, start.cast()))), false)
}

///A place at which other tasks may go first.
#[inline]
pub fn point(label: &'static str) {
    point_below(label);
    if ex().is_some_and(|e| e.kill && e.current.is_some() && !e.in_job) {
        check_killed();
    }
}
///The same from within a foreign function, which cannot unwind.
#[inline]
pub fn point_below(label: &'static str) {
    let Some(e) = ex() else { return };
    let Some(t) = e.current else { return };
    if e.in_job || std::thread::panicking() {
        return;
    }
    if e.kill {
        return;
    }
    e.tasks[t].label = label;
    if e.cfg.preemptions == 0 || e.cfg.quiet || !e.others(t) {
        e.steps += 1;
        if e.steps < e.cfg.max_steps {
            return;
        }
    }
    e.tasks[t].state = State::Ready;
    suspend();
}
///Waits within a foreign function, which cannot unwind: until it says so, or the execution is over.
pub fn wait_below(label: &'static str, mut ready: impl FnMut(&Waker) -> bool) {
    loop {
        let Some(e) = ex() else { return };
        let Some(t) = e.current else { return };
        let flag = e.tasks[t].flag.clone();
        flag.woken.store(false, Relaxed);
        if ready(&Waker::from(flag)) || e.kill {
            return;
        }
        e.tasks[t].label = label;
        e.tasks[t].state = State::Blocked;
        suspend();
    }
}
///Never goes on, and never drops what it has: for a task that can neither unwind nor return when all is over.
pub fn give_up() {
    let e = ex().unwrap();
    let t = e.current.unwrap();
    e.tasks[t].state = State::Done;
    if let Kind::Co(c) = &mut e.tasks[t].kind {
        c.leak();
    }
    suspend();
    std::process::abort();
}
///Lets the others go first if they can.
pub fn yield_now() {
    let Some(e) = ex() else { return };
    let Some(t) = e.current else { return };
    if e.in_job || std::thread::panicking() {
        return;
    }
    e.tasks[t].flag.woken.store(true, Relaxed);
    block("yield");
}

fn block(label: &'static str) {
    let e = ex().unwrap();
    let t = e.current.unwrap();
    if std::thread::panicking() {
        //nothing to be done about it: whoever waits while unwinding would wait forever
        return;
    }
    check_killed();
    e.tasks[t].label = label;
    e.tasks[t].state = State::Blocked;
    suspend();
    check_killed();
}

///Waits until nothing else can go on without the clock.
pub fn idle() {
    let e = ex().unwrap();
    let t = e.current.unwrap();
    e.tasks[t].label = "idle";
    e.tasks[t].state = State::Idle;
    suspend();
    check_killed();
}

///Makes the next timer go off before anything else happens.
pub fn force_tick() {
    let e = ex().unwrap();
    e.force_tick = true;
    let t = e.current.unwrap();
    e.tasks[t].flag.woken.store(true, Relaxed);
    block("tick");
}

///One of `n` ways in which something could turn out.
pub fn choose(n: usize) -> usize {
    match ex() {
        Some(e) if e.current.is_some() && !e.kill => e.choose(n),
        _ => 0,
    }
}
pub fn config<'a>() -> Option<&'a mut Config> {
    ex().map(|e| &mut e.cfg)
}
pub fn fs<'a>() -> &'a mut vfs::Vfs {
    &mut ex().unwrap().fs
}
pub fn log(e: Entry) {
    if let Some(x) = ex() {
        if !x.kill {
            x.note(|| format!("  {e:?}"));
            x.log.push(e);
        }
    }
}
///How many timers have gone off.
pub fn fired() -> u64 {
    ex().map_or(0, |x| x.fired)
}
pub fn log_len() -> usize {
    ex().map_or(0, |x| x.log.len())
}
pub fn unsupported(what: impl Into<String>) {
    if let Some(x) = ex() {
        x.unsupported.push(what.into());
    }
}
pub fn killed() -> bool {
    ex().is_some_and(|e| e.kill)
}
pub fn in_job() -> bool {
    ex().is_some_and(|e| e.in_job)
}
pub fn current() -> Option<TaskId> {
    ex().and_then(|e| e.current)
}
pub fn label(l: &'static str) {
    if let Some(e) = ex() {
        if let Some(t) = e.current {
            e.tasks[t].label = l;
        }
    }
}
pub fn note(what: impl FnOnce() -> String) {
    if let Some(e) = ex() {
        if e.cfg.trace {
            let n = e.current.map_or(String::new(), |t| e.tasks[t].name.to_string());
            let w = what();
            e.trace.push(format!("{n}: {w}"));
        }
    }
}
pub fn is_done(t: TaskId) -> bool {
    ex().map_or(true, |e| e.tasks[t].state == State::Done)
}
pub fn name(t: TaskId) -> String {
    ex().map_or(String::new(), |e| e.tasks[t].name.to_string())
}
///Everyone who could still do something without the clock or the root.
pub fn blocked() -> Vec<String> {
    ex().map_or(vec![], |e| e.tasks.iter().skip(1).filter(|t| t.state != State::Done).map(|t| format!("{} at {}", t.name, t.label)).collect())
}

///Drives a future to its end within the current task.
pub fn block_on<F: Future>(f: F) -> F::Output {
    drive(f, "await", || false).expect("cannot be dropped")
}
///Like [`block_on`], but the future gets dropped when the environment decides so, or when `stop` says so.
pub fn block_on_or_drop<F: Future>(f: F, cancellable: bool, stop: impl Fn() -> bool) -> Option<F::Output> {
    if cancellable {
        if let Some(e) = ex() {
            let t = e.current.unwrap();
            e.tasks[t].cancellable = true;
            let mut f = Box::pin(f);
            let r = drive(f.as_mut(), "await", || ex().is_some_and(|e| e.tasks[t].cancelled) || stop());
            if let Some(e) = ex() {
                e.tasks[t].cancellable = false;
            }
            return r;
        }
    }
    drive(f, "await", stop)
}
fn drive<F: Future>(f: F, label: &'static str, stop: impl Fn() -> bool) -> Option<F::Output> {
    let e = ex().expect("no execution is going on");
    let t = e.current.expect("not within a task");
    let flag = e.tasks[t].flag.clone();
    let waker = Waker::from(flag.clone());
    let mut cx = Context::from_waker(&waker);
    let mut f = std::pin::pin!(f);
    loop {
        flag.woken.store(false, Relaxed);
        if let Poll::Ready(r) = f.as_mut().poll(&mut cx) {
            return Some(r);
        }
        if std::thread::panicking() {
            return None;
        }
        if stop() {
            return None;
        }
        block(label);
        if stop() {
            return None;
        }
    }
}

///Waits for other tasks to finish.
pub fn join(t: TaskId) {
    loop {
        let e = ex().unwrap();
        if e.tasks[t].state == State::Done {
            return;
        }
        let me = e.current.unwrap();
        let w = Waker::from(e.tasks[me].flag.clone());
        e.tasks[me].flag.woken.store(false, Relaxed);
        e.tasks[t].joiners.push(w);
        block("join");
    }
}
pub fn wake_when_done(t: TaskId, w: &Waker) {
    if let Some(e) = ex() {
        e.tasks[t].joiners.push(w.clone());
    }
}
pub fn waker_of(t: TaskId) -> Option<Waker> {
    ex().map(|e| Waker::from(e.tasks[t].flag.clone()))
}

///Something that another thread does at some time, in one go, and someone may wait for.
pub struct Job<T> {
    inner: Rc<RefCell<JobState<T>>>,
    id: TaskId,
}
struct JobState<T> {
    result: Option<T>,
    waker: Option<Waker>,
    done: bool,
}
//everything of an execution stays on its thread
unsafe impl<T> Send for Job<T> {}
unsafe impl<T> Sync for Job<T> {}
impl<T> Unpin for Job<T> {}

pub fn job<T: 'static>(name: &'static str, f: impl FnOnce() -> T + 'static) -> Job<T> {
    let inner = Rc::new(RefCell::new(JobState { result: None, waker: None, done: false }));
    let i = inner.clone();
    let e = ex().expect("no execution is going on");
    let id = e.tasks.len();
    let run = move || {
        let r = f();
        let mut i = i.borrow_mut();
        i.result = Some(r);
        i.done = true;
        if let Some(w) = i.waker.take() {
            w.wake();
        }
    };
    e.add(name, Kind::Job(Some(Box::new(run))), true);
    Job { inner, id }
}
impl<T> Job<T> {
    pub fn is_done(&self) -> bool {
        self.inner.borrow().done
    }
    pub fn poll_done(&mut self, cx: &mut Context<'_>) -> Poll<T> {
        let t = current();
        let mut i = self.inner.borrow_mut();
        if let Some(r) = i.result.take() {
            if let (Some(e), Some(t)) = (ex(), t) {
                e.tasks[t].waits_for_job = false;
            }
            return Poll::Ready(r);
        }
        if i.done || is_done(self.id) {
            //panicked or killed: never
            return Poll::Pending;
        }
        if let (Some(e), Some(t)) = (ex(), t) {
            e.tasks[t].waits_for_job = true;
            e.tasks[t].label = "file operation";
        }
        i.waker = Some(cx.waker().clone());
        Poll::Pending
    }
}
impl<T> Future for Job<T> {
    type Output = T;
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<T> {
        self.poll_done(cx)
    }
}
///Runs what is left of the jobs that had been started, in order.
pub fn finish_jobs() {
    loop {
        let e = ex().unwrap();
        let Some(t) = e.tasks.iter().position(|t| t.background && t.state != State::Done) else { return };
        let Kind::Job(j) = &mut e.tasks[t].kind else { return };
        let j = j.take();
        e.tasks[t].state = State::Done;
        e.in_job = true;
        if let Some(j) = j {
            let _ = catch_unwind(AssertUnwindSafe(j));
        }
        ex().unwrap().in_job = false;
    }
}

pub mod time {
    use super::*;

    ///nanoseconds since the execution began
    pub fn now() -> u64 {
        ex().map_or(0, |e| e.now)
    }
    pub fn set_timer(deadline: u64, waker: Option<Waker>) -> (u64, u64) {
        let Some(e) = ex() else { return (0, 0) };
        e.timer_ids += 1;
        let id = (deadline, e.timer_ids);
        let task = e.current.unwrap_or(0);
        e.timers.insert(id, Timer { waker, task });
        if !e.kill {
            e.log.push(Entry::TimerSet { task });
        }
        id
    }
    pub fn rewake(id: (u64, u64), waker: Waker) {
        if let Some(t) = ex().and_then(|e| e.timers.get_mut(&id)) {
            t.waker = Some(waker);
            let _ = t.task;
        }
    }
    pub fn gone_off(id: (u64, u64)) -> bool {
        ex().map_or(true, |e| !e.timers.contains_key(&id))
    }
    pub fn clear_timer(id: (u64, u64)) {
        if let Some(e) = ex() {
            e.timers.remove(&id);
        }
    }
    pub fn pending() -> usize {
        ex().map_or(0, |e| e.timers.len())
    }
}

///Substitutes for the file system and the clock apply within the closure only if a task is running; this switches them off.
pub fn outside<T>(f: impl FnOnce() -> T) -> T {
    let was = ACTIVE.with(|a| a.replace(false));
    let r = f();
    ACTIVE.with(|a| a.set(was));
    r
}
