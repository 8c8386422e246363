//! Several clients at once: every schedule within bounds, judged by whether the answers fit some order.
use crate::{
    ck::{h64, L},
    crash::{boots, listing},
    d01::read_all,
    model::{linearizable, tell, Ans, Event, Op, State, Step},
    world::{boot, ended, explore, quietly, send, tick, Daemon, Run},
};
use std::{cell::RefCell, collections::BTreeSet, rc::Rc};
use vsched::{vfs::Vfs, Config, Entry, Outcome};

#[derive(Clone, Debug, Hash)]
pub struct Prog {
    ///done one after another at first
    pub warm: Vec<Op>,
    pub clients: Vec<Vec<Op>>,
    ///which of the clients may go away
    pub may_go: bool,
}

#[derive(Default)]
pub struct Seen {
    pub events: Vec<Event>,
    pub bad: Option<(String, String)>,
    ///the reference after the warming up
    pub start: State,
    pub finals: Option<State>,
    ///there was a save beside it, which has to be judged as well
    pub saves: bool,
}
impl Seen {
    pub fn fail(&mut self, key: &str, msg: impl Into<String>) {
        if self.bad.is_none() {
            self.bad = Some((key.into(), msg.into()));
        }
    }
}

pub const NOW: u32 = 77;
///What the clients of one execution share: a clock that counts what they do.
#[derive(Clone, Default)]
pub struct Board(Rc<RefCell<(usize, Vec<Event>)>>);
impl Board {
    ///In steps of two, so that there is room in between; also to be found in the log.
    pub fn now(&self) -> usize {
        let mut b = self.0.borrow_mut();
        b.0 += 2;
        vsched::log(vsched::Entry::Mark(NOW, b.0 as u32));
        b.0
    }
    pub fn push(&self, e: Event) {
        self.0.borrow_mut().1.push(e);
    }
    pub fn take(&self) -> Vec<Event> {
        std::mem::take(&mut self.0.borrow_mut().1)
    }
    ///Sends a request and notes what came of it.
    pub fn ask(&self, op: &Op, may_go: bool) -> Ans {
        let from = self.now();
        let ans = op.read(&send(&op.req(), may_go));
        let to = self.now();
        self.push(Event { op: Step::Op(op.clone()), ans: ans.clone(), from, to });
        ans
    }
    ///A client with a list of things to do.
    pub fn client(&self, n: usize, ops: Vec<Op>, may_go: bool) -> vsched::TaskId {
        let b = self.clone();
        vsched::spawn(&format!("client {n}"), move || {
            for o in ops {
                if matches!(b.ask(&o, may_go), Ans::Unknown | Ans::Refused) {
                    break;
                }
            }
        })
    }
}

///Waits until these are done; time passes only when nothing else can happen.
pub fn wait_for(tasks: &[vsched::TaskId]) -> Result<(), String> {
    for _ in 0..6 {
        vsched::idle();
        if tasks.iter().all(|t| vsched::is_done(*t)) {
            return Ok(());
        }
        if vsched::time::pending() == 0 {
            break;
        }
        vsched::force_tick();
    }
    Err(format!("the requests never get answered: {:?}", vsched::blocked()))
}

///Boots, warms up.
pub fn prepare(out: &mut Seen, start: &State, warm: &[Op]) -> Option<Daemon> {
    let d = match boot() {
        Ok(d) => d,
        Err(e) => {
            out.fail("boot", e);
            return None;
        }
    };
    out.start = start.clone();
    quietly(|| {
        for o in warm {
            let got = o.read(&send(&o.req(), false));
            let want = o.apply(&mut out.start);
            if got != want {
                out.fail("warm", format!("{o:?} answers {got:?} instead of {want:?}"));
            }
        }
    });
    out.bad.is_none().then_some(d)
}
///Everything there is to read, as it is in the cache and as it is without one.
pub fn look(out: &mut Seen, b: &Board) {
    quietly(|| {
        let known: State = ["a", "b"].iter().map(|d| ((*d).to_string(), ["x", "y", "z"].iter().map(|k| ((*k).to_string(), String::new())).collect())).collect();
        for round in 0..2 {
            match read_all(&known) {
                Ok(s) => {
                    let at = b.now();
                    let to = b.now();
                    b.push(Event { op: Step::SeeAll(s.clone()), ans: Ans::Status(200), from: at, to });
                    out.finals = Some(s);
                }
                Err(e) => return out.fail("reads", format!("{}{e}", if round == 1 { "without the cache: " } else { "" })),
            }
            moka::control::forget_all();
        }
    });
}

///Every database there could be, as it is after starting from what is on disk, has to be as it was at some time since
///the last save began.
fn add_saved(l: &mut L, out: &Outcome, data: &mut Seen) {
    let mut last = 0;
    let mut began = None;
    for e in &out.log {
        match e {
            Entry::Mark(NOW, n) => last = *n as usize,
            //the first save after everything that came before, and no other: a later one may only be newer
            Entry::TimerFired => began = Some(last + 1),
            _ => {}
        }
    }
    let Some(from) = began else { return data.fail("save", "there has been no save") };
    let image = out.fs.at_rest();
    match boots(l, &image) {
        Err(e) => data.fail("start", format!("the next start fails: {e}; files: {}", listing(&image))),
        Ok(s) => {
            let mut names: BTreeSet<String> = s.keys().cloned().collect();
            names.extend(data.start.keys().cloned());
            names.extend(["a", "b"].map(String::from));
            for n in names {
                let d = s.get(&n).cloned();
                data.events.push(Event { op: Step::See(n, d), ans: Ans::Status(200), from, to: last + 1 });
            }
        }
    }
}

pub fn judge(l: &mut L, what: impl Fn() -> String, r: Run<Seen>) -> bool {
    let Run { out, mut data } = r;
    if data.saves && data.bad.is_none() && out.end == vsched::End::Done {
        add_saved(l, &out, &mut data);
    }
    if out.unsupported.iter().any(|u| u.starts_with("choice")) {
        return false;
    }
    if let Err(e) = ended(&out) {
        let key = if out.panics.is_empty() { "stuck" } else { "panic" };
        data.fail(key, e);
    } else if let Some(u) = out.unsupported.first() {
        data.fail("unsupported", u.clone());
    }
    if data.bad.is_none() {
        if let Some(e) = data.events.iter().find(|e| matches!(e.ans, Ans::Bad(_))) {
            data.bad = Some(("answer".into(), format!("{e:?}")));
        }
    }
    if data.bad.is_none() {
        let ok = linearizable(&data.start, &data.events);
        l.saw(h64(&data.events.iter().map(|e| (&e.op, &e.ans)).collect::<Vec<_>>()));
        if !ok {
            data.bad = Some(("order".into(), format!("from {:?}, no order of these explains their answers: {}", data.start, tell(&data.events))));
        }
    }
    match data.bad {
        Some((k, m)) => {
            l.fail(k, format!("{}: {m}; choices {:?}", what(), out.choices.iter().map(|c| c.taken).collect::<Vec<_>>()));
            false
        }
        None => {
            l.check(true, String::new, String::new);
            true
        }
    }
}

///Every schedule of a program, with everything read at the end.
pub fn program(l: &mut L, cap: u64, cfg: &Config, fs: &Vfs, start: &State, p: &Prog) {
    explore::<Seen>(
        l,
        cap,
        cfg,
        fs,
        |out| {
            let Some(_d) = prepare(out, start, &p.warm) else { return };
            let b = Board::default();
            let tasks: Vec<_> = p.clients.iter().enumerate().map(|(i, ops)| b.client(i, ops.clone(), p.may_go)).collect();
            match wait_for(&tasks) {
                Ok(()) => look(out, &b),
                Err(e) => out.fail("stuck", e),
            }
            out.events = b.take();
        },
        |l, r| judge(l, || format!("{p:?}"), r),
    );
}

///Every schedule of a program with the clock going on at any time, and what has been saved then.
pub fn saving(l: &mut L, cap: u64, cfg: &Config, fs: &Vfs, start: &State, p: &Prog) {
    saving_and(l, cap, cfg, fs, start, p, |l, r| judge(l, || format!("{p:?}"), r));
}
pub fn saving_and(l: &mut L, cap: u64, cfg: &Config, fs: &Vfs, start: &State, p: &Prog, each: impl FnMut(&mut L, Run<Seen>) -> bool) {
    explore::<Seen>(
        l,
        cap,
        cfg,
        fs,
        |out| {
            let Some(_d) = prepare(out, start, &p.warm) else { return };
            let b = Board::default();
            b.now();
            let fired = || vsched::fired();
            let before = fired();
            let tasks: Vec<_> = p.clients.iter().enumerate().map(|(i, ops)| b.client(i, ops.clone(), p.may_go)).collect();
            if let Err(e) = wait_for(&tasks) {
                out.events = b.take();
                return out.fail("stuck", e);
            }
            if fired() == before {
                tick();
            }
            look(out, &b);
            out.saves = true;
            out.events = b.take();
        },
        each,
    );
}
///Every schedule of a program with the daemon being told to stop at any time, and what is there after the next start.
pub fn stopping(l: &mut L, cap: u64, cfg: &Config, fs: &Vfs, start: &State, p: &Prog, signals: &[i32]) {
    explore::<Seen>(
        l,
        cap,
        cfg,
        fs,
        |out| {
            let Some(d) = prepare(out, start, &p.warm) else { return };
            let b = Board::default();
            let tasks: Vec<_> = p.clients.iter().enumerate().map(|(i, ops)| b.client(i, ops.clone(), p.may_go)).collect();
            for s in signals {
                let s = *s;
                vsched::spawn("signal", move || {
                    vsched::point("signal");
                    tokio::signal::send(s);
                });
            }
            if let Err(e) = wait_for(&tasks) {
                out.events = b.take();
                return out.fail("stuck", e);
            }
            vsched::idle();
            let r = quietly(|| d.wait_gone());
            out.events = b.take();
            if let Err(e) = r {
                return out.fail("exit", e);
            }
            if let Err(e) = boot() {
                return out.fail("start", e);
            }
            look(out, &b);
            out.events.extend(b.take());
        },
        |l, r| judge(l, || format!("{p:?}"), r),
    );
}
