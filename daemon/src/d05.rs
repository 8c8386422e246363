//! File operations that fail: nothing is lost by it, and it is made up for as soon as they work again.
use crate::{
    ck::{h64, Ck, L},
    conc::{prepare, wait_for, Board, Prog, Seen},
    crash::{boots, changes, killed, listing, power_lost},
    d01::{files_after, read_all, sequence, word, words, Act},
    model::{linearizable, tell, Ans, Db, Op, State},
    world::{boot, ended, explore, fresh, late, send, tick, Run},
};
use std::collections::{BTreeMap, BTreeSet, HashSet};
use vsched::{
    vfs::{Op as FsOp, Vfs},
    Config, Entry,
};

const SENT: u32 = 11;
const ANSWERED: u32 = 12;
const MENDED: u32 = 13;

///What could be on disk of each database.
type Disk = BTreeMap<String, BTreeSet<Option<Db>>>;

#[derive(Default)]
struct Told {
    bad: Option<(String, String)>,
    ///what each of the actions was answered, if it was a request
    answers: Vec<Option<Ans>>,
    mem: State,
    stopped: bool,
}

fn fits(s: &State, disk: &Disk) -> Result<(), String> {
    for d in s.keys() {
        if !disk.contains_key(d) {
            return Err(format!("there is {d:?}, which nobody saved"));
        }
    }
    for (d, can) in disk {
        let is = s.get(d).cloned();
        if !can.contains(&is) {
            return Err(format!("{d:?} is {is:?}, but could only be one of {can:?}"));
        }
    }
    Ok(())
}

///What has to be on disk, followed through an execution.
struct Follow<'a> {
    acts: &'a [Act],
    answers: &'a [Option<Ans>],
    mem: State,
    ///while the process is killed at most, and when power is lost as well
    disk: [Disk; 2],
    doing: Option<usize>,
    failures: bool,
}
impl Follow<'_> {
    fn entry(&mut self, e: &Entry) {
        match e {
            Entry::Fs(FsOp::Failed { .. }) => self.failures = true,
            Entry::Mark(SENT, n) => {
                let n = *n as usize;
                self.doing = Some(n);
                self.failures = false;
                match &self.acts[n] {
                    Act::Tick | Act::Restart => {
                        let all: BTreeSet<String> = self.mem.keys().chain(self.disk[0].keys()).cloned().collect();
                        for disk in &mut self.disk {
                            for d in &all {
                                //what is neither on disk nor here is not worth noting
                                disk.entry(d.clone()).or_insert_with(|| [None].into()).insert(self.mem.get(d).cloned());
                            }
                        }
                    }
                    Act::Do(Op::Rm(d)) => {
                        for disk in &mut self.disk {
                            disk.entry(d.clone()).or_insert_with(|| [None].into()).insert(None);
                        }
                    }
                    _ => {}
                }
            }
            Entry::Mark(ANSWERED, n) => {
                let n = *n as usize;
                self.doing = None;
                match &self.acts[n] {
                    Act::Tick | Act::Restart => {
                        if !self.failures {
                            for disk in &mut self.disk {
                                *disk = self.mem.iter().map(|(d, s)| (d.clone(), [Some(s.clone())].into())).collect();
                            }
                        }
                    }
                    Act::Do(o) => {
                        if self.answers[n] != Some(Ans::Status(500)) {
                            o.apply(&mut self.mem);
                            if let (Op::Rm(d), Some(Ans::Status(200))) = (o, &self.answers[n]) {
                                self.disk[0].insert(d.clone(), [None].into());
                            }
                        }
                    }
                    Act::Forget => {}
                }
            }
            _ => {}
        }
    }
}

///Every way in which up to this many operations may fail during the acts, but not the last `healthy` of them.
fn failing(l: &mut L, cap: u64, fs: &Vfs, start: &State, acts: &[Act], healthy: usize, faults: u32, stays: bool) {
    let cfg = Config { evictions: 0, preemptions: 0, delays: 0, ..Config::default() };
    let mut tried = HashSet::new();
    explore::<Told>(
        l,
        cap,
        &cfg,
        fs,
        |out| {
            let d = match boot() {
                Ok(d) => d,
                Err(e) => {
                    out.bad = Some(("boot".into(), e));
                    return;
                }
            };
            out.mem = start.clone();
            crate::sys::may_fail(faults, stays);
            let mut mended = false;
            for (i, a) in acts.iter().enumerate() {
                if !mended && i + healthy >= acts.len() {
                    crate::sys::may_fail(0, false);
                    vsched::log(Entry::Mark(MENDED, 0));
                    mended = true;
                }
                vsched::log(Entry::Mark(SENT, i as u32));
                let mut answer = None;
                match a {
                    Act::Do(o) => {
                        let got = o.read(&send(&o.req(), false));
                        answer = Some(got.clone());
                        if got == Ans::Status(500) {
                            //it has to be for a reason
                            if mended || vsched::config().is_some_and(|c| c.faults == faults) {
                                out.bad = Some(("answer".into(), format!("{o:?} answers {got:?} though nothing has failed")));
                            }
                        } else {
                            let mut s = out.mem.clone();
                            let want = o.apply(&mut s);
                            if got != want {
                                out.bad = Some(("answer".into(), format!("{o:?} answers {got:?}, instead of {want:?}")));
                            }
                            out.mem = s;
                        }
                    }
                    Act::Tick => tick(),
                    Act::Restart => {
                        out.stopped = true;
                        if let Err(e) = d.stop() {
                            out.bad = Some(("stop".into(), e));
                        }
                    }
                    Act::Forget => moka::control::forget_all(),
                }
                vsched::log(Entry::Mark(ANSWERED, i as u32));
                out.answers.push(answer);
                if out.bad.is_some() || out.stopped {
                    break;
                }
                if d.gone() {
                    out.bad = Some(("gone".into(), "the daemon is gone".into()));
                    break;
                }
                //everything is as it should be, both from the cache and without it
                let left = std::mem::replace(&mut vsched::config().unwrap().faults, 0);
                for _ in 0..2 {
                    match read_all(&out.mem) {
                        Ok(s) if s == out.mem => {}
                        Ok(s) => out.bad = Some(("memory".into(), format!("after {a:?} there is {s:?} instead of {:?}", out.mem))),
                        Err(e) => out.bad = Some(("reads".into(), format!("after {a:?}: {e}"))),
                    }
                    moka::control::forget_all();
                }
                vsched::config().unwrap().faults = left;
                if out.bad.is_some() {
                    break;
                }
            }
            crate::sys::may_fail(0, false);
        },
        |l, r: Run<Told>| {
            let failed: Vec<String> = r.out.log.iter().filter_map(|e| if let Entry::Fs(FsOp::Failed { what, path, errno }) = e { Some(format!("{what} {path} ({errno})")) } else { None }).collect();
            let what = || format!("{acts:?} from {start:?}, where these fail: {failed:?}");
            if let Err(e) = ended(&r.out) {
                l.fail(if r.out.panics.is_empty() { "stuck" } else { "panic" }, format!("{}: {e}", what()));
                return false;
            }
            if let Some(u) = r.out.unsupported.first() {
                l.fail("unsupported", format!("{}: {u}", what()));
                return false;
            }
            if let Some((k, m)) = r.data.bad {
                l.fail(k, format!("{}: {m}", what()));
                return false;
            }
            l.saw(h64(&(&failed, &r.data.answers)));
            let one: Disk = start.iter().map(|(d, s)| (d.clone(), [Some(s.clone())].into())).collect();
            let mut f = Follow { acts, answers: &r.data.answers, mem: start.clone(), disk: [one.clone(), one], doing: None, failures: false };
            let ops = changes(&r.out.log);
            let (mut at, mut done, mut any) = (0, vec![], false);
            for (i, e) in r.out.log.iter().enumerate() {
                f.entry(e);
                any |= matches!(e, Entry::Fs(FsOp::Failed { .. }));
                if ops.get(at).is_some_and(|(j, _)| *j == i) {
                    done.push(ops[at].1);
                    at += 1;
                }
                //without a failure before, these are the crashes of D04
                if !any || !matches!(e, Entry::Fs(_) | Entry::Mark(ANSWERED, _)) {
                    continue;
                }
                for power in [false, true] {
                    let disk = &f.disk[usize::from(power)];
                    let images = if power { power_lost(fs, &done) } else { killed(fs, &done) };
                    for (image, how) in images {
                        if !tried.insert((h64(&image), h64(disk))) {
                            continue;
                        }
                        let key = if power { "power" } else { "kill" };
                        let told = || format!("{}, {key} after {} changes ({how})", what(), done.len());
                        match boots(l, &image) {
                            Err(e) => l.fail(format!("{key}:start"), format!("{}: the next start fails: {e}; files: {}", told(), listing(&image))),
                            Ok(s) => {
                                if let Err(e) = fits(&s, disk) {
                                    l.fail(format!("{key}:contents"), format!("{}: {e}; files: {}", told(), listing(&image)));
                                } else {
                                    l.check(true, String::new, String::new);
                                }
                            }
                        }
                    }
                }
            }
            if r.data.stopped && any {
                //it can be started again, saves, and everything is as it was found
                let image = r.out.fs.at_rest();
                if let Ok(s) = boots(l, &image) {
                    if tried.insert((h64(&image), 0)) && sequence(l, &image, &s, &[Act::Tick, Act::Restart]).is_none() {
                        l.fail("again", format!("{}: started again after that", what()));
                    }
                }
            }
            l.sample(what);
            true
        },
    );
}

///Clients beside a save in which something fails.
fn beside(l: &mut L, cap: u64, cfg: &Config, fs: &Vfs, start: &State, p: &Prog, faults: u32) {
    explore::<Seen>(
        l,
        cap,
        cfg,
        fs,
        |out| {
            let Some(d) = prepare(out, start, &p.warm) else { return };
            let b = Board::default();
            b.now();
            let before = vsched::fired();
            crate::sys::may_fail(faults, false);
            let tasks: Vec<_> = p.clients.iter().enumerate().map(|(i, ops)| b.client(i, ops.clone(), p.may_go)).collect();
            let r = wait_for(&tasks);
            if r.is_ok() && vsched::fired() == before {
                tick();
            }
            let failed = vsched::config().unwrap().faults < faults;
            crate::sys::may_fail(0, false);
            out.events = b.take();
            if let Err(e) = r {
                return out.fail("stuck", e);
            }
            if d.gone() {
                return out.fail("gone", "the daemon is gone");
            }
            if let Some(e) = out.events.iter().find(|e| e.ans == Ans::Status(500) && !(failed && matches!(e.op, crate::model::Step::Op(Op::Rm(_))))) {
                let e = format!("{e:?}");
                return out.fail("answer", e);
            }
            //what fails has to have changed nothing
            out.events.retain(|e| e.ans != Ans::Status(500));
            crate::conc::look(out, &b);
            out.events.extend(b.take());
            //and the next save makes up for it
            crate::world::quietly(tick);
        },
        |l, r| {
            let end = r.data.finals.clone();
            let image = r.out.fs.at_rest();
            let failed: Vec<String> = r.out.log.iter().filter_map(|e| if let Entry::Fs(FsOp::Failed { what, path, errno }) = e { Some(format!("{what} {path} ({errno})")) } else { None }).collect();
            if !r.data.bad.is_some() && r.out.end == vsched::End::Done && !linearizable(&r.data.start, &r.data.events) {
                l.fail("order", format!("{p:?}, where these fail: {failed:?}: from {:?}, no order explains {}", r.data.start, tell(&r.data.events)));
                return false;
            }
            if !crate::conc::judge(l, || format!("{p:?}, where these fail: {failed:?}"), r) {
                return false;
            }
            match (boots(l, &image), end) {
                (Ok(s), Some(e)) if s == e => {
                    l.check(true, String::new, String::new);
                    true
                }
                (s, e) => {
                    l.fail("later", format!("{p:?}, where these fail: {failed:?}: after a later save, a start gives {s:?} instead of {e:?}"));
                    false
                }
            }
        },
    );
}

pub fn run(ck: &Ck) {
    use Act::{Do, Restart, Tick};
    let t = ck.thorough;
    let starts: Vec<(Vfs, State)> = vec![
        (fresh(), State::new()),
        files_after(&[Op::put("a", "x", 0), Op::put("b", "y", 1)]),
        files_after(&[Op::put("a", "x", 4)]),
    ];
    //what happens while things may fail; then it is saved
    let al = [Do(Op::put("a", "x", 4)), Do(Op::put("b", "x", 2)), Do(Op::rm("a")), Do(Op::clear("a")), Do(Op::rm("b")), Tick];
    let len = if t { 4 } else { 3 };
    for (name, faults, stays) in [("once", 1, false), ("twice", 2, false), ("stays", 1, true)] {
        let len = if name == "twice" { len - 1 } else { len };
        let n: u64 = (1..=len).map(|k| words(al.len(), k)).sum();
        ck.section(
            name,
            &format!("every history of up to {len} out of 5 changes and a save, from three states, while {} in every way it can; after each change of a file from there on, killed and power lost; and everything at the next save without failures", match name { "once" => "one file operation fails", "twice" => "up to two file operations fail", _ => "a file operation fails and all of the kind do from then on" }),
            n * 3 * 2,
            |i, l| {
                l.case(&i, true);
                let (fs, s) = &starts[(i % 3) as usize];
                let stop = i / 3 % 2 == 1;
                let (mut k, mut j) = (1, i / 6);
                while j >= words(al.len(), k) {
                    j -= words(al.len(), k);
                    k += 1;
                }
                if late(ck) {
                    l.cut = true;
                    return;
                }
                let mut acts = word(&al, k, j);
                if stop {
                    acts.push(Restart);
                    failing(l, 200_000, fs, s, &acts, 0, faults, stays);
                } else {
                    acts.push(Tick);
                    failing(l, 200_000, fs, s, &acts, 1, faults, stays);
                }
            },
        );
    }
    //several databases: one that cannot be saved does not get in the way of the others
    let counts = if t { 10 } else { 6 };
    ck.section("many", "several databases, saved, changed, and saved again with one failure; then once more without", counts * 3, |i, l| {
        l.case(&i, true);
        let n = i / 3 + 1;
        let (fs, s) = files_after(&(0..n).map(|j| Op::put(&format!("d{j}"), "x", 4)).collect::<Vec<_>>());
        let mut acts: Vec<Act> = (0..n).map(|j| Do(if j % 2 == 0 || i % 3 != 1 { Op::put(&format!("d{j}"), "x", 1) } else { Op::rm(&format!("d{j}")) })).collect();
        if i % 3 == 2 {
            acts.push(Do(Op::put("new", "x", 0)));
        }
        acts.extend([Tick, Tick]);
        failing(l, 200_000, &fs, &s, &acts, 1, 1, false);
    });
    //the directory is not there yet
    ck.section("no-directory", "the first saves, with the directory missing, with one failure, or one that stays", 4, |i, l| {
        l.case(&i, true);
        let mut fs = Vfs::default();
        if i % 2 == 0 {
            fs.mkdir_all("/souris");
        }
        failing(l, 200_000, &fs, &State::new(), &[Do(Op::put("a", "x", 0)), Do(Op::put("b", "x", 4)), Tick, Tick], 1, 1, i / 2 == 1);
    });
    let cfg = |pre: u32, delays: u32| Config { preemptions: pre, delays, ticks: 1, evictions: 0, ..Config::default() };
    let ops = [Op::put("a", "x", 1), Op::put("a", "z", 4), Op::rm("a"), Op::clear("a"), Op::content("a", true, 2), Op::add("c", false), Op::rm("b"), Op::get("a"), Op::Names];
    let m = ops.len() as u64;
    let two = |i: u64| vec![ops[(i % m) as usize].clone(), ops[(i / m % m) as usize].clone()];
    ck.section("beside", &format!("one client with two of {m} requests beside a save in which one operation of either fails, every schedule with {} preemptions and delays; then a save without failures", if t { 2 } else { 1 }), m * m * 2, |i, l| {
        l.case(&i, true);
        let (fs, s) = &starts[1 + (i % 2) as usize];
        let p = Prog { warm: vec![Op::get("a")], clients: vec![two(i / 2)], may_go: false };
        let b = if t { 2 } else { 1 };
        beside(l, 300_000, &cfg(b, b), fs, s, &p, 1);
    });
}
