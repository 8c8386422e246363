//! Whenever it stops, what was saved before is still there.
use crate::{
    ck::{h64, Ck, L},
    crash::{boots, changes, killed, listing, power_lost},
    d01::{word, words, Act},
    conc::{judge, saving_and, Prog, NOW},
    d09::starts,
    model::{Db, Op, State, Step},
    world::{boot, ended, execute, fresh, late, send, tick, BASE},
};
use std::{
    collections::{BTreeMap, BTreeSet, HashSet},
    sync::Mutex,
};
use vsched::{vfs::Vfs, Config, Entry};

const SENT: u32 = 1;
const ANSWERED: u32 = 2;
const SAVING: u32 = 3;
const SAVED: u32 = 4;

///For each database, everything it may be after a crash; `None` is not being there.
pub type Allowed = BTreeMap<String, BTreeSet<Option<Db>>>;

pub fn fits(got: &State, allowed: &Allowed) -> Result<(), String> {
    for (d, c) in got {
        match allowed.get(d) {
            None => return Err(format!("{d:?} should not be there at all, and has {c:?}")),
            Some(a) if !a.contains(&Some(c.clone())) => return Err(format!("{d:?} is {c:?}, and could only be one of {a:?}")),
            _ => {}
        }
    }
    for (d, a) in allowed {
        if !got.contains_key(d) && !a.contains(&None) {
            return Err(format!("{d:?} is lost, and could only be one of {a:?}"));
        }
    }
    Ok(())
}

///Follows the log of an execution, and knows what may be on disk.
struct Follow<'a> {
    acts: &'a [Act],
    mem: State,
    saved: State,
    saving: Option<State>,
    ///removals since the last save: sent, and answered
    rm_sent: BTreeSet<String>,
    rm_done: BTreeSet<String>,
}
impl Follow<'_> {
    fn entry(&mut self, e: &Entry) {
        match e {
            Entry::Mark(SENT, i) => {
                if let Act::Do(Op::Rm(d)) = &self.acts[*i as usize] {
                    self.rm_sent.insert(d.clone());
                }
            }
            Entry::Mark(ANSWERED, i) => {
                if let Act::Do(o) = &self.acts[*i as usize] {
                    o.apply(&mut self.mem);
                    if let Op::Rm(d) = o {
                        self.rm_done.insert(d.clone());
                    }
                }
            }
            Entry::Mark(SAVING, _) => self.saving = Some(self.mem.clone()),
            Entry::Mark(SAVED, _) => {
                self.saved = self.saving.take().unwrap();
                self.rm_sent.clear();
                self.rm_done.clear();
            }
            _ => {}
        }
    }
    fn allowed(&self, power: bool) -> Allowed {
        let mut a = Allowed::new();
        let names: BTreeSet<&String> = self.saved.keys().chain(self.saving.iter().flat_map(State::keys)).collect();
        for d in names {
            let e = a.entry(d.clone()).or_default();
            if !self.saved.contains_key(d) || self.rm_sent.contains(d) {
                e.insert(None);
            }
            //removed is removed, unless the directory was not written yet
            if !self.rm_done.contains(d) || power {
                e.insert(self.saved.get(d).cloned());
            }
            if let Some(s) = &self.saving {
                e.insert(s.get(d).cloned());
            }
        }
        a
    }
}

///Every crash while this happens, from the entry of the last `acts` on which `from` says.
fn crashes(l: &mut L, fs: &Vfs, start: &State, acts: &[Act], from: usize, mut next: Option<&mut Vec<(u64, Vfs, State)>>) {
    let cfg = Config { evictions: 0, ..Config::default() };
    let r = execute::<Option<String>>(cfg, &[], fs, |out| {
        let mut d = match boot() {
            Ok(d) => d,
            Err(e) => {
                *out = Some(e);
                return;
            }
        };
        let mark = |k, i: usize| vsched::log(Entry::Mark(k, i as u32));
        for (i, a) in acts.iter().enumerate() {
            mark(SENT, i);
            match a {
                Act::Do(o) => {
                    send(&o.req(), false);
                    mark(ANSWERED, i);
                }
                Act::Tick => {
                    mark(SAVING, i);
                    tick();
                    mark(SAVED, i);
                }
                Act::Restart => {
                    mark(SAVING, i);
                    let r = d.stop();
                    mark(SAVED, i);
                    match r.and_then(|()| boot()) {
                        Ok(n) => d = n,
                        Err(e) => {
                            *out = Some(e);
                            return;
                        }
                    }
                }
                Act::Forget => {}
            }
        }
    });
    let r = match r {
        Ok(r) => r,
        Err(e) => return l.fail("engine", e),
    };
    l.call(r.out.steps);
    l.run(h64(&(h64(fs), format!("{acts:?}"))));
    if let Some(e) = r.data.or(ended(&r.out).err()) {
        return l.fail("run", format!("{acts:?}: {e}"));
    }
    let mut f = Follow { acts, mem: start.clone(), saved: start.clone(), saving: None, rm_sent: BTreeSet::new(), rm_done: BTreeSet::new() };
    let log = &r.out.log;
    let ops = changes(log);
    let mut done: Vec<&vsched::vfs::Op> = vec![];
    let mut at = 0;
    let mut act = 0;
    let mut tried = HashSet::new();
    for (i, e) in log.iter().enumerate() {
        f.entry(e);
        if let Entry::Mark(SENT, n) = e {
            act = *n as usize;
        }
        let change = ops.get(at).is_some_and(|(j, _)| *j == i);
        if change {
            done.push(ops[at].1);
            at += 1;
        }
        if act < from || !(change || matches!(e, Entry::Mark(..))) {
            continue;
        }
        for power in [false, true] {
            let allowed = f.allowed(power);
            let images = if power { power_lost(fs, &done) } else { killed(fs, &done) };
            for (image, how) in images {
                let h = h64(&image);
                if !tried.insert((h, h64(&allowed))) {
                    continue;
                }
                let key = if power { "power" } else { "kill" };
                match boots(l, &image) {
                    Err(e) => l.fail(format!("{key}:start"), format!("{acts:?}, {key} after {} changes ({how}): the next start fails: {e}; files: {}", done.len(), listing(&image))),
                    Ok(s) => {
                        if let Err(e) = fits(&s, &allowed) {
                            l.fail(format!("{key}:contents"), format!("{acts:?}, {key} after {} changes ({how}): {e}; files: {}", done.len(), listing(&image)));
                        } else {
                            l.check(true, String::new, String::new);
                            if let Some(n) = &mut next {
                                n.push((h, image, s));
                            }
                        }
                    }
                }
            }
        }
    }
}

pub fn run(ck: &Ck) {
    use Act::{Do, Restart, Tick};
    let t = ck.thorough;
    let first = [Do(Op::put("a", "x", 0)), Do(Op::put("a", "x", 4)), Do(Op::put("b", "y", 1)), Do(Op::clear("a")), Do(Op::rm("a")), Do(Op::rm("b")), Do(Op::content("a", true, 2)), Tick];
    let last = [Tick, Restart, Do(Op::rm("a"))];
    let len = if t { 7 } else { 6 };
    let seen: Mutex<HashSet<u64>> = Mutex::default();
    let deep = if t { 3 } else { 2 };
    let then: Vec<Vec<Act>> = vec![vec![Tick], vec![Do(Op::put("a", "x", 3)), Tick], vec![Do(Op::rm("a")), Tick], vec![Do(Op::put("a", "z", 5)), Do(Op::rm("b")), Restart]];
    let n: u64 = (0..len).map(|k| words(first.len(), k)).sum();
    ck.section("histories", &format!("every history of up to {} out of 7 changes and a save, then a save, a restart or a removal: killed after each change of a file (and within writes), and power lost with every part of what is not synced; from each thing this leaves on disk, {} times over, each of four continuations that crash again in every way", len - 1, deep), n * 3, |i, l| {
        l.case(&i, true);
        let (mut k, mut j) = (0, i / 3);
        while j >= words(first.len(), k) {
            j -= words(first.len(), k);
            k += 1;
        }
        let mut acts = word(&first, k, j);
        acts.push(last[(i % 3) as usize].clone());
        let mut found = vec![];
        crashes(l, &fresh(), &State::new(), &acts, acts.len() - 1, Some(&mut found));
        //whoever finds it first goes on from there
        for level in 0..deep {
            let mut more = vec![];
            for (h, fs, s) in found {
                if !seen.lock().unwrap().insert(h) {
                    continue;
                }
                if late(ck) {
                    l.cut = true;
                    return;
                }
                for then in &then {
                    crashes(l, &fs, &s, then, 0, (level + 1 < deep).then_some(&mut more));
                }
            }
            found = more;
        }
    });
    let base = Vfs::default();
    ck.section("first-start", "the first start ever, with no directory yet, and a first save: killed after each change of a file", 3, |i, l| {
        l.case(&i, true);
        let mut fs = base.clone();
        match i {
            0 => {}
            1 => {
                fs.mkdir_all("/souris");
            }
            _ => {
                fs.mkdir_all(BASE);
            }
        }
        let acts = [Do(Op::put("a", "x", 0)), Tick, Do(Op::put("b", "x", 4)), Restart];
        crashes_killed(l, &fs, &acts);
    });
    //many databases
    let counts = if t { 12 } else { 5 };
    ck.section("many", "several databases, saved, all changed or some removed, and saved again: every crash", counts * 3, |i, l| {
        l.case(&i, true);
        let n = i / 3 + 1;
        let mut v: Vec<Act> = (0..n).map(|j| Do(Op::put(&format!("d{j}"), "x", 4))).collect();
        v.push(Tick);
        for j in 0..n {
            match i % 3 {
                0 => v.push(Do(Op::put(&format!("d{j}"), "x", 1))),
                1 if j % 2 == 0 => v.push(Do(Op::rm(&format!("d{j}")))),
                1 => v.push(Do(Op::put(&format!("d{j}"), "y", 0))),
                _ => {
                    v.push(Do(Op::rm(&format!("d{j}"))));
                    v.push(Do(Op::put(&format!("d{j}"), "z", 2)));
                }
            }
        }
        v.push(Tick);
        let from = n as usize + 1;
        crashes(l, &fresh(), &State::new(), &v, from, None);
    });
    let st = starts();
    let o = [Op::put("a", "x", 0), Op::put("a", "y", 4), Op::content("a", true, 2), Op::rm("a"), Op::put("b", "x", 2), Op::rm("b")];
    ck.section("while-saving", "a client with any two of 6 changes and one save at any time, from three states: every schedule with at most two delays and one preemption (thorough: three and two), and every crash in each", words(o.len(), 2) * 3, |i, l| {
        let (fs, s) = &st[(i % 3) as usize];
        let p = Prog { warm: vec![], clients: vec![word(&o, 2, i / 3)], may_go: false };
        l.case(&(i % 3, &p), true);
        racing(l, &Config { preemptions: if t { 2 } else { 1 }, delays: if t { 3 } else { 2 }, ticks: 1, evictions: 0, ..Config::default() }, fs, s, &p);
    });
    ck.section("two-clients", "two clients with any one of 6 changes and one save at any time, from three states: every schedule with at most two delays (thorough: three, and one preemption), and every crash in each", words(o.len(), 2) * 3, |i, l| {
        let (fs, s) = &st[(i % 3) as usize];
        let w = word(&o, 2, i / 3);
        let p = Prog { warm: vec![], clients: vec![vec![w[0].clone()], vec![w[1].clone()]], may_go: false };
        l.case(&(i % 3, &p), true);
        racing(l, &Config { preemptions: if t { 1 } else { 0 }, delays: if t { 3 } else { 2 }, ticks: 1, evictions: 0, ..Config::default() }, fs, s, &p);
    });
}

///Every schedule, and every crash in each: a database may be as it was at first, or as any of the requests sent so far could
///have made it, and gone only if it was not there or one of them removes it.
fn racing(l: &mut L, cfg: &Config, fs: &Vfs, start: &State, p: &Prog) {
    saving_and(l, 1_000_000, cfg, fs, start, p, |l, r| {
        let (log, events, bad) = (r.out.log.clone(), r.data.events.clone(), r.data.bad.clone());
        let choices = r.out.choices.clone();
        if !judge(l, || format!("{p:?}"), r) || bad.is_some() {
            return false;
        }
        let mut done = vec![];
        let mut now = 0;
        let mut tried = HashSet::new();
        let mut ok = true;
        for e in &log {
            match e {
                Entry::Mark(NOW, n) => now = *n as usize,
                Entry::Fs(o) => done.push(o),
                _ => continue,
            }
            let sent: Vec<&Op> = events.iter().filter(|e| e.from <= now).filter_map(|e| if let Step::Op(o) = &e.op { Some(o) } else { None }).collect();
            let mut allowed = Allowed::new();
            could_be(start, &sent, &mut allowed);
            for power in [false, true] {
                for (image, how) in if power { power_lost(fs, &done) } else { killed(fs, &done) } {
                    if !tried.insert((h64(&image), h64(&allowed))) {
                        continue;
                    }
                    let key = if power { "power" } else { "kill" };
                    let what = || format!("{p:?}, {key} after {} changes ({how}), choices {:?}", done.len(), choices.iter().map(|c| c.taken).collect::<Vec<_>>());
                    match boots(l, &image) {
                        Err(e) => {
                            ok = false;
                            l.fail(format!("{key}:start"), format!("{}: the next start fails: {e}; files: {}", what(), listing(&image)));
                        }
                        Ok(s) => {
                            let r = fits(&s, &allowed);
                            let e = r.as_ref().err().cloned().unwrap_or_default();
                            ok &= l.check(r.is_ok(), || format!("{key}:contents"), || format!("{}: {e}; files: {}", what(), listing(&image)));
                        }
                    }
                }
            }
        }
        ok
    });
}
///All the contents each database has after any of these, in any order.
fn could_be(s: &State, left: &[&Op], a: &mut Allowed) {
    for d in ["a", "b"] {
        a.entry(d.into()).or_default().insert(s.get(d).cloned());
    }
    for i in 0..left.len() {
        let mut t = s.clone();
        left[i].apply(&mut t);
        let rest: Vec<&Op> = left.iter().enumerate().filter(|(j, _)| *j != i).map(|(_, o)| *o).collect();
        could_be(&t, &rest, a);
    }
}
fn crashes_killed(l: &mut L, fs: &Vfs, acts: &[Act]) {
    crashes(l, fs, &State::new(), acts, 0, None);
}