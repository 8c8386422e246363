//! What was saved is there after a restart, and nothing else.
use crate::{
    ck::{Ck, L},
    d01::{sequence, word, words, Act},
    model::{Op, State},
    world::fresh,
};

#[derive(Clone, Debug)]
enum Step {
    Act(Act),
    ///stops without any warning, between requests, and is started again
    Kill,
}
use Step::Kill;
fn d(o: Op) -> Step {
    Step::Act(Act::Do(o))
}
const TICK: Step = Step::Act(Act::Tick);
const RESTART: Step = Step::Act(Act::Restart);

///Runs a history, being killed in between: what is there then is what was saved last, less what was removed since.
fn history(l: &mut L, steps: &[Step]) {
    let mut fs = fresh();
    let mut disk = State::new();
    for part in steps.split(|s| matches!(s, Kill)) {
        let acts: Vec<Act> = part.iter().map(|s| if let Step::Act(a) = s { a.clone() } else { unreachable!() }).collect();
        let before = l.calls;
        let Some(next) = sequence(l, &fs, &disk, &acts) else {
            return l.fail("history", format!("in the history {steps:?}"));
        };
        let _ = before;
        fs = next;
        let mut mem = disk.clone();
        for a in &acts {
            match a {
                Act::Do(o) => {
                    o.apply(&mut mem);
                    if let Op::Rm(db) = o {
                        disk.remove(db);
                    }
                }
                Act::Tick | Act::Restart => disk = mem.clone(),
                Act::Forget => {}
            }
        }
    }
    //and that is still so when nothing happens but restarts
    if sequence(l, &fs, &disk, &[Act::Restart]).is_none() {
        l.fail("history", format!("after the history {steps:?}, once it is killed"));
    }
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    let al = vec![
        d(Op::put("a", "x", 6)),
        d(Op::put("a", "x", 7)),
        d(Op::put("a", "x", 4)),
        d(Op::content("b", false, 2)),
        d(Op::clear("a")),
        d(Op::rm("a")),
        d(Op::rm("b")),
        d(Op::add("a", false)),
        TICK,
        RESTART,
        Kill,
    ];
    let len = if t { 6 } else { 5 };
    ck.section("histories", &format!("every history of {len} out of 8 changes, a save, a restart and being killed; then killed and restarted once more"), words(al.len(), len), |i, l| {
        l.case(&i, true);
        history(l, &word(&al, len, i));
    });
    let al = vec![
        d(Op::put("a", "x", 1)),
        d(Op::rmkv("a", "x")),
        d(Op::put("b", "y", 2)),
        d(Op::rm("b")),
        d(Op::put("A", "x", 5)),
        d(Op::add("", true)),
        d(Op::content("a", true, 3)),
        d(Op::content("a.sdb", true, 0)),
        d(Op::put("meta.sdb", "x", 1)),
        d(Op::put("META", "x", 1)),
        d(Op::get("a")),
        TICK,
        RESTART,
        Kill,
    ];
    let len = if t { 5 } else { 4 };
    ck.section("names", &format!("every history of {len} out of 11 requests on databases with similar names, a save, a restart and being killed; then killed and restarted once more"), words(al.len(), len), |i, l| {
        l.case(&i, true);
        history(l, &word(&al, len, i));
    });
    //many of them, growing and shrinking
    let counts = [1_usize, 2, 3, 7, 8, 9, 17, 40, 130];
    ck.section("many", "from n to m databases of n to m entries, with a save, a restart or both in between, n and m out of 9 sizes", 81 * 3, |i, l| {
        let (n, m, how) = (counts[i as usize % 9], counts[i as usize / 9 % 9], i / 81);
        l.case(&i, true);
        let mut v = vec![];
        for j in 0..n {
            v.push(d(Op::put(&format!("db{j}"), &format!("k{j}"), (j % 6) as u8)));
            v.push(d(Op::put("all", &format!("k{j}"), (j % 6) as u8)));
        }
        let between: &[Step] = match how {
            0 => &[TICK, Kill],
            1 => &[RESTART],
            _ => &[TICK, RESTART, TICK],
        };
        v.extend_from_slice(between);
        for j in m..n {
            v.push(d(Op::rm(&format!("db{j}"))));
            v.push(d(Op::rmkv("all", &format!("k{j}"))));
        }
        for j in n..m {
            v.push(d(Op::put(&format!("db{j}"), &format!("k{j}"), (j % 6) as u8)));
            v.push(d(Op::put("all", &format!("k{j}"), (j % 6) as u8)));
        }
        v.extend_from_slice(between);
        history(l, &v);
    });
}
