//! Concurrent requests have the effects and answers of some order of them.
use crate::{
    ck::Ck,
    conc::{program, Prog},
    d01::{files_after, word, words},
    model::{Op, State},
    world::fresh,
};
use vsched::{vfs::Vfs, Config};

fn starts() -> Vec<(Vfs, State, Vec<Op>)> {
    let (fs, s) = files_after(&[Op::put("a", "x", 1), Op::put("a", "y", 0)]);
    vec![(fresh(), State::new(), vec![]), (fs.clone(), s.clone(), vec![]), (fs, s, vec![Op::get("a")])]
}
fn ops() -> Vec<Op> {
    vec![
        Op::get("a"),
        Op::Names,
        Op::getv("a", "x"),
        Op::add("a", false),
        Op::add("a", true),
        Op::content("a", false, 2),
        Op::content("a", true, 1),
        Op::rm("a"),
        Op::clear("a"),
        Op::put("a", "x", 0),
        Op::kv("a", "x", false, true, 2),
        Op::kv("a", "x", true, false, 3),
        Op::rmkv("a", "x"),
        Op::put("b", "x", 0),
        Op::rm("b"),
        Op::get("b"),
    ]
}

pub fn run(ck: &Ck) {
    let st = starts();
    let o = ops();
    let n = o.len();
    let t = ck.thorough;
    let cfg = |pre: u32, ev: u32| Config { preemptions: pre, evictions: ev, ..Config::default() };
    let pairs = words(n, 2) * 3;
    ck.section("pairs", "two clients with any of 16 requests each, from nothing, from a database on disk, and with it in the cache: every schedule, every loss from the cache", pairs, |i, l| {
        let (fs, s, warm) = &st[(i % 3) as usize];
        let w = word(&o, 2, i / 3);
        let p = Prog { warm: warm.clone(), clients: vec![vec![w[0].clone()], vec![w[1].clone()]], may_go: false };
        l.case(&(i % 3, &p), true);
        program(l, 2_000_000, &cfg(u32::MAX, u32::MAX), fs, s, &p);
        l.sample(|| format!("{p:?}"));
    });
    //one client does two things
    let two = words(n, 3) * 3;
    ck.section("two-and-one", "two clients, one with any two of 16 requests, the other with any one, from the same three states: every schedule with at most two preemptions and one loss from the cache", two, |i, l| {
        let (fs, s, warm) = &st[(i % 3) as usize];
        let w = word(&o, 3, i / 3);
        let p = Prog { warm: warm.clone(), clients: vec![vec![w[0].clone(), w[1].clone()], vec![w[2].clone()]], may_go: false };
        l.case(&(i % 3, &p), true);
        program(l, 2_000_000, &cfg(if t { u32::MAX } else { 2 }, 1), fs, s, &p);
    });
    //three clients; the order of clients does not matter
    let mut triples = vec![];
    for a in 0..n {
        for b in a..n {
            for c in b..n {
                triples.push([a, b, c]);
            }
        }
    }
    ck.section("triples", "three clients with any of 16 requests each, from the same three states: every schedule with at most two preemptions and one loss from the cache", triples.len() as u64 * 3, |i, l| {
        let (fs, s, warm) = &st[(i % 3) as usize];
        let w = triples[(i / 3) as usize];
        let p = Prog { warm: warm.clone(), clients: w.iter().map(|w| vec![o[*w].clone()]).collect(), may_go: false };
        l.case(&(i % 3, &p), true);
        program(l, 2_000_000, &cfg(if t { 4 } else { 2 }, 1), fs, s, &p);
    });
    //clients that go away while their requests are being worked on
    ck.section("gone", "two clients, one with any two of 16 requests, the other with any one; any of them may go away while waiting: every schedule with at most one preemption", words(n, 3) * 3, |i, l| {
        let (fs, s, warm) = &st[(i % 3) as usize];
        let w = word(&o, 3, i / 3);
        let p = Prog { warm: warm.clone(), clients: vec![vec![w[0].clone(), w[1].clone()], vec![w[2].clone()]], may_go: true };
        l.case(&(i % 3, &p), true);
        program(l, 2_000_000, &Config { cancels: if t { 2 } else { 1 }, ..cfg(if t { 3 } else { 1 }, 0) }, fs, s, &p);
    });
    //fewer requests, but more of them
    let few = [Op::get("a"), Op::put("a", "x", 0), Op::rm("a"), Op::content("a", true, 2), Op::kv("a", "y", false, false, 3), Op::getv("a", "x")];
    let len = 4;
    ck.section("two-and-two", "two clients, each with any two of 6 requests, from the same three states: every schedule with at most three preemptions and one loss from the cache", words(few.len(), len) * 3, |i, l| {
        let (fs, s, warm) = &st[(i % 3) as usize];
        let w = word(&few, len, i / 3);
        let p = Prog { warm: warm.clone(), clients: vec![w[..2].to_vec(), w[2..].to_vec()], may_go: false };
        l.case(&(i % 3, &p), true);
        program(l, 2_000_000, &cfg(if t { u32::MAX } else { 3 }, 1), fs, s, &p);
    });
}
