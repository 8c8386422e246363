//! Saving while requests run.
use crate::{
    ck::Ck,
    conc::{saving, Prog},
    d01::{files_after, word, words},
    model::{Op, State},
    world::fresh,
};
use vsched::{vfs::Vfs, Config};

pub fn ops() -> Vec<Op> {
    vec![
        Op::put("a", "x", 0),
        Op::put("a", "y", 4),
        Op::content("a", true, 2),
        Op::clear("a"),
        Op::rm("a"),
        Op::rmkv("a", "x"),
        Op::put("b", "x", 2),
        Op::rm("b"),
        Op::get("a"),
        Op::add("a", false),
    ]
}
pub fn starts() -> Vec<(Vfs, State)> {
    vec![(fresh(), State::new()), files_after(&[Op::put("a", "x", 1), Op::put("a", "y", 0)]), files_after(&[Op::put("a", "x", 1), Op::put("b", "x", 3)])]
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    let st = starts();
    let o = ops();
    let three = files_after(&[Op::put("a", "x", 1), Op::put("b", "x", 3), Op::put("c", "y", 5)]);
    let n = o.len();
    let cfg = |ticks: u32, pre: u32, delays: u32| Config { preemptions: pre, delays, ticks, evictions: 0, ..Config::default() };
    ck.section("one-client", "a client with any two of 10 requests, from three states, and one save at any time: every schedule with at most three delays and two preemptions (thorough: four and three)", words(n, 2) * 3, |i, l| {
        let (fs, s) = &st[(i % 3) as usize];
        let p = Prog { warm: vec![], clients: vec![word(&o, 2, i / 3)], may_go: false };
        l.case(&(i % 3, &p), true);
        saving(l, 1_000_000, &cfg(1, if t { 3 } else { 2 }, if t { 4 } else { 3 }), fs, s, &p);
    });
    ck.section("sequences", "a client with any three of 10 requests, from three states, and up to two saves: every schedule with at most two delays and one preemption (thorough: three and two)", words(n, 3) * 3, |i, l| {
        let (fs, s) = &st[(i % 3) as usize];
        let p = Prog { warm: vec![], clients: vec![word(&o, 3, i / 3)], may_go: false };
        l.case(&(i % 3, &p), true);
        saving(l, 1_000_000, &cfg(2, if t { 2 } else { 1 }, if t { 3 } else { 2 }), fs, s, &p);
    });
    ck.section("two-clients", "two clients with one request each, from three states, and one save at any time: every schedule with at most two delays and two preemptions (thorough: four and three)", words(n, 2) * 3, |i, l| {
        let (fs, s) = &st[(i % 3) as usize];
        let w = word(&o, 2, i / 3);
        let p = Prog { warm: vec![], clients: vec![vec![w[0].clone()], vec![w[1].clone()]], may_go: false };
        l.case(&(i % 3, &p), true);
        saving(l, 1_000_000, &cfg(1, if t { 3 } else { 2 }, if t { 4 } else { 2 }), fs, s, &p);
    });
    //whichever database is saved first
    let few = [Op::put("a", "x", 4), Op::put("b", "x", 4), Op::rm("a"), Op::rm("b"), Op::put("c", "x", 0), Op::clear("b")];
    let seeds = if t { 8 } else { 4 };
    ck.section("order", &format!("three databases, saved in {seeds} orders, and a client with any two of 6 requests, and one save at any time: every schedule with at most two delays and one preemption"), words(few.len(), 2) * seeds, |i, l| {
        let (fs, s) = &three;
        let p = Prog { warm: vec![], clients: vec![word(&few, 2, i / seeds)], may_go: false };
        l.case(&(i % seeds, &p), true);
        saving(l, 1_000_000, &Config { seed: i % seeds, ..cfg(1, 1, 2) }, fs, s, &p);
    });
    ck.section("gone", "a client with any one of 10 requests that may go away, then another with any one, from three states, and one save at any time: every schedule with at most two delays (thorough: three and one preemption)", words(n, 2) * 3, |i, l| {
        let (fs, s) = &st[(i % 3) as usize];
        let w = word(&o, 2, i / 3);
        let p = Prog { warm: vec![], clients: vec![vec![w[0].clone()], vec![w[1].clone()]], may_go: true };
        l.case(&(i % 3, &p), true);
        saving(l, 1_000_000, &Config { cancels: 1, ..cfg(1, if t { 1 } else { 0 }, if t { 3 } else { 2 }) }, fs, s, &p);
    });
}
