//! Being told to stop.
use crate::{
    ck::Ck,
    conc::{stopping, Prog},
    d01::{word, words},
    d09::{ops, starts},
    model::Op,
};
use vsched::Config;

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    let st = starts();
    let o = ops();
    let n = o.len();
    let cfg = |ticks: u32, pre: u32, delays: u32| Config { preemptions: pre, delays, ticks, evictions: 0, ..Config::default() };
    ck.section("one-client", "a client with any two of 10 requests, from three states, and SIGTERM or SIGINT at any time: every schedule with at most two delays and two preemptions (thorough: three delays)", words(n, 2) * 6, |i, l| {
        let (fs, s) = &st[(i % 3) as usize];
        let p = Prog { warm: vec![], clients: vec![word(&o, 2, i / 6)], may_go: false };
        l.case(&(i % 6, &p), true);
        stopping(l, 1_000_000, &cfg(0, 2, if t { 3 } else { 2 }), fs, s, &p, &[if i / 3 % 2 == 0 { libc::SIGTERM } else { libc::SIGINT }]);
    });
    ck.section("two-clients", "two clients with any one of 10 requests each, from three states, and SIGTERM at any time: every schedule with at most two delays and one preemption (thorough: three and two)", words(n, 2) * 3, |i, l| {
        let (fs, s) = &st[(i % 3) as usize];
        let w = word(&o, 2, i / 3);
        let p = Prog { warm: vec![], clients: vec![vec![w[0].clone()], vec![w[1].clone()]], may_go: false };
        l.case(&(i % 3, &p), true);
        stopping(l, 1_000_000, &cfg(0, if t { 2 } else { 1 }, if t { 3 } else { 2 }), fs, s, &p, &[libc::SIGTERM]);
    });
    ck.section("while-saving", "a client with any two of 10 requests, from three states, a periodic save and SIGTERM at any time: every schedule with at most two delays (thorough: three, and one preemption)", words(n, 2) * 3, |i, l| {
        let (fs, s) = &st[(i % 3) as usize];
        let p = Prog { warm: vec![], clients: vec![word(&o, 2, i / 3)], may_go: false };
        l.case(&(i % 3, &p), true);
        stopping(l, 1_000_000, &cfg(1, if t { 1 } else { 0 }, if t { 3 } else { 2 }), fs, s, &p, &[libc::SIGTERM]);
    });
    ck.section("impatient", "a client with any one of 10 requests, from three states, and two signals of either kind at any time: every schedule with at most two delays", n as u64 * 12, |i, l| {
        let (fs, s) = &st[(i % 3) as usize];
        let p = Prog { warm: vec![], clients: vec![vec![o[(i / 12) as usize].clone()]], may_go: false };
        l.case(&(i % 12, &p), true);
        let k = |b: u64| if i / 3 & b == 0 { libc::SIGTERM } else { libc::SIGINT };
        stopping(l, 1_000_000, &cfg(0, if t { 1 } else { 0 }, if t { 3 } else { 2 }), fs, s, &p, &[k(1), k(2)]);
    });
    ck.section("gone", "a client with any one of 10 requests that may go away, then one more, from three states, and SIGTERM at any time: every schedule with at most two delays", words(n, 2) * 3, |i, l| {
        let (fs, s) = &st[(i % 3) as usize];
        let w = word(&o, 2, i / 3);
        let p = Prog { warm: vec![], clients: vec![vec![w[0].clone()], vec![w[1].clone()]], may_go: true };
        l.case(&(i % 3, &p), true);
        stopping(l, 1_000_000, &Config { cancels: 1, ..cfg(0, 0, if t { 3 } else { 2 }) }, fs, s, &p, &[libc::SIGTERM]);
    });
    ck.section("order", "three databases, all changed, in four orders of saving, and SIGTERM at any time: every schedule with at most two delays", 4 * 4, |i, l| {
        let (fs, s) = &st[2];
        let v = match i % 4 {
            0 => vec![Op::put("a", "x", 0), Op::put("b", "x", 0), Op::put("c", "x", 0)],
            1 => vec![Op::rm("a"), Op::put("b", "x", 4), Op::put("c", "x", 0)],
            2 => vec![Op::put("c", "x", 0), Op::rm("b"), Op::rm("c")],
            _ => vec![Op::rm("b"), Op::put("b", "z", 4), Op::put("a", "x", 0)],
        };
        let p = Prog { warm: vec![], clients: vec![v], may_go: false };
        l.case(&(i, &p), true);
        stopping(l, 1_000_000, &Config { seed: i / 4, ..cfg(0, 1, 2) }, fs, s, &p, &[libc::SIGTERM]);
    });
}
