//! C08: a cursor is an in-bounds position in a slice.
use crate::{
    ck::{Ck, L},
    corpus::*,
};
use sourisdb::utilities::cursor::Cursor;
use std::io::{Seek, SeekFrom};

#[derive(Clone, Copy, Debug)]
enum Op {
    Read(usize),
    Read0,
    Read1,
    Read2,
    Read4,
    Peek(usize),
    Peek1,
    Peek3,
    Fwd(usize),
    Back(usize),
    Set(usize),
    Next,
    Take(usize),
    Rest,
    PeekRest,
    Start(u64),
    Cur(i64),
    End(i64),
    Rewind,
}
use Op::*;

fn ops(len: usize) -> Vec<Op> {
    let m = usize::MAX;
    let l = len as i64;
    let mut v = vec![Read0, Read1, Read2, Read4, Peek1, Peek3, Next, Take(2), Take(9), Rest, PeekRest, Rewind];
    let mut ns = vec![0, 1, 2, len, len + 1, m - 1, m, 1 << 63, (1 << 63) - 1, m - len];
    ns.sort_unstable();
    ns.dedup();
    for n in ns {
        v.extend([Read(n), Peek(n), Fwd(n), Back(n), Set(n)]);
    }
    let mut is = vec![0, 1, -1, 2, -2, l, -l, l + 1, -l - 1, i64::MAX, i64::MIN, i64::MAX - 1, i64::MIN + 1];
    is.sort_unstable();
    is.dedup();
    for n in is {
        v.extend([Cur(n), End(n)]);
    }
    let mut us = vec![0, 1, len as u64, len as u64 + 1, u64::MAX, 1 << 63, (1 << 63) - 1];
    us.sort_unstable();
    us.dedup();
    v.extend(us.into_iter().map(Start));
    v
}

///What the step gives on a slice and an index: the new index and what is seen.
fn model(data: &[u16], pos: usize, op: Op) -> (usize, Option<Vec<u16>>, bool) {
    let len = data.len();
    let upto = |n: usize| pos.checked_add(n).filter(|e| *e <= len);
    let get = |n: usize, moves: bool| match upto(n) {
        Some(e) => (if moves { e } else { pos }, Some(data[pos..e].to_vec()), true),
        None => (pos, None, false),
    };
    let go = |to: i128| if to >= 0 && to <= len as i128 { (to as usize, None, true) } else { (pos, None, false) };
    match op {
        Read(n) => get(n, true),
        Read0 => get(0, true),
        Read1 => get(1, true),
        Read2 => get(2, true),
        Read4 => get(4, true),
        Peek(n) => get(n, false),
        Peek1 => get(1, false),
        Peek3 => get(3, false),
        Fwd(n) => upto(n).map_or((pos, None, false), |e| (e, None, true)),
        Back(n) => pos.checked_sub(n).map_or((pos, None, false), |e| (e, None, true)),
        Set(n) => (n.min(len), None, true),
        Next => {
            if pos < len {
                (pos + 1, Some(vec![data[pos]]), true)
            } else {
                (pos, None, false)
            }
        }
        Take(n) => {
            let e = (pos + n).min(len);
            (e, Some(data[pos..e].to_vec()), true)
        }
        Rest => (len, Some(data[pos..].to_vec()), true),
        PeekRest => (pos, Some(data[pos..].to_vec()), true),
        Start(n) => go(i128::from(n)),
        Cur(n) => go(pos as i128 + i128::from(n)),
        End(n) => go(len as i128 + i128::from(n)),
        Rewind => (0, None, true),
    }
}

fn real(c: &mut Cursor<u16>, op: Op) -> (Option<Vec<u16>>, bool, Option<u64>) {
    let opt = |o: Option<&[u16]>| (o.map(<[u16]>::to_vec), o.is_some(), None);
    let seek = |r: std::io::Result<u64>| (None, r.is_ok(), r.ok());
    match op {
        Read(n) => opt(c.read(n)),
        Read0 => opt(c.read_exact::<0>().map(|a| a.as_slice())),
        Read1 => opt(c.read_exact::<1>().map(|a| a.as_slice())),
        Read2 => opt(c.read_exact::<2>().map(|a| a.as_slice())),
        Read4 => opt(c.read_exact::<4>().map(|a| a.as_slice())),
        Peek(n) => opt(c.peek(n)),
        Peek1 => opt(c.peek_exact::<1>().map(|a| a.as_slice())),
        Peek3 => opt(c.peek_exact::<3>().map(|a| a.as_slice())),
        Fwd(n) => (None, c.move_forwards(n), None),
        Back(n) => (None, c.move_backwards(n), None),
        Set(n) => {
            c.set_pos(n);
            (None, true, None)
        }
        Next => {
            let x = c.next().copied();
            (x.map(|x| vec![x]), x.is_some(), None)
        }
        Take(n) => {
            let v: Vec<u16> = c.by_ref().take(n).copied().collect();
            (Some(v), true, None)
        }
        Rest => (Some(c.read_remaining().to_vec()), true, None),
        PeekRest => (Some(c.peek_remaining().to_vec()), true, None),
        Start(n) => seek(c.seek(SeekFrom::Start(n))),
        Cur(n) => seek(c.seek(SeekFrom::Current(n))),
        End(n) => seek(c.seek(SeekFrom::End(n))),
        Rewind => (None, c.rewind().is_ok(), None),
    }
}

///One step from a known place, all views compared.
fn step(l: &mut L, data: &[u16], c: &mut Cursor<u16>, pos: usize, op: Op, path: &dyn Fn() -> String) -> Option<usize> {
    let (to, seen, ok) = model(data, pos, op);
    let (rseen, rok, at) = real(c, op);
    l.call(1);
    let good = rseen == seen && rok == ok && c.pos() == to && at.is_none_or(|a| a == to as u64);
    l.check(good, || format!("{}/{op:?}", path()), || format!("at {pos} of {}: {op:?} gave {rseen:?}, accepted {rok}, now at {}; should give {seen:?}, accepted {ok}, at {to}", data.len(), c.pos()));
    let views = c.items_remaining() == data.len() - to && c.is_finished() == (to == data.len()) && c.peek_remaining() == &data[to..] && AsRef::<[u16]>::as_ref(c) == &data[to..];
    l.check(views, || format!("{}/{op:?}:views", path()), || format!("remaining {} finished {} at {to} of {}", c.items_remaining(), c.is_finished(), data.len()));
    good.then_some(to)
}

pub fn run(ck: &Ck) {
    let depth = if ck.thorough { 4 } else { 3 };
    let maxlen = 6;
    for len in 0..=maxlen {
        let data: Vec<u16> = (0..len as u16).map(|i| i * 257 + 3).collect();
        let os = ops(len);
        let b = os.len() as u64;
        //every sequence of exactly `depth` steps; the shorter ones are its prefixes
        ck.section(&format!("slice-{len}"), &format!("every sequence of {depth} out of {b} steps on a slice of {len}"), b.pow(depth), |i, l| {
            let mut k = i;
            let seq: Vec<Op> = (0..depth)
                .map(|_| {
                    let o = os[(k % b) as usize];
                    k /= b;
                    o
                })
                .collect();
            l.case(&i, true);
            l.sample(|| format!("{seq:?}"));
            let mut c = Cursor::new(&data);
            let mut pos = 0;
            for (n, op) in seq.iter().enumerate() {
                match step(l, &data, &mut c, pos, *op, &|| format!("{:?}", &seq[..n]).replace(' ', "")) {
                    Some(p) => pos = p,
                    None => break,
                }
            }
            l.saw(pos as u64);
        });
    }
    //longer histories over few steps
    let few = [Read(1), Read(2), Read(9), Peek(2), Fwd(1), Fwd(4), Back(1), Back(3), Set(2), Next, Cur(-1), Cur(2), End(-1), End(1), Start(1), Rest];
    let d = if ck.thorough { 7 } else { 5 };
    let data: Vec<u16> = vec![10, 20, 30, 40];
    ck.section("long-histories", &format!("every sequence of {d} out of 16 steps on a slice of 4"), 16_u64.pow(d), |i, l| {
        l.case(&i, true);
        let mut c = Cursor::new(&data);
        let mut pos = 0;
        for n in 0..d {
            let op = few[(i >> (4 * n) & 15) as usize];
            match step(l, &data, &mut c, pos, op, &|| format!("long{i}.{n}")) {
                Some(p) => pos = p,
                None => break,
            }
        }
    });
    //positions of any size
    let nums: Vec<u64> = magnitudes(1).into_iter().filter_map(|m| u64::try_from(m).ok()).collect();
    let big: Vec<u16> = (0..70_000_u32).map(|i| i as u16).collect();
    let starts = [0_usize, 1, 255, 256, 32767, 32768, 65535, 65536, 69_999, 70_000];
    ck.section("extremes", "every boundary number as the operand of every step, from ten places in a slice of 70000", nums.len() as u64 * starts.len() as u64, |i, l| {
        let n = nums[i as usize / starts.len()];
        let start = starts[i as usize % starts.len()];
        l.case(&i, true);
        let mut all = vec![Start(n)];
        if let Ok(u) = usize::try_from(n) {
            all.extend([Fwd(u), Back(u), Set(u)]);
            if u > 70_000 || u < 300 {
                all.extend([Read(u), Peek(u)]);
            }
        }
        if let Ok(s) = i64::try_from(n) {
            all.extend([Cur(s), End(s), Cur(-s), End(-s)]);
        }
        if n == 1 << 63 {
            all.extend([Cur(i64::MIN), End(i64::MIN)]);
        }
        for op in all {
            let mut c = Cursor::new(&big);
            c.set_pos(start);
            step(l, &big, &mut c, start, op, &|| format!("from{start}"));
        }
    });
}
