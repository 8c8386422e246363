//! C07: bit lists behave as lists of booleans.
use crate::{
    ck::{guarded, hex, Ck, L},
    corpus::*,
};
use sourisdb::utilities::{bits::Bits, cursor::Cursor};
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
};

fn hash(b: &Bits) -> u64 {
    let mut h = DefaultHasher::new();
    b.hash(&mut h);
    h.finish()
}
fn text(m: &[bool]) -> String {
    m.iter().map(|b| if *b { '1' } else { '0' }).collect()
}
fn packed(m: &[bool]) -> Vec<u8> {
    m.chunks(8).map(|c| c.iter().enumerate().fold(0, |a, (i, b)| a | u8::from(*b) << i)).collect()
}

///Every view of the list against the plain list.
fn same(l: &mut L, b: &Bits, m: &[bool], key: &dyn Fn() -> String) -> bool {
    l.call(10);
    let mut ok = l.check(b.len() == m.len() && b.is_empty() == m.is_empty(), || format!("{}:len", key()), || format!("length {} empty {}, should be {}", b.len(), b.is_empty(), m.len()));
    ok &= l.check(b.to_string() == text(m), || format!("{}:display", key()), || format!("displays {b}, should be {}", text(m)));
    if !ok {
        return false;
    }
    ok &= l.check((0..m.len()).all(|i| b[i] == m[i]), || format!("{}:index", key()), || format!("indexing differs from {}", text(m)));
    ok &= l.check(Vec::<bool>::from(b.clone()) == m, || format!("{}:vec", key()), || format!("converts to {:?}", Vec::<bool>::from(b.clone())));
    ok &= l.check(b.clone().into_iter().eq(m.iter().copied()), || format!("{}:iter", key()), || "iterates differently".into());
    ok &= l.check(b.get_proper_bytes() == packed(m), || format!("{}:bytes", key()), || format!("{} should be {}", hex(&b.get_proper_bytes()), hex(&packed(m))));
    let fresh = Bits::from(m);
    ok &= l.check(*b == fresh && fresh == *b && hash(b) == hash(&fresh), || format!("{}:eq", key()), || format!("not equal to the same bits made anew: {b:?} {fresh:?}"));
    let mut other = m.to_vec();
    other.push(false);
    ok &= l.check(*b != Bits::from(&other), || format!("{}:ne-longer", key()), || "equal to itself and one more zero".into());
    other.truncate(m.len());
    if let Some(x) = other.last_mut() {
        *x = !*x;
        ok &= l.check(*b != Bits::from(&other), || format!("{}:ne-flipped", key()), || "equal to itself with the last bit flipped".into());
        other.pop();
        ok &= l.check(*b != Bits::from(&other), || format!("{}:ne-shorter", key()), || "equal to itself without the last bit".into());
    }
    ok
}

fn reread(b: &Bits, trailing: &[u8]) -> Result<Bits, String> {
    let mut s = b.ser();
    let n = s.len();
    s.extend(trailing);
    let mut c = Cursor::new(&s);
    let r = Bits::deser(&mut c).map_err(|e| e.to_string())?;
    if c.pos() != n {
        return Err(format!("wrote {n} bytes, read {}", c.pos()));
    }
    Ok(r)
}

///Bits read from bytes whose unused part of the last byte is not zero.
fn garbage(m: &[bool], g: u8) -> Option<Bits> {
    let mut p = packed(m);
    if m.len() % 8 != 0 {
        *p.last_mut().unwrap() |= g << (m.len() % 8);
    }
    let mut v = vec![u8::try_from(m.len()).ok()?];
    v.extend(p);
    Bits::deser(&mut Cursor::new(&v)).ok()
}

const OPS: usize = 14;
fn apply(b: &mut Bits, m: &mut Vec<bool>, op: usize, l: &mut L, key: &dyn Fn() -> String) -> bool {
    l.call(1);
    match op {
        0 | 1 => {
            b.push(op == 1);
            m.push(op == 1);
        }
        2 => {
            let (x, y) = (b.pop(), m.pop());
            return l.check(x == y, || format!("{}:pop", key()), || format!("popped {x:?}, should be {y:?}"));
        }
        3 => {
            b.clear();
            m.clear();
        }
        4 | 5 | 6 => {
            let more: &[bool] = [&[true][..], &[false, true, true, false, true, false, false], &[true, false, false, false, false, false, false, true, true]][op - 4];
            b.push_many(Bits::from(more));
            m.extend(more);
        }
        7 => {
            if m.len() > 20 {
                return true;
            }
            b.push_many(b.clone());
            m.extend(m.clone());
        }
        8 => {
            let c = b.push_into_new(true);
            let same = Vec::<bool>::from(b.clone()) == *m;
            *b = c;
            m.push(true);
            return l.check(same, || format!("{}:push_into_new", key()), || "changed the original".into());
        }
        9 => match reread(b, &[0xFF, 0xFF]) {
            Ok(c) => *b = c,
            Err(e) => {
                l.fail(format!("{}:reread", key()), e);
                return false;
            }
        },
        10 => *b = b.clone().into_iter().collect(),
        11 => *b = [b.clone(), Bits::default(), Bits::from([true, true])].into_iter().collect::<Bits>(),
        12 => {
            //a copy is a copy
            let mut c = b.clone();
            c.push(true);
            let _ = c.pop();
            let _ = c.pop();
            c.clear();
        }
        13 => {
            if let Some(g) = garbage(m, 0xFF) {
                *b = g;
            }
        }
        _ => unreachable!(),
    }
    if op == 11 {
        m.extend([true, true]);
    }
    true
}

fn explore(l: &mut L, b: &Bits, m: &[bool], depth: usize, path: &mut Vec<usize>, start: usize) {
    for op in 0..OPS {
        let (mut c, mut n) = (b.clone(), m.to_vec());
        path.push(op);
        let p = path.clone();
        let key = move || format!("start{start}:{p:?}").replace(' ', "");
        let ok = apply(&mut c, &mut n, op, l, &key) && same(l, &c, &n, &key);
        if ok && depth > 1 {
            explore(l, &c, &n, depth - 1, path, start);
        }
        path.pop();
    }
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    let mut starts: Vec<(Bits, Vec<bool>)> = vec![(Bits::default(), vec![])];
    for len in [0_usize, 1, 5, 7, 8, 9, 15, 16, 17] {
        let m: Vec<bool> = (0..len).map(|i| i % 3 != 1).collect();
        starts.extend(garbage(&m, 0xFF).map(|b| (b, m.clone())));
        starts.extend(garbage(&m, 0x55).map(|b| (b, m.clone())));
    }
    for bytes in [vec![], vec![0xFF], vec![0x80], vec![0], vec![1, 0x80], vec![0x0F, 0xA5, 0]] {
        let m: Vec<bool> = bytes.iter().flat_map(|b: &u8| (0..8).map(move |i| b >> i & 1 == 1)).collect();
        starts.push((Bits::from_binary(bytes), m));
    }
    let depth = if t { 6 } else { 5 };
    //two steps make the case, the rest are explored from there
    ck.section("histories", &format!("every sequence of up to {depth} out of {OPS} operations from {} start states", starts.len()), (starts.len() * OPS * OPS) as u64, |i, l| {
        let i = i as usize;
        let (s, a, b) = (i / OPS / OPS, i / OPS % OPS, i % OPS);
        l.case(&i, true);
        let (mut bits, mut m) = starts[s].clone();
        let key0 = || format!("start{s}");
        if !same(l, &bits, &m, &key0) {
            return;
        }
        let mut path = vec![];
        for op in [a, b] {
            path.push(op);
            let p = path.clone();
            let key = move || format!("start{s}:{p:?}").replace(' ', "");
            if !(apply(&mut bits, &mut m, op, l, &key) && same(l, &bits, &m, &key)) {
                return;
            }
        }
        explore(l, &bits, &m, depth - 2, &mut path, s);
        l.saw(m.len() as u64);
    });

    let max = if t { 17 } else { 13 };
    ck.section("contents", &format!("every list up to {max} long made in six ways; serialised, followed by other bytes, read back; cut short"), string_count(2, max), |i, l| {
        let m: Vec<bool> = nth_string(i, 2).into_iter().map(|b| b == 1).collect();
        l.case(&m, true);
        let key = || format!("[{}]", text(&m));
        let mut pushed = Bits::default();
        m.iter().for_each(|b| pushed.push(*b));
        let mut many = Bits::from(&m[..m.len() / 2]);
        many.push_many(Bits::from(&m[m.len() / 2..]));
        let collected: Bits = m.iter().copied().collect();
        let mut popped = Bits::from(&m);
        for b in [true, false, true, true, true, true, true, true, true, true] {
            popped.push(b);
        }
        for _ in 0..10 {
            let _ = popped.pop();
        }
        let mut all = vec![pushed, many, collected, popped];
        all.extend(garbage(&m, 0xFF));
        all.extend(garbage(&m, 0xAA));
        for (w, b) in all.iter().enumerate() {
            let k = || format!("{}:way{w}", key());
            same(l, b, &m, &k);
            for tr in [&[][..], &[0xFF, 1]] {
                match reread(b, tr) {
                    Ok(c) => {
                        same(l, &c, &m, &|| format!("{}:reread", k()));
                    }
                    Err(e) => l.fail(format!("{}:reread", k()), e),
                }
            }
        }
        //cut short, the bytes are refused
        let s = all[0].ser();
        for cut in 0..s.len() {
            let short = &s[..cut];
            l.check(Bits::deser(&mut Cursor::new(&short)).is_err(), || format!("{}:cut{cut}", key()), || "read from too few bytes".into());
        }
        //popping all gives them back in reverse
        let mut b = all.swap_remove(1);
        let mut back = vec![];
        while let Some(x) = b.pop() {
            back.push(x);
            if back.len() > m.len() {
                break;
            }
        }
        back.reverse();
        l.check(back == m && b.pop().is_none() && b.is_empty(), || format!("{}:pop-all", key()), || format!("{back:?}"));
        //past the end
        if m.len() <= 9 {
            let b = Bits::from(&m);
            let g = garbage(&m, 0xFF).unwrap_or_default();
            for past in [m.len(), m.len() + 1, m.len() + 7, m.len() + 8, 100] {
                for b in [&b, &g] {
                    l.check(guarded(|| b[past]).is_err(), || format!("{}:past{past}", key()), || format!("index {past} gave something"));
                    l.check(guarded(|| b[past as u8]).is_err(), || format!("{}:past{past}:u8", key()), || format!("index {past} gave something"));
                }
            }
            for (i, x) in m.iter().enumerate() {
                l.check(b[i as u8] == *x && b[i as u16] == *x, || format!("{}:small-index", key()), || "differs by index type".into());
            }
        }
    });

    let pm = if t { 9 } else { 8 };
    let lists: Vec<Vec<bool>> = (0..string_count(2, pm)).map(|i| nth_string(i, 2).into_iter().map(|b| b == 1).collect()).collect();
    let made: Vec<[Bits; 2]> = lists.iter().map(|m| [Bits::from(m), garbage(m, 0xFF).unwrap_or_default()]).collect();
    ck.section("pairs", &format!("every pair of lists up to {pm} long, pushed and read from bytes with noise: equality and hashing"), lists.len() as u64, |i, l| {
        l.case(&i, true);
        for (j, m) in lists.iter().enumerate() {
            for a in &made[i as usize] {
                for b in &made[j] {
                    let want = lists[i as usize] == *m;
                    if (a == b) != want {
                        l.fail(format!("[{}]==[{}]", text(&lists[i as usize]), text(m)), format!("equality says {}", a == b));
                    }
                    if want && hash(a) != hash(b) {
                        l.fail(format!("hash[{}]", text(m)), "equal but hash differently");
                    }
                }
            }
        }
        l.call(lists.len() as u64 * 4);
        l.compared += lists.len() as u64 * 4;
    });

    let mut lens: Vec<usize> = (0..=600).collect();
    let top = if t { 27 } else { 25 };
    for k in 10..=top {
        for d in [-9_i64, -8, -7, -1, 0, 1, 2, 7, 8, 9] {
            lens.push(((1_i64 << k) + d) as usize);
        }
    }
    ck.section("lengths", &format!("every length 0..=600 and around every power of two up to 2^{top}: written, read back, end of the bytes, edges"), lens.len() as u64, |i, l| {
        let n = lens[i as usize];
        l.case(&n, true);
        l.call(4);
        let bytes: Vec<u8> = (0..n.div_ceil(8)).map(|j| (j as u8).wrapping_mul(31) ^ 0xA5).collect();
        let bit = |j: usize| bytes[j / 8] >> (j % 8) & 1 == 1;
        let mut b = Bits::from_binary(bytes.clone());
        while b.len() > n {
            let _ = b.pop();
        }
        l.check(b.len() == n, || format!("{n}:len"), || format!("{}", b.len()));
        let s = b.ser();
        let mut c = Cursor::new(&s);
        match Bits::deser(&mut c) {
            Ok(d) => {
                l.check(d == b && d.len() == n && hash(&d) == hash(&b), || format!("{n}:reread"), || format!("length {}", d.len()));
                l.check(c.is_finished(), || format!("{n}:end"), || format!("{} of {}", c.pos(), s.len()));
                let ok = (0..n).rev().take(40).chain((0..n).take(40)).all(|j| d[j] == bit(j));
                l.check(ok, || format!("{n}:edges"), || "different bits".into());
            }
            Err(e) => l.fail(format!("{n}:reread"), e.to_string()),
        }
        if n <= 1 << 20 {
            let m: Vec<bool> = (0..n).map(bit).collect();
            if n < 3000 {
                same(l, &b, &m, &|| format!("{n}"));
            }
            l.check(Bits::from(&m) == b, || format!("{n}:from"), || "unequal to the same bits pushed".into());
            l.check(Vec::<bool>::from(b) == m, || format!("{n}:vec"), || "different bits".into());
        }
    });
}
