//! C06: Huffman codes are lossless, prefix-free and optimal.
use crate::{
    ck::{hex, Ck, L},
    corpus::*,
};
use sourisdb::utilities::{bits::Bits, cursor::Cursor, huffman::Huffman};
use std::{
    cmp::Reverse,
    collections::{BTreeMap, BinaryHeap},
    fmt::Debug,
    hash::Hash,
};

///The least total length a prefix code with at least one bit per symbol can reach, found by trying every code shape.
fn least_by_shapes(mut freqs: Vec<u64>) -> u64 {
    if freqs.len() == 1 {
        return freqs[0];
    }
    freqs.sort_unstable_by(|a, b| b.cmp(a));
    fn go(freqs: &[u64], at: usize, depth: u32, room: u64, best: &mut u64, cost: u64, max: u32) {
        //room: how many nodes are left at this depth
        if at == freqs.len() {
            *best = (*best).min(cost);
            return;
        }
        if room == 0 || depth > max || cost >= *best {
            return;
        }
        //use 0..=room of them as leaves, the rest branch
        for leaves in 0..=room.min((freqs.len() - at) as u64) {
            let c: u64 = freqs[at..at + leaves as usize].iter().sum::<u64>() * u64::from(depth);
            go(freqs, at + leaves as usize, depth + 1, (room - leaves) * 2, best, cost + c, max);
        }
    }
    let mut best = u64::MAX;
    go(&freqs, 0, 0, 1, &mut best, 0, freqs.len() as u32);
    best
}
///The same for many symbols, by merging.
fn least_by_merging(freqs: &[u64]) -> u64 {
    if freqs.len() == 1 {
        return freqs[0];
    }
    let mut h: BinaryHeap<Reverse<u64>> = freqs.iter().map(|f| Reverse(*f)).collect();
    let mut cost = 0;
    while let (Some(Reverse(a)), Some(Reverse(b))) = (h.pop(), h.pop()) {
        cost += a + b;
        if h.is_empty() {
            break;
        }
        h.push(Reverse(a + b));
    }
    cost
}

fn bools(b: &Bits) -> Vec<bool> {
    b.clone().into_iter().collect()
}

///The code of every symbol; none is a prefix of another.
fn codes<T: Hash + Eq + Clone + Debug + Ord>(l: &mut L, h: &Huffman<T>, syms: &[T], key: &dyn Fn() -> String) -> Option<BTreeMap<T, Vec<bool>>> {
    let mut m = BTreeMap::new();
    for s in syms {
        l.call(1);
        match h.encode(std::iter::once(s.clone())) {
            Ok(b) => {
                m.insert(s.clone(), bools(&b));
            }
            Err(e) => {
                l.fail(key(), format!("{s:?} has no code: {e}"));
                return None;
            }
        }
    }
    for (a, x) in &m {
        l.check(!x.is_empty(), || format!("{}:empty", key()), || format!("{a:?} has an empty code"));
        for (b, y) in &m {
            if a != b && y.starts_with(x) {
                l.fail(format!("{}:prefix", key()), format!("{a:?} = {x:?} starts {b:?} = {y:?}"));
                return None;
            }
        }
    }
    Some(m)
}

fn lossless<T: Hash + Eq + Clone + Debug + Ord>(l: &mut L, h: &Huffman<T>, codes: &BTreeMap<T, Vec<bool>>, seq: &[T], key: &dyn Fn() -> String) {
    l.call(2);
    match h.encode(seq.iter().cloned()) {
        Ok(b) => {
            let want: Vec<bool> = seq.iter().flat_map(|s| codes[s].iter().copied()).collect();
            l.check(bools(&b) == want, || format!("{}:encode", key()), || format!("{seq:?} encodes to {b}"));
            let d = h.decode(b);
            l.check(matches!(&d, Ok(d) if d == seq), || format!("{}:decode", key()), || format!("{seq:?} decodes to {d:?}"));
        }
        Err(e) => l.fail(format!("{}:encode", key()), format!("{seq:?}: {e}")),
    }
}

///Every bit string up to a length, against decoding by the codes.
fn decoding<T: Hash + Eq + Clone + Debug + Ord>(l: &mut L, h: &Huffman<T>, codes: &BTreeMap<T, Vec<bool>>, max: u32, key: &dyn Fn() -> String) {
    for i in 0..string_count(2, max) {
        let bits: Vec<bool> = nth_string(i, 2).into_iter().map(|b| b == 1).collect();
        let mut at = 0;
        let mut want = vec![];
        let mut stuck = false;
        'next: while at < bits.len() {
            for (s, c) in codes {
                if bits[at..].starts_with(c) {
                    want.push(s.clone());
                    at += c.len();
                    continue 'next;
                }
            }
            stuck = true;
            break;
        }
        let inside = stuck && codes.values().any(|c| c.starts_with(&bits[at..]));
        l.call(1);
        let got = h.decode(Bits::from(&bits));
        if !stuck {
            l.check(matches!(&got, Ok(g) if *g == want), || format!("{}:bits{i}", key()), || format!("{bits:?} decodes to {got:?}, should be {want:?}"));
        } else if inside {
            l.check(got.is_err(), || format!("{}:bits{i}", key()), || format!("{bits:?} ends inside a symbol but decodes to {got:?}"));
        }
        //anything else is no code word at all, which only a lone symbol leaves room for
    }
}

trait Sym: Hash + Eq + Clone + Debug + Ord {
    fn write(h: &Huffman<Self>) -> Vec<u8>;
    fn read(c: &mut Cursor<u8>) -> Result<Huffman<Self>, String>;
}
impl Sym for u8 {
    fn write(h: &Huffman<u8>) -> Vec<u8> {
        h.ser()
    }
    fn read(c: &mut Cursor<u8>) -> Result<Huffman<u8>, String> {
        Huffman::<u8>::deser(c).map_err(|e| e.to_string())
    }
}
impl Sym for char {
    fn write(h: &Huffman<char>) -> Vec<u8> {
        h.ser()
    }
    fn read(c: &mut Cursor<u8>) -> Result<Huffman<char>, String> {
        Huffman::<char>::deser(c).map_err(|e| e.to_string())
    }
}

///Writes the code out and reads it back: the same codes, and the bytes end where they should.
fn reread<T: Sym>(l: &mut L, h: &Huffman<T>, codes: &BTreeMap<T, Vec<bool>>, key: &dyn Fn() -> String) -> Option<Huffman<T>> {
    let mut b = T::write(h);
    let n = b.len();
    b.extend([0, 1, 0xFF]);
    let mut c = Cursor::new(&b);
    l.call(2);
    match T::read(&mut c) {
        Ok(g) => {
            l.check(c.pos() == n, || format!("{}:end", key()), || format!("wrote {n} bytes, read {}: {}", c.pos(), hex(&b)));
            for (s, code) in codes {
                let e = g.encode(std::iter::once(s.clone()));
                let same = matches!(&e, Ok(e) if bools(e) == *code);
                l.check(same, || format!("{}:reread", key()), || format!("{s:?} had {code:?}, now {e:?}"));
            }
            Some(g)
        }
        Err(e) => {
            l.fail(format!("{}:reread", key()), format!("{e} from {}", hex(&b)));
            None
        }
    }
}

fn full<T: Sym>(l: &mut L, data: &[T], foreign: Option<&T>, seq_len: u32, bit_len: u32, key: &dyn Fn() -> String) {
    l.call(1);
    let h = match Huffman::new(data.iter().cloned()) {
        Ok(h) => h,
        Err(e) => return l.fail(key(), format!("no code for non-empty data: {e}")),
    };
    let mut freq: BTreeMap<T, u64> = BTreeMap::new();
    data.iter().for_each(|d| *freq.entry(d.clone()).or_default() += 1);
    let syms: Vec<T> = freq.keys().cloned().collect();
    let Some(cs) = codes(l, &h, &syms, key) else { return };
    let cost: u64 = freq.iter().map(|(s, f)| cs[s].len() as u64 * f).sum();
    let fs: Vec<u64> = freq.values().copied().collect();
    let least = if fs.len() <= 7 { least_by_shapes(fs) } else { least_by_merging(&fs) };
    l.check(cost == least, || format!("{}:optimal", key()), || format!("takes {cost} bits, {least} would do; codes {cs:?}"));
    l.saw(cost);
    lossless(l, &h, &cs, data, key);
    match Huffman::new_and_encode(data.iter().cloned()) {
        Ok((g, b)) => {
            let d = g.decode(b);
            l.check(matches!(&d, Ok(d) if d == data), || format!("{}:new_and_encode", key()), || format!("{d:?}"));
        }
        Err(e) => l.fail(format!("{}:new_and_encode", key()), e.to_string()),
    }
    let back = reread(l, &h, &cs, key);
    let k = syms.len() as u64;
    for i in 0..string_count(k, seq_len) {
        let seq: Vec<T> = nth_string(i, k).into_iter().map(|x| syms[x as usize].clone()).collect();
        lossless(l, &h, &cs, &seq, key);
        if let Some(g) = &back {
            lossless(l, g, &cs, &seq, &|| format!("{}:reread", key()));
        }
    }
    decoding(l, &h, &cs, bit_len, key);
    if let Some(g) = &back {
        decoding(l, g, &cs, bit_len.min(6), &|| format!("{}:reread", key()));
    }
    let Some(foreign) = foreign else { return };
    for seq in [vec![foreign.clone()], vec![syms[0].clone(), foreign.clone()], vec![foreign.clone(), syms[0].clone()]] {
        let bad = h.encode(seq.iter().cloned()).is_ok() || back.as_ref().is_some_and(|g| g.encode(seq.iter().cloned()).is_ok());
        l.check(!bad, || format!("{}:foreign", key()), || format!("{seq:?} encodes although the code does not contain all of it"));
    }
}

///A code built from its frequencies, with nothing but sound size and shape checked: for big alphabets.
fn quick<T: Sym>(l: &mut L, data: &[T], key: &dyn Fn() -> String) {
    full(l, data, None, 0, 0, &|| format!("{}:q", key()));
}

///The deepest code `k` symbols can have, from as much data as that takes.
fn deepest<T: Sym>(l: &mut L, syms: &[T], key: &dyn Fn() -> String) {
    let k = syms.len();
    let mut freq: Vec<u64> = vec![];
    let (mut a, mut b) = (1, 1);
    for _ in 0..k {
        freq.push(a);
        (a, b) = (b, a + b);
    }
    l.call(1);
    let h = match Huffman::new(syms.iter().zip(&freq).flat_map(|(s, f)| (0..*f).map(|_| s.clone()))) {
        Ok(h) => h,
        Err(e) => return l.fail(key(), format!("no code for non-empty data: {e}")),
    };
    let Some(cs) = codes(l, &h, syms, key) else { return };
    let cost: u64 = syms.iter().zip(&freq).map(|(s, f)| cs[s].len() as u64 * f).sum();
    let least = least_by_merging(&freq);
    l.check(cost == least, || format!("{}:optimal", key()), || format!("takes {cost} bits, {least} would do; codes {cs:?}"));
    l.saw(cs.values().map(Vec::len).max().unwrap_or(0) as u64);
    let mut seq = syms.to_vec();
    seq.extend(syms.iter().rev().cloned());
    lossless(l, &h, &cs, &seq, key);
    if let Some(g) = reread(l, &h, &cs, key) {
        lossless(l, &g, &cs, &seq, &|| format!("{}:reread", key()));
    }
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    ck.section("deepest-codes", "codes 22..=36 (thorough 42) deep: Fibonacci frequencies with up to 100 million (1.1 thousand million) symbols of data", if t { 2 * 21 } else { 2 * 15 }, |i, l| {
        let k = 23 + i as u32 / 2;
        l.case(&i, true);
        if i % 2 == 0 {
            deepest(l, &(0..k as u8).collect::<Vec<_>>(), &|| format!("deepest{k}:bytes"));
        } else {
            deepest(l, &(0..k).map(|c| char::from_u32(0xD7FF - c * 0x111).unwrap_or('a')).collect::<Vec<_>>(), &|| format!("deepest{k}:chars"));
        }
    });
    //frequency tables in every iteration order
    for k in 1..=if t { 6_usize } else { 5 } {
        let perms = permutations(k);
        let max = if t { [0_u64, 8, 8, 7, 6, 5, 3][k] } else { [0, 8, 8, 6, 5, 3, 2][k] };
        let np = perms.len() as u64;
        ck.section(
            &format!("tables-{k}"),
            &format!("{k} symbols with every frequency 1..={max} and every iteration order of the tables: optimal, prefix-free, lossless, written and read, every bit string up to 8 decoded"),
            max.pow(k as u32) * np,
            |i, l| {
                let perm = &perms[(i % np) as usize];
                let mut f = i / np;
                let mut data: Vec<char> = vec![];
                for s in 0..k {
                    data.extend(vec![char::from(b'a' + s as u8); (f % max + 1) as usize]);
                    f /= max;
                }
                l.case(&i, true);
                foldhash::control::set_order(perm);
                let key = || format!("{}:{perm:?}", data.iter().collect::<String>()).replace(' ', "");
                full(l, &data, Some(&'z'), 2, 8, &key);
                let bytes: Vec<u8> = data.iter().map(|c| *c as u8 - b'a').collect();
                full(l, &bytes, Some(&77), 1, 6, &|| format!("u8:{}", key()));
                foldhash::control::set_order(&[]);
            },
        );
    }
    //orders of appearance
    for (k, max) in [(2_u64, if t { 13 } else { 11 }), (3, if t { 9 } else { 8 }), (4, if t { 7 } else { 6 })] {
        ck.section(&format!("data-{k}"), &format!("every non-empty sequence over {k} symbols up to {max} long as the data; every sequence up to 3 encoded"), string_count(k, max) - 1, |i, l| {
            let data: Vec<char> = nth_string(i + 1, k).into_iter().map(|x| ['é', '\0', '🖖', 'a'][x as usize]).collect();
            l.case(&data, true);
            l.sample(|| format!("{data:?}"));
            full(l, &data, Some(&'z'), 3, 9, &|| format!("{data:?}").replace(' ', ""));
        });
    }
    ck.section("every-char", "every char as the only symbol, and as one of three", 0x11_0000, |i, l| {
        let Some(c) = char::from_u32(i as u32) else {
            l.case(&0, false);
            return;
        };
        l.case(&i, true);
        let f = if c == 'x' { 'w' } else { 'x' };
        full(l, &[c], Some(&f), 2, 2, &|| format!("U+{i:04X}"));
        full(l, &[c, c, c, '\u{1}', '\u{1}', '\u{10fffe}'], Some(&f), 1, 3, &|| format!("U+{i:04X}:3"));
    });
    ck.section("every-byte", "every pair of bytes as the symbols", 65536, |i, l| {
        let (a, b) = (i as u8, (i >> 8) as u8);
        l.case(&i, true);
        let f = (0..=255).find(|x| *x != a && *x != b).unwrap();
        full(l, &[a, b, b], Some(&f), 2, 3, &|| format!("{a:02x}{b:02x}"));
    });
    ck.section("lone-symbol", "one symbol repeated 1..=2000 times", 2000, |i, l| {
        l.case(&i, true);
        let key = || format!("n{}", i + 1);
        full(l, &vec!['q'; i as usize + 1], Some(&'r'), 3, 0, &key);
        full(l, &vec![200_u8; i as usize + 1], Some(&2), 3, 0, &key);
    });
    ck.section("many-symbols", "1..=256 byte symbols and as many chars, even, rising, doubling and Fibonacci frequencies, three seeds of the tables", 256 * 4 * 3, |i, l| {
        let (n, how, seed) = (i as usize / 12 + 1, i % 4, i / 4 % 3);
        let (mut a, mut b) = (1_usize, 1_usize);
        let mut data: Vec<u8> = vec![];
        for s in 0..n {
            let f = match how {
                0 => 1,
                1 => s + 1,
                2 => 1 << (s % 9),
                _ => {
                    (a, b) = (b, a + b);
                    if s % 18 == 0 {
                        (a, b) = (1, 1);
                    }
                    a
                }
            };
            data.extend(vec![s as u8; f]);
        }
        l.case(&i, true);
        foldhash::control::set_seed(seed);
        let key = || format!("n{n}:how{how}:seed{seed}");
        quick(l, &data, &key);
        let cs: Vec<char> = data.iter().map(|b| char::from_u32(u32::from(*b) * 251).unwrap_or('\u{e000}')).collect();
        quick(l, &cs, &key);
    });
    ck.section("deep-codes", "Fibonacci frequencies giving codes up to 22 (thorough 26) deep, as bytes and chars", if t { 26 } else { 22 }, |i, l| {
        let (mut a, mut b) = (1_usize, 1_usize);
        let mut s: Vec<u8> = vec![];
        for k in 0..=i {
            s.extend(vec![k as u8 + 40; a]);
            (a, b) = (b, a + b);
        }
        l.case(&i, true);
        full(l, &s, Some(&1), 2, 10, &|| format!("fib{i}"));
        let cs: Vec<char> = s.iter().map(|b| char::from(*b)).collect();
        full(l, &cs, Some(&'\u{1}'), 2, 0, &|| format!("fib{i}:chars"));
    });
    //the preset
    ck.section("english", "the English preset under 64 iteration orders: every ASCII character and pair it knows, written and read", 64, |i, l| {
        l.case(&i, true);
        if i < 32 {
            foldhash::control::set_seed(i);
        } else {
            foldhash::control::set_order(&permutations(5)[(i as usize - 32) * 3]);
        }
        let h = Huffman::new_with_english_frequencies();
        let known: Vec<char> = (0..=255_u8).map(char::from).filter(|c| h.encode_string(c.to_string()).is_ok()).collect();
        let key = || format!("order{i}");
        let Some(cs) = codes(l, &h, &known, &key) else { return };
        let back = reread(l, &h, &cs, &key);
        for a in &known {
            for b in &known {
                lossless(l, &h, &cs, &[*a, *b], &key);
            }
        }
        if let Some(g) = back {
            for a in &known {
                lossless(l, &g, &cs, &[*a, *a, 'e'], &key);
            }
        }
        let s = "The quick brown fox jumps over the lazy dog.";
        let back = h.encode_string(s).and_then(|b| h.decode_string(b));
        l.check(matches!(&back, Ok(b) if b == s), || format!("{}:text", key()), || format!("{back:?}"));
        foldhash::control::set_order(&[]);
    });
    ck.section("empty", "no data, no code", 1, |_, l| {
        l.call(3);
        l.check(Huffman::<u8>::new(std::iter::empty()).is_err(), || "u8".into(), || "built a code from nothing".into());
        l.check(Huffman::new_str("").is_err(), || "str".into(), || "built a code from nothing".into());
        let h = Huffman::new_str("ab").unwrap();
        l.check(h.decode(Bits::default()).is_ok_and(|v| v.is_empty()), || "decode".into(), || "no bits decode to something".into());
    });
}
