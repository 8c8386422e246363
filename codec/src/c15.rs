//! C15: what is stored keeps its format: a second reader and writer of it, written from its description, agree with the code both ways.
use crate::{
    ck::{h64, hex, Ck, L},
    corpus::*,
    format::*,
};
use sourisdb::{
    store::Store,
    types::{
        binary::{BinaryCompression, BinaryData},
        integer::{Integer, SignedState},
    },
    utilities::{bits::Bits, cursor::Cursor, huffman::Huffman},
    values::Value,
};
use std::collections::BTreeSet;

///A dictionary and the code's own of it.
struct Dict {
    tree: Tree<char>,
    real: Huffman<char>,
}
fn dict(symbols: &[char], shape: u64) -> Dict {
    let tree = Tree::of(symbols, shape);
    let mut b = vec![];
    put_char_tree(&mut b, &tree);
    let real = Huffman::<char>::deser(&mut Cursor::new(&b)).expect("a dictionary of the reference could not be read");
    Dict { tree, real }
}
///What the code writes, by the reference.
fn written(l: &mut L, v: &Value, d: Option<&Huffman<char>>, key: &dyn Fn() -> String) {
    let bytes = v.ser(d);
    l.call(1);
    l.saw(h64(&bytes[..bytes.len().min(16)]));
    let tree = d.map(|d| {
        let b = d.ser();
        let mut r = Rd::new(&b);
        r.char_tree().and_then(|t| r.end().map(|()| t))
    });
    let tree = match tree.transpose() {
        Ok(t) => t,
        Err(e) => return l.fail(format!("{}:dictionary", key()), e),
    };
    let mut r = Rd::new(&bytes);
    match r.value(tree.as_ref()).and_then(|w| r.end().map(|()| w)) {
        Ok(w) => drop(l.check(exact(v, &w), || format!("{}:written", key()), || format!("stands for {} in {}", name(&w), hex(&bytes)))),
        Err(e) => l.fail(format!("{}:written", key()), format!("{e} in {}", hex(&bytes))),
    }
}
///What the reference writes, by the code.
fn read(l: &mut L, v: &Value, d: Option<&Dict>, how: Choice, key: &dyn Fn() -> String) {
    let mut w = Wr::new(d.map(|d| &d.tree), how);
    w.value(v);
    let bytes = w.out;
    l.call(1);
    l.saw(h64(&bytes[..bytes.len().min(16)]));
    let mut c = Cursor::new(&bytes);
    match Value::deser(&mut c, d.map(|d| &d.real)) {
        Ok(x) => {
            l.check(exact(v, &x), || format!("{}:read", key()), || format!("{} from {}", name(&x), hex(&bytes)));
            l.check(c.is_finished(), || format!("{}:rest", key()), || format!("read only {} of {}", c.pos(), hex(&bytes)));
        }
        Err(e) => l.fail(format!("{}:read", key()), format!("{e} from {}", hex(&bytes))),
    }
}
fn file_written(l: &mut L, v: &Value, key: &dyn Fn() -> String) {
    let Value::Map(m) = v else { unreachable!() };
    let bytes = Store::new(m.iter().map(|(k, v)| (k.clone(), v.clone()))).ser();
    l.call(1);
    l.saw(h64(&bytes[..bytes.len().min(24)]));
    match read_file(&bytes) {
        Ok(w) => drop(l.check(exact(v, &w), || format!("{}:written", key()), || format!("stands for {} in {}", name(&w), hex(&bytes)))),
        Err(e) => l.fail(format!("{}:written", key()), format!("{e} in {}", hex(&bytes))),
    }
}
///The reference's file, by the code: by which compression, with a dictionary of which shape (3: without).
fn file_read(l: &mut L, v: &Value, compression: u64, shape: u64, how: Choice, key: &dyn Fn() -> String) {
    let bytes = write_file(v, compression, shape, how);
    l.call(1);
    l.saw(h64(&bytes[..bytes.len().min(24)]));
    l.sample(|| format!("{} <- {}", key(), hex(&bytes)));
    match Store::deser(&bytes) {
        Ok(s) => {
            let x = Value::Map((*s).clone());
            l.check(exact(v, &x), || format!("{}:read", key()), || format!("{} from {}", name(&x), hex(&bytes)));
        }
        Err(e) => l.fail(format!("{}:read", key()), format!("{e} from {}", hex(&bytes))),
    }
}

fn one(k: &str, v: &Value) -> Value {
    map_of(vec![(k.to_string(), v.clone())])
}
fn key_of(v: &Value) -> String {
    name(v).replace(' ', "_")
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;

    let nums = numbers(if t { 300 } else { 40 });
    ck.section("numbers", "every boundary number, made as each of the twelve native types that holds it, written and read by either side", nums.len() as u64, |i, l| {
        let n = nums[i as usize];
        l.case(&n, true);
        for ty in 0..TYPES.len() {
            let Some(int) = make(n, ty) else { continue };
            let (state, bytes) = int.ser();
            l.call(2);
            let low = u8::from(state);
            let k = || format!("{}:{}", n.text(), TYPES[ty]);
            let mut r = Rd::new(&bytes);
            let got = r.int(low).and_then(|m| r.end().map(|()| m));
            l.check(got.as_ref() == Ok(&n), || format!("{}:written", k()), || format!("{got:?} from sign {low} and {}", hex(&bytes)));
            let mut out = vec![];
            put_int(&mut out, n);
            let states: &[SignedState] = if n.neg { &[SignedState::SignedNegative] } else if n.mag >> 127 == 0 { &[SignedState::Unsigned, SignedState::SignedPositive] } else { &[SignedState::Unsigned] };
            for s in states {
                let mut c = Cursor::new(&out);
                let got = Integer::deser(*s, &mut c);
                l.check(got.as_ref().ok().and_then(num_of) == Some(n) && c.is_finished(), || format!("{}:{s:?}:read", k()), || format!("{got:?} from {}", hex(&out)));
            }
        }
    });
    let n = if t { 1 << 20 } else { 1 << 17 };
    ck.section("small-numbers", "every number from 0 up to the bound and its negative, written and read by either side", n, |i, l| {
        l.case(&i, true);
        for neg in [false, true] {
            if neg && i == 0 {
                continue;
            }
            let v = Value::Integer(native(Num { neg, mag: u128::from(i) }));
            written(l, &v, None, &|| format!("{neg}:{i}"));
            read(l, &v, None, choice(0), &|| format!("{neg}:{i}"));
            read(l, &v, None, choice(6), &|| format!("{neg}:{i}:signed"));
        }
    });

    let ls = leaves();
    let english = Huffman::new_with_english_frequencies();
    let kinds: Vec<char> = ls.iter().flat_map(symbols).collect::<BTreeSet<_>>().into_iter().collect();
    let dicts = [dict(&kinds, 0), dict(&kinds[..kinds.len().min(100)], 1), dict(&kinds[..kinds.len().min(100)], 2), dict(&['a'], 0)];
    ck.section("leaves-written", "every boundary leaf of all sixteen kinds, without and with six dictionaries, by the reference", ls.len() as u64 * 7, |i, l| {
        l.case(&i, true);
        let v = &ls[i as usize / 7];
        let own = Huffman::new_str(symbols(v).into_iter().collect::<String>()).ok();
        let d = match i % 7 {
            0 => None,
            1 => Some(&english),
            2 => own.as_ref(),
            x => Some(&dicts[x as usize - 3].real),
        };
        written(l, v, d, &|| format!("{}:{}", key_of(v), i % 7));
    });
    ck.section("leaves-read", "every boundary leaf of all sixteen kinds, written by the reference in every way it may choose, without and with four dictionaries", ls.len() as u64 * CHOICES * 5, |i, l| {
        l.case(&i, true);
        let v = &ls[(i / CHOICES / 5) as usize];
        let d = match i % 5 {
            0 => None,
            x => Some(&dicts[x as usize - 1]),
        };
        read(l, v, d, choice(i / 5 % CHOICES), &|| format!("{}:{}:{}", key_of(v), i % 5, i / 5 % CHOICES));
    });
    ck.section("chars", "every char as a value, as text and as the lone and the second entry of a dictionary, both ways", 0x11_0000, |i, l| {
        let Some(c) = char::from_u32(i as u32) else {
            l.case(&i, false);
            return;
        };
        l.case(&i, true);
        let k = || format!("{i:x}");
        for v in [Value::Character(c), Value::String(c.to_string()), Value::String(format!("{c}a{c}"))] {
            written(l, &v, None, &k);
            read(l, &v, None, choice(0), &k);
        }
        let v = map_of(vec![(format!("{c}{c}"), Value::String(c.to_string()))]);
        file_written(l, &v, &k);
        file_read(l, &v, 0, 0, choice(0), &k);
        if c != 'a' {
            let v = map_of(vec![(format!("a{c}"), Value::String(format!("{c}{c}a")))]);
            file_written(l, &v, &k);
            file_read(l, &v, 0, 0, choice(0), &k);
        }
    });

    //binary
    let (two, three) = if t { (15, 9) } else { (12, 7) };
    let (na, nb) = (string_count(2, two), string_count(3, three));
    let both = |l: &mut L, b: &[u8], k: &dyn Fn() -> String| {
        let (how, bytes) = BinaryData(b.to_vec()).ser();
        l.call(1);
        let mut r = Rd::new(&bytes);
        let got = r.binary(u8::from(how)).and_then(|x| r.end().map(|()| x));
        l.check(got.as_deref() == Ok(b), || format!("{}:written", k()), || format!("{got:?} from {}", hex(&bytes)));
        for (ct, bytes) in [(1, sourisdb::types::binary::rle::rle(b)), (2, sourisdb::types::binary::lz::lz(b)), (3, sourisdb::types::binary::huffman::huffman(b))] {
            l.call(1);
            let mut r = Rd::new(&bytes);
            let got = r.binary(ct).and_then(|x| r.end().map(|()| x));
            l.check(got.as_deref() == Ok(b), || format!("{}:{ct}:written", k()), || format!("{got:?} from {}", hex(&bytes)));
        }
        for how in 0..6 {
            let (low, bytes) = binary(b, how);
            l.call(1);
            let mut c = Cursor::new(&bytes);
            let got = BinaryData::deser(BinaryCompression::try_from(low).unwrap(), &mut c);
            l.check(got.as_ref().is_ok_and(|x| x.0 == b) && c.is_finished(), || format!("{}:{how}:read", k()), || format!("{got:?} from {}", hex(&bytes)));
        }
    };
    ck.section("bytes", &format!("every byte string over 2 symbols up to length {two} and over 3 up to {three}, by every compression both ways"), na + nb, |i, l| {
        l.case(&i, true);
        let b: Vec<u8> = if i < na { nth_string(i, 2).into_iter().map(|x| [0, 255][usize::from(x)]).collect() } else { nth_string(i - na, 3).into_iter().map(|x| [1, 2, 240][usize::from(x)]).collect() };
        both(l, &b, &|| hex(&b).replace(' ', ""));
    });
    let widths: Vec<usize> = (1..=20).chain([127, 128, 129, 238, 239, 240, 241, 254, 255, 256, 257, 510, 511, 765, 1024, 65535, 65536, 70000]).collect();
    ck.section("long-bytes", "runs, alternations and counts of every listed length, with a tail or not, by every compression both ways", widths.len() as u64 * 8, |i, l| {
        l.case(&i, true);
        let n = widths[i as usize / 8];
        let mut b: Vec<u8> = match i % 4 {
            0 => vec![7; n],
            1 => (0..n).map(|x| (x % 2) as u8).collect(),
            2 => (0..n).map(|x| (x % 256) as u8).collect(),
            _ => (0..n).map(|x| (x * x / 7 % 251) as u8).collect(),
        };
        if i % 8 >= 4 {
            b.extend([7, 7, 9]);
        }
        both(l, &b, &|| format!("{n}:{}", i % 8));
    });

    let max = if t { 10_000 } else { 3_000 };
    ck.section("lengths", "arrays, maps, strings and bit lists of every length up to the bound, both ways", max, |i, l| {
        l.case(&i, true);
        let n = i as usize;
        let mut vs = vec![Value::String("é".repeat(n)), Value::Array(vec![Value::Boolean(true); n])];
        if n < 2_000 {
            vs.push(map_of((0..n).map(|x| (format!("{x:x}"), Value::Null(()))).collect()));
        }
        for (j, v) in vs.iter().enumerate() {
            let k = || format!("{n}:{j}");
            written(l, v, None, &k);
            written(l, v, Some(&english), &k);
            read(l, v, None, choice(0), &k);
            read(l, v, Some(&dicts[0]), choice(36), &k);
        }
        let bools: Vec<bool> = (0..n).map(|x| x % 3 == 0 || x % 7 == 1).collect();
        let bits: Bits = bools.iter().copied().collect();
        let bytes = bits.ser();
        let mut r = Rd::new(&bytes);
        let got = r.bits().and_then(|x| r.end().map(|()| x));
        l.check(got.as_ref() == Ok(&bools), || format!("{n}:bits:written"), || hex(&bytes));
        let mut out = vec![];
        put_bits(&mut out, &bools);
        let mut c = Cursor::new(&out);
        let got = Bits::deser(&mut c);
        l.check(got.is_ok_and(|x| Vec::<bool>::from(x) == bools) && c.is_finished(), || format!("{n}:bits:read"), || hex(&out));
    });

    //whole files
    let some = if t { few_leaves() } else { tiny_leaves() };
    let ts: Vec<Value> = trees(4, &some).into_iter().filter(|v| matches!(v, Value::Map(_))).collect();
    ck.section("files-written", "every map of at most four nodes as a file, by the reference", ts.len() as u64, |i, l| {
        l.case(&i, true);
        file_written(l, &ts[i as usize], &|| key_of(&ts[i as usize]));
    });
    let per = 6 * 4 * 3;
    ck.section("files-read", "every map of at most four nodes as a file, written by the reference by each compression, without and with dictionaries of three shapes, text coded, plain or mixed", ts.len() as u64 * per, |i, l| {
        l.case(&i, true);
        let v = &ts[(i / per) as usize];
        let j = i % per;
        let how = Choice { binary: (i / 7) % 6, signed: i % 5 == 0, coded: j / 24, reverse: j % 2 == 1 };
        file_read(l, v, j % 6, j / 6 % 4, how, &|| format!("{}:{j}", key_of(v)));
    });
    let keys = ["", "a", "é🖖", "\0\u{10ffff}"];
    ck.section("leaf-files", "every boundary leaf under each of 4 keys as a file, both ways by each compression and dictionary", (ls.len() * keys.len()) as u64 * 25, |i, l| {
        l.case(&i, true);
        let j = i % 25;
        let v = one(keys[(i / 25) as usize % keys.len()], &ls[(i / 25) as usize / keys.len()]);
        let k = || format!("{}:{j}", key_of(&v));
        if j == 24 {
            file_written(l, &v, &k);
        } else {
            file_read(l, &v, j % 6, j / 6, choice(i % CHOICES), &k);
        }
    });
    ck.section("wide-files", "files of many containers beside one another, both ways", SIBLINGS * 2, |i, l| {
        let (what, v) = siblings(i / 2);
        l.case(&i, true);
        let v = one("k", &v);
        if i % 2 == 0 {
            file_written(l, &v, &|| what.clone());
        } else {
            file_read(l, &v, (i / 2) % 2 * 2, i / 4 % 4, choice(i % CHOICES), &|| what.clone());
        }
    });
    let depth = 127_u64;
    ck.section("deep-files", "files with containers inside one another up to the deepest allowed, five ways, both ways", depth * 10, |i, l| {
        l.case(&i, true);
        let (d, kind) = (1 + (i / 10) as usize, (i / 2 % 5) as usize);
        let v = one("k", &nested(d, kind, &Value::Boolean(true)));
        if i % 2 == 0 {
            file_written(l, &v, &|| format!("{d}:{kind}"));
        } else {
            file_read(l, &v, i / 10 % 6, i / 60 % 4, choice(i % CHOICES), &|| format!("{d}:{kind}"));
        }
    });
}
