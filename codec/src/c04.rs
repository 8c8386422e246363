//! C04: decoders answer any bytes with a value or an error.
use crate::{
    alloc,

    ck::{h64, hex, Ck, L},
    corpus::*,
};
use hashbrown::HashMap;
use serde_json::{json, Value as J};
use sourisdb::{
    store::Store,
    types::{
        binary::{BinaryCompression, BinaryData},
        imaginary::Imaginary,
        integer::{Integer, SignedState},
    },
    utilities::{bits::Bits, cursor::Cursor, huffman::Huffman},
    values::Value,
};
use std::hint::black_box;

///Everything that decodes bytes.
const TARGETS: u64 = 30;
fn target_name(t: u64) -> &'static str {
    [
        "value", "value+ab", "value+lone", "value+english", "int:u", "int:p", "int:n", "bits", "huff8", "huffchar", "bin0", "bin1", "bin2", "bin3", "im0", "im1", "im2", "im3", "im4", "im5", "im6", "im7", "im8", "im9", "im10", "im15", "store", "store-plain", "store-huff", "json",
    ][t as usize]
}

pub struct Dicts {
    ab: Huffman<char>,
    lone: Huffman<char>,
    english: Huffman<char>,
}
pub fn dicts() -> Dicts {
    Dicts { ab: Huffman::new_str("abbcccc\"{}[]:1").unwrap(), lone: Huffman::new_str("a").unwrap(), english: Huffman::new_with_english_frequencies() }
}

///Use what came out in every way that has to work.
fn digest(v: &Value, d: &Dicts) -> u64 {
    if alloc::live() > 8 << 20 {
        //a stated run of many megabytes: honest, but too much to write out again under the harness's own limit
        return 0;
    }
    let a = v.ser(None);
    let b = v.ser(Some(&d.ab));
    let w = v.clone();
    assert!(*v == w, "a clone is not equal to what it was made from");
    let h = h64(v);
    assert!(h == h64(&w), "a clone hashes differently");
    drop(w);
    black_box((a.len(), b.len()));
    h
}

///How much a run stated in the bytes legitimately decodes to.
fn stated_runs(b: &[u8]) -> u64 {
    let mut sum = 0_u64;
    for p in 0..b.len() {
        if let Some(&f) = b.get(p + 1) {
            let n: u128 = if f <= 239 {
                u128::from(f)
            } else {
                let k = usize::from(f - 239);
                let Some(x) = b.get(p + 2..p + 2 + k) else { continue };
                let mut c = [0; 16];
                c[..k].copy_from_slice(x);
                u128::from_le_bytes(c)
            };
            if b[p] == 1 && n <= alloc::REFUSE_ABOVE as u128 {
                sum += n as u64;
            }
        }
    }
    sum
}

pub fn attempt(l: &mut L, target: u64, b: &[u8], d: &Dicts) -> bool {
    attempt_as(l, target, b, d, 0)
}

///Decode as the target; the answer is used and its memory measured. True if it was a value.
fn attempt_as(l: &mut L, target: u64, b: &[u8], d: &Dicts, extra: u64) -> bool {
    alloc::reset();
    l.calls += 1;
    let mut c = Cursor::new(&b);
    let mut check_end = true;
    let ok = match target {
        0..=3 => {
            let dict = [None, Some(&d.ab), Some(&d.lone), Some(&d.english)][target as usize];
            match Value::deser(&mut c, dict) {
                Ok(v) => {
                    memory(l, target, b, extra);
                    l.outcome ^= digest(&v, d);
                    true
                }
                Err(e) => {
                    black_box(e);
                    false
                }
            }
        }
        4..=6 => {
            let s = [SignedState::Unsigned, SignedState::SignedPositive, SignedState::SignedNegative][target as usize - 4];
            match Integer::deser(s, &mut c) {
                Ok(i) => {
                    memory(l, target, b, extra);
                    black_box((i.ser(), i.to_string(), i == i.clone(), h64(&i), i.to_json()));
                    let n = u128::try_from(i).is_ok() || i128::try_from(i).is_ok();
                    l.check(n, || format!("{}:{}", target_name(target), hex(b)), || format!("decoded to an integer which is neither a u128 nor an i128: {i:?}"));
                    true
                }
                Err(e) => {
                    black_box(e);
                    false
                }
            }
        }
        7 => match Bits::deser(&mut c) {
            Ok(x) => {
                memory(l, target, b, extra);
                let mut y = x.clone();
                assert!(x == y && h64(&x) == h64(&y), "a clone of a bit list differs");
                black_box(x.ser());
                if y.len() < 4096 {
                    let n = x.len();
                    assert!(Vec::<bool>::from(x).len() == n, "a bit list has another length as booleans");
                    y.push(true);
                    while y.pop().is_some() {}
                }
                true
            }
            Err(e) => {
                black_box(e);
                false
            }
        },
        8 => match Huffman::<u8>::deser(&mut c) {
            Ok(h) => {
                memory(l, target, b, extra);
                black_box(h.ser());
                black_box(h.encode([0_u8, 1, 65, 255].into_iter()).is_ok());
                for n in 0..16_u8 {
                    black_box(h.decode((0..4).map(|k| n >> k & 1 == 1).collect::<Bits>()).is_ok());
                }
                true
            }
            Err(e) => {
                black_box(e);
                false
            }
        },
        9 => match Huffman::<char>::deser(&mut c) {
            Ok(h) => {
                memory(l, target, b, extra);
                black_box(h.ser());
                black_box(h.encode_string("a\0A\u{10ffff}").is_ok());
                for n in 0..16_u8 {
                    black_box(h.decode_string((0..4).map(|k| n >> k & 1 == 1).collect::<Bits>()).is_ok());
                }
                let v = Value::String("aA".into());
                black_box(v.ser(Some(&h)));
                true
            }
            Err(e) => {
                black_box(e);
                false
            }
        },
        10..=13 => {
            let ct = BinaryCompression::try_from(target as u8 - 10).expect("four compressions");
            match BinaryData::deser(ct, &mut c) {
                Ok(x) => {
                    memory(l, target, b, extra);
                    if x.0.len() < 1 << 16 {
                        black_box(x.ser());
                    }
                    if alloc::live() < 8 << 20 {
                        assert!(x == x.clone() && h64(&x) == h64(&x.clone()), "a clone of binary differs");
                    }
                    true
                }
                Err(e) => {
                    black_box(e);
                    false
                }
            }
        }
        14..=25 => {
            let bits = if target == 25 { 15 } else { target as u8 - 14 };
            match Imaginary::deser(bits, &mut c) {
                Ok(x) => {
                    memory(l, target, b, extra);
                    black_box((x.ser(), x == x.clone(), h64(&x)));
                    true
                }
                Err(e) => {
                    black_box(e);
                    false
                }
            }
        }
        26..=28 => {
            check_end = false;
            let full: Vec<u8> = match target {
                26 => b.to_vec(),
                27 => b"SOURISDB\0".iter().chain(Integer::from(b.len()).ser().1.iter()).chain(b).copied().collect(),
                _ => b"SOURISDB\x80".iter().chain(Integer::from(b.len()).ser().1.iter()).chain(b).copied().collect(),
            };
            alloc::reset();
            match Store::deser(&full) {
                Ok(s) => {
                    memory(l, target, b, extra);
                    if alloc::live() < 8 << 20 {
                        black_box(s.ser().len());
                        let t = s.clone();
                        assert!(t == s, "a clone of a store differs");
                        black_box(s.to_json(false).is_some());
                        black_box(t.to_json(true).is_some());
                    }
                    true
                }
                Err(e) => {
                    black_box(e);
                    false
                }
            }
        }
        _ => {
            check_end = false;
            match Store::from_json_bytes(b) {
                Ok(s) => {
                    memory(l, target, b, extra);
                    black_box(s.ser().len());
                    let t = s.clone();
                    assert!(t == s, "a clone of a store differs");
                    l.outcome ^= s.len() as u64;
                    black_box(s.to_json(false).is_some());
                    true
                }
                Err(e) => {
                    black_box(e);
                    false
                }
            }
        }
    };
    l.outcome = l.outcome.wrapping_mul(31).wrapping_add(u64::from(ok) + 1);
    if !ok {
        memory(l, target, b, extra);
    }
    if check_end {
        l.check(c.pos() <= b.len(), || format!("{}:{}", target_name(target), hex(b)), || format!("the cursor is at {} of {}", c.pos(), b.len()));
    }
    ok
}

fn memory(l: &mut L, target: u64, b: &[u8], extra: u64) {
    let (peak, live) = (alloc::peak(), alloc::live());
    let bound = (16 << 20) + 4096 * b.len() as u64 + 16 * live + extra;
    if peak > bound {
        //a run may say how long it is, and decode to that
        let bound = bound + 4 * stated_runs(b);
        l.check(peak <= bound, || format!("memory:{}:{}", target_name(target), hex(b)), || format!("{peak} bytes allocated at once for {} bytes of input which decode to {live}", b.len()));
    }
}

fn all_of(i: u64, len: u32) -> Vec<u8> {
    (0..len).map(|k| (i >> (8 * k)) as u8).collect()
}

fn store_of(v: Value) -> Vec<u8> {
    let mut m = HashMap::new();
    m.insert("k".to_string(), v);
    Store::new(m).ser()
}

///Claims of every size: a marker byte and up to 16 bytes.
fn claims() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = magnitudes(1).into_iter().filter(|m| *m > 100).map(|m| Integer::from(m).ser().1).collect();
    for n in 240..=255_u8 {
        //not in their shortest form
        let mut x = vec![n; 1];
        x.extend(vec![0; usize::from(n - 239)]);
        v.push(x.clone());
        x[1] = 9;
        v.push(x.clone());
        v.push(x[..x.len() - 1].to_vec());
        v.push(vec![n]);
    }
    v
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    let d = dicts();
    let d = &d;

    for len in 0..=2_u32 {
        let n = 256_u64.pow(len);
        ck.section(&format!("bytes-{len}"), &format!("all byte strings of length {len}, as each of {TARGETS} kinds of input"), TARGETS * n.div_ceil(64), |i, l| {
            let (tg, block) = (i % TARGETS, i / TARGETS);
            l.case(&i, true);
            for k in block * 64..(block * 64 + 64).min(n) {
                attempt(l, tg, &all_of(k, len), d);
            }
        });
    }
    let three: &[u64] = if t { &[0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 15, 16, 23, 26, 27, 28, 29] } else { &[0, 1, 6, 7, 9, 11, 12, 13, 23] };
    ck.section("bytes-3", &format!("all byte strings of length 3, as {} kinds of input", three.len()), three.len() as u64 * 65536, |i, l| {
        let (tg, hi) = (three[i as usize % three.len()], i / three.len() as u64);
        l.case(&i, true);
        for k in 0..256 {
            attempt(l, tg, &all_of(hi << 8 | k, 3), d);
        }
    });

    let alphabets: [(&str, &[u64], &[u8], u32, u32); 6] = [
        ("values", &[0, 1], &[0x00, 0x01, 0x10, 0x11, 0x20, 0x23, 0x70, 0x81, 0x82, 0xB1, 0xB2, 0xC0, 0xF0, 0xFF], 6, 7),
        ("containers", &[0, 2, 27], &[0x10, 0x00, 0x82, 0x83, 0x84, 0xB2, 0xB4, 0x90, 0x61], 7, 8),
        ("trees-u8", &[8, 13], &[0, 1, 2, 65], 10, 12),
        ("trees-char", &[9, 28], &[0, 1, 2, 66, 0xF0, 0x10], 8, 9),
        ("lengths", &[7, 10, 11, 12, 4, 27], &[0, 1, 2, 7, 8, 0x0F, 0x1F, 0xF0, 0xF8, 0xFF], 6, 7),
        ("stores", &[26], &[0, 1, 2, 3, 0x80, 0x81, 0x82, 0x83, 0x10, 0x84, 0xF0], 6, 7),
    ];
    for (name, targets, alphabet, q, th) in alphabets {
        let len = if t { th } else { q };
        let a = alphabet.len() as u64;
        let n = string_count(a, len);
        ck.section(&format!("alphabet-{name}"), &format!("all strings of up to {len} of {a} telling bytes, as {} kinds of input", targets.len()), targets.len() as u64 * n.div_ceil(64), |i, l| {
            let (tg, block) = (targets[i as usize % targets.len()], i / targets.len() as u64);
            l.case(&i, true);
            for k in block * 64..(block * 64 + 64).min(n) {
                let mut b: Vec<u8> = nth_string(k, a).into_iter().map(|s| alphabet[s as usize]).collect();
                if tg == 26 {
                    b = b"SOURISDB".iter().copied().chain(b).collect();
                }
                if tg == 13 {
                    b.insert(0, 2);
                }
                attempt(l, tg, &b, d);
            }
        });
    }

    //valid encodings, damaged
    let mut valid: Vec<(u64, Vec<u8>)> = vec![];
    for v in few_leaves() {
        valid.push((0, v.ser(None)));
        valid.push((1, v.ser(Some(&d.ab))));
        valid.push((26, store_of(v.clone())));
        valid.push((27, map_of(vec![("k".into(), v)]).ser(None)));
    }
    for v in trees(3, &tiny_leaves()) {
        valid.push((0, v.ser(None)));
        valid.push((26, store_of(v)));
    }
    for b in binaries() {
        use sourisdb::types::binary::{huffman::huffman, lz::lz, rle::rle};
        valid.push((11, rle(&b)));
        valid.push((12, lz(&b)));
        valid.push((13, huffman(&b)));
        let (ct, x) = BinaryData(b).ser();
        valid.push((10 + u64::from(u8::from(ct)), x));
    }
    for s in strings() {
        if let Ok(h) = Huffman::new_str(&s) {
            valid.push((9, h.ser()));
        }
        if let Ok(h) = Huffman::<u8>::new(s.bytes()) {
            valid.push((8, h.ser()));
        }
        valid.push((7, s.bytes().map(|b| b % 2 == 0).collect::<Bits>().ser()));
    }
    for j in jsons() {
        valid.push((29, j.to_string().into_bytes()));
    }
    for i in few_ints() {
        let (s, b) = i.ser();
        valid.push((4 + u64::from(u8::from(s)) % 3, b));
    }
    for (n, im) in imaginaries().into_iter().enumerate() {
        if n % 7 == 0 {
            let (m, b) = im.ser();
            if m < 10 {
                valid.push((14 + u64::from(m), b));
            }
        }
    }
    let cap = if t { 400 } else { 90 };
    let mut seen = std::collections::HashSet::new();
    valid.retain(|(tg, b)| seen.insert((*tg, b.clone())));
    let short: Vec<&(u64, Vec<u8>)> = valid.iter().filter(|(_, b)| b.len() <= cap).collect();
    ck.section("whole-and-cut", "every valid encoding, each of its prefixes, and each with any one byte left out or doubled", valid.len() as u64, |i, l| {
        let (tg, b) = &valid[i as usize];
        l.case(&i, true);
        let ok = attempt(l, *tg, b, d);
        l.check(ok, || format!("{}:{}", target_name(*tg), hex(b)), || "a valid encoding was refused".into());
        let step = (b.len() / 400).max(1);
        for p in (0..b.len()).step_by(step) {
            attempt(l, *tg, &b[..p], d);
            let mut x = b.clone();
            x.remove(p);
            attempt(l, *tg, &x, d);
            let mut x = b.clone();
            x.insert(p, b[p]);
            attempt(l, *tg, &x, d);
        }
    });
    let work: Vec<(usize, usize)> = short.iter().enumerate().flat_map(|(n, v)| (0..v.1.len()).map(move |p| (n, p))).collect();
    ck.section("one-byte", &format!("every valid encoding of up to {cap} bytes with each byte replaced by each of the 255 others"), work.len() as u64, |i, l| {
        let (n, p) = work[i as usize];
        let (tg, b) = short[n];
        l.case(&i, true);
        let mut x = b.clone();
        for to in 0..=255 {
            if to != b[p] {
                x[p] = to;
                attempt(l, *tg, &x, d);
            }
        }
    });
    let telling = [0_u8, 1, 2, 7, 0x10, 0x11, 0x22, 0x70, 0x80, 0x82, 0xB1, 0xC0, 0xF0, 0xF7, 0xFF];
    let cap2 = if t { 48 } else { 20 };
    let pairs: Vec<(usize, usize)> = short.iter().enumerate().filter(|(_, v)| v.1.len() <= cap2).flat_map(|(n, v)| (0..v.1.len()).map(move |p| (n, p))).collect();
    ck.section("two-bytes", &format!("every valid encoding of up to {cap2} bytes with each two bytes replaced by each pair of 15 telling ones"), pairs.len() as u64, |i, l| {
        let (n, p) = pairs[i as usize];
        let (tg, b) = short[n];
        l.case(&i, true);
        for q in 0..p {
            for x in telling {
                for y in telling {
                    let mut m = b.clone();
                    m[p] = x;
                    m[q] = y;
                    attempt(l, *tg, &m, d);
                }
            }
        }
    });

    //claimed lengths with little behind them
    let cl = claims();
    let tails: [&[u8]; 4] = [&[], &[0], &[1, 2, 3, 4, 5, 6, 7, 8, 9], &[0x10, 0x00, 0x90, 0x10, 0x00, 0x90]];
    ck.section("claims", "lengths at every boundary of 128 bits wherever one can be stated, with next to nothing behind them", cl.len() as u64, |i, l| {
        let n = &cl[i as usize];
        l.case(&i, true);
        for tail in tails {
            let heads: [(u64, &[u8]); 22] = [
                (0, &[0x10]), (1, &[0x11]), (0, &[0x20]), (0, &[0x21]), (0, &[0x22]), (0, &[0x23, 1]), (0, &[0x23, 2, 1, 65]), (0, &[0x81]), (0, &[0xB1]), (0, &[0x70, 0x10]), (0, &[0xC0, 0x10]), (0, &[0xB1, 2, 0xB1]), (0, &[0x81, 2, 0x10, 0, 0x81]), (0, &[0x82, 0x10]),
                (26, b"SOURISDB\0"), (26, b"SOURISDB\x01"), (26, b"SOURISDB\x02"), (26, b"SOURISDB\x03\x01"), (26, b"SOURISDB\x83\x02\0\x01a\x01b"), (7, &[]), (0, &[0x00]), (27, &[0x81]),
            ];
            for (tg, head) in heads {
                let b: Vec<u8> = head.iter().chain(n).chain(tail).copied().collect();
                attempt(l, tg, &b, d);
                //for LZ: a second length
                let c: Vec<u8> = head.iter().chain(n).chain(&[tail.len() as u8]).chain(tail).copied().collect();
                attempt(l, tg, &c, d);
            }
            for tg in [4, 5, 6, 10, 11, 12, 13, 15, 16, 17, 18, 19, 20, 21, 22, 23] {
                let b: Vec<u8> = n.iter().chain(tail).copied().collect();
                attempt(l, tg, &b, d);
            }
        }
    });

    //containers and trees inside one another
    let depths: Vec<usize> = (0..=140).chain([200, 256, 257, 500, 1000, 1024, 4096, 10_000, 65_536, 100_000, 1_000_000]).collect();
    ck.section("nesting", "arrays, maps, JSON and time zone headers, code trees and JSON text inside one another 0..=140 deep and up to a million", depths.len() as u64 * 16, |i, l| {
        let (n, form) = (depths[i as usize / 16], i % 16);
        l.case(&i, true);
        let rep = |unit: &[u8], last: &[u8]| -> Vec<u8> { unit.iter().copied().cycle().take(unit.len() * n).chain(last.iter().copied()).collect() };
        let (tg, b) = match form {
            0 => (0, rep(&[0xB2], &[0x90])),
            1 => (0, rep(&[0xB2], &[])),
            2 => (0, rep(&[0x82, 0x10, 0], &[0x90])),
            3 => (0, rep(&[0xB2, 0x82, 0x10, 1, b'a'], &[0xB0])),
            4 => (0, rep(&[0xB1, 1], &[0x90])),
            5 => (0, rep(&[0x70], &[0x10, 1, b'1'])),
            6 => (0, rep(&[0xC0], &[0x10, 3, b'U', b'T', b'C'])),
            7 => (0, rep(&[0x70, 0xC0], &[0x10, 0])),
            8 => (8, rep(&[0], &[])),
            9 => (8, rep(&[0, 1, 65], &[1, 66])),
            10 => (9, rep(&[0], &[])),
            11 => (9, rep(&[0, 66], &[67])),
            12 => (27, rep(&[0x82, 0x10, 1, b'k'], &[0x90])),
            13 => (29, format!("{}1{}", "[".repeat(n), "]".repeat(n)).into_bytes()),
            14 => (29, format!("{}1{}", "{\"a\":".repeat(n), "}".repeat(n)).into_bytes()),
            _ => {
                let j = format!("{}{}", "[".repeat(n), "]".repeat(n)).into_bytes();
                (0, [&[0x70, 0x10][..], &Integer::from(j.len()).ser().1, &j].concat())
            }
        };
        let ok = attempt_as(l, tg, &b, d, 400 * b.len() as u64);
        //the supported depth is supported
        if n >= 1 && n <= 127 && matches!(form, 0 | 2 | 4 | 12) {
            l.check(ok, || format!("depth{n}:form{form}"), || "refused although within the supported depth".into());
        }
    });
    ck.section("nested-values", "values nested as deep as they can be, used in every way", 129 * 5, |i, l| {
        let (dp, shape) = (i as usize / 5, i as usize % 5);
        l.case(&i, true);
        let v = nested(dp, shape, &Value::Null(()));
        let ok = attempt(l, 0, &v.ser(None), d);
        l.check(ok, || format!("depth{dp}:shape{shape}"), || "refused although within the supported depth".into());
        let s = store_of(v);
        attempt(l, 26, &s, d);
    });

    //JSON
    let tokens: &[&str] = &["{", "}", "[", "]", ",", ":", "\"a\"", "\"souris_type\"", "\"JSON\"", "1", "5", "-1.5e300", "null"];
    let a = tokens.len() as u64;
    let len = if t { 7 } else { 6 };
    let n = string_count(a, len);
    ck.section("json-tokens", &format!("all sequences of up to {len} of {a} JSON tokens"), n.div_ceil(64), |i, l| {
        l.case(&i, true);
        for k in i * 64..(i * 64 + 64).min(n) {
            let s: String = nth_string(k, a).into_iter().map(|x| tokens[x as usize]).collect();
            attempt(l, 29, s.as_bytes(), d);
        }
    });
    let fields = ["real", "imaginary", "modulus", "argument", "timestamp", "timezone", "bytes", "octets"];
    let vals = odd_field_values();
    let types: Vec<J> = (0..=17).map(|n| json!(n)).chain([json!(255), json!(256), json!(-1), json!(5.0), json!(1e300), json!("5"), json!(null), json!([5])]).collect();
    let per = fields.len() * vals.len();
    ck.section("json-tagged", "objects with each type tag and each one or two of 8 fields with each of many values", (types.len() * per) as u64, |i, l| {
        let ty = &types[i as usize / per];
        let (f, v) = (fields[i as usize % per / vals.len()], &vals[i as usize % vals.len()]);
        l.case(&i, true);
        let mut o = json!({"souris_type": ty, f: v});
        attempt(l, 29, o.to_string().as_bytes(), d);
        attempt(l, 29, json!([1, {"x": o}]).to_string().as_bytes(), d);
        for g in fields {
            if g != f {
                for w in &vals {
                    o[g] = w.clone();
                    attempt(l, 29, o.to_string().as_bytes(), d);
                }
                o.as_object_mut().unwrap().remove(g);
            }
        }
    });
    ck.section("json-numbers", "numbers of every size and form in JSON text", numbers(1).len() as u64, |i, l| {
        let n = numbers(1)[i as usize].text();
        l.case(&i, true);
        for s in [n.clone(), format!("{n}.0"), format!("{n}e1"), format!("{n}e400"), format!("{n}e-400"), format!("-{n}"), format!("0{n}"), format!("[{n}]"), format!("{{\"a\":{n}}}"), format!("{{\"souris_type\":{n}}}"), format!("{{\"souris_type\":2,\"bytes\":[{n}]}}"), format!("{{\"souris_type\":5,\"real\":{n},\"imaginary\":{n}}}"), format!("{{\"souris_type\":14,\"octets\":[{n},{n},{n},{n},{n},{n},{n},{n}]}}")] {
            attempt(l, 29, s.as_bytes(), d);
        }
    });
}

pub fn odd_field_values() -> Vec<J> {
    vec![
        json!(null), json!(true), json!(0), json!(255), json!(256), json!(-1), json!(u64::MAX), json!(i64::MIN), json!(1.5), json!(1e300), json!(""), json!("x"), json!("UTC"), json!("Europe/London"), json!("2024-02-29T23:59:59"), json!("2024-02-30T00:00:00"), json!("2024-02-29T23:59:60.5"), json!("+999999-01-01T00:00:00"), json!("+262143-01-01T00:00:00"),
        json!("-262143-01-01T00:00:00"), json!([]), json!([1, 2, 3]), json!([1, 2, 3, 4]), json!([1, 2, 3, 256]), json!([1, 2, 3, -4]), json!([1, 2, 3, 4.0]), json!([1, 2, 3, "4"]), json!([1, 2, 3, 4, 5, 6, 7, 8]), json!([1, 2, 3, 4, 5, 6, 7, 65535]), json!([1, 2, 3, 4, 5, 6, 7, 65536]), json!([1, 2, 3, 4, 5, 6, 7, 8, 9]), json!([[1]]), json!({}), json!({"souris_type": 5}),
    ]
}
