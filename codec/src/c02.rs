//! C02: every value round trips and marks its own end.
use crate::{
    ck::{h64, hex, Ck, L},
    corpus::*,
};
use sourisdb::{
    types::{binary::BinaryData, imaginary::Imaginary, integer::Integer},
    utilities::{cursor::Cursor, huffman::Huffman},
    values::Value,
};
use std::net::{Ipv4Addr, Ipv6Addr};

type Dict<'a> = Option<&'a Huffman<char>>;

const SUFFIXES: [&[u8]; 5] = [&[], &[0], &[0xFF, 0xFF, 0xFF], &[0x01, 0x80, 0x10], &[0xEF, 0xF0]];

///Serialise, append, deserialise, compare, and compare where the cursor ended.
pub fn rt(l: &mut L, v: &Value, d: Dict, suffix: &[u8], key: &dyn Fn() -> String) {
    let bytes = v.ser(d);
    let n = bytes.len();
    let mut all = bytes;
    all.extend_from_slice(suffix);
    let mut c = Cursor::new(&all);
    l.call(2);
    match Value::deser(&mut c, d) {
        Ok(back) => {
            l.saw(h64(&all[..all.len().min(12)]));
            l.check(exact(v, &back), key, || format!("came back as {} from {}", name(&back), hex(&all)));
            l.check(*v == back, || format!("{}:eq", key()), || "came back unequal by the code's own comparison".into());
            l.check(c.pos() == n, || format!("{}:end", key()), || format!("serialising produced {n} bytes, deserialising consumed {}", c.pos()));
        }
        Err(e) => {
            l.fail(key(), format!("could not be read back: {e} from {}", hex(&all)));
        }
    }
}

pub fn dicts_for(v: &Value) -> Vec<Option<Huffman<char>>> {
    let mut text = String::new();
    text_of(v, &mut text);
    let mut cs: Vec<char> = text.chars().collect();
    let mut out = vec![None];
    out.push(Huffman::new_str(&text).ok());
    out.push(Huffman::new_str("qq").ok());
    out.push(Huffman::new_str("zzzaab{}\":1").ok());
    cs.sort_unstable();
    cs.dedup();
    //all but the last of its characters, and each once
    let most: String = cs.iter().take(cs.len().saturating_sub(1)).collect();
    out.push(Huffman::new_str(most).ok());
    out.push(Huffman::new_str(cs.iter().chain(&['\u{1F30D}', 'é']).collect::<String>()).ok());
    out.push(Some(Huffman::new_with_english_frequencies()));
    out
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    let ls = leaves();
    let dictless = |v: &Value| {
        let mut s = String::new();
        text_of(v, &mut s);
        s.is_empty()
    };
    ck.section("leaves", "every boundary leaf with 7 dictionaries (none, exact, foreign, partial, superset, English) and 5 following byte strings", ls.len() as u64, |i, l| {
        let v = &ls[i as usize];
        l.case(&i, true);
        l.sample(|| format!("{} -> {}", name(v), hex(&v.ser(None))));
        let ds = if dictless(v) { vec![None, Huffman::new_str("ab").ok()] } else { dicts_for(v) };
        for (dn, d) in ds.iter().enumerate() {
            for (sn, s) in SUFFIXES.iter().enumerate() {
                //known findings are named by the value alone
                let _ = (dn, sn);
                rt(l, v, d.as_ref(), s, &|| name(v));
            }
        }
    });

    ck.section("all-chars", "every char as a character, and as text with a dictionary that knows it and one that does not", 0x11_0000, |i, l| {
        let Some(c) = char::from_u32(i as u32) else {
            l.case(&0, false);
            return;
        };
        l.case(&i, true);
        rt(l, &Value::Character(c), None, &[7], &|| format!("char:U+{i:04X}"));
        let s = Value::String(c.to_string());
        rt(l, &s, None, &[7], &|| format!("str:U+{i:04X}"));
        let d = Huffman::new_str(format!("{c}{c}ab")).ok();
        rt(l, &s, d.as_ref(), &[7], &|| format!("str:U+{i:04X}:known"));
        let d = Huffman::new_str("\u{2}ab").ok();
        rt(l, &Value::String(format!("a{c}")), d.as_ref(), &[7], &|| format!("str:U+{i:04X}:unknown"));
    });

    ck.section("dates", "every day of boundary years", 24 * 12 * 31, |i, l| {
        let years = [-262_143, -262_142, -65537, -32769, -257, -256, -241, -240, -1, 0, 1, 4, 100, 127, 128, 239, 240, 255, 256, 1900, 2000, 2024, 65536, 262_142];
        let (y, m, d) = (years[i as usize / 372], i as u32 / 31 % 12 + 1, i as u32 % 31 + 1);
        let Some(x) = ts(y, m, d, 1, 2, 3, 4) else {
            l.case(&0, false);
            return;
        };
        l.case(&i, true);
        rt(l, &Value::Timestamp(x), None, &[1], &|| name(&Value::Timestamp(x)));
    });
    ck.section("times", "every second of a day, plain and as a leap second", 86400 * 2, |i, l| {
        let s = i as u32 / 2;
        let Some(x) = ts(2001, 2, 3, s / 3600, s / 60 % 60, s % 60, if i % 2 == 0 { 5 } else { 1_000_000_005 }) else {
            l.case(&0, false);
            return;
        };
        l.case(&i, true);
        rt(l, &Value::Timestamp(x), None, &[1], &|| name(&Value::Timestamp(x)));
    });
    let nanos: Vec<u32> = magnitudes(2).into_iter().filter_map(|m| u32::try_from(m).ok()).filter(|m| *m < 2_000_000_000).collect();
    ck.section("nanos", "nanoseconds at every boundary", nanos.len() as u64, |i, l| {
        let Some(x) = ts(2001, 2, 3, 4, 5, 59, nanos[i as usize]) else {
            l.case(&0, false);
            return;
        };
        l.case(&i, true);
        rt(l, &Value::Timestamp(x), None, &[1], &|| name(&Value::Timestamp(x)));
    });

    ck.section("addresses", "every value of every byte of both kinds of address, over two backgrounds", (4 + 16) * 256 * 2, |i, l| {
        let b = (i % 256) as u8;
        let p = (i / 256 % 20) as usize;
        let bg = if i / 5120 == 0 { 0_u8 } else { 0xA5 };
        l.case(&i, true);
        let v = if p < 4 {
            let mut o = [bg; 4];
            o[p] = b;
            Value::Ipv4Addr(Ipv4Addr::from(o))
        } else {
            let mut o = [bg; 16];
            o[p - 4] = b;
            Value::Ipv6Addr(Ipv6Addr::from(o))
        };
        rt(l, &v, None, &[0x55, 0xAA], &|| name(&v));
    });

    //floats: every sign and exponent with boundary mantissas; in the thorough tier every single float
    ck.section("f32", "every sign and exponent with 64 mantissas", 512 * 64, |i, l| {
        let m = i as u32 % 64;
        let man = if m < 24 { 1 << m.min(22) } else if m < 48 { (1_u32 << (m - 24)).wrapping_sub(1) & 0x7F_FFFF } else { 0x7F_FFFF ^ (1 << (m - 48)) };
        let f = f32::from_bits(((i as u32 / 64) << 23) | man);
        l.case(&f.to_bits(), true);
        let v = Value::SingleFloat(f);
        rt(l, &v, None, &[1], &|| name(&v));
    });
    if t {
        ck.section("f32-all", "every single float", 1 << 32, |i, l| {
            let f = f32::from_bits(i as u32);
            l.case(&0, i % 65536 == 0);
            let b = Value::SingleFloat(f).ser(None);
            l.call(2);
            let ok = matches!(Value::deser(&mut Cursor::new(&b), None), Ok(Value::SingleFloat(g)) if g.to_bits() == f.to_bits());
            l.check(ok, || format!("f32:{i:08x}"), || "different bits".into());
        });
    }
    ck.section("f64", "every sign and exponent with 106 mantissas", 4096 * 106, |i, l| {
        let m = i % 106;
        let man = if m < 53 { (1_u64 << m) & 0xF_FFFF_FFFF_FFFF } else { (1_u64 << (m - 53)) - 1 };
        let f = f64::from_bits(((i / 106) << 52) | man);
        l.case(&f.to_bits(), true);
        let v = Value::DoubleFloat(f);
        rt(l, &v, None, &[1], &|| name(&v));
        let p = Value::Imaginary(Imaginary::PolarForm { modulus: f, argument: f64::from_bits(!f.to_bits()) });
        rt(l, &p, None, &[1], &|| name(&p));
    });

    let nums = numbers(2);
    ck.section("integers", "every boundary number made from every native type it fits", nums.len() as u64 * 12, |i, l| {
        let (n, ty) = (nums[i as usize / 12], i as usize % 12);
        let Some(x) = make(n, ty) else {
            l.case(&0, false);
            return;
        };
        l.case(&i, true);
        let key = || format!("int:{}:{}", n.text(), TYPES[ty]);
        for s in SUFFIXES {
            let v = Value::Integer(x);
            let b = v.ser(None);
            let mut all = b.clone();
            all.extend_from_slice(s);
            let mut c = Cursor::new(&all);
            l.call(2);
            match Value::deser(&mut c, None) {
                Ok(Value::Integer(y)) => {
                    l.check(num_of(&y) == Some(n), &key, || format!("came back as {y}"));
                    l.check(y == x, || format!("{}:eq", key()), || "unequal".into());
                    l.check(c.pos() == b.len(), || format!("{}:end", key()), || format!("{} of {}", c.pos(), b.len()));
                }
                o => l.fail(key(), format!("came back as {o:?}")),
            }
        }
    });
    let few = few_ints();
    ck.section("imaginary", "every pair of representative integers, and every boundary number as either part", (few.len() * few.len() + nums.len() * 4) as u64, |i, l| {
        l.case(&i, true);
        let ff = (few.len() * few.len()) as u64;
        let (real, imaginary) = if i < ff {
            (few[i as usize / few.len()], few[i as usize % few.len()])
        } else {
            let k = (i - ff) as usize;
            let ty = if k % 2 == 0 { 5 } else { 11 };
            let Some(x) = make(nums[k / 4], ty) else {
                l.case(&0, false);
                return;
            };
            if k / 2 % 2 == 0 {
                (x, Integer::from(-70000_i32))
            } else {
                (Integer::from(3_u8), x)
            }
        };
        let v = Value::Imaginary(Imaginary::CartesianForm { real, imaginary });
        for s in SUFFIXES {
            rt(l, &v, None, s, &|| name(&v));
        }
    });

    let jf = odd_json();
    ck.section("json-floats", "JSON numbers at the extremes of double floats", jf.len() as u64, |i, l| {
        let v = Value::JSON(jf[i as usize].clone());
        l.case(&i, true);
        l.call(2);
        let b = v.ser(None);
        match Value::deser(&mut Cursor::new(&b), None) {
            Ok(w) => l.check(exact(&v, &w), || name(&v), || format!("came back as {}", name(&w))),
            Err(e) => l.check(false, || name(&v), || e.to_string()),
        };
    });

    let zs = chrono_tz::TZ_VARIANTS;
    ck.section("zones", "every time zone with every dictionary", zs.len() as u64, |i, l| {
        let v = Value::Timezone(zs[i as usize]);
        l.case(&i, true);
        for d in dicts_for(&v) {
            rt(l, &v, d.as_ref(), &[0x10, 0], &|| name(&v));
        }
    });

    //texts against partial dictionaries
    let alphabet = ['a', 'b', 'é', '🖖'];
    let len = if t { 8 } else { 6 };
    let nt: u64 = (0..=len).map(|k| 4_u64.pow(k)).sum();
    let ds: Vec<Huffman<char>> = ["a", "ab", "aab", "bé", "éé🖖", "abé🖖", "aaaabbbéé🖖", "🖖", "\"{}:1ab"].iter().filter_map(|s| Huffman::new_str(s).ok()).collect();
    ck.section("texts", "every text over 4 characters up to 6 (8) long against 9 dictionaries knowing all, some or none of it", nt, |i, l| {
        let mut k = i;
        let mut len = 0;
        let mut count = 1_u64;
        while k >= count {
            k -= count;
            count *= 4;
            len += 1;
        }
        let s: String = (0..len).map(|p| alphabet[(k >> (2 * p) & 3) as usize]).collect();
        l.case(&s, true);
        let v = Value::String(s);
        rt(l, &v, None, &[1], &|| name(&v));
        for d in &ds {
            rt(l, &v, Some(d), &[1], &|| name(&v));
        }
        if i % 5 == 0 {
            let w = Value::JSON(serde_json::Value::String(v.as_str().unwrap().clone()));
            for d in &ds {
                rt(l, &w, Some(d), &[1], &|| name(&w));
            }
        }
    });

    //text and binary lengths
    let lens: Vec<usize> = (0..=600).chain([4095, 4096, 65535, 65536, 65537, 100_000, 131_073, 262_145, 1_048_577]).collect();
    let english = Huffman::new_with_english_frequencies();
    ck.section("lengths", "text and binary of every length 0..=600 and around 4Ki and 64Ki and on to 1Mi", lens.len() as u64 * 5, |i, l| {
        let n = lens[i as usize / 5];
        l.case(&i, true);
        let v = match i % 5 {
            0 => Value::String("e".repeat(n)),
            1 => Value::String((0..n).map(|j| char::from(b'a' + (j * j % 26) as u8)).collect()),
            2 => Value::Binary(BinaryData(vec![0xAB; n])),
            3 => Value::Binary(BinaryData((0..n as u64).map(|j| (j.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 56) as u8).collect())),
            _ => Value::Binary(BinaryData((0..n).map(|j| (j % 7 / 5) as u8).collect())),
        };
        rt(l, &v, None, &[0xFF], &|| name(&v));
        rt(l, &v, Some(&english), &[0xFF], &|| name(&v));
    });

    //containers
    let sizes: Vec<usize> = (0..=300).chain([511, 512, 1023, 1024, 1025, 2049, 4097, 8193, 16385, 32769, 65535, 65536, 65537, 70_000, 131_073, 300_000]).collect();
    ck.section("container-lengths", "arrays and maps of every length 0..=300 and on to 300 000", sizes.len() as u64 * 3, |i, l| {
        let n = sizes[i as usize / 3];
        l.case(&i, true);
        let v = match i % 3 {
            0 => Value::Array((0..n).map(|j| Value::from(j as u32)).collect()),
            1 => map_of((0..n).map(|j| (format!("{j}"), Value::from(j as u32))).collect()),
            _ => Value::Array((0..n).map(|j| if j % 2 == 0 { Value::Array(vec![Value::Boolean(j % 4 == 0)]) } else { map_of(vec![]) }).collect()),
        };
        rt(l, &v, None, &[0xFF], &|| format!("container{}:{n}", i % 3));
        rt(l, &v, Some(&english), &[0xFF], &|| format!("container{}:{n}:dict", i % 3));
    });

    let tl = tiny_leaves();
    let tr = trees(if t { 6 } else { 5 }, if t { &tl[..5] } else { &tl });
    let td: Vec<Option<Huffman<char>>> = vec![None, Huffman::new_str("abbéUTC{}\":").ok(), Huffman::new_str("a").ok(), Huffman::new_str("abcde").ok()];
    ck.section("trees", "every nesting of arrays and maps with up to 5 nodes over 8 leaves (thorough: 6 over 5), 4 dictionaries", tr.len() as u64, |i, l| {
        let v = &tr[i as usize];
        l.case(&i, true);
        for d in &td {
            rt(l, v, d.as_ref(), &[0x90], &|| name(v));
        }
    });
    drop(tr);
    ck.section("depth", "every depth up to 128, five shapes", 129 * 5, |i, l| {
        let v = crate::corpus::nested(i as usize / 5, i as usize % 5, &Value::Boolean(true));
        l.case(&i, true);
        rt(l, &v, None, &[1], &|| format!("depth{}:{}", i / 5, i % 5));
        rt(l, &v, Some(&english), &[1], &|| format!("depth{}:{}:dict", i / 5, i % 5));
    });

    ck.section("siblings", "arrays and maps of up to 4000 containers beside one another, empty, filled, nested and as deep as they can be", SIBLINGS, |i, l| {
        let (name, v) = siblings(i);
        l.case(&i, true);
        rt(l, &v, None, &[1], &|| name.clone());
        rt(l, &v, Some(&english), &[1], &|| format!("{name}:dict"));
    });

    //values written back to back
    let few = few_leaves();
    let n = few.len() as u64;
    let seqs = if t { n * n * n } else { n * n };
    let d = Huffman::new_str("aaaabJSONEuropLd/{}[]\":é🖖,1").ok();
    ck.section("back-to-back", "every pair (thorough: triple) of representative leaves written one after another, with and without a dictionary", seqs, |i, l| {
        l.case(&i, true);
        let vs: Vec<&Value> = if t { vec![&few[(i / n / n) as usize], &few[(i / n % n) as usize], &few[(i % n) as usize]] } else { vec![&few[(i / n) as usize], &few[(i % n) as usize], &few[(i / n) as usize]] };
        for d in [None, d.as_ref()] {
            let mut all = vec![];
            for v in &vs {
                all.extend(v.ser(d));
                l.call(1);
            }
            let mut c = Cursor::new(&all);
            for v in &vs {
                l.call(1);
                match Value::deser(&mut c, d) {
                    Ok(b) if exact(v, &b) => l.check(true, String::new, String::new),
                    o => {
                        l.fail(vs.iter().map(|v| name(v)).collect::<Vec<_>>().join("+"), format!("got {:?} for {}", o.map(|v| name(&v)), name(v)));
                        return;
                    }
                };
            }
            l.check(c.is_finished(), || format!("{}:end", vs.iter().map(|v| name(v)).collect::<Vec<_>>().join("+")), || "bytes left over".into());
        }
    });
    ck.section("in-containers", "every boundary leaf first, in the middle and last in an array and in a map", ls.len() as u64, |i, l| {
        let v = &ls[i as usize];
        l.case(&i, true);
        for p in 0..3 {
            let mut a = vec![Value::Boolean(true), Value::String("e".into())];
            a.insert(p, v.clone());
            let arr = Value::Array(a);
            rt(l, &arr, None, &[2], &|| name(v));
            rt(l, &arr, Some(&english), &[2], &|| name(v));
        }
        let m = map_of(vec![("k".into(), v.clone()), ("".into(), Value::Array(vec![v.clone()]))]);
        rt(l, &m, None, &[2], &|| name(v));
        rt(l, &m, Some(&english), &[2], &|| name(v));
    });
}
