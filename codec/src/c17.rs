//! C17: what is shown of a value is all of it.
use crate::{
    ck::{h64, Ck, L},
    corpus::*,
};
use sourisdb::{
    display_bytes_as_hex_array,
    store::Store,
    types::{binary::BinaryData, imaginary::Imaginary, integer::Integer},
    values::Value,
};
use std::collections::HashMap;

///What a value is, as far as its text is to tell it: an integer by its number, a float that is not a number as that.
fn class(v: &Value) -> String {
    let float = |f: f64, bits: u64| if f.is_nan() { "nan".to_string() } else { format!("{bits:x}") };
    let int = |i: &Integer| num_of(i).map_or("?".to_string(), |n| format!("{}{}", if n.neg { "-" } else { "" }, n.mag));
    match v {
        Value::Character(c) => format!("c{:x}", *c as u32),
        Value::String(s) => format!("s{:?}", s.as_bytes()),
        Value::Binary(b) => format!("b{:?}", b.0),
        Value::Boolean(b) => format!("{}", u8::from(*b)),
        Value::Integer(i) => format!("i{}", int(i)),
        Value::Imaginary(Imaginary::CartesianForm { real, imaginary }) => format!("I{},{}", int(real), int(imaginary)),
        Value::Imaginary(Imaginary::PolarForm { modulus, argument }) => format!("P{},{}", float(*modulus, modulus.to_bits()), float(*argument, argument.to_bits())),
        Value::SingleFloat(f) => format!("f{}", float(f64::from(*f), f.to_bits().into())),
        Value::DoubleFloat(f) => format!("d{}", float(*f, f.to_bits())),
        Value::Array(a) => format!("[{}]", a.iter().map(class).collect::<Vec<_>>().join(",")),
        Value::Map(m) => {
            let mut e: Vec<_> = m.iter().map(|(k, v)| format!("{:?}={}", k.as_bytes(), class(v))).collect();
            e.sort();
            format!("{{{}}}", e.join(","))
        }
        Value::JSON(j) => format!("j{j}"),
        v => name(v),
    }
}
///A number in a text, to the bit.
fn reads(v: &Value, text: &str) -> bool {
    match v {
        Value::Integer(i) => num_of(i).is_some_and(|n| n.text() == text),
        Value::SingleFloat(f) => text.parse::<f32>().is_ok_and(|g| g.to_bits() == f.to_bits() || f.is_nan() && g.is_nan()),
        Value::DoubleFloat(f) => text.parse::<f64>().is_ok_and(|g| g.to_bits() == f.to_bits() || f.is_nan() && g.is_nan()),
        Value::Ipv4Addr(a) => text.parse() == Ok(*a),
        Value::Ipv6Addr(a) => text.parse() == Ok(*a),
        Value::Timezone(t) => text.parse().is_ok_and(|u: chrono_tz::Tz| u.name() == t.name()),
        Value::Boolean(b) => text.parse() == Ok(*b),
        _ => true,
    }
}

///No two which differ look the same.
fn differ<'a>(l: &mut L, vs: impl IntoIterator<Item = &'a Value>) {
    let mut seen: HashMap<String, &Value> = HashMap::new();
    let mut seen_raw: HashMap<String, &Value> = HashMap::new();
    for v in vs {
        l.call(1);
        let text = v.to_string();
        l.saw(h64(&text));
        l.check(!text.is_empty(), || format!("empty:{}", name(v)), String::new);
        l.check(reads(v, &text), || format!("reads:{}", name(v)), || text.clone());
        let raw = format!("{v:?}");
        if let Some(w) = seen_raw.get(&raw) {
            l.check(class(v) == class(w), || format!("alike-raw:{}", name(v)), || format!("{} and {} are both {raw}", class(v), class(w)));
        } else {
            seen_raw.insert(raw, v);
        }
        if let Some(w) = seen.get(&text) {
            l.check(class(v) == class(w), || format!("alike:{}", name(v)), || format!("{} and {} are both {text}", class(v), class(w)));
        } else {
            seen.insert(text, v);
        }
    }
}
///Every part is to be found, in order in an array, next to its key in a map.
fn parts(l: &mut L, v: &Value, key: &dyn Fn() -> String) {
    let text = v.to_string();
    whole(l, v, &text, key);
}
fn whole(l: &mut L, v: &Value, text: &str, key: &dyn Fn() -> String) {
    l.call(1);
    match v {
        Value::Array(a) => {
            let mut at = 0;
            for (i, x) in a.iter().enumerate() {
                let t = x.to_string();
                match text[at..].find(&t) {
                    Some(p) => at += p + t.len(),
                    None => l.fail(format!("array:{}", key()), format!("entry {i} ({t}) is not in {text}")),
                }
                whole(l, x, &t, key);
            }
        }
        Value::Map(m) => {
            let lines: Vec<&str> = text.lines().collect();
            for (k, x) in m.iter() {
                let t = x.to_string();
                let ts: Vec<&str> = t.lines().filter(|t| !t.trim().is_empty()).map(str::trim_end).collect();
                //a row: the key, and the lines of the entry one after the other
                let found = (0..lines.len()).any(|i| {
                    let Some(p) = lines[i].find(k.as_str()) else { return false };
                    let rest = lines[i][p + k.len()..].to_string();
                    let first = ts.first().copied().unwrap_or("");
                    if rest.contains(first) && ts.iter().skip(1).enumerate().all(|(j, t)| lines.get(i + 1 + j).is_some_and(|line| line.contains(t))) {
                        return true;
                    }
                    //the entry's text may begin with an empty line
                    ts.iter().enumerate().all(|(j, t)| lines.get(i + 1 + j).is_some_and(|line| line.contains(t)))
                });
                l.check(found, || format!("map:{}", key()), || format!("{k:?} with {t} is not in {text}"));
                whole(l, x, &t, key);
            }
        }
        _ => {}
    }
}
fn stores(l: &mut L, v: &Value, key: &dyn Fn() -> String) {
    let Value::Map(m) = v else { return };
    l.call(1);
    let sorted = |s: String| {
        let mut v: Vec<String> = s.lines().map(str::to_string).collect();
        v.sort();
        v
    };
    let (a, b) = (Store::new(m.clone()).to_string(), v.to_string());
    l.check(sorted(a.clone()) == sorted(b.clone()), || format!("store:{}", key()), || format!("{a} but {b}"));
}

fn kind(v: &Value) -> usize {
    match v {
        Value::Character(_) => 0,
        Value::String(_) => 1,
        Value::Binary(_) => 2,
        Value::Boolean(_) => 3,
        Value::Integer(_) => 4,
        Value::Imaginary(_) => 5,
        Value::Timestamp(_) => 6,
        Value::JSON(_) => 7,
        Value::Null(()) => 8,
        Value::SingleFloat(_) => 9,
        Value::DoubleFloat(_) => 10,
        Value::Array(_) => 11,
        Value::Map(_) => 12,
        Value::Timezone(_) => 13,
        Value::Ipv4Addr(_) => 14,
        Value::Ipv6Addr(_) => 15,
    }
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    let mut by_kind: Vec<Vec<Value>> = vec![vec![]; 16];
    for v in leaves() {
        by_kind[kind(&v)].push(v);
    }
    for n in numbers(if t { 64 } else { 8 }) {
        for ty in 0..12 {
            by_kind[4].extend(make(n, ty).map(Value::Integer));
        }
    }
    let few = few_ints();
    for real in &few {
        for imaginary in &few {
            by_kind[5].push(Value::Imaginary(Imaginary::CartesianForm { real: *real, imaginary: *imaginary }));
        }
    }
    for f in f64s() {
        for g in f64s() {
            by_kind[5].push(Value::Imaginary(Imaginary::PolarForm { modulus: f, argument: g }));
        }
    }
    //every bit of a nearby second
    for (d, s) in [(1, 0), (1, 59), (28, 30)] {
        for n in (0..30).map(|b| 1_u32 << b).filter(|n| *n < 1_000_000_000) {
            by_kind[6].extend(ts(2024, 2, d, 1, 2, s, n).map(Value::Timestamp));
        }
    }
    ck.section("leaves", "all boundary leaves of each kind: read back where that is usual, and no two of a kind alike", 16, |i, l| {
        l.case(&i, true);
        differ(l, &by_kind[i as usize]);
    });
    ck.section("every-char", "every char, no two alike", 1, |_, l| {
        l.case(&0, true);
        let all: Vec<Value> = (0..0x11_0000).filter_map(char::from_u32).map(Value::Character).collect();
        differ(l, &all);
    });
    let bad = ['a', '"', '\\', '\n', '\'', '{', 'n', '\u{0}', 'é', '\u{301}', '\t', '\u{200b}'];
    let base = bad.len() as u64;
    let strings: Vec<Value> = (0..string_count(base, if t { 5 } else { 4 })).map(|i| Value::String(nth_string(i, base).iter().map(|b| bad[*b as usize]).collect())).collect();
    ck.section("strings", "all short strings over difficult chars, no two alike; and long ones which differ in one char anywhere", 2, |i, l| {
        l.case(&i, true);
        if i == 0 {
            differ(l, &strings);
        } else {
            for n in (1..=130).chain([255, 256, 257, 511, 1023, 1024, 1025, 4095, 4096, 65535]) {
                let places: Vec<usize> = if n <= 130 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
                let mut v = vec![Value::String("a".repeat(n)), Value::String("a".repeat(n + 1))];
                for p in places {
                    v.push(Value::String(format!("{}b{}", "a".repeat(p), "a".repeat(n - p - 1))));
                }
                differ(l, &v);
            }
        }
    });
    ck.section("bytes", "all byte strings up to 2 (thorough: and 65536 of 3), and long ones which differ in one byte anywhere", 2, |i, l| {
        l.case(&i, true);
        if i == 0 {
            let all: Vec<Value> = (0..string_count(256, 2) + if t { 65536 } else { 0 }).map(|i| Value::Binary(BinaryData(nth_string(i, 256)))).collect();
            differ(l, &all);
            for v in &all {
                let Value::Binary(b) = v else { continue };
                let text = display_bytes_as_hex_array(&b.0);
                let inner = text.strip_prefix('[').and_then(|t| t.strip_suffix(']'));
                let read: Option<Vec<u8>> = inner.and_then(|t| if t.is_empty() { Some(vec![]) } else { t.split(", ").map(|x| x.strip_prefix("0x").and_then(|x| u8::from_str_radix(x, 16).ok())).collect() });
                l.check(read.as_ref() == Some(&b.0), || format!("hex:{}", name(v)), || text.clone());
            }
        } else {
            for n in (1..=130).chain([255, 256, 257, 1024, 4096]) {
                let places: Vec<usize> = if n <= 130 { (0..n).collect() } else { vec![0, 1, n / 2, n - 2, n - 1] };
                let mut v = vec![Value::Binary(BinaryData(vec![16; n])), Value::Binary(BinaryData(vec![16; n + 1]))];
                for p in places {
                    let mut b = vec![16; n];
                    b[p] = 1;
                    v.push(Value::Binary(BinaryData(b)));
                }
                differ(l, &v);
            }
        }
    });
    let tell = [Value::from(1_u8), Value::from(-23_i8), Value::String("x".into()), Value::Boolean(true), Value::Null(())];
    let ts = trees(if t { 6 } else { 5 }, &tell);
    ck.section("trees-differ", "all trees up to the bound over leaves which look different, no two alike", 1, |_, l| {
        l.case(&0, true);
        differ(l, &ts);
    });
    ck.section("trees", "every part of every tree is in its text, in order in an array, next to its key in a map", ts.len() as u64, |i, l| {
        let v = &ts[i as usize];
        l.case(&i, true);
        parts(l, v, &|| format!("{i}"));
        stores(l, v, &|| format!("{i}"));
    });
    let ls = leaves();
    ck.section("held", "every boundary leaf in an array, in a map and in a map in a map, with neighbours", ls.len() as u64, |i, l| {
        let v = &ls[i as usize];
        l.case(&i, true);
        let m = map_of(vec![("one".into(), Value::from(1_u8)), ("two".into(), v.clone()), ("three".into(), Value::Null(()))]);
        for w in [Value::Array(vec![v.clone()]), Value::Array(vec![Value::Null(()), v.clone(), Value::from(7_u8)]), m.clone(), map_of(vec![("m".into(), m.clone())]), Value::Array(vec![m.clone(), v.clone()])] {
            parts(l, &w, &|| name(v));
            stores(l, &w, &|| name(v));
        }
    });
    let keys = ["a", "A", "key with spaces", "é", "🖖", "0", "x.y/z", "Key", "Value", "│", "a|b", "\"q\"", "{}", "%s", "ünï", "日本語"];
    ck.section("keys", "every pair of keys, with entries that differ", (keys.len() * keys.len()) as u64, |i, l| {
        let (a, b) = (keys[i as usize / keys.len()], keys[i as usize % keys.len()]);
        if a == b {
            return;
        }
        l.case(&i, true);
        let one = map_of(vec![(a.into(), Value::from(11_u8)), (b.into(), Value::from(22_u8))]);
        let two = map_of(vec![(a.into(), Value::from(22_u8)), (b.into(), Value::from(11_u8))]);
        for v in [&one, &two] {
            parts(l, v, &|| format!("{i}"));
            stores(l, v, &|| format!("{i}"));
        }
    });
    let most = if t { 1500 } else { 300 };
    ck.section("sizes", "arrays and maps of every size up to the bound", most, |i, l| {
        l.case(&i, true);
        let n = i as usize;
        let a = Value::Array((0..n).map(|j| Value::from(1_000_000 + j as u32)).collect());
        parts(l, &a, &|| format!("{n}"));
        let m = map_of((0..n).map(|j| (format!("k{j:06}"), Value::from(2_000_000 + j as u32))).collect());
        let text = m.to_string();
        let mut rows = HashMap::new();
        for line in text.lines() {
            if let Some(p) = line.find("k0") {
                *rows.entry(line[p..p + 7].to_string()).or_insert(0) += 1;
                let want = 2_000_000 + line[p + 1..p + 7].parse::<usize>().unwrap_or(0);
                l.check(line[p + 7..].contains(&want.to_string()), || format!("row:{n}"), || line.to_string());
            }
        }
        l.check(rows.len() == n && rows.values().all(|c| *c == 1), || format!("rows:{n}"), || format!("{} rows", rows.len()));
        if n <= 100 || t {
            stores(l, &m, &|| format!("{n}"));
        }
    });
    ck.section("depth", "arrays 0..=255 deep and maps 0..=12 deep, with something beside on every level", 256 + 13, |i, l| {
        l.case(&i, true);
        let mut v = Value::from(4711_u32);
        if i < 256 {
            for j in 0..i {
                v = Value::Array(vec![Value::from(10_000 + j as u32), v]);
            }
            let text = v.to_string();
            let mut at = 0;
            for j in (0..i).rev() {
                match text[at..].find(&(10_000 + j).to_string()) {
                    Some(p) => at += p,
                    None => l.fail(format!("depth:{i}"), format!("{j} is missing from {text}")),
                }
            }
            l.check(text[at..].contains("4711"), || format!("depth:{i}"), || text.clone());
        } else {
            for j in 0..i - 256 {
                v = map_of(vec![(format!("in{j}"), v), (format!("by{j}"), Value::from(10_000 + j as u32))]);
            }
            parts(l, &v, &|| format!("maps:{}", i - 256));
        }
    });
}
