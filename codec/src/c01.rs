//! C01: a store survives its file format.
use crate::{
    ck::{h64, Ck, L},
    corpus::*,
};
use hashbrown::HashMap;
use sourisdb::{store::Store, types::binary::BinaryData, values::Value};

pub fn round_trip(l: &mut L, entries: &HashMap<String, Value>, key: &dyn Fn() -> String) {
    let store = Store::new(entries.iter().map(|(k, v)| (k.clone(), v.clone())));
    round_trip_store(l, &store, entries, key);
}

pub fn round_trip_store(l: &mut L, store: &Store, expect: &HashMap<String, Value>, key: &dyn Fn() -> String) {
    let bytes = store.ser();
    l.call(2);
    l.saw(h64(&bytes[..bytes.len().min(24)]));
    l.sample(|| format!("{} -> {}", key(), crate::ck::hex(&bytes)));
    match Store::deser(&bytes) {
        Ok(back) => {
            let same = back.len() == expect.len() && expect.iter().all(|(k, v)| back.get(k).is_some_and(|w| exact(v, w)));
            l.check(same, key, || format!("came back different: {} from {}", name(&Value::Map((*back).clone())), crate::ck::hex(&bytes)));
            l.check(&back == store, || format!("{}:eq", key()), || "came back unequal by the code's own comparison".into());
        }
        Err(e) => {
            l.fail(key(), format!("could not be read back: {e} from {}", crate::ck::hex(&bytes)));
        }
    }
}

fn one(k: &str, v: Value) -> HashMap<String, Value> {
    let mut m = HashMap::new();
    m.insert(k.to_string(), v);
    m
}

fn nth_text(mut i: u64, alphabet: &[char]) -> String {
    //all texts, shortest first
    let a = alphabet.len() as u64;
    let mut len = 0;
    let mut count = 1;
    while i >= count {
        i -= count;
        count *= a;
        len += 1;
    }
    let mut s = vec![];
    for _ in 0..len {
        s.push(alphabet[(i % a) as usize]);
        i /= a;
    }
    s.into_iter().rev().collect()
}
fn texts_up_to(a: u64, len: u32) -> u64 {
    (0..=len).map(|n| a.pow(n)).sum()
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    let ls = leaves();
    let keys = ["", "a", "k", "é🖖", "\0", "JSON"];
    ck.section("single-leaf", "every boundary leaf of all 16 kinds under each of 6 keys", (ls.len() * keys.len()) as u64, |i, l| {
        let v = &ls[i as usize / keys.len()];
        let k = keys[i as usize % keys.len()];
        l.case(&i, true);
        round_trip(l, &one(k, v.clone()), &|| format!("{k:?}={}", name(v)).replace(' ', "_"));
    });

    ck.section("all-chars", "every char as key, as string and as character value", 0x11_0000, |i, l| {
        let Some(c) = char::from_u32(i as u32) else {
            l.case(&0, false);
            return;
        };
        l.case(&i, true);
        let m = match i % 3 {
            0 => one(&c.to_string(), Value::Character(c)),
            1 => one("k", Value::String(c.to_string())),
            _ => one(&format!("{c}{c}a"), Value::Null(())),
        };
        round_trip(l, &m, &|| format!("U+{i:04X}"));
    });

    let zs = chrono_tz::TZ_VARIANTS;
    ck.section("all-zones", "every time zone, alone and beside text", zs.len() as u64 * 2, |i, l| {
        let z = zs[i as usize / 2];
        let mut m = one("k", Value::Timezone(z));
        if i % 2 == 1 {
            m.insert("other".into(), Value::String("zzzz".into()));
        }
        l.case(&i, true);
        round_trip(l, &m, &|| format!("{}:{}", z.name(), i % 2));
    });

    let sizes: Vec<usize> = (0..=310).chain([510, 511, 512, 513, 1000, 4095, 4096, 4097, 8193, 16385, 32769, 65535, 65536, 65537, 70_000, 131_073, 300_000]).collect();
    ck.section("sizes", "containers (store, map, array, array of maps) of every length 0..=310 and around 512, and on to 300 000", sizes.len() as u64 * 4, |i, l| {
        let n = sizes[i as usize / 4];
        l.case(&i, true);
        let val = |j: usize| match j % 4 {
            0 => Value::from(j as u64),
            1 => Value::String(format!("v{j}")),
            2 => Value::Boolean(true),
            _ => Value::Null(()),
        };
        let m: HashMap<String, Value> = match i % 4 {
            0 => (0..n).map(|j| (format!("key{j}"), val(j))).collect(),
            1 => one("m", Value::Map((0..n).map(|j| (format!("{j}"), val(j))).collect())),
            2 => one("a", Value::Array((0..n).map(val).collect())),
            _ => one("a", Value::Array((0..n.min(2000)).map(|j| map_of(vec![("k".into(), val(j))])).collect())),
        };
        round_trip(l, &m, &|| format!("form{}:len{n}", i % 4));
    });

    let few = few_leaves();
    ck.section("pairs", "every ordered pair of representative leaves, as two entries and as an array", (few.len() * few.len() * 2) as u64, |i, l| {
        let (a, b) = (&few[i as usize / 2 / few.len()], &few[i as usize / 2 % few.len()]);
        l.case(&i, true);
        let m = if i % 2 == 0 {
            let mut m = one("a", a.clone());
            m.insert("bb".into(), b.clone());
            m
        } else {
            one("a", Value::Array(vec![a.clone(), b.clone(), a.clone()]))
        };
        round_trip(l, &m, &|| format!("{}+{}:{}", name(a), name(b), i % 2));
    });

    let tl = tiny_leaves();
    let tr = trees(if t { 6 } else { 5 }, if t { &tl[..5] } else { &tl });
    ck.section("trees", "every nesting of arrays and maps with up to 5 nodes over 8 leaves (thorough: 6 nodes over 5)", tr.len() as u64, |i, l| {
        let v = &tr[i as usize];
        l.case(&i, true);
        round_trip(l, &one("r", v.clone()), &|| name(v));
    });
    drop(tr);

    //orders: the keys' byte sums are distinct modulo the number of ranks, so the ranks are the iteration order
    for n in 2..=(if t { 7 } else { 6 }) {
        let perms = permutations(n);
        let fillings = 6_u64;
        ck.section(&format!("orders-{n}"), "every iteration order of the entries (and, with it, of the dictionary's ties)", perms.len() as u64 * fillings, |i, l| {
            let p = &perms[(i / fillings) as usize];
            l.case(&i, true);
            foldhash::control::set_order(p);
            let mut m = HashMap::new();
            for j in 0..n {
                let k = char::from(b'a' + j as u8);
                let v = match i % fillings {
                    0 => Value::Null(()),
                    1 => Value::String(k.to_string()),
                    2 => Value::String(k.to_string().repeat(j + 1)),
                    3 => map_of(vec![(k.to_string(), Value::from(j as u8)), ("z".into(), Value::Boolean(true))]),
                    4 => Value::Array(vec![Value::String(char::from(b'a' + ((j + 1) % n) as u8).to_string()), Value::from(j as u64 * 1000)]),
                    _ => {
                        if j % 2 == 0 {
                            Value::Timezone(chrono_tz::UTC)
                        } else {
                            Value::JSON(serde_json::json!({ k.to_string(): j }))
                        }
                    }
                };
                m.insert(k.to_string(), v);
            }
            round_trip(l, &m, &|| format!("order{p:?}:{}", i % fillings).replace(' ', ""));
            foldhash::control::set_seed(0);
        });
    }

    let a2 = ['a', 'b'];
    let a3 = ['x', 'é', '🖖'];
    let (n2, n3) = (texts_up_to(2, if t { 16 } else { 12 }), texts_up_to(3, if t { 9 } else { 7 }));
    ck.section("texts-2", "every text over 2 characters up to 12 (16) long, as value and as key", n2, |i, l| {
        let s = nth_text(i, &a2);
        l.case(&s, true);
        let m = if i % 2 == 0 { one("", Value::String(s.clone())) } else { one(&s, Value::Null(())) };
        round_trip(l, &m, &|| format!("{s:?}"));
    });
    ck.section("texts-3", "every text over 3 characters of 1, 2 and 4 bytes up to 7 (9) long", n3, |i, l| {
        let s = nth_text(i, &a3);
        l.case(&s, true);
        round_trip(l, &one(&s, Value::String(s.chars().rev().collect())), &|| format!("{s:?}"));
    });

    let inner = [Value::Null(()), Value::Array(vec![]), map_of(vec![]), Value::String("k".into())];
    ck.section("depth", "every depth up to the supported one, five shapes, four innermost values", 129 * 5 * 4, |i, l| {
        let (d, kind, inn) = (i as usize / 20, i as usize / 4 % 5, &inner[i as usize % 4]);
        //an innermost container counts
        let limit = 128 - usize::from(i % 4 == 1 || i % 4 == 2);
        if d > limit {
            l.case(&0, false);
            return;
        }
        l.case(&i, true);
        let v = nested(d, kind, inn);
        round_trip(l, &one("top", v), &|| format!("depth{d}:shape{kind}:{}", name(inn)));
    });

    ck.section("siblings", "arrays, maps and stores of up to 4000 containers beside one another, empty, filled, nested and as deep as they can be", SIBLINGS * 2, |i, l| {
        let (name, v) = siblings(i / 2);
        l.case(&i, true);
        match v {
            Value::Map(m) if i % 2 == 1 => round_trip(l, &m, &|| format!("{name}:store")),
            v => round_trip(l, &one("top", v), &|| name.clone()),
        }
    });

    ck.section("skewed", "Fibonacci-weighted text of up to 25 characters, so the code gets as deep as it can", 25, |i, l| {
        let mut s = String::new();
        let (mut a, mut b) = (1_usize, 1_usize);
        for j in 0..=i {
            s.push_str(&char::from_u32('A' as u32 + j as u32).unwrap().to_string().repeat(a));
            (a, b) = (b, a + b);
        }
        l.case(&i, true);
        round_trip(l, &one("", Value::String(s)), &|| format!("fib{i}"));
    });

    ck.section("deepest-codes", "text of up to 15 (thorough 63) million characters whose code is 25..=33 (36) deep, as a value and as a key", if t { 12 } else { 9 }, |i, l| {
        let mut s = String::new();
        let (mut a, mut b) = (1_usize, 1_usize);
        for j in 0..26 + i {
            s.push_str(&char::from_u32('0' as u32 + j as u32).unwrap().to_string().repeat(a));
            (a, b) = (b, a + b);
        }
        l.case(&i, true);
        let m = if i % 2 == 0 { one("", Value::String(s)) } else { one(&s, Value::Boolean(true)) };
        round_trip(l, &m, &|| format!("deepest{i}"));
    });

    ck.section("wide-dictionary", "texts of 1..=600 different characters from several planes", 600 * 3, |i, l| {
        let n = i as u32 / 3 + 1;
        let base = [0x21, 0x4E00, 0x1F300][i as usize % 3];
        let s: String = (0..n).filter_map(|c| char::from_u32(base + c)).collect();
        l.case(&i, true);
        round_trip(l, &one("k", Value::String(s)), &|| format!("wide{n}:{base:x}"));
    });

    let lens: Vec<usize> = (0..=520).chain(1000..1010).chain([4095, 4096, 65534, 65535, 65536, 65537, 70000, 262_144, 1 << 20]).collect();
    ck.section("lengths", "text and binary of every length 0..=520 and around 64Ki, 256Ki and 1Mi, three textures each", lens.len() as u64 * 6, |i, l| {
        let n = lens[i as usize / 6];
        l.case(&i, true);
        let v = match i % 6 {
            0 => Value::String("q".repeat(n)),
            1 => Value::String((0..n).map(|j| char::from(b'a' + (j * j % 23) as u8)).collect()),
            2 => Value::String((0..n.min(70000)).map(|j| char::from_u32(0x4E00 + (j * 7919 % 5000) as u32).unwrap()).collect()),
            3 => Value::Binary(BinaryData(vec![0xAB; n])),
            4 => Value::Binary(BinaryData((0..n).map(|j| (j % 2) as u8).collect())),
            _ => Value::Binary(BinaryData((0..n as u64).map(|j| (j.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 56) as u8).collect())),
        };
        round_trip(l, &one("k", v), &|| format!("texture{}:len{n}", i % 6));
    });

    //the code under many walks of a larger store
    let seeds = if t { 4096 } else { 512 };
    ck.section("seeds", "a store with 24 entries of every kind under many hash seeds", seeds, |i, l| {
        foldhash::control::set_seed(i + 1);
        l.case(&i, true);
        let m: HashMap<String, Value> = few.iter().enumerate().map(|(j, v)| (format!("k{}", j * j), v.clone())).collect();
        round_trip(l, &m, &|| format!("seed{i}"));
        foldhash::control::set_seed(0);
    });

    //histories of changes, then a round trip at every step's end
    let ops = 7_u64;
    let depth = if t { 7 } else { 6 };
    ck.section("histories", "every sequence of up to 6 (7) inserts, overwrites, removals and clears, saved and reloaded in between", ops.pow(depth), |i, l| {
        l.case(&i, true);
        let mut s = Store::default();
        let mut model: HashMap<String, Value> = HashMap::new();
        let mut n = i;
        for step in 0..depth {
            match n % ops {
                0 => {
                    s.insert("a".into(), Value::from(step));
                    model.insert("a".into(), Value::from(step));
                }
                1 => {
                    s.insert("b".into(), Value::String("aabb".into()));
                    model.insert("b".into(), Value::String("aabb".into()));
                }
                2 => {
                    s.remove("a");
                    model.remove("a");
                }
                3 => {
                    s.clear();
                    model.clear();
                }
                4 => {
                    for j in 0..8 {
                        s.insert(format!("x{j}"), Value::Null(()));
                        model.insert(format!("x{j}"), Value::Null(()));
                    }
                }
                5 => {
                    s.insert("".into(), Value::Array(vec![Value::Map(model.clone())]));
                    let snap = Value::Array(vec![Value::Map(model.clone())]);
                    model.insert("".into(), snap);
                }
                _ => {
                    //save and reload
                    l.call(2);
                    match Store::deser(&s.ser()) {
                        Ok(r) => s = r,
                        Err(e) => {
                            l.fail(format!("history{i}"), format!("step {step} could not be read back: {e}"));
                            return;
                        }
                    }
                }
            }
            n /= ops;
        }
        let same = s.len() == model.len() && model.iter().all(|(k, v)| s.get(k).is_some_and(|w| exact(v, w)));
        l.check(same, || format!("history{i}"), || "contents differ from the reference".into());
        round_trip_store(l, &s, &model, &|| format!("history{i}"));
    });
}
