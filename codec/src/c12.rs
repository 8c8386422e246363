//! C12: encodings never exceed their documented sizes.
use crate::{
    ck::{Ck, L},
    corpus::*,
};
use chrono::{Datelike, Timelike};
use hashbrown::HashMap;
use sourisdb::{
    types::{
        binary::{huffman::huffman, lz::lz, rle::rle, BinaryData},
        imaginary::Imaginary,
        integer::Integer,
    },
    values::Value,
};

fn sig(mut m: u128) -> usize {
    let mut n = 0;
    while m > 0 {
        n += 1;
        m >>= 8;
    }
    n
}

///Bytes an integer may take.
pub fn int(n: Num) -> usize {
    if n.neg {
        //two's complement, without the leading bytes that only repeat the sign
        let v = n.to_i().expect("a negative number fits");
        let bytes = v.to_le_bytes();
        let used = bytes.iter().rposition(|b| *b != 0xFF).map_or(1, |p| p + 1);
        if used == 1 && bytes[0] <= 239 {
            1
        } else {
            1 + used
        }
    } else if n.mag <= 239 {
        1
    } else {
        1 + sig(n.mag)
    }
}
fn len(n: usize) -> usize {
    int(Num::u(n as u128))
}
fn of(i: &Integer) -> usize {
    num_of(i).map_or(0, int)
}

///Bytes a run-length encoding takes.
fn rle_size(b: &[u8]) -> usize {
    let mut runs = 0;
    let mut i = 0;
    while i < b.len() {
        let mut j = i;
        while j < b.len() && b[j] == b[i] && j - i < 255 {
            j += 1;
        }
        runs += 1;
        i = j;
    }
    len(2 * runs) + 2 * runs
}

///Bytes a value may take without a dictionary.
pub fn bound(v: &Value) -> usize {
    1 + match v {
        Value::Null(()) | Value::Boolean(_) => 0,
        Value::Character(c) => int(Num::u((*c as u32).into())),
        Value::String(s) => len(s.len()) + s.len(),
        Value::Binary(b) => {
            let raw = len(b.0.len()) + b.0.len();
            raw.min(rle_size(&b.0)).min(lz(&b.0).len()).min(huffman(&b.0).len()).min(rle(&b.0).len())
        }
        Value::Integer(i) => of(i),
        Value::Imaginary(Imaginary::CartesianForm { real, imaginary }) => of(real) + of(imaginary),
        Value::Imaginary(Imaginary::PolarForm { .. }) => 16,
        Value::Timestamp(t) => int(Num::i(t.date().year().into())) + 5 + int(Num::u(t.time().nanosecond().into())),
        Value::JSON(j) => bound(&Value::String(j.to_string())),
        Value::Timezone(t) => bound(&Value::String(t.name().into())),
        Value::SingleFloat(_) | Value::Ipv4Addr(_) => 4,
        Value::DoubleFloat(_) => 8,
        Value::Ipv6Addr(_) => 16,
        Value::Array(a) => (if a.len() > 6 { len(a.len()) } else { 0 }) + a.iter().map(bound).sum::<usize>(),
        Value::Map(m) => (if m.len() > 6 { len(m.len()) } else { 0 }) + m.iter().map(|(k, v)| bound(&Value::String(k.clone())) + bound(v)).sum::<usize>(),
    }
}

fn within(l: &mut L, v: &Value, key: &dyn Fn() -> String) -> usize {
    let n = v.ser(None).len();
    let max = bound(v);
    l.call(1);
    l.saw(n as u64);
    l.check(n <= max, key, || format!("takes {n} bytes, should take at most {max}"));
    n
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    let ns = numbers(if t { 40 } else { 8 });
    ck.section("integers", "every number around every boundary, from every native type", ns.len() as u64, |i, l| {
        let n = ns[i as usize];
        l.case(&i, true);
        let mut sizes = vec![];
        for ty in 0..12 {
            if let Some(x) = make(n, ty) {
                let b = x.ser().1.len();
                l.call(1);
                l.check(b <= int(n), || format!("{}:{}", n.text(), TYPES[ty]), || format!("takes {b} bytes, should take at most {}", int(n)));
                sizes.push(b);
                sizes.push(within(l, &Value::Integer(x), &|| format!("value:{}:{}", n.text(), TYPES[ty])) - 1);
            }
        }
        if let Ok(x) = n.text().parse::<Integer>() {
            sizes.push(x.ser().1.len());
        }
        if let Some(j) = n.to_i().and_then(|v| i64::try_from(v).ok()) {
            if let Some(x) = Integer::from_json(&j.into()) {
                sizes.push(x.ser().1.len());
            }
        }
        //what arithmetic gives is as small as what was written
        if !n.neg && n.mag > 1 {
            let one = make(Num::u(1), 5).unwrap();
            if let Some(less) = make(Num::u(n.mag - 1), 5) {
                sizes.push((less + one).ser().1.len());
            }
            if let Some(more) = n.mag.checked_add(1).and_then(|m| make(Num::u(m), 5)) {
                sizes.push((more - one).ser().1.len());
            }
        }
        if n.neg || n.mag < 1 << 126 {
            let one = make(Num::u(1), 11).unwrap();
            if let Some(x) = n.to_i().and_then(|v| v.checked_add(1)).and_then(|v| make(Num::i(v), 11)) {
                sizes.push((x - one).ser().1.len());
            }
            if let Some(x) = n.to_i().and_then(|v| v.checked_sub(1)).and_then(|v| make(Num::i(v), 11)) {
                sizes.push((x + one).ser().1.len());
            }
        }
        l.check(sizes.iter().all(|s| *s == sizes[0]), || format!("{}:ways", n.text()), || format!("takes different sizes depending on how it was made: {sizes:?}"));
    });
    ck.section("first-integers", "every integer of 24 bits, positive and negative", 1 << 16, |i, l| {
        l.case(&i, true);
        for k in 0..256_u32 {
            let m = (i as u32) << 8 | k;
            for v in [i64::from(m), -i64::from(m)] {
                let n = Num::i(v.into());
                let b = Integer::from(v).ser().1.len();
                l.calls += 1;
                l.check(b <= int(n), || format!("{v}"), || format!("takes {b} bytes, should take at most {}", int(n)));
            }
        }
    });
    let ls = leaves();
    ck.section("leaves", "every boundary leaf of all 16 kinds", ls.len() as u64, |i, l| {
        let v = &ls[i as usize];
        l.case(&i, true);
        let n = within(l, v, &|| name(v));
        //and again after reading it back
        let bytes = v.ser(None);
        if let Ok(back) = Value::deser(&mut sourisdb::utilities::cursor::Cursor::new(&bytes), None) {
            if exact(v, &back) {
                l.check(back.ser(None).len() == n, || format!("{}:again", name(v)), || "has another size after being read back".into());
            }
        }
    });
    ck.section("chars", "every character", 0x11_0000, |i, l| {
        let Some(c) = char::from_u32(i as u32) else {
            l.case(&0, false);
            return;
        };
        l.case(&i, true);
        within(l, &Value::Character(c), &|| format!("char:U+{i:04X}"));
        within(l, &Value::String(c.to_string()), &|| format!("str:U+{i:04X}"));
    });
    let lens: Vec<usize> = (0..=520).chain([1000, 4095, 4096, 65534, 65535, 65536, 65537, 100_000]).collect();
    ck.section("lengths", "text, binary, arrays and maps of every length 0..=520 and around 64Ki", lens.len() as u64 * 6, |i, l| {
        let n = lens[i as usize / 6];
        l.case(&i, true);
        let v = match i % 6 {
            0 => Value::String("x".repeat(n)),
            1 => Value::String("é🖖z".chars().cycle().take(n).collect()),
            2 => Value::Binary(BinaryData((0..n).map(|j| (j * j * 7 + j) as u8).collect())),
            3 => Value::Binary(BinaryData(vec![9; n])),
            4 => Value::Array(vec![Value::Null(()); n]),
            _ => Value::Map((0..n).map(|j| (j.to_string(), Value::Boolean(j % 2 == 0))).collect()),
        };
        within(l, &v, &|| format!("form{}:len{n}", i % 6));
    });
    let a = 3;
    let max = if t { 11 } else { 9 };
    ck.section("binary", &format!("every binary over 3 bytes up to {max} long"), string_count(a, max), |i, l| {
        let b: Vec<u8> = nth_string(i, a).into_iter().map(|x| [0, 7, 255][x as usize]).collect();
        l.case(&i, true);
        within(l, &Value::Binary(BinaryData(b.clone())), &|| format!("bin:{}", crate::ck::hex(&b)));
    });
    let tl = tiny_leaves();
    let tr = trees(if t { 6 } else { 5 }, if t { &tl[..5] } else { &tl });
    ck.section("trees", "every nesting of arrays and maps of up to 5 (6) nodes", tr.len() as u64, |i, l| {
        l.case(&i, true);
        within(l, &tr[i as usize], &|| name(&tr[i as usize]));
    });
    for n in 2..=(if t { 7 } else { 6 }) {
        let perms = permutations(n);
        ck.section(&format!("orders-{n}"), "the same map built in every order and walked in every order", perms.len() as u64, |i, l| {
            let p = &perms[i as usize];
            l.case(&i, true);
            let mut sizes = vec![];
            for (walk, build) in [(true, true), (true, false), (false, true)] {
                if walk {
                    foldhash::control::set_order(p);
                } else {
                    foldhash::control::set_seed(i + 3);
                }
                let mut m = HashMap::with_capacity(if build { 0 } else { 64 });
                for j in 0..n {
                    let j = if build { p[j] as usize } else { j };
                    m.insert(char::from(b'a' + j as u8).to_string(), Value::String("z".repeat(j * 100)));
                }
                sizes.push(within(l, &Value::Map(m), &|| format!("order{p:?}").replace(' ', "")));
            }
            l.check(sizes.iter().all(|s| *s == sizes[0]), || format!("order{p:?}:ways").replace(' ', ""), || format!("sizes {sizes:?}"));
            foldhash::control::set_seed(0);
        });
    }
    //small states in the header: every kind under every small container
    let few = few_leaves();
    ck.section("headers", "every representative leaf in arrays and maps of 0 to 9 entries", few.len() as u64 * 20, |i, l| {
        let (v, n) = (&few[i as usize / 20], i as usize % 10);
        l.case(&i, true);
        let c = if i / 10 % 2 == 0 { Value::Array(vec![v.clone(); n]) } else { Value::Map((0..n).map(|j| (j.to_string(), v.clone())).collect()) };
        let size = within(l, &c, &|| format!("{}x{n}", name(v)));
        let each = v.ser(None).len() + if i / 10 % 2 == 0 { 0 } else { 3 };
        let want = 1 + usize::from(n > 6) + n * each;
        l.check(size <= want, || format!("{}x{n}:sum", name(v)), || format!("takes {size}, should take at most {want}"));
    });
}
