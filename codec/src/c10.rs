//! C10: equality and hashing of values obey their contracts.
use crate::{
    ck::{h64, Ck, L},
    corpus::*,
};
use hashbrown::{HashMap, HashSet};
use serde_json::{json, Value as J};
use sourisdb::{
    store::Store,
    types::{binary::BinaryData, imaginary::Imaginary, integer::Integer},
    values::Value,
};
use std::hash::{BuildHasher, Hash, Hasher};

#[derive(Clone, Copy, PartialEq, Debug)]
enum Must {
    Equal,
    Differ,
    ///The statement leaves it open, as between the two zeros.
    Either,
}
use Must::{Differ, Either, Equal};

fn and(a: Must, b: Must) -> Must {
    match (a, b) {
        (Differ, _) | (_, Differ) => Differ,
        (Equal, Equal) => Equal,
        _ => Either,
    }
}
fn floats(a: f64, b: f64) -> Must {
    if a.to_bits() == b.to_bits() {
        Equal
    } else if a == b || a.is_nan() && b.is_nan() {
        Either
    } else {
        Differ
    }
}
fn is(b: bool) -> Must {
    if b {
        Equal
    } else {
        Differ
    }
}
fn jsons_must(a: &J, b: &J) -> Must {
    match (a, b) {
        (J::Number(x), J::Number(y)) => {
            if json_exact(a, b) {
                Equal
            } else if x.as_f64() == y.as_f64() && x.is_f64() != y.is_f64() || x.is_f64() && y.is_f64() && x.as_f64() == y.as_f64() {
                Either
            } else {
                Differ
            }
        }
        (J::Array(a), J::Array(b)) => {
            if a.len() != b.len() {
                return Differ;
            }
            a.iter().zip(b).fold(Equal, |m, (a, b)| and(m, jsons_must(a, b)))
        }
        (J::Object(a), J::Object(b)) => {
            if a.len() != b.len() {
                return Differ;
            }
            a.iter().fold(Equal, |m, (k, v)| and(m, b.get(k).map_or(Differ, |w| jsons_must(v, w))))
        }
        _ => is(json_exact(a, b)),
    }
}

fn must(a: &Value, b: &Value) -> Must {
    match (a, b) {
        (Value::DoubleFloat(a), Value::DoubleFloat(b)) => floats(*a, *b),
        (Value::SingleFloat(a), Value::SingleFloat(b)) => {
            if a.to_bits() == b.to_bits() {
                Equal
            } else if a == b || a.is_nan() && b.is_nan() {
                Either
            } else {
                Differ
            }
        }
        (Value::Imaginary(Imaginary::PolarForm { modulus: m, argument: g }), Value::Imaginary(Imaginary::PolarForm { modulus: n, argument: h })) => and(floats(*m, *n), floats(*g, *h)),
        (Value::Imaginary(Imaginary::PolarForm { .. }), Value::Imaginary(Imaginary::CartesianForm { .. })) | (Value::Imaginary(Imaginary::CartesianForm { .. }), Value::Imaginary(Imaginary::PolarForm { .. })) => Either,
        (Value::JSON(a), Value::JSON(b)) => jsons_must(a, b),
        (Value::Array(a), Value::Array(b)) => {
            if a.len() != b.len() {
                return Differ;
            }
            a.iter().zip(b).fold(Equal, |m, (a, b)| and(m, must(a, b)))
        }
        (Value::Map(a), Value::Map(b)) => {
            if a.len() != b.len() {
                return Differ;
            }
            a.iter().fold(Equal, |m, (k, v)| and(m, b.get(k).map_or(Differ, |w| must(v, w))))
        }
        _ => is(exact(a, b)),
    }
}

///Every byte that gets hashed, so that agreement is not by chance or by a weak mixer.
#[derive(Default)]
struct Tape(Vec<u8>);
impl Hasher for Tape {
    fn write(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }
    fn finish(&self) -> u64 {
        h64(&self.0)
    }
}
fn hashes(v: &Value) -> (u64, u64, u64) {
    let mut t = Tape::default();
    v.hash(&mut t);
    let mut d = std::collections::hash_map::DefaultHasher::new();
    v.hash(&mut d);
    (t.finish(), d.finish(), foldhash::fast::FixedState::default().hash_one(v))
}

fn pair(l: &mut L, a: &Value, b: &Value) -> bool {
    let (ab, ba) = (a == b, b == a);
    l.calls += 2;
    let m = must(a, b);
    let key = || format!("{}|{}", name(a), name(b));
    l.check(ab == ba, || format!("symmetry:{}", key()), || format!("{ab} one way and {ba} the other"));
    l.check((a != b) != ab, || format!("negation:{}", key()), || "both equal and not".into());
    l.check(m != Equal || ab, || format!("equal:{}", key()), || "should be equal".into());
    l.check(m != Differ || !ab, || format!("differ:{}", key()), || "should differ".into());
    if ab {
        l.calls += 2;
        l.check(hashes(a) == hashes(b), || format!("hash:{}", key()), || "equal, but hash differently".into());
    }
    ab
}

///Things which are close to one another.
fn near() -> Vec<Value> {
    let mut v = leaves();
    v.extend(odd_json().into_iter().map(Value::JSON));
    v.extend([json!(1), json!(1.0), json!(0), json!(0.0), json!(-0.0), json!([1]), json!([1.0]), json!({"a": 0.0}), json!({"a": -0.0}), json!({"a": 1, "b": 2}), json!(9007199254740993_u64), json!(9007199254740992.0)].map(Value::JSON));
    //the same small payload under every kind that can carry it
    v.extend([Value::Character('1'), Value::String("1".into()), Value::Binary(BinaryData(vec![1])), Value::Integer(Integer::from(1_u8)), Value::Integer(Integer::from(1_i8)), Value::SingleFloat(1.0), Value::DoubleFloat(1.0), Value::Boolean(true), Value::JSON(json!("1")), Value::JSON(json!(true))]);
    v.extend([Value::Imaginary(Imaginary::CartesianForm { real: Integer::from(1_u8), imaginary: Integer::from(0_u8) }), Value::Imaginary(Imaginary::PolarForm { modulus: 1.0, argument: 0.0 })]);
    v.extend([Value::Array(vec![Value::Null(())]), Value::Array(vec![Value::Null(()), Value::Null(())]), Value::Array(vec![Value::Array(vec![])]), map_of(vec![("".into(), Value::Null(()))])]);
    v
}

fn matrix(ck: &Ck, name_: &str, bounds: &str, vs: &[Value]) {
    let n = vs.len();
    ck.section(name_, bounds, n as u64, |i, l| {
        let a = &vs[i as usize];
        l.case(&i, true);
        l.sample(|| name(a));
        //the class of `a` seen from `a`, and the same seen from each of its members
        let class: Vec<usize> = (0..n).filter(|j| pair(l, a, &vs[*j])).collect();
        l.saw(class.len() as u64);
        l.check(class.contains(&(i as usize)), || format!("reflexive:{}", name(a)), || "not equal to itself".into());
        let c = a.clone();
        pair(l, a, &c);
        for j in &class {
            for k in &class {
                l.calls += 1;
                l.check(vs[*j] == vs[*k], || format!("transitive:{}|{}|{}", name(&vs[*j]), name(a), name(&vs[*k])), || "both equal to a third, but not to each other".into());
            }
        }
    });
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    let vs = near();
    matrix(ck, "leaf-pairs", &format!("every ordered pair of {} boundary leaves, and every chain of three equal ones", vs.len()), &vs);
    let tl = tiny_leaves();
    let few: Vec<Value> = [Value::DoubleFloat(0.0), Value::DoubleFloat(f64::NAN), Value::DoubleFloat(-f64::NAN), Value::JSON(json!({"a": 1}))].into_iter().chain(tl.iter().cloned()).collect();
    let tr = trees(4, &few);
    //all pairs of the smaller ones
    matrix(ck, "tree-pairs", &format!("every ordered pair of {} trees of up to 4 nodes over 12 leaves", tr.len()), &tr);
    let tr4 = trees(if t { 6 } else { 5 }, &few[..3]);
    matrix(ck, "deeper-tree-pairs", &format!("every ordered pair of {} trees of up to 5 (6) nodes over 3 leaves", tr4.len()), &tr4);
    ck.section("trees-with-copies", "each tree of up to 4 nodes over 12 leaves, against its copy and against every tree one leaf away", tr.len() as u64, |i, l| {
        let v = &tr[i as usize];
        l.case(&i, true);
        let c = rebuilt(v, i);
        pair(l, v, &c);
        for n in 0..leaf_count(v) {
            for by in &few {
                let mut k = n;
                let w = replaced(v, &mut k, by);
                pair(l, v, &w);
            }
        }
    });
    //integers made in every way
    let ns = numbers(1);
    ck.section("integers", "every boundary number from every native type, text, bytes and arithmetic, against each other and its neighbours", ns.len() as u64, |i, l| {
        let n = ns[i as usize];
        l.case(&i, true);
        let ways = |n: Num| -> Vec<Value> {
            let mut v: Vec<Integer> = (0..12).filter_map(|ty| make(n, ty)).collect();
            v.extend(n.text().parse::<Integer>());
            let copy = v.clone();
            for x in copy {
                let (s, b) = x.ser();
                v.extend(Integer::deser(s, &mut sourisdb::utilities::cursor::Cursor::new(&b)));
            }
            if let (Some(a), Some(b)) = (make(n, 5), make(Num::u(0), 5)) {
                v.push(a + b);
            }
            if let (Some(a), Some(b)) = (make(n, 11), make(Num::u(0), 11)) {
                v.push(a + b);
                v.push(a - b);
            }
            v.into_iter().map(Value::Integer).collect()
        };
        let mine = ways(n);
        for a in &mine {
            for b in &mine {
                pair(l, a, b);
            }
        }
        for other in [ns[(i as usize + 1) % ns.len()], Num { neg: !n.neg && n.mag != 0 && n.mag <= 1 << 127, mag: n.mag }, Num::u(n.mag >> 8), Num::u(n.mag & 0xFF)] {
            for a in &mine {
                for b in &ways(other) {
                    pair(l, a, b);
                }
            }
        }
    });
    //maps and stores however they came to be
    for n in 2..=(if t { 7 } else { 6 }) {
        let perms = permutations(n);
        let np = perms.len() as u64;
        ck.section(&format!("histories-{n}"), "the same entries inserted in every order and walked in every order, with and without detours, as store, map, nested map and hash key", np * np, |i, l| {
            let (ins, walk) = (&perms[(i / np) as usize], &perms[(i % np) as usize]);
            l.case(&i, true);
            let key = |j: usize| char::from(b'a' + j as u8).to_string();
            let val = |j: usize| match j {
                0 => Value::from(1_u8),
                1 => Value::String("b".into()),
                2 => map_of(vec![("x".into(), Value::Null(())), ("y".into(), Value::DoubleFloat(0.5))]),
                3 => Value::Array(vec![Value::Boolean(true)]),
                _ => Value::from(j as u64),
            };
            foldhash::control::set_order(walk);
            let mut a = HashMap::new();
            for j in ins {
                a.insert(key(*j as usize), val(*j as usize));
            }
            //another walk, with detours: more entries which then go, an overwritten one, room to spare
            foldhash::control::set_order(&perms[0]);
            let mut b = HashMap::with_capacity(100);
            for j in 0..n {
                b.insert(key(j), Value::Null(()));
                b.insert(format!("extra{j}"), Value::Null(()));
            }
            for j in (0..n).rev() {
                b.remove(&format!("extra{j}"));
                b.insert(key(j), val(j));
            }
            foldhash::control::set_seed(0);
            let (sa, sb) = (Store::new(a.clone()), Store::new(b.clone()));
            l.calls += 2;
            l.check(sa == sb && sb == sa, || format!("store:{i}"), || "stores with the same entries are not equal".into());
            let (va, vb) = (Value::Map(a), Value::Map(b));
            pair(l, &va, &vb);
            pair(l, &Value::Array(vec![va.clone()]), &Value::Array(vec![vb.clone()]));
            pair(l, &map_of(vec![("m".into(), va.clone())]), &map_of(vec![("m".into(), vb.clone())]));
            let mut set = HashSet::new();
            set.insert(va.clone());
            l.check(set.contains(&vb) && !set.insert(vb.clone()), || format!("key:{i}"), || "not found as a hash key".into());
            //and one entry off
            let Value::Map(mut m) = vb else { unreachable!() };
            m.insert(key(0), Value::from(2_u8));
            pair(l, &va, &Value::Map(m.clone()));
            m.remove(&key(0));
            pair(l, &va, &Value::Map(m.clone()));
            m.insert("other".into(), val(0));
            pair(l, &va, &Value::Map(m));
        });
    }
    //hashed collections over everything
    ck.section("as-keys", "every boundary leaf as a key of sets and maps of all of them, under several seeds", vs.len() as u64, |i, l| {
        let a = &vs[i as usize];
        l.case(&i, true);
        foldhash::control::set_seed(i % 5);
        let mut m: HashMap<Value, u64> = HashMap::new();
        for (j, v) in vs.iter().enumerate().skip((i as usize).saturating_sub(40)).take(80) {
            m.insert(v.clone(), j as u64);
        }
        m.insert(a.clone(), i);
        l.calls += 2;
        l.check(m.get(&a.clone()) == Some(&i), || format!("get:{}", name(a)), || "not found under itself".into());
        l.check(m.remove(a) == Some(i) && !m.contains_key(a), || format!("remove:{}", name(a)), || "still there after being removed".into());
        let mut s = std::collections::HashSet::new();
        s.insert(a.clone());
        l.check(s.contains(&a.clone()) && s.remove(a), || format!("std:{}", name(a)), || "not found in a standard set".into());
        foldhash::control::set_seed(0);
    });
}

///The same value, built again in another order.
fn rebuilt(v: &Value, seed: u64) -> Value {
    match v {
        Value::Array(a) => Value::Array(a.iter().map(|v| rebuilt(v, seed)).collect()),
        Value::Map(m) => {
            let mut e: Vec<_> = m.iter().collect();
            e.sort_by_key(|(k, _)| std::cmp::Reverse(*k));
            foldhash::control::set_seed(seed + 1);
            let mut n = HashMap::with_capacity(30);
            for (k, v) in e {
                n.insert(k.clone(), rebuilt(v, seed));
            }
            foldhash::control::set_seed(0);
            Value::Map(n)
        }
        v => v.clone(),
    }
}
fn leaf_count(v: &Value) -> usize {
    match v {
        Value::Array(a) if !a.is_empty() => a.iter().map(leaf_count).sum(),
        Value::Map(m) if !m.is_empty() => m.values().map(leaf_count).sum(),
        _ => 1,
    }
}
fn replaced(v: &Value, n: &mut usize, by: &Value) -> Value {
    match v {
        Value::Array(a) if !a.is_empty() => Value::Array(a.iter().map(|v| replaced(v, n, by)).collect()),
        Value::Map(m) if !m.is_empty() => {
            let mut e: Vec<_> = m.iter().collect();
            e.sort_by_key(|(k, _)| *k);
            map_of(e.into_iter().map(|(k, v)| (k.clone(), replaced(v, n, by))).collect())
        }
        v => {
            let here = *n == 0;
            *n = n.wrapping_sub(1);
            if here {
                by.clone()
            } else {
                v.clone()
            }
        }
    }
}
