//! C09: JSON import and export lose nothing they promise to keep.
use crate::{
    c04::odd_field_values,
    ck::{hex, Ck, L},
    corpus::*,
};
use hashbrown::HashMap;
use serde_json::{json, Value as J};
use sourisdb::{
    store::Store,
    types::{binary::BinaryData, imaginary::Imaginary, integer::Integer},
    utilities::cursor::Cursor,
    values::Value,
};
use std::net::{Ipv4Addr, Ipv6Addr};

///A shape whose leaves are numbers.
#[derive(Clone, Debug)]
pub enum T {
    Leaf(u8),
    Arr(Vec<T>),
    Obj(Vec<(u8, T)>),
}

pub const KEYS: [&str; 3] = ["JSON", "a", ""];

///Every shape with exactly so many nodes.
pub fn shapes(nodes: usize, leaves: u8, keys: u8) -> Vec<T> {
    let mut by: Vec<Vec<T>> = vec![vec![]];
    for n in 1..=nodes {
        let mut here: Vec<T> = vec![];
        if n == 1 {
            here.extend((0..leaves).map(T::Leaf));
        }
        //children in order, sizes summing to n - 1
        let mut lists: Vec<(usize, Vec<T>)> = vec![(n - 1, vec![])];
        while let Some((left, list)) = lists.pop() {
            if left == 0 {
                //as an array, and as an object with every choice of keys in order
                let k = list.len();
                if k <= keys as usize {
                    for mask in 0..1_u32 << keys {
                        if mask.count_ones() as usize == k {
                            let ks = (0..keys).filter(|b| mask >> b & 1 == 1);
                            here.push(T::Obj(ks.zip(list.iter().cloned()).collect()));
                        }
                    }
                }
                here.push(T::Arr(list));
            } else {
                for s in 1..=left {
                    for c in &by[s] {
                        let mut l = list.clone();
                        l.push(c.clone());
                        lists.push((left - s, l));
                    }
                }
            }
        }
        by.push(here);
    }
    by.into_iter().flatten().collect()
}

fn doc(t: &T, leaves: &[J]) -> J {
    match t {
        T::Leaf(n) => leaves[*n as usize].clone(),
        T::Arr(a) => J::Array(a.iter().map(|t| doc(t, leaves)).collect()),
        T::Obj(o) => J::Object(o.iter().map(|(k, t)| (KEYS[*k as usize].to_string(), doc(t, leaves))).collect()),
    }
}
fn val(t: &T, leaves: &[Value]) -> Value {
    match t {
        T::Leaf(n) => leaves[*n as usize].clone(),
        T::Arr(a) => Value::Array(a.iter().map(|t| val(t, leaves)).collect()),
        T::Obj(o) => map_of(o.iter().map(|(k, t)| (KEYS[*k as usize].to_string(), val(t, leaves))).collect()),
    }
}

fn key_of(j: &J) -> String {
    name(&Value::JSON(j.clone()))
}

///A document goes in and comes out the same, every way in and every way out.
pub fn document(l: &mut L, j: &J) {
    let key = || key_of(j);
    l.call(8);
    match Value::convert_from_json(j.clone()) {
        Ok(v) => {
            for tags in [false, true] {
                let back = v.clone().convert_to_json(tags);
                l.check(back.as_ref().is_some_and(|b| json_exact(b, j)), || format!("value:{}", key()), || format!("came back as {back:?} (tags {tags})"));
            }
            let bytes = v.ser(None);
            let again = Value::deser(&mut Cursor::new(&bytes), None).ok().and_then(|v| v.convert_to_json(false));
            l.check(again.as_ref().is_some_and(|b| json_exact(b, j)), || format!("value-bytes:{}", key()), || format!("came back as {again:?}"));
        }
        Err(e) => l.fail(format!("value:{}", key()), format!("refused: {e}")),
    }
    match Store::from_json(j.clone()) {
        Ok(s) => {
            for tags in [false, true] {
                let back = s.clone().to_json(tags);
                l.check(back.as_ref().is_some_and(|b| json_exact(b, j)), || format!("store:{}", key()), || format!("came back as {back:?} (tags {tags})"));
            }
            let again = Store::deser(&s.ser()).ok().and_then(|s| s.to_json(false));
            l.check(again.as_ref().is_some_and(|b| json_exact(b, j)), || format!("store-bytes:{}", key()), || format!("came back as {again:?}"));
        }
        Err(e) => l.fail(format!("store:{}", key()), format!("refused: {e}")),
    }
    let text = j.to_string();
    //what the parser itself makes of the text
    if serde_json::from_str::<J>(&text).is_ok_and(|p| json_exact(&p, j)) {
        let back = Store::from_json_bytes(text.as_bytes()).ok().and_then(|s| s.to_json(false));
        l.check(back.as_ref().is_some_and(|b| json_exact(b, j)), || format!("store-text:{}", key()), || format!("came back as {back:?}"));
        let back = Store::from_json_bytes(text.as_bytes()).ok().and_then(|s| s.to_json(false)).map(|j| j.to_string()).and_then(|t| Store::from_json_bytes(t.as_bytes()).ok()).and_then(|s| s.to_json(false));
        l.check(back.as_ref().is_some_and(|b| json_exact(b, j)), || format!("store-text-twice:{}", key()), || format!("came back as {back:?}"));
    }
}

///Whether JSON or the tags can carry it: yes, no, or not promised either way.
pub fn carried(v: &Value) -> Option<bool> {
    let int = |i: &Integer| num_of(i).is_some_and(|n| if n.neg { n.mag <= 1 << 63 } else { n.mag <= u128::from(u64::MAX) });
    match v {
        Value::Integer(i) => Some(int(i)),
        Value::DoubleFloat(f) => Some(f.is_finite()),
        Value::SingleFloat(f) => {
            if f.is_finite() {
                None
            } else {
                Some(false)
            }
        }
        Value::Imaginary(Imaginary::CartesianForm { real, imaginary }) => Some(int(real) && int(imaginary)),
        Value::Imaginary(Imaginary::PolarForm { modulus, argument }) => Some(modulus.is_finite() && argument.is_finite()),
        Value::Null(()) | Value::Boolean(_) | Value::String(_) | Value::Timestamp(_) | Value::Timezone(_) | Value::Binary(_) | Value::Ipv4Addr(_) | Value::Ipv6Addr(_) => Some(true),
        Value::Character(_) | Value::JSON(_) => None,
        Value::Array(a) => all(a.iter().map(carried)),
        Value::Map(m) => all(m.iter().map(|(k, v)| if k == "souris_type" { None } else { carried(v) })),
    }
}
fn all(i: impl Iterator<Item = Option<bool>>) -> Option<bool> {
    let mut r = Some(true);
    for x in i {
        match x {
            Some(false) => return Some(false),
            None => r = None,
            Some(true) => {}
        }
    }
    r
}

///Export with tags and import again.
pub fn tagged(l: &mut L, v: &Value, at: &str) {
    let key = || format!("{at}:{}", name(v));
    l.call(2);
    let out = v.clone().convert_to_json(true);
    let plain = v.clone().convert_to_json(false);
    match carried(v) {
        Some(false) => {
            l.check(out.is_none(), &key, || format!("has no JSON form, but exported as {out:?}"));
            l.check(plain.is_none(), || format!("plain:{}", key()), || format!("has no JSON form, but exported as {plain:?}"));
        }
        c => {
            l.check(plain.is_some(), || format!("plain:{}", key()), || "could not be exported".into());
            let Some(out) = out else {
                l.fail(key(), "could not be exported");
                return;
            };
            if c == Some(true) {
                l.call(2);
                //also through text, where the parser reads its own numbers back
                let text = out.to_string();
                let mut forms = vec![out.clone()];
                if let Ok(p) = serde_json::from_str::<J>(&text) {
                    if json_exact(&p, &out) {
                        forms.push(p);
                    }
                }
                for f in forms {
                    match Value::convert_from_json(f) {
                        Ok(back) => {
                            l.check(exact(&back, v), &key, || format!("came back as {} from {text}", name(&back)));
                        }
                        Err(e) => l.fail(key(), format!("could not be imported: {e} from {text}")),
                    }
                }
            } else if let (Value::Character(ch), Some(J::String(s))) = (v, &plain) {
                l.check(s.chars().eq([*ch]), &key, || format!("exported as {s:?}"));
            } else if let (Value::JSON(j), Some(p)) = (v, &plain) {
                l.check(json_exact(j, p), &key, || format!("exported as {p}"));
            } else if let (Value::SingleFloat(f), Some(p)) = (v, &plain) {
                l.check(p.as_f64() == Some(f64::from(*f)), &key, || format!("exported as {p}"));
            }
        }
    }
}

fn tagged_store(l: &mut L, m: HashMap<String, Value>, at: &str) {
    let key = || format!("{at}:{}", name(&Value::Map(m.clone())));
    let s = Store::new(m.clone());
    l.call(3);
    let out = s.clone().to_json(true);
    match carried(&Value::Map(m.clone())) {
        Some(false) => {
            l.check(out.is_none(), &key, || format!("has no JSON form, but exported as {out:?}"));
            l.check(s.to_json(false).is_none(), || format!("plain:{}", key()), || "has no JSON form, but exported".into());
        }
        Some(true) => {
            let Some(out) = out else {
                l.fail(key(), "could not be exported");
                return;
            };
            match Store::from_json(out.clone()) {
                Ok(back) => {
                    l.check(exact(&Value::Map((*back).clone()), &Value::Map(m.clone())), &key, || format!("came back as {} from {out}", name(&Value::Map((*back).clone()))));
                }
                Err(e) => l.fail(key(), format!("could not be imported: {e} from {out}")),
            }
        }
        None => {}
    }
}

#[derive(Debug)]
enum Import {
    Is(Value),
    Error,
    ///An error, or exactly that.
    Perhaps(Value),
    Open,
}

///What an object with a type tag and only the fields of that type has to give.
fn reference(ty: u64, o: &serde_json::Map<String, J>) -> Import {
    let small = |j: Option<&J>, max: u64| -> Result<Option<Vec<u64>>, ()> {
        //Ok(None): not for sure
        let Some(J::Array(a)) = j else { return Err(()) };
        let mut v = vec![];
        let mut sure = true;
        for x in a {
            match x.as_u64() {
                Some(n) if n <= max => v.push(n),
                Some(_) => return Err(()),
                None => match x.as_f64() {
                    Some(f) if f.fract() == 0.0 && f >= 0.0 && f <= max as f64 && x.is_f64() => sure = false,
                    _ => return Err(()),
                },
            }
        }
        Ok(sure.then_some(v))
    };
    match ty {
        2 => match small(o.get("bytes"), 255) {
            Ok(Some(v)) => Import::Is(Value::Binary(BinaryData(v.into_iter().map(|x| x as u8).collect()))),
            Ok(None) => Import::Open,
            Err(()) => Import::Error,
        },
        5 => {
            let int = |j: Option<&J>| -> Result<Option<Integer>, ()> {
                match j {
                    Some(J::Number(n)) => match (n.as_u64(), n.as_i64()) {
                        (Some(u), _) => Ok(Some(Integer::from(u))),
                        (_, Some(i)) => Ok(Some(Integer::from(i))),
                        _ if n.as_f64().is_some_and(|f| f.fract() == 0.0 && f.abs() < 1e18) => Ok(None),
                        _ => Err(()),
                    },
                    _ => Err(()),
                }
            };
            let has = |k| o.contains_key(k);
            let (cart, pol) = (has("real") || has("imaginary"), has("modulus") || has("argument"));
            if cart && pol {
                return Import::Open;
            }
            if cart {
                return match (int(o.get("real")), int(o.get("imaginary"))) {
                    (Ok(Some(real)), Ok(Some(imaginary))) => Import::Is(Value::Imaginary(Imaginary::CartesianForm { real, imaginary })),
                    (Err(()), _) | (_, Err(())) => Import::Error,
                    _ => Import::Open,
                };
            }
            match (o.get("modulus"), o.get("argument")) {
                (Some(J::Number(m)), Some(J::Number(a))) => {
                    let v = Value::Imaginary(Imaginary::PolarForm { modulus: m.as_f64().unwrap_or(f64::NAN), argument: a.as_f64().unwrap_or(f64::NAN) });
                    if m.is_f64() && a.is_f64() {
                        Import::Is(v)
                    } else {
                        Import::Perhaps(v)
                    }
                }
                _ => Import::Error,
            }
        }
        6 => match o.get("timestamp") {
            Some(J::String(s)) => match s.as_str() {
                "2024-02-29T23:59:59" => Import::Is(Value::Timestamp(ts(2024, 2, 29, 23, 59, 59, 0).unwrap())),
                "2024-02-29T23:59:60.5" => Import::Is(Value::Timestamp(ts(2024, 2, 29, 23, 59, 59, 1_500_000_000).unwrap())),
                "-262143-01-01T00:00:00" => Import::Is(Value::Timestamp(chrono::NaiveDateTime::MIN)),
                _ => Import::Error,
            },
            _ => Import::Error,
        },
        12 => match o.get("timezone") {
            Some(J::String(s)) => match s.as_str() {
                "UTC" => Import::Is(Value::Timezone(chrono_tz::UTC)),
                "Europe/London" => Import::Is(Value::Timezone(chrono_tz::Europe::London)),
                _ => Import::Error,
            },
            _ => Import::Error,
        },
        13 => match small(o.get("octets"), 255) {
            Ok(Some(v)) if v.len() == 4 => Import::Is(Value::Ipv4Addr(Ipv4Addr::new(v[0] as u8, v[1] as u8, v[2] as u8, v[3] as u8))),
            Ok(None) if o["octets"].as_array().is_some_and(|a| a.len() == 4) => Import::Open,
            _ => Import::Error,
        },
        14 => match small(o.get("octets"), 65535) {
            Ok(Some(v)) if v.len() == 8 => {
                let v: Vec<u16> = v.into_iter().map(|x| x as u16).collect();
                Import::Is(Value::Ipv6Addr(Ipv6Addr::new(v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7])))
            }
            Ok(None) if o["octets"].as_array().is_some_and(|a| a.len() == 8) => Import::Open,
            _ => Import::Error,
        },
        //the kinds that have no tagged form
        0..=15 => Import::Error,
        _ => Import::Open,
    }
}

fn fields(ty: u64) -> &'static [&'static str] {
    match ty {
        2 => &["bytes"],
        5 => &["real", "imaginary", "modulus", "argument"],
        6 => &["timestamp"],
        12 => &["timezone"],
        13 | 14 => &["octets"],
        _ => &["value"],
    }
}

fn import(l: &mut L, ty: u64, o: &J) {
    let key = || key_of(o);
    let want = reference(ty, o.as_object().unwrap());
    l.call(4);
    let direct = Value::convert_from_json(o.clone());
    let got = |v: &Value| match &want {
        Import::Is(w) | Import::Perhaps(w) => exact(v, w),
        Import::Error => false,
        Import::Open => true,
    };
    let ok = match &direct {
        Ok(v) => got(v),
        Err(_) => !matches!(want, Import::Is(_)),
    };
    l.check(ok, &key, || format!("imported as {:?}, should be {want:?}", direct.as_ref().map(name).map_err(ToString::to_string)));
    //inside other things, and as a whole store
    let inside = [json!([null, o]), json!({"x": 1, "y": o}), json!({"x": {"y": [[o]]}}), json!([o, o])];
    for j in inside {
        let r = Value::convert_from_json(j.clone());
        let e = Store::from_json(j);
        match &want {
            Import::Error => l.check(r.is_err() && e.is_err(), || format!("nested:{}", key()), || "a malformed tagged object was accepted inside another document".into()),
            Import::Is(_) => l.check(r.is_ok() && e.is_ok(), || format!("nested:{}", key()), || "a tagged object was refused inside another document".into()),
            _ => true,
        };
    }
    let s = Store::from_json(o.clone());
    let t = Store::from_json_bytes(o.to_string().as_bytes());
    match &want {
        Import::Error => l.check(s.is_err() && t.is_err(), || format!("store:{}", key()), || "a malformed tagged object was accepted as a store".into()),
        Import::Is(w) => l.check(s.is_ok_and(|s| s.len() == 1 && s.get("JSON").is_some_and(|v| exact(v, w))), || format!("store:{}", key()), || "a tagged object did not become the store's only entry".into()),
        _ => true,
    };
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    let ls = [json!(null), json!(7), json!(-2.5), json!("JSON")];
    let sh = shapes(if t { 6 } else { 5 }, 4, 3);
    ck.section("documents", "every document of up to 5 (6) nodes with arrays and objects over the keys JSON, a and the empty one, and 4 leaves", sh.len() as u64, |i, l| {
        let j = doc(&sh[i as usize], &ls);
        l.case(&i, true);
        l.sample(|| j.to_string());
        document(l, &j);
    });
    drop(sh);
    let sh = shapes(if t { 8 } else { 7 }, 1, 2);
    ck.section("wrapped-documents", "every document of up to 7 (8) nodes over the keys JSON and a, with one leaf", sh.len() as u64, |i, l| {
        let j = doc(&sh[i as usize], &[json!(1)]);
        l.case(&i, true);
        document(l, &j);
    });
    drop(sh);
    let mut scalars: Vec<J> = jsons().into_iter().chain(odd_json()).filter(|j| !j.to_string().contains("souris_type")).collect();
    scalars.extend(strings().into_iter().map(J::String));
    for n in numbers(1) {
        if let Some(i) = n.to_i().and_then(|i| i64::try_from(i).ok()) {
            scalars.push(json!(i));
        }
        if let Some(u) = n.to_u().and_then(|u| u64::try_from(u).ok()) {
            scalars.push(json!(u));
        }
    }
    ck.section("scalars", "every boundary number, float and text, alone and inside containers, under every odd key", scalars.len() as u64, |i, l| {
        let j = &scalars[i as usize];
        l.case(&i, true);
        document(l, j);
        document(l, &json!([j]));
        document(l, &json!({"JSON": j}));
        document(l, &json!({"JSON": {"JSON": j}}));
        document(l, &json!({"k": [j, j]}));
        if let J::String(s) = j {
            if s != "souris_type" {
                document(l, &json!({ s.as_str(): 1 }));
                document(l, &json!({ s.as_str(): {"JSON": s} }));
            }
        }
    });
    ck.section("big-documents", "documents with 0..=300 members, elements and levels", 301 * 4, |i, l| {
        let n = i as usize / 4;
        l.case(&i, true);
        let j = match i % 4 {
            0 => J::Array((0..n).map(|k| json!(k)).collect()),
            1 => J::Object((0..n).map(|k| (format!("k{k}"), json!(k as f64 + 0.5))).collect()),
            2 => (0..n.min(126)).fold(json!(1), |j, _| json!([j])),
            _ => (0..n.min(126)).fold(json!(1), |j, k| json!({ if k % 2 == 0 { "JSON" } else { "a" }: j })),
        };
        document(l, &j);
    });
    let odd = odd_leap_timestamps();
    ck.section("tagged-odd-leaps", "timestamps with a leap second that is not the 60th of its minute", odd.len() as u64, |i, l| {
        l.case(&i, true);
        tagged(l, &Value::Timestamp(odd[i as usize]), "alone");
    });
    let vs: Vec<Value> = leaves().into_iter().filter(|v| !matches!(v, Value::Timestamp(t) if odd.contains(t))).collect();
    ck.section("tagged-leaves", "every boundary leaf exported with tags and imported again, alone, in an array, in a map and as a store", vs.len() as u64, |i, l| {
        let v = &vs[i as usize];
        l.case(&i, true);
        tagged(l, v, "alone");
        tagged(l, &Value::Array(vec![Value::Null(()), v.clone()]), "array");
        let m = map_of(vec![("a".into(), v.clone())]);
        tagged(l, &m, "map");
        tagged(l, &map_of(vec![("JSON".into(), v.clone())]), "json-map");
        tagged(l, &Value::Array(vec![map_of(vec![("z".into(), Value::Array(vec![v.clone()])), ("JSON".into(), v.clone())])]), "deep");
        for k in ["a", "JSON"] {
            let mut s = HashMap::new();
            s.insert(k.to_string(), v.clone());
            tagged_store(l, s.clone(), &format!("store-{k}"));
            let mut outer = HashMap::new();
            outer.insert("JSON".to_string(), Value::Map(s.clone()));
            tagged_store(l, outer, &format!("store-JSON-{k}"));
            s.insert("other".into(), Value::Boolean(true));
            tagged_store(l, s, &format!("store-{k}-other"));
        }
    });
    let zs = chrono_tz::TZ_VARIANTS;
    ck.section("tagged-zones", "every time zone", zs.len() as u64, |i, l| {
        l.case(&i, true);
        tagged(l, &Value::Timezone(zs[i as usize]), "alone");
    });
    ck.section("tagged-dates", "the first of every month of every year a timestamp can have, and every second of a day as plain and sub-second", 524_287 + 86_400, |i, l| {
        l.case(&i, true);
        if i < 524_287 {
            let y = i as i32 - 262_143;
            for m in [1, 2, 12] {
                if let Some(x) = ts(y, m, 28, (i % 24) as u32, 59, 59, (i % 3) as u32 * 100_000_000) {
                    tagged(l, &Value::Timestamp(x), "alone");
                }
            }
        } else {
            let s = i as u32 - 524_287;
            for n in [0, 1, 1000, 1_000_000, 999_999_999, 100_000_000] {
                if let Some(x) = ts(2001, 2, 3, s / 3600, s / 60 % 60, s % 60, n) {
                    tagged(l, &Value::Timestamp(x), "alone");
                }
            }
            if s % 60 == 59 {
                if let Some(x) = ts(2001, 2, 3, s / 3600, s / 60 % 60, s % 60, 1_000_000_000 + s) {
                    tagged(l, &Value::Timestamp(x), "alone");
                }
            }
        }
    });
    //values of all kinds that can be carried, mixed
    let mix: Vec<Value> = vec![
        Value::Imaginary(Imaginary::CartesianForm { real: Integer::from(-3_i8), imaginary: Integer::from(240_u8) }),
        Value::Ipv4Addr(Ipv4Addr::new(1, 2, 3, 4)),
        Value::Binary(BinaryData(vec![1, 2, 3, 4])),
        Value::Integer(Integer::from(9_u8)),
    ];
    let bad: Vec<Value> = vec![Value::Integer(Integer::from(u128::MAX)), Value::DoubleFloat(f64::NAN), Value::Null(()), Value::Timezone(chrono_tz::UTC)];
    let sh = shapes(if t { 6 } else { 5 }, 4, 3);
    ck.section("tagged-shapes", "every value of up to 5 (6) nodes over 4 tagged or plain leaves, and with 2 leaves JSON cannot carry", sh.len() as u64, |i, l| {
        l.case(&i, true);
        for ls in [&mix, &bad] {
            let v = val(&sh[i as usize], ls);
            tagged(l, &v, "shape");
            if let Value::Map(m) = v {
                tagged_store(l, m, "store");
            }
        }
    });
    drop(sh);
    //malformed
    let vals = odd_field_values();
    let nv = vals.len() as u64;
    ck.section("malformed", "every type tag with each of its fields missing, present or doubled, and each of many values, alone, nested and as a store", 16 * (nv + 1) * (nv + 1), |i, l| {
        let (ty, a, b) = (i / ((nv + 1) * (nv + 1)), i / (nv + 1) % (nv + 1), i % (nv + 1));
        l.case(&i, true);
        let fs = fields(ty);
        let pairs: Vec<(usize, usize)> = if fs.len() == 1 {
            if b != nv {
                l.case(&0, false);
                return;
            }
            vec![(0, 0)]
        } else {
            vec![(0, 1), (2, 3), (1, 0), (3, 2)]
        };
        for (x, y) in pairs {
            let mut o = json!({ "souris_type": ty });
            if a < nv {
                o[fs[x]] = vals[a as usize].clone();
            }
            if b < nv && y != x {
                o[fs[y]] = vals[b as usize].clone();
            }
            import(l, ty, &o);
        }
    });
    //octets and bytes of every length and with one element off
    ck.section("malformed-arrays", "arrays of 0..=20 elements for bytes and octets, with each element out of range, of the wrong type, or right", 3 * 21 * 7, |i, l| {
        let (ty, n, how) = ([2, 13, 14][i as usize / 147], i as usize / 7 % 21, i % 7);
        l.case(&i, true);
        let off = [json!(256), json!(65536), json!(-1), json!("1"), json!(null), json!([1]), json!(u64::MAX)][how as usize].clone();
        let f = fields(ty)[0];
        let good: Vec<J> = (0..n).map(|k| json!(k * 11 % 256)).collect();
        import(l, ty, &json!({"souris_type": ty, f: good}));
        for at in 0..n {
            let mut a = good.clone();
            a[at] = off.clone();
            import(l, ty, &json!({"souris_type": ty, f: a}));
        }
    });
    let names = ["", " ", "x", "utc", "Europe/Nowhere", "Europe/", "UTC ", " UTC", "Europe/London\u{0}", "2024-01-01", "2024-13-01T00:00:00", "2024-01-32T00:00:00", "2024-01-01T24:00:00", "2024-01-01T00:60:00", "2023-02-29T00:00:00", "2024-01-01T00:00:00Z x", "T", "+1000000-01-01T00:00:00", "nonsense"];
    ck.section("malformed-text", "texts that are neither a time zone nor a timestamp", names.len() as u64 * 2, |i, l| {
        let (ty, n) = ([6, 12][i as usize % 2], names[i as usize / 2]);
        l.case(&i, true);
        //the parsers themselves say what is a time zone; only what no reading could accept is tried on them
        if ty == 12 && n == "utc" {
            return;
        }
        import(l, ty, &json!({"souris_type": ty, fields(ty)[0]: n}));
    });
    let _ = hex;
}
