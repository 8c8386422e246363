//! C14: a value gives its content to exactly the type it holds, and edits in place change exactly that.
use crate::{
    ck::{h64, Ck, L},
    corpus::*,
};
use chrono::NaiveDateTime;
use chrono_tz::Tz;
use hashbrown::HashMap;
use serde_json::Value as J;
use sourisdb::{
    store::{Store, StoreSerError},
    types::{binary::BinaryData, imaginary::Imaginary, integer::Integer},
    utilities::cursor::Cursor,
    values::{Value, ValueSerError, ValueTy},
};
use std::{
    collections::BTreeMap,
    net::{Ipv4Addr, Ipv6Addr},
};

///The kind, from the outside.
fn kind(v: &Value) -> ValueTy {
    match v {
        Value::Character(_) => ValueTy::Character,
        Value::String(_) => ValueTy::String,
        Value::Binary(_) => ValueTy::Binary,
        Value::Boolean(_) => ValueTy::Boolean,
        Value::Integer(_) => ValueTy::Integer,
        Value::Imaginary(_) => ValueTy::Imaginary,
        Value::Timestamp(_) => ValueTy::Timestamp,
        Value::JSON(_) => ValueTy::JSON,
        Value::Null(()) => ValueTy::Null,
        Value::SingleFloat(_) => ValueTy::SingleFloat,
        Value::DoubleFloat(_) => ValueTy::DoubleFloat,
        Value::Array(_) => ValueTy::Array,
        Value::Map(_) => ValueTy::Map,
        Value::Timezone(_) => ValueTy::Timezone,
        Value::Ipv4Addr(_) => ValueTy::Ipv4Addr,
        Value::Ipv6Addr(_) => ValueTy::Ipv6Addr,
    }
}

///Every way to one kind's content, on one value.
macro_rules! each {
    ($l:ident, $v:ident, $key:ident, $($variant:ident $t:ty: $is:ident $as:ident $as_mut:ident $to:ident $new:ident),+ $(,)?) => {
        $({
            let want = if let Value::$variant(x) = $v { Some(Value::$variant(x.clone())) } else { None };
            let which = stringify!($variant);
            let same = |got: Option<$t>| match (got.map(Value::$variant), &want) {
                (None, None) => true,
                (Some(a), Some(b)) => exact(&a, b),
                _ => false,
            };
            $l.call(7);
            $l.check($v.$is() == want.is_some(), || format!("{}:is:{which}", $key), || format!("says {}", $v.$is()));
            $l.check(same($v.$as().cloned()), || format!("{}:as:{which}", $key), || format!("{:?}", $v.$as()));
            let mut w = $v.clone();
            $l.check(same(w.$as_mut().map(|x| x.clone())), || format!("{}:as_mut:{which}", $key), || format!("{:?}", $v.clone().$as_mut()));
            $l.check(exact(&w, $v), || format!("{}:as_mut-changes:{which}", $key), || format!("{w:?}"));
            $l.check(same($v.clone().$to()), || format!("{}:to:{which}", $key), || format!("{:?}", $v.clone().$to()));
            match <$t>::try_from($v.clone()) {
                Ok(x) => {
                    $l.check(same(Some(x)), || format!("{}:try_from:{which}", $key), || "gives something else".into());
                }
                Err(ValueSerError::UnexpectedValueType { found, expected }) => {
                    $l.check(want.is_none() && found == kind($v) && expected == ValueTy::$variant, || format!("{}:try_from:{which}", $key), || format!("found {found:?}, expected {expected:?}"));
                }
                Err(e) => $l.fail(format!("{}:try_from:{which}", $key), format!("{e:?}")),
            }
            if let Some(x) = $v.clone().$to() {
                let made = Value::$new(x);
                $l.check(exact(&made, $v), || format!("{}:new:{which}", $key), || format!("{made:?}"));
            }
        })+
    };
}
fn access(l: &mut L, v: &Value, key: &str) {
    each!(l, v, key,
        Character char: is_char as_char as_mut_char to_char char,
        String String: is_str as_str as_mut_str to_str str,
        Boolean bool: is_bool as_bool as_mut_bool to_bool bool,
        Integer Integer: is_int as_int as_mut_int to_int int,
        Imaginary Imaginary: is_imaginary as_imaginary as_mut_imaginary to_imaginary imaginary,
        Timestamp NaiveDateTime: is_timestamp as_timestamp as_mut_timestamp to_timestamp timestamp,
        JSON J: is_json as_json as_mut_json to_json json,
        Null (): is_null as_null as_mut_null to_null null,
        DoubleFloat f64: is_double_float as_double_float as_mut_double_float to_double_float double_float,
        SingleFloat f32: is_single_float as_single_float as_mut_single_float to_single_float single_float,
        Array Vec<Value>: is_array as_array as_mut_array to_array array,
        Map HashMap<String, Value>: is_map as_map as_mut_map to_map map,
        Timezone Tz: is_tz as_tz as_mut_tz to_tz tz,
        Ipv4Addr Ipv4Addr: is_ipv4 as_ipv4 as_mut_ipv4 to_ipv4 ipv4,
        Ipv6Addr Ipv6Addr: is_ipv6 as_ipv6 as_mut_ipv6 to_ipv6 ipv6,
        Binary BinaryData: is_binary as_binary as_mut_binary to_binary binary,
    );
    //as a store, exactly if it is a map
    l.call(1);
    match (Store::try_from(v.clone()), v) {
        (Ok(s), Value::Map(m)) => {
            let inside = Value::Map((*s).clone());
            l.check(exact(&inside, v) && s.len() == m.len(), || format!("{key}:store"), || format!("{s:?}"));
            let again = Store::new(m.iter().map(|(k, v)| (k.clone(), v.clone())));
            l.check(exact(&Value::Map((*again).clone()), v), || format!("{key}:store-new"), || format!("{again:?}"));
        }
        (Err(StoreSerError::ExpectedMap(ty)), w) => {
            l.check(!matches!(w, Value::Map(_)) && ty == kind(v), || format!("{key}:store"), || format!("expects a map, not {ty:?}"));
        }
        (r, _) => l.fail(format!("{key}:store"), format!("{r:?}")),
    }
}

///What a native type takes out of the value, and what it puts in.
macro_rules! natives {
    ($l:ident, $n:ident, $v:ident, $key:ident, $($t:ty),+) => {
        $({
            $l.call(2);
            let fits = $n.to_i().and_then(|i| <$t>::try_from(i).ok()).or_else(|| $n.to_u().and_then(|u| <$t>::try_from(u).ok()));
            let got = <$t>::try_from($v.clone());
            $l.check(got.as_ref().ok() == fits.as_ref(), || format!("{}:{}", $key, stringify!($t)), || format!("{} becomes {got:?}", $n.text()));
            if let Some(x) = fits {
                let made = Value::from(x);
                $l.check(exact(&made, &$v), || format!("{}:from-{}", $key, stringify!($t)), || format!("{made:?}"));
            }
        })+
    };
}
macro_rules! no_natives {
    ($l:ident, $v:ident, $key:ident, $($t:ty),+) => {
        $({
            $l.call(1);
            let got = <$t>::try_from($v.clone());
            let right = matches!(&got, Err(ValueSerError::UnexpectedValueType { found, expected }) if *found == kind($v) && *expected == ValueTy::Integer);
            $l.check(right, || format!("{}:{}", $key, stringify!($t)), || format!("{got:?}"));
        })+
    };
}

///The reference for edits.
#[derive(Clone, Debug)]
enum M {
    Num(i64),
    Text(String),
    Many(Vec<M>),
    Named(BTreeMap<String, M>),
}
impl M {
    fn value(&self) -> Value {
        match self {
            M::Num(i) => Value::Integer(Integer::from(*i)),
            M::Text(s) => Value::String(s.clone()),
            M::Many(v) => Value::Array(v.iter().map(M::value).collect()),
            M::Named(m) => Value::Map(m.iter().map(|(k, v)| (k.clone(), v.value())).collect()),
        }
    }
}
///Which part of the value: the map at the top, the array in it, the map in that.
const EDITS: u64 = 15;
fn edit(e: u64, s: &mut Store, m: &mut BTreeMap<String, M>) -> bool {
    let arr = s.get_mut("list").and_then(Value::as_mut_array);
    let marr = match m.get_mut("list") {
        Some(M::Many(v)) => Some(v),
        _ => None,
    };
    if arr.is_some() != marr.is_some() {
        return false;
    }
    match e {
        0 => s.insert("list".into(), Value::array(vec![])).is_some() == m.insert("list".into(), M::Many(vec![])).is_some(),
        1 => s.insert("n".into(), Value::from(7_i8)).is_some() == m.insert("n".into(), M::Num(7)).is_some(),
        2 => s.insert("list".into(), Value::str("no list".into())).is_some() == m.insert("list".into(), M::Text("no list".into())).is_some(),
        3 => s.remove("list").is_some() == m.remove("list").is_some(),
        4 => s.remove("n").is_some() == m.remove("n").is_some(),
        5 => {
            //the number, in its place
            let n = s.get_mut("n").and_then(Value::as_mut_int);
            let k = m.get_mut("n");
            match (n, k) {
                (Some(n), Some(M::Num(k))) => {
                    *k = -*k * 300;
                    *n = Integer::from(*k);
                    true
                }
                (None, None) => true,
                _ => false,
            }
        }
        6 => {
            //the text
            let n = s.get_mut("list").and_then(Value::as_mut_str);
            let k = match m.get_mut("list") {
                Some(M::Text(k)) => Some(k),
                _ => None,
            };
            match (n, k) {
                (Some(n), Some(k)) => {
                    n.push_str("é!");
                    k.push_str("é!");
                    true
                }
                (None, None) => true,
                _ => false,
            }
        }
        7 => {
            s.clear();
            m.clear();
            true
        }
        _ => {
            let (Some(a), Some(b)) = (arr, marr) else { return true };
            match e {
                8 => {
                    a.push(Value::from(1_u64));
                    b.push(M::Num(1));
                    true
                }
                9 => {
                    a.insert(0, Value::map(HashMap::new()));
                    b.insert(0, M::Named(BTreeMap::new()));
                    true
                }
                10 => a.pop().is_some() == b.pop().is_some(),
                11 => {
                    a.reverse();
                    b.reverse();
                    true
                }
                12 => {
                    //every map in it gets an entry
                    for x in a.iter_mut().filter_map(Value::as_mut_map) {
                        let n = x.len();
                        x.insert(format!("k{n}"), Value::str("x".repeat(n)));
                    }
                    for x in b.iter_mut() {
                        if let M::Named(x) = x {
                            let n = x.len();
                            x.insert(format!("k{n}"), M::Text("x".repeat(n)));
                        }
                    }
                    true
                }
                13 => {
                    //and every text in those
                    for x in a.iter_mut().filter_map(Value::as_mut_map).flat_map(|m| m.values_mut()).filter_map(Value::as_mut_str) {
                        x.push('日');
                    }
                    for x in b.iter_mut() {
                        if let M::Named(x) = x {
                            for y in x.values_mut() {
                                if let M::Text(t) = y {
                                    t.push('日');
                                }
                            }
                        }
                    }
                    true
                }
                _ => {
                    a.truncate(1);
                    b.truncate(1);
                    true
                }
            }
        }
    }
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    let ls = leaves();
    ck.section("leaves", "every boundary leaf of all 16 kinds, through every accessor and conversion of all 16 kinds, as a native integer and as a store", ls.len() as u64, |i, l| {
        let v = &ls[i as usize];
        l.case(&i, true);
        access(l, v, &name(v));
        if !v.is_int() {
            let key = name(v);
            no_natives!(l, v, key, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
        }
    });
    let tr = trees(if t { 6 } else { 5 }, &tiny_leaves());
    ck.section("trees", "every nesting of arrays and maps with up to 5 (thorough 6) nodes, through the same", tr.len() as u64, |i, l| {
        let v = &tr[i as usize];
        l.case(&i, true);
        access(l, v, &format!("tree{i}"));
    });
    let ns = numbers(if t { 300 } else { 40 });
    ck.section("natives", "numbers at and around every power of two and byte boundary, into and out of the twelve native types, made as each of them", ns.len() as u64 * 12, |i, l| {
        let n = ns[i as usize / 12];
        let ty = i as usize % 12;
        let int = make(n, ty);
        l.case(&i, int.is_some());
        let Some(int) = int else { return };
        let v = Value::Integer(int);
        let key = format!("{}:made-{}", n.text(), TYPES[ty]);
        natives!(l, n, v, key, u8, u16, u32, u64, u128, usize, i8, i16, i32, i64, i128, isize);
    });
    ck.section("kinds", "every byte as a kind", 256, |i, l| {
        l.case(&i, true);
        l.call(2);
        match ValueTy::try_from(i as u8) {
            Ok(ty) => {
                l.check(u64::from(u8::from(ty)) == i, || format!("byte{i}"), || format!("{ty:?} is {}", u8::from(ty)));
                l.saw(i);
            }
            Err(e) => {
                l.check(i >= 16 && matches!(e, ValueSerError::InvalidType(b) if u64::from(b) == i), || format!("byte{i}"), || format!("{e:?}"));
            }
        }
    });
    //items given more than once, in every order
    ck.section("new", "stores made from every list of up to 5 entries over 3 keys: the last entry of a key counts", string_count(3, 5), |i, l| {
        let keys = nth_string(i, 3);
        l.case(&i, true);
        l.call(1);
        let items: Vec<(String, Value)> = keys.iter().enumerate().map(|(at, k)| (["", "a", "é"][*k as usize].to_string(), Value::from(at as u16))).collect();
        let mut want: BTreeMap<String, usize> = BTreeMap::new();
        for (at, (k, _)) in items.iter().enumerate() {
            want.insert(k.clone(), at);
        }
        let s = Store::new(items);
        let got: BTreeMap<String, usize> = s.iter().filter_map(|(k, v)| Some((k.clone(), usize::try_from(v.clone()).ok()?))).collect();
        l.check(got == want && s.len() == want.len(), || format!("new{i}"), || format!("{s:?} instead of {want:?}"));
    });
    let depth = if t { 6 } else { 5 };
    ck.section("edits", &format!("every sequence of {depth} out of {EDITS} edits in place of a store with an array of maps of text, each step compared with plain collections and the end also written and read back"), EDITS.pow(depth), |i, l| {
        let mut s = Store::default();
        let mut m = BTreeMap::new();
        let mut at = i;
        l.case(&i, true);
        for step in 0..depth {
            l.call(1);
            let e = at % EDITS;
            at /= EDITS;
            if !edit(e, &mut s, &mut m) {
                l.fail(format!("edits{i}:{step}"), format!("edit {e} finds something else in {s:?} than in {m:?}"));
                return;
            }
        }
        let want = M::Named(m).value();
        let got = Value::Map((*s).clone());
        if !l.check(exact(&got, &want), || format!("edits{i}"), || format!("{got:?} instead of {want:?}")) {
            return;
        }
        l.saw(h64(&s.ser().len()));
        l.call(4);
        match Store::deser(&s.ser()) {
            Ok(b) => {
                l.check(exact(&Value::Map((*b).clone()), &want), || format!("edits{i}:store"), || format!("{b:?}"));
            }
            Err(e) => l.fail(format!("edits{i}:store"), format!("{e}")),
        }
        let b = got.ser(None);
        let back = Value::deser(&mut Cursor::new(&b), None);
        l.check(matches!(&back, Ok(b) if exact(b, &want)), || format!("edits{i}:value"), || format!("{back:?}"));
    });
}
