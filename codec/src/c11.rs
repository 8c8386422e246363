//! C11: typed data survives being stored through the serde helpers.
use crate::ck::{guarded, trunc, Ck, L};
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::Value as J;
use sourisdb::{
    store::Store,
    types::{imaginary::Imaginary, integer::Integer},
};
use std::{collections::BTreeMap, fmt::Debug};

///Boundary values of a type: a few (0), some (1), or all the interesting ones (2).
trait Vals: Sized + Clone {
    fn vals(d: u8) -> Vec<Self>;
}

fn cut<T>(d: u8, mut v: Vec<T>, few: usize, some: usize) -> Vec<T> {
    match d {
        0 => v.truncate(few),
        1 => v.truncate(some),
        _ => {}
    }
    v
}

macro_rules! ints {
    ($($t:ty),*) => { $(impl Vals for $t {
        fn vals(d: u8) -> Vec<Self> {
            let mut v: Vec<$t> = vec![0, 1, <$t>::MAX, <$t>::MIN];
            for b in 0..<$t>::BITS {
                let p = (1 as $t).wrapping_shl(b);
                for x in [p, p.wrapping_sub(1), p.wrapping_add(1), (0 as $t).wrapping_sub(p)] {
                    if !v.contains(&x) {
                        v.push(x);
                    }
                }
            }
            for x in [239_u8, 240, 255] {
                let x = x as $t;
                if !v.contains(&x) {
                    v.push(x);
                }
            }
            cut(d, v, 2, 4)
        }
    })* };
}
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, usize, isize);

impl Vals for bool {
    fn vals(_: u8) -> Vec<Self> {
        vec![false, true]
    }
}
impl Vals for char {
    fn vals(d: u8) -> Vec<Self> {
        cut(d, vec!['a', '\u{0}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '"', '\\', '\n'], 1, 3)
    }
}
impl Vals for f64 {
    fn vals(d: u8) -> Vec<Self> {
        cut(d, vec![0.5, 0.0, -0.0, 1.0, -1.0, 1e300, f64::MIN_POSITIVE, 5e-324, f64::MAX, f64::MIN, 0.1, 1e15, 1e16, 9007199254740993.0, 1.7e308, 18446744073709551615.0, 9223372036854775807.0, -9223372036854775808.0, f64::EPSILON], 1, 3)
    }
}
impl Vals for f32 {
    fn vals(d: u8) -> Vec<Self> {
        cut(d, vec![0.5, 0.0, -0.0, 1.0, -1.0, f32::MIN_POSITIVE, 1e-45, f32::MAX, f32::MIN, 0.1, 16777216.0, f32::EPSILON], 1, 3)
    }
}
impl Vals for String {
    fn vals(d: u8) -> Vec<Self> {
        let mut v: Vec<String> = ["a", "", "JSON", "souris", "aaaaaaaaaaaaaaaa", "é🖖", "\u{0}", "null", "1", "true", "\"", "{}", "[]", "souris_typ", " JSON", "json"].map(String::from).to_vec();
        v.extend([239, 240, 255, 256, 1000].map(|n| "xy".repeat(n)));
        cut(d, v, 1, 4)
    }
}
impl Vals for () {
    fn vals(_: u8) -> Vec<Self> {
        vec![()]
    }
}
impl<T: Vals> Vals for Option<T> {
    fn vals(d: u8) -> Vec<Self> {
        std::iter::once(None).chain(T::vals(d).into_iter().map(Some)).collect()
    }
}
impl<T: Vals> Vals for Box<T> {
    fn vals(d: u8) -> Vec<Self> {
        T::vals(d).into_iter().map(Box::new).collect()
    }
}
impl<T: Vals> Vals for Vec<T> {
    fn vals(d: u8) -> Vec<Self> {
        let one = T::vals(d.saturating_sub(1));
        let mut v: Vec<Vec<T>> = vec![vec![]];
        v.extend(one.iter().map(|x| vec![x.clone()]));
        if d > 0 {
            for a in one.iter().take(6) {
                for b in one.iter().take(6) {
                    v.push(vec![a.clone(), b.clone()]);
                }
            }
            v.push(one.clone());
        }
        if d > 1 {
            for n in [5, 6, 7, 8, 15, 16, 17, 239, 240, 255, 256, 257] {
                v.push((0..n).map(|i| one[i % one.len()].clone()).collect());
            }
        }
        v
    }
}
impl<K: Vals + Ord, V: Vals> Vals for BTreeMap<K, V> {
    fn vals(d: u8) -> Vec<Self> {
        let (ks, vs) = (K::vals(d), V::vals(d.saturating_sub(1)));
        let mut out = vec![BTreeMap::new()];
        for k in &ks {
            for v in vs.iter().take(8) {
                out.push(BTreeMap::from([(k.clone(), v.clone())]));
            }
        }
        if d > 0 {
            for a in ks.iter().take(5) {
                for b in ks.iter().take(5) {
                    for v in vs.iter().take(4) {
                        out.push(BTreeMap::from([(a.clone(), v.clone()), (b.clone(), vs[0].clone())]));
                    }
                }
            }
            out.push(ks.iter().cloned().zip(vs.iter().cloned().cycle()).collect());
        }
        out
    }
}
macro_rules! tuples {
    ($($($t:ident)+;)*) => { $(impl<$($t: Vals),+> Vals for ($($t,)+) {
        #[allow(non_snake_case)]
        fn vals(d: u8) -> Vec<Self> {
            let d = d.saturating_sub(1);
            let mut out = vec![];
            tuples!(@loop d out [$($t)+] [$($t)+]);
            out
        }
    })* };
    (@loop $d:ident $out:ident [$h:ident $($r:ident)*] [$($all:ident)+]) => {
        for $h in $h::vals($d) { tuples!(@loop $d $out [$($r)*] [$($all)+]); }
    };
    (@loop $d:ident $out:ident [] [$($all:ident)+]) => { $out.push(($($all.clone(),)+)); };
}
tuples! { A; A B; A B C; A B C D; }
impl<T: Vals, const N: usize> Vals for [T; N] {
    fn vals(d: u8) -> Vec<Self> {
        let one = T::vals(d.saturating_sub(1));
        let mut v: Vec<[T; N]> = one.iter().map(|x| std::array::from_fn(|_| x.clone())).collect();
        v.extend((0..one.len()).map(|s| std::array::from_fn(|i| one[(i + s) % one.len()].clone())));
        v
    }
}
impl Vals for Integer {
    fn vals(d: u8) -> Vec<Self> {
        i128::vals(d).into_iter().map(Integer::from).chain(u128::vals(d).into_iter().map(Integer::from)).collect()
    }
}
impl Vals for Imaginary {
    fn vals(d: u8) -> Vec<Self> {
        let mut v = vec![];
        for a in i64::vals(d).into_iter().take(6) {
            for b in u64::vals(d).into_iter().take(6) {
                v.push(Imaginary::CartesianForm { real: Integer::from(a), imaginary: Integer::from(b) });
            }
        }
        for m in f64::vals(d) {
            v.push(Imaginary::PolarForm { modulus: m, argument: -m });
        }
        v
    }
}

///A type and its values: a struct or enum built by a tuple-taking function per form.
macro_rules! shape {
    ($(#[$m:meta])* struct $name:ident { $($(#[$f:meta])* $field:ident : $ty:ty),* $(,)? }) => {
        #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
        $(#[$m])*
        struct $name { $($(#[$f])* $field: $ty),* }
        impl Vals for $name {
            fn vals(d: u8) -> Vec<Self> {
                let _d = d.saturating_sub(1);
                let mut out = vec![];
                shape!(@loop _d out $name [$($field: $ty),*] [$($field)*]);
                out
            }
        }
    };
    (@loop $d:ident $out:ident $name:ident [$h:ident : $t:ty $(, $r:ident : $rt:ty)*] [$($all:ident)*]) => {
        for $h in <$t as Vals>::vals($d) { shape!(@loop $d $out $name [$($r: $rt),*] [$($all)*]); }
    };
    (@loop $d:ident $out:ident $name:ident [] [$($all:ident)*]) => { $out.push($name { $($all: $all.clone()),* }); };
}

shape! { struct Scalars { a: bool, b: u64, c: i64, d: String } }
shape! { struct Floats { x: f64, y: f32, z: Option<f64> } }
shape! { struct Chars { c: char, d: Option<char>, e: Vec<char> } }
shape! { struct Small { a: u8, b: i8, c: u16, d: i16 } }
shape! { struct Big { a: u128, b: i128 } }
shape! { struct Options { a: Option<u8>, b: Option<String>, c: Option<Vec<u8>>, d: Option<()> } }
shape! { struct One { only: u8 } }
shape! { struct Json { #[serde(rename = "JSON")] json: Option<u64> } }
shape! { struct JsonMap { #[serde(rename = "JSON")] json: BTreeMap<String, u8> } }
shape! { struct JsonBoth { #[serde(rename = "JSON")] json: String, other: bool } }
shape! { struct JsonNest { #[serde(rename = "JSON")] json: Json } }
shape! { struct JsonText { #[serde(rename = "JSON")] json: String } }
shape! { struct JsonList { #[serde(rename = "JSON")] json: Vec<u8> } }
shape! { struct Empty {} }
shape! { struct Renamed { #[serde(rename = "")] a: u8, #[serde(rename = "é🖖")] b: String, #[serde(rename = "type")] c: bool } }
shape! { #[serde(rename_all = "SCREAMING-KEBAB-CASE")] struct Kebab { first_field: u8, second_field: Option<One> } }
shape! { struct Skip { #[serde(skip_serializing_if = "Option::is_none", default)] a: Option<u8>, #[serde(skip_serializing_if = "Vec::is_empty", default)] b: Vec<String>, #[serde(default)] c: u32 } }
shape! { struct Flat { own: u8, #[serde(flatten)] inner: Scalars } }
shape! { struct FlatMap { own: u8, #[serde(flatten)] rest: BTreeMap<String, i64> } }
shape! { struct Nested { a: Scalars, b: Options, c: Vec<One>, d: BTreeMap<String, One> } }
shape! { struct Tree { plain: Plain, outer: External, inner: Internal, adjacent: Adjacent, un: Untagged } }
shape! { struct Numbers { a: Integer, b: Option<Imaginary> } }
shape! { #[serde(tag = "type")] struct Tagged { bytes: Vec<u8>, octets: [u8; 4], timestamp: String } }

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Unit;
impl Vals for Unit {
    fn vals(_: u8) -> Vec<Self> {
        vec![Unit]
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, PartialOrd, Eq, Ord)]
struct New<T>(T);
impl<T: Vals> Vals for New<T> {
    fn vals(d: u8) -> Vec<Self> {
        T::vals(d).into_iter().map(New).collect()
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
#[serde(transparent)]
struct Clear {
    only: BTreeMap<String, u64>,
}
impl Vals for Clear {
    fn vals(d: u8) -> Vec<Self> {
        BTreeMap::vals(d).into_iter().map(|only| Clear { only }).collect()
    }
}
#[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
struct Tuple(u8, String, Option<bool>);
impl Vals for Tuple {
    fn vals(d: u8) -> Vec<Self> {
        <(u8, String, Option<bool>)>::vals(d).into_iter().map(|(a, b, c)| Tuple(a, b, c)).collect()
    }
}

#[derive(Serialize, Deserialize, Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Plain {
    A,
    Bee,
    #[serde(rename = "JSON")]
    J,
}
impl Vals for Plain {
    fn vals(_: u8) -> Vec<Self> {
        vec![Plain::A, Plain::Bee, Plain::J]
    }
}
macro_rules! forms {
    ($name:ident, $(#[$m:meta])*) => {
        #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
        $(#[$m])*
        enum $name {
            Unit,
            New(Box<Scalars>),
            Struct { a: u8, b: Option<String> },
            Empty {},
            Map(BTreeMap<String, u32>),
            #[serde(rename = "JSON")]
            J { x: i64 },
        }
        impl Vals for $name {
            fn vals(d: u8) -> Vec<Self> {
                let d = d.saturating_sub(1);
                let mut v = vec![$name::Unit, $name::Empty {}];
                v.extend(Scalars::vals(d).into_iter().map(Box::new).map($name::New));
                v.extend(<(u8, Option<String>)>::vals(d + 1).into_iter().map(|(a, b)| $name::Struct { a, b }));
                v.extend(BTreeMap::vals(d).into_iter().map($name::Map));
                v.extend(i64::vals(d).into_iter().map(|x| $name::J { x }));
                v
            }
        }
    };
}
forms!(Internal, #[serde(tag = "kind")]);
forms!(InternalJson, #[serde(tag = "JSON")]);
forms!(AdjacentJson, #[serde(tag = "JSON", content = "value")]);
macro_rules! more_forms {
    ($name:ident, $(#[$m:meta])*) => {
        #[derive(Serialize, Deserialize, Clone, Debug, PartialEq)]
        $(#[$m])*
        enum $name {
            Unit,
            Struct { a: u8, b: Option<String> },
            New(i64),
            Pair(bool, f64),
            List(Vec<u16>),
            #[serde(rename = "JSON")]
            J(String),
            Deep { next: Box<Option<$name>> },
        }
        impl Vals for $name {
            fn vals(d: u8) -> Vec<Self> {
                let d = d.saturating_sub(1);
                let mut v = vec![$name::Unit];
                v.extend(<(u8, Option<String>)>::vals(d + 1).into_iter().map(|(a, b)| $name::Struct { a, b }));
                v.extend(i64::vals(d).into_iter().map($name::New));
                v.extend(<(bool, f64)>::vals(d + 1).into_iter().map(|(a, b)| $name::Pair(a, b)));
                v.extend(Vec::vals(d).into_iter().map($name::List));
                v.extend(String::vals(d).into_iter().map($name::J));
                for _ in 0..d {
                    let w: Vec<_> = v.iter().take(12).cloned().map(|x| $name::Deep { next: Box::new(Some(x)) }).collect();
                    v.extend(w);
                    v.push($name::Deep { next: Box::new(None) });
                }
                v
            }
        }
    };
}
more_forms!(External,);
more_forms!(Adjacent, #[serde(tag = "t", content = "c")]);
more_forms!(Untagged, #[serde(untagged)]);
more_forms!(Lower, #[serde(rename_all = "snake_case")]);

trait Typed: Vals + Serialize + DeserializeOwned + Debug {}
impl<T: Vals + Serialize + DeserializeOwned + Debug> Typed for T {}

///What the helpers give for `t`, beside what serde_json by itself gives.
fn typed<T: Typed>(l: &mut L, what: &str, t: &T) {
    let shown = format!("{t:?}");
    let key = || format!("{what}:{}", trunc(&shown, 80).replace(' ', ""));
    l.call(2);
    let plain = serde_json::to_value(t);
    let bytes = guarded(|| Store::to_bytes(t));
    let bytes = match bytes {
        Ok(b) => b,
        Err(p) => {
            l.fail(key(), format!("storing {shown} panicked: {p}"));
            return;
        }
    };
    let Ok(plain) = plain else {
        l.check(bytes.is_err(), key, || format!("{shown} has no JSON form, but was stored"));
        return;
    };
    let Ok(direct) = serde_json::from_value::<T>(plain) else {
        //serde_json cannot read this back either
        if let Ok(b) = bytes {
            let r = guarded(|| Store::from_bytes::<T>(&b));
            l.check(matches!(r, Ok(Err(_))), key, || format!("{shown} cannot be read from its JSON form, but came back as {r:?}"));
        }
        return;
    };
    if format!("{direct:?}") != shown {
        //serde_json changes this one by itself (Some(None), for example)
        return;
    }
    let b = match bytes {
        Ok(b) => b,
        Err(e) => {
            l.fail(key(), format!("storing {shown} failed: {e}"));
            return;
        }
    };
    l.saw(b.len() as u64);
    match guarded(|| Store::from_bytes::<T>(&b)) {
        Ok(Ok(back)) => {
            let back = format!("{back:?}");
            l.check(back == shown, key, || format!("{shown} came back as {back}"));
        }
        Ok(Err(e)) => l.fail(key(), format!("reading {shown} back failed: {e}")),
        Err(p) => l.fail(key(), format!("reading {shown} back panicked: {p}")),
    }
}

type Reader = fn(&[u8], &J) -> (Option<String>, Option<String>);
fn reader<U: Typed>(b: &[u8], j: &J) -> (Option<String>, Option<String>) {
    (Store::from_bytes::<U>(b).ok().map(|u| format!("{u:?}")), serde_json::from_value::<U>(j.clone()).ok().map(|u| format!("{u:?}")))
}
///The stored bytes and the JSON form of some values.
type Writer = fn(usize) -> Vec<(String, Vec<u8>, J)>;
fn writer<T: Typed>(n: usize) -> Vec<(String, Vec<u8>, J)> {
    T::vals(1).into_iter().filter_map(|t| Some((format!("{t:?}"), Store::to_bytes(&t).ok()?, serde_json::to_value(&t).ok()?))).take(n).collect()
}

macro_rules! types {
    ($f:ident) => {
        $f! {
            bool, u8, u16, u32, u64, usize, i8, i16, i32, i64, isize, u128, i128, f32, f64, char, String, (), Unit, Integer, Imaginary,
            Option<bool>, Option<u64>, Option<String>, Option<Option<u8>>, Option<()>, Option<Unit>, Option<One>, Option<Vec<u8>>, Box<Scalars>,
            Vec<bool>, Vec<u8>, Vec<i64>, Vec<u64>, Vec<f64>, Vec<char>, Vec<String>, Vec<()>, Vec<Option<u8>>, Vec<Vec<u8>>, Vec<Vec<Vec<String>>>, Vec<One>, Vec<(u8, String)>, Vec<Plain>, Vec<External>, Vec<BTreeMap<String, u8>>,
            [u8; 0], [u8; 4], [u16; 8], [String; 3], [Option<i8>; 2],
            (u8,), (u8, String), (bool, i64, f64), (String, Option<u8>, Vec<u8>, One), (Scalars, Scalars), ((u8, u8), (u8,)),
            New<u8>, New<String>, New<Option<u8>>, New<Vec<u8>>, New<One>, New<New<BTreeMap<String, u8>>>, New<()>, Tuple, Clear,
            BTreeMap<String, u8>, BTreeMap<String, String>, BTreeMap<String, f64>, BTreeMap<String, Option<u8>>, BTreeMap<String, Vec<u8>>, BTreeMap<String, BTreeMap<String, u8>>, BTreeMap<String, BTreeMap<String, BTreeMap<String, u8>>>, BTreeMap<String, One>, BTreeMap<String, External>, BTreeMap<String, ()>,
            BTreeMap<u8, u8>, BTreeMap<i8, u8>, BTreeMap<u64, String>, BTreeMap<i64, u8>, BTreeMap<u128, u8>, BTreeMap<i128, u8>, BTreeMap<char, u8>, BTreeMap<bool, u8>, BTreeMap<New<String>, u8>, BTreeMap<Plain, u8>, BTreeMap<(u8, u8), u8>, BTreeMap<Vec<u8>, u8>, BTreeMap<Option<u8>, u8>,
            Scalars, Floats, Chars, Small, Big, Options, One, Json, JsonMap, JsonBoth, JsonNest, JsonText, JsonList, Empty, Renamed, Kebab, Skip, Flat, FlatMap, Nested, Numbers, Tagged,
            Plain, Option<Plain>, Internal, InternalJson, AdjacentJson, External, Adjacent, Untagged, Lower, Option<External>, Option<Internal>, Vec<Adjacent>, Vec<Untagged>, Vec<Internal>, BTreeMap<String, Internal>, BTreeMap<String, Untagged>, Tree
        }
    };
}

#[derive(Serialize, Deserialize, Debug, Clone)]
enum Chain {
    End,
    Array(Vec<Chain>),
    Field { next: Option<Box<Chain>> },
}
impl Vals for Chain {
    fn vals(_: u8) -> Vec<Self> {
        vec![]
    }
}

const PARTS: usize = 64;

pub fn run(ck: &Ck) {
    type Run = (&'static str, fn(&mut L, usize));
    macro_rules! runs {
        ($($t:ty),* $(,)?) => { vec![$((stringify!($t), {
            fn f(l: &mut L, part: usize) {
                let what = stringify!($t).replace(' ', "");
                for t in <$t as Vals>::vals(2).into_iter().skip(part).step_by(PARTS) {
                    l.case(&format!("{what}{t:?}"), true);
                    l.sample(|| format!("{what}: {t:?}"));
                    typed(l, &what, &t);
                }
            }
            f
        })),*] };
    }
    let all: Vec<Run> = types!(runs);
    ck.section("shapes", "130 types covering every form serde has, each with the product of its parts' boundary values", (all.len() * PARTS) as u64, |i, l| {
        let (_, run) = all[i as usize / PARTS];
        l.case(&i, false);
        run(l, i as usize % PARTS);
    });
    macro_rules! readers {
        ($($t:ty),* $(,)?) => { vec![$((stringify!($t), reader::<$t> as Reader)),*] };
    }
    macro_rules! writers {
        ($($t:ty),* $(,)?) => { vec![$((stringify!($t), writer::<$t> as Writer)),*] };
    }
    let rs: Vec<(&str, Reader)> = types!(readers);
    let ws: Vec<(&str, Writer)> = types!(writers);
    let n = if ck.thorough { 600 } else { 60 };
    ck.section("read-as-another", "up to 60 (600) values of every type read back as every other type: what serde_json itself gives, or an error", (ws.len() * rs.len()) as u64, |i, l| {
        let (wn, w) = &ws[i as usize % ws.len()];
        let (rn, r) = &rs[i as usize / ws.len()];
        let wn = wn.replace(' ', "");
        for (shown, b, j) in w(n) {
            {
                l.case(&(&wn, rn, &shown), true);
                l.call(1);
                let key = || format!("{wn}:{}:{}", rn.replace(' ', ""), trunc(&shown, 60).replace(' ', ""));
                match guarded(|| r(&b, &j)) {
                    Ok((got, want)) => {
                        l.check(got == want, key, || format!("{shown} stored as {wn} reads as {rn} {got:?}, its JSON form as {want:?}"));
                    }
                    Err(p) => l.fail(key(), format!("reading as {rn} panicked: {p}")),
                }
            }
        }
    });
    ck.section("deep", "recursive types of 1..=200 levels: kept, or refused when stored", 200 * 3, |i, l| {
        let n = i / 3 + 1;
        l.case(&i, true);
        let mut c = Chain::End;
        for k in 0..n {
            c = match (i % 3, k % 2) {
                (0, _) | (2, 0) => Chain::Array(vec![c]),
                _ => Chain::Field { next: Some(Box::new(c)) },
            };
        }
        l.call(2);
        let shown = format!("{c:?}");
        match guarded(|| Store::to_bytes(&c).map(|b| Store::from_bytes::<Chain>(&b))) {
            Ok(Ok(Ok(back))) => {
                l.check(format!("{back:?}") == shown, || format!("deep:{i}"), || "came back different".into());
            }
            Ok(Ok(Err(e))) => l.fail(format!("deep:{i}"), format!("{n} levels were stored, but cannot be read back: {e}")),
            Ok(Err(_)) => {
                //two containers a level
                l.check(2 * n >= 128, || format!("deep:{i}"), || format!("{n} levels were refused"));
            }
            Err(p) => l.fail(format!("deep:{i}"), p),
        }
    });
    ck.section("bad-bytes", "reading types from bytes that are no store is an error", 256 * 3, |i, l| {
        l.case(&i, true);
        let b = match i / 256 {
            0 => vec![],
            1 => vec![(i % 256) as u8],
            _ => {
                let mut b = Store::to_bytes(&Scalars::vals(0)[0]).unwrap_or_default();
                b.truncate(i as usize % 256 % b.len().max(1));
                b
            }
        };
        for (rn, r) in &rs {
            l.call(1);
            let res = guarded(|| {
                //nothing to compare with
                let _ = r(&b, &J::Null);
            });
            l.check(res.is_ok(), || format!("{rn}:{i}").replace(' ', ""), || format!("{res:?}"));
        }
    });
}
