//! C03: integers keep their exact value.
use crate::{
    ck::{Ck, L},
    corpus::*,
};
use serde::{
    de::{value::Error as VE, IntoDeserializer},
    ser::{Error as _, Impossible},
    Deserialize, Serialize, Serializer,
};
use sourisdb::{
    types::integer::{Integer, SignedState},
    utilities::cursor::Cursor,
    values::Value,
};
use std::{
    collections::hash_map::DefaultHasher,
    hash::{Hash, Hasher},
};

///A serde format with nothing but integers.
struct NumOnly;
macro_rules! ints {
    ($($f:ident $t:ty, $w:ident);*) => { $(fn $f(self, v: $t) -> Result<Num, VE> { Ok(Num::$w(v.into())) })* };
}
macro_rules! refuse {
    ($($f:ident($($t:ty),*) -> $r:ty);*) => { $(fn $f(self, $(_: $t),*) -> Result<$r, VE> { Err(VE::custom("not an integer")) })* };
}
impl Serializer for NumOnly {
    type Ok = Num;
    type Error = VE;
    type SerializeSeq = Impossible<Num, VE>;
    type SerializeTuple = Impossible<Num, VE>;
    type SerializeTupleStruct = Impossible<Num, VE>;
    type SerializeTupleVariant = Impossible<Num, VE>;
    type SerializeMap = Impossible<Num, VE>;
    type SerializeStruct = Impossible<Num, VE>;
    type SerializeStructVariant = Impossible<Num, VE>;
    ints!(serialize_u8 u8, u; serialize_u16 u16, u; serialize_u32 u32, u; serialize_u64 u64, u; serialize_u128 u128, u; serialize_i8 i8, i; serialize_i16 i16, i; serialize_i32 i32, i; serialize_i64 i64, i; serialize_i128 i128, i);
    refuse!(serialize_bool(bool) -> Num; serialize_f32(f32) -> Num; serialize_f64(f64) -> Num; serialize_char(char) -> Num; serialize_str(&str) -> Num; serialize_bytes(&[u8]) -> Num; serialize_none() -> Num; serialize_unit() -> Num; serialize_unit_struct(&'static str) -> Num; serialize_unit_variant(&'static str, u32, &'static str) -> Num; serialize_seq(Option<usize>) -> Self::SerializeSeq; serialize_tuple(usize) -> Self::SerializeTuple; serialize_tuple_struct(&'static str, usize) -> Self::SerializeTupleStruct; serialize_tuple_variant(&'static str, u32, &'static str, usize) -> Self::SerializeTupleVariant; serialize_map(Option<usize>) -> Self::SerializeMap; serialize_struct(&'static str, usize) -> Self::SerializeStruct; serialize_struct_variant(&'static str, u32, &'static str, usize) -> Self::SerializeStructVariant);
    fn serialize_some<T: ?Sized + Serialize>(self, _: &T) -> Result<Num, VE> {
        Err(VE::custom("not an integer"))
    }
    fn serialize_newtype_struct<T: ?Sized + Serialize>(self, _: &'static str, _: &T) -> Result<Num, VE> {
        Err(VE::custom("not an integer"))
    }
    fn serialize_newtype_variant<T: ?Sized + Serialize>(self, _: &'static str, _: u32, _: &'static str, _: &T) -> Result<Num, VE> {
        Err(VE::custom("not an integer"))
    }
}

fn hash(i: &Integer) -> u64 {
    let mut h = DefaultHasher::new();
    i.hash(&mut h);
    h.finish()
}

///Every native type, with the reference's conversion beside the code's.
fn conversions(l: &mut L, x: Integer, n: Num, key: &dyn Fn() -> String) {
    macro_rules! each {
        ($($t:ty),*) => { $({
            l.call(1);
            let got = <$t>::try_from(x).ok().map(|v| v.to_string());
            let want = n.text().parse::<$t>().ok().map(|v| v.to_string());
            l.check(got == want, || format!("{}->{}", key(), stringify!($t)), || format!("converted to {got:?}, should be {want:?}"));
            let got = <$t>::try_from(Value::Integer(x)).ok().map(|v| v.to_string());
            l.check(got == want, || format!("value:{}->{}", key(), stringify!($t)), || format!("converted to {got:?}, should be {want:?}"));
        })* };
    }
    each!(u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128);
}

fn everything(l: &mut L, x: Integer, n: Num, key: &dyn Fn() -> String) {
    l.call(12);
    l.check(x.to_string() == n.text(), key, || format!("displays as {x}"));
    l.check(x.is_negative() == n.neg && x.is_positive() != n.neg, || format!("{}:sign", key()), || format!("is_negative {}", x.is_negative()));
    conversions(l, x, n, key);
    //bytes, also with something after them
    let (ss, mut b) = x.ser();
    let len = b.len();
    b.extend([0xFF, 0, 0x80]);
    let mut c = Cursor::new(&b);
    match Integer::deser(ss, &mut c) {
        Ok(y) => {
            l.check(num_of(&y) == Some(n), || format!("{}:bytes", key()), || format!("bytes {} read as {y}", crate::ck::hex(&b)));
            l.check(c.pos() == len, || format!("{}:bytes-end", key()), || format!("{} of {len} bytes read", c.pos()));
            l.check(x == y && hash(&x) == hash(&y), || format!("{}:bytes-eq", key()), || "unequal after a round trip".into());
            conversions(l, y, n, &|| format!("{}:reread", key()));
        }
        Err(e) => l.fail(format!("{}:bytes", key()), e.to_string()),
    }
    for cut in 0..len {
        let short = &b[..cut];
        let mut c = Cursor::new(&short);
        l.check(Integer::deser(ss, &mut c).is_err(), || format!("{}:cut{cut}", key()), || "a truncated integer was accepted".into());
    }
    l.check(SignedState::try_from(u8::from(ss)).ok() == Some(ss), || format!("{}:state", key()), || "sign state does not survive its byte".into());
    //text
    match n.text().parse::<Integer>() {
        Ok(y) => {
            l.check(num_of(&y) == Some(n), || format!("{}:text", key()), || format!("parsed as {y}"));
            l.check(x == y && hash(&x) == hash(&y), || format!("{}:text-eq", key()), || "unequal to its parsed text".into());
        }
        Err(e) => l.fail(format!("{}:text", key()), e.to_string()),
    }
    //serde
    match x.serialize(NumOnly) {
        Ok(m) => l.check(m == n, || format!("{}:serialize", key()), || format!("serialised as {}", m.text())),
        Err(e) => l.check(false, || format!("{}:serialize", key()), || e.to_string()),
    };
    macro_rules! de {
        ($($v:expr),*) => { $(if let Some(v) = $v {
            let d: Result<Integer, VE> = Integer::deserialize(IntoDeserializer::<VE>::into_deserializer(v));
            l.check(d.as_ref().ok().and_then(num_of) == Some(n), || format!("{}:deserialize", key()), || format!("deserialised as {d:?}"));
        })* };
    }
    de!(n.to_u(), n.to_i(), n.to_u().and_then(|v| u64::try_from(v).ok()), n.to_i().and_then(|v| i64::try_from(v).ok()), n.to_u().and_then(|v| u8::try_from(v).ok()), n.to_i().and_then(|v| i8::try_from(v).ok()), n.to_u().and_then(|v| u16::try_from(v).ok()), n.to_i().and_then(|v| i16::try_from(v).ok()), n.to_u().and_then(|v| u32::try_from(v).ok()), n.to_i().and_then(|v| i32::try_from(v).ok()));
    //JSON holds what fits 64 bits
    let want = if n.neg { n.to_i().and_then(|v| i64::try_from(v).ok()).map(serde_json::Value::from) } else { n.to_u().and_then(|v| u64::try_from(v).ok()).map(serde_json::Value::from) };
    let got = x.to_json();
    l.check(got == want, || format!("{}:json", key()), || format!("exported as {got:?}"));
    if let Some(serde_json::Value::Number(num)) = &want {
        let y = Integer::from_json(num);
        l.check(y.as_ref().and_then(num_of) == Some(n), || format!("{}:from-json", key()), || format!("imported as {y:?}"));
        let y: Result<Integer, _> = serde_json::from_str(&n.text());
        l.check(y.as_ref().ok().and_then(num_of) == Some(n), || format!("{}:serde-json", key()), || format!("{y:?}"));
        let s = serde_json::to_string(&x).unwrap_or_default();
        l.check(s == n.text(), || format!("{}:serde-json-out", key()), || s.clone());
    }
    //floats: the nearest one
    let want = if n.neg { n.to_i().map_or(f64::NAN, |v| v as f64) } else { n.mag as f64 };
    let want32 = if n.neg { n.to_i().map_or(f32::NAN, |v| v as f32) } else { n.mag as f32 };
    l.check(f64::from(x).to_bits() == want.to_bits() && f32::from(x).to_bits() == want32.to_bits(), || format!("{}:float", key()), || format!("{} {}", f64::from(x), f32::from(x)));
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    ck.section("8-and-16-bit", "every value of u8, i8, u16, i16 as every native type it fits", (65536 + 32768) * 12, |i, l| {
        let v = i64::try_from(i / 12).unwrap() - 32768;
        let n = Num::i(v.into());
        let ty = (i % 12) as usize;
        let Some(x) = make(n, ty) else {
            l.case(&0, false);
            return;
        };
        l.case(&i, true);
        everything(l, x, n, &|| format!("{}:{}", n.text(), TYPES[ty]));
    });
    let nums = numbers(if t { 70 } else { 4 });
    ck.section("boundaries", "every number at and around (4 either side; thorough 70) every power of two and byte boundary, as every native type it fits", nums.len() as u64 * 12, |i, l| {
        let (n, ty) = (nums[i as usize / 12], i as usize % 12);
        let Some(x) = make(n, ty) else {
            l.case(&0, false);
            return;
        };
        l.case(&(n, ty), true);
        l.sample(|| format!("{} as {} -> {:?}", n.text(), TYPES[ty], x.ser()));
        everything(l, x, n, &|| format!("{}:{}", n.text(), TYPES[ty]));
    });
    //named constructors agree with From
    ck.section("constructors", "the twelve named constructors against From", nums.len() as u64, |i, l| {
        let n = nums[i as usize];
        l.case(&n, true);
        macro_rules! each {
            ($($t:ident),*) => { $(if let Ok(v) = n.text().parse::<$t>() {
                l.call(2);
                let x = Integer::$t(v);
                l.check(num_of(&x) == Some(n) && x == Integer::from(v), || format!("{}:{}", n.text(), stringify!($t)), || format!("{x}"));
                let y = Value::from(v);
                l.check(matches!(&y, Value::Integer(z) if num_of(z) == Some(n)), || format!("value:{}:{}", n.text(), stringify!($t)), || format!("{y:?}"));
            })* };
        }
        each!(u8, u16, u32, u64, usize, u128, i8, i16, i32, i64, isize, i128);
    });
    //equality over all pairs, every construction
    let few = numbers(1);
    let all: Vec<(Num, Integer)> = few.iter().flat_map(|n| (0..12).filter_map(move |ty| make(*n, ty).map(|x| (*n, x)))).collect();
    let all: Vec<(Num, Integer, u64)> = all
        .into_iter()
        .flat_map(|(n, x)| {
            let mut v = vec![(n, x)];
            if let Ok(y) = n.text().parse::<Integer>() {
                v.push((n, y));
            }
            v
        })
        .map(|(n, x)| (n, x, hash(&x)))
        .collect();
    ck.section("pairs", "every pair of boundary numbers made in every way (native types and text): equality and hashing", all.len() as u64, |i, l| {
        let (n, x, hx) = all[i as usize];
        l.case(&i, true);
        l.call(all.len() as u64);
        for (j, (m, y, hy)) in all.iter().enumerate() {
            let want = n == *m;
            let got = x == *y;
            if got != want {
                l.fail(format!("{}[{i}]=={}[{j}]", n.text(), m.text()), format!("equality says {got}: {x:?} {y:?}"));
            }
            if want && hx != *hy {
                l.fail(format!("hash:{}[{i}]~{}[{j}]", n.text(), m.text()), format!("equal but hash differently: {x:?} {y:?}"));
            }
        }
        l.compared += all.len() as u64;
    });
    //what reading bytes accepts is what the bytes mean
    let firsts = 256_u64;
    let tails: Vec<Vec<u8>> = {
        let mut v = vec![];
        for fill in [0_u8, 1, 0x7F, 0x80, 0xFF] {
            for n in 0..=16_usize {
                for (at, b) in [(0_usize, 0x01_u8), (0, 0xF0), (15, 0x80), (15, 0x7F), (15, 0), (15, 0xFF), (7, 0x80), (7, 0)] {
                    let mut x = vec![fill; n];
                    if at < n {
                        x[at] = b;
                    }
                    if n > 0 && at >= n {
                        x[n - 1] = b;
                    }
                    v.push(x);
                }
            }
        }
        v.sort();
        v.dedup();
        v
    };
    ck.section("readings", "every first byte, every sign state and tails of every length: an accepted integer means the same through every view", firsts * 3 * tails.len() as u64, |i, l| {
        let first = (i % 256) as u8;
        let ss = SignedState::try_from((i / 256 % 3) as u8).unwrap();
        let tail = &tails[(i / 768) as usize];
        let mut b = vec![first];
        b.extend(tail);
        let key = || format!("{ss:?}:{}", crate::ck::hex(&b));
        let mut c = Cursor::new(&b);
        l.call(1);
        let Ok(x) = Integer::deser(ss, &mut c) else {
            l.case(&b, false);
            l.saw(1);
            return;
        };
        l.case(&(first, i / 256 % 3, tail), true);
        let Some(n) = num_of(&x) else {
            l.fail(key(), format!("accepted but displays as {x}"));
            return;
        };
        everything(l, x, n, &key);
    });
    //short texts
    let alphabet: Vec<char> = "0123459-+ a_.é٣".chars().collect();
    let len = if t { 6 } else { 5 };
    let total: u64 = (0..=len).map(|k| (alphabet.len() as u64).pow(k)).sum();
    ck.section("texts", "every text over 15 characters up to 5 (6) long: accepted exactly when a native 128-bit parser accepts it, with its value", total, |i, l| {
        let a = alphabet.len() as u64;
        let (mut k, mut n, mut count) = (i, 0, 1_u64);
        while k >= count {
            k -= count;
            count *= a;
            n += 1;
        }
        let mut s = String::new();
        for _ in 0..n {
            s.push(alphabet[(k % a) as usize]);
            k /= a;
        }
        text(l, &s);
    });
    let mut long: Vec<String> = vec![];
    for n in numbers(2) {
        let s = n.text();
        long.extend([format!("+{s}"), format!("0{s}"), format!("{s}0"), format!(" {s}"), format!("{s} "), format!("-{s}"), format!("--{s}"), s.replace('-', "-0"), s]);
    }
    long.extend(["340282366920938463463374607431768211456", "-170141183460469231731687303715884105729", "99999999999999999999999999999999999999999", "-99999999999999999999999999999999999999999", "0000000000000000000000000000000000000000000000000000000000001", "-0", "-00", "+0", "+", "-", "00"].map(String::from));
    ck.section("long-texts", "every boundary number decorated with signs, zeros and spaces", long.len() as u64, |i, l| text(l, &long[i as usize]));
}

fn text(l: &mut L, s: &str) {
    l.case(s, true);
    let want = s.parse::<u128>().ok().map(Num::u).or_else(|| s.parse::<i128>().ok().map(Num::i));
    l.call(1);
    let got = s.parse::<Integer>();
    l.saw(u64::from(got.is_ok()));
    let ok = match (&got, want) {
        (Ok(x), Some(n)) => num_of(x) == Some(n) && make(n, if n.neg { 11 } else { 5 }) == Some(*x),
        (Err(_), None) => true,
        _ => false,
    };
    l.check(ok, || format!("{s:?}").replace(' ', "_"), || format!("parsed as {got:?}, native gives {want:?}"));
}
