//! The values everything is tried on, and a comparison of values that does not use the code's own.
use chrono::{NaiveDate, NaiveDateTime, NaiveTime, Timelike};
use chrono_tz::Tz;
use hashbrown::HashMap;
use serde_json::{json, Value as J};
use sourisdb::{
    types::{binary::BinaryData, imaginary::Imaginary, integer::Integer},
    values::Value,
};
use std::net::{Ipv4Addr, Ipv6Addr};

///A number as the reference sees it.
#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, PartialOrd, Ord)]
pub struct Num {
    pub neg: bool,
    pub mag: u128,
}
impl Num {
    pub fn u(mag: u128) -> Self {
        Self { neg: false, mag }
    }
    pub fn i(v: i128) -> Self {
        Self { neg: v < 0, mag: v.unsigned_abs() }
    }
    pub fn text(&self) -> String {
        format!("{}{}", if self.neg { "-" } else { "" }, self.mag)
    }
    pub fn to_u(self) -> Option<u128> {
        (!self.neg).then_some(self.mag)
    }
    pub fn to_i(self) -> Option<i128> {
        if self.neg {
            if self.mag == 1 << 127 {
                Some(i128::MIN)
            } else {
                i128::try_from(self.mag).ok().map(|v| -v)
            }
        } else {
            i128::try_from(self.mag).ok()
        }
    }
}

///Magnitudes at and around every power of two, every byte boundary and the one-byte limit.
pub fn magnitudes(spread: u128) -> Vec<u128> {
    let mut v: Vec<u128> = (0..=300).collect();
    for k in 0..128 {
        let p = 1_u128 << k;
        for d in 0..=spread {
            v.push(p.saturating_sub(d));
            v.push(p.saturating_add(d));
        }
    }
    for bytes in 1..=16_u32 {
        //one significant byte at the top, at the bottom, and patterns
        let top = 1_u128 << (8 * (bytes - 1));
        for b in [1_u128, 0x7F, 0x80, 0x81, 0xEF, 0xF0, 0xFE, 0xFF] {
            v.push(top.saturating_mul(b));
            v.push(top.saturating_mul(b) | 1);
            v.push(top.saturating_mul(b) | (top - 1));
        }
    }
    v.push(u128::MAX);
    v.push(u128::MAX - 1);
    v.push(0x0123_4567_89AB_CDEF_FEDC_BA98_7654_3210);
    v.push(u128::from_le_bytes([0xAA; 16]));
    v.push(u128::from_le_bytes([0x55; 16]));
    v.sort_unstable();
    v.dedup();
    v
}

///Every number the boundary magnitudes give, of both signs.
pub fn numbers(spread: u128) -> Vec<Num> {
    let mut v = vec![];
    for m in magnitudes(spread) {
        v.push(Num::u(m));
        if m != 0 && m <= 1 << 127 {
            v.push(Num { neg: true, mag: m });
        }
    }
    v
}

pub const TYPES: [&str; 12] = ["u8", "u16", "u32", "u64", "usize", "u128", "i8", "i16", "i32", "i64", "isize", "i128"];

///The integer made from the number as the given type, if it fits that type.
pub fn make(n: Num, ty: usize) -> Option<Integer> {
    let u = n.to_u();
    let i = n.to_i();
    Some(match ty {
        0 => Integer::from(u8::try_from(u?).ok()?),
        1 => Integer::from(u16::try_from(u?).ok()?),
        2 => Integer::from(u32::try_from(u?).ok()?),
        3 => Integer::from(u64::try_from(u?).ok()?),
        4 => Integer::from(usize::try_from(u?).ok()?),
        5 => Integer::from(u?),
        6 => Integer::from(i8::try_from(i?).ok()?),
        7 => Integer::from(i16::try_from(i?).ok()?),
        8 => Integer::from(i32::try_from(i?).ok()?),
        9 => Integer::from(i64::try_from(i?).ok()?),
        10 => Integer::from(isize::try_from(i?).ok()?),
        11 => Integer::from(i?),
        _ => return None,
    })
}

///What the integer says it is, through its text.
pub fn num_of(i: &Integer) -> Option<Num> {
    let s = i.to_string();
    if let Some(m) = s.strip_prefix('-') {
        Some(Num { neg: true, mag: m.parse().ok()? })
    } else {
        Some(Num::u(s.parse().ok()?))
    }
}

pub fn f32s() -> Vec<f32> {
    let mut v = vec![0.0, -0.0, 1.0, -1.0, 0.1, -0.1, 0.5, f32::MIN, f32::MAX, f32::MIN_POSITIVE, f32::EPSILON, f32::INFINITY, f32::NEG_INFINITY, f32::NAN, -f32::NAN, 16777216.0, 1e-45, 123.456];
    for bits in [0x7FC0_0001_u32, 0x7F80_0001, 0xFFC1_2345, 0x0080_0000, 0x007F_FFFF, 0x8000_0001, 0x0102_0304] {
        v.push(f32::from_bits(bits));
    }
    v
}
pub fn f64s() -> Vec<f64> {
    let mut v = vec![
        0.0, -0.0, 1.0, -1.0, 0.1, -0.1, 0.5, 2.0, f64::MIN, f64::MAX, f64::MIN_POSITIVE, f64::EPSILON, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, -f64::NAN, 9007199254740992.0, 9007199254740993.0, 5e-324, 1e21, 1e16, 123456.789, 1e308,
        std::f64::consts::PI, 18446744073709551615.0, 18446744073709551616.0, -9223372036854775808.0, 9223372036854775807.0,
    ];
    for bits in [0x7FF8_0000_0000_0001_u64, 0x7FF0_0000_0000_0001, 0xFFF8_1234_5678_9ABC, 0x0010_0000_0000_0000, 0x000F_FFFF_FFFF_FFFF, 0x8000_0000_0000_0001, 0x0102_0304_0506_0708] {
        v.push(f64::from_bits(bits));
    }
    v
}

pub fn strings() -> Vec<String> {
    let mut v: Vec<String> = ["", "a", "aa", "aaaaaaaaaa", "ab", "ba", "abc", "\0", "\0\0", "é", "ñandú", "🖖", "🖖🖖", "\u{10ffff}", "\u{ffff}", "\"", "\\", "\n\t\r", "null", "JSON", "souris_type", " ", "日本語テキスト", "The quick brown fox jumps over the lazy dog.", "\u{feff}bom", "e\u{301}", "%2F", "../x"]
        .into_iter()
        .map(String::from)
        .collect();
    for n in [7_usize, 8, 9, 15, 16, 17, 127, 128, 238, 239, 240, 241, 254, 255, 256, 257, 1000] {
        v.push("x".repeat(n));
        v.push("xy".repeat(n / 2));
    }
    v.push((0..128_u8).map(char::from).collect());
    v.push((0..300_u32).filter_map(|c| char::from_u32(c * 7 + 1)).collect());
    v
}

pub fn chars() -> Vec<char> {
    ['\0', '\u{1}', ' ', 'a', 'z', '\u{7e}', '\u{7f}', '\u{80}', '\u{ee}', '\u{ef}', '\u{f0}', '\u{fe}', '\u{ff}', '\u{100}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffe}', '\u{ffff}', '\u{10000}', '🖖', '\u{10fffe}', '\u{10ffff}'].to_vec()
}

pub fn binaries() -> Vec<Vec<u8>> {
    let mut v: Vec<Vec<u8>> = vec![vec![], vec![0], vec![255], vec![0, 0], vec![0, 1], vec![1, 0, 1, 0, 1], b"hello hello hello hello".to_vec(), (0..=255).collect()];
    for n in [3_usize, 7, 16, 238, 239, 240, 241, 254, 255, 256, 257, 300, 510, 511, 600] {
        v.push(vec![7; n]);
        v.push((0..n).map(|i| (i % 2) as u8).collect());
        v.push((0..n).map(|i| (i * i * 31 + i * 7) as u8).collect());
    }
    v
}

pub fn ints() -> Vec<Integer> {
    let mut v = vec![];
    for n in numbers(1) {
        //the narrowest unsigned and signed, and the widest of each
        for ty in [0, 5, 6, 11, 3, 9] {
            if let Some(i) = make(n, ty) {
                v.push(i);
            }
        }
    }
    v
}
pub fn few_ints() -> Vec<Integer> {
    let mut v = vec![];
    for m in [0_u128, 1, 127, 128, 239, 240, 255, 256, 65535, 65536, (1 << 63) - 1, 1 << 63, (1 << 64) - 1, 1 << 64, (1 << 127) - 1, 1 << 127, u128::MAX] {
        let n = Num::u(m);
        v.extend(make(n, 5));
        v.extend(make(n, 11));
        if m > 0 {
            v.extend(make(Num { neg: true, mag: m }, 11));
        }
    }
    v
}

pub fn imaginaries() -> Vec<Imaginary> {
    let mut v = vec![];
    let few: Vec<Integer> = [(0_u128, false), (1, false), (239, false), (240, false), (65536, false), (1 << 127, true), (1, true), (17, true), (240, true), (256, true), ((1 << 127) - 1, false)]
        .into_iter()
        .flat_map(|(mag, neg)| {
            let n = Num { neg, mag };
            make(n, 5).into_iter().chain(make(n, 11))
        })
        .collect();
    for real in &few {
        for imaginary in &few {
            v.push(Imaginary::CartesianForm { real: *real, imaginary: *imaginary });
        }
    }
    v.push(Imaginary::CartesianForm { real: Integer::from(u128::MAX), imaginary: Integer::from(u128::MAX) });
    let fs = f64s();
    for (i, a) in fs.iter().enumerate() {
        v.push(Imaginary::PolarForm { modulus: *a, argument: fs[(i * 7 + 3) % fs.len()] });
        v.push(Imaginary::PolarForm { modulus: 1.5, argument: *a });
    }
    v
}

pub fn ts(y: i32, mo: u32, d: u32, h: u32, mi: u32, s: u32, n: u32) -> Option<NaiveDateTime> {
    //`from_hms_nano_opt` refuses leap seconds away from second 59; a time zone shift can make them, so build them the long way
    let t = NaiveTime::from_hms_opt(h, mi, s)?.with_nanosecond(n)?;
    Some(NaiveDateTime::new(NaiveDate::from_ymd_opt(y, mo, d)?, t))
}
///Plain, then with leap seconds at the only place text can show them, then leap seconds elsewhere.
pub fn timestamps() -> Vec<NaiveDateTime> {
    let mut v = vec![];
    for y in [1970, 0, 1, -1, 2024, 2023, 9999, 10000, -9999, -10000, 239, 240, 255, 256, 65535, -239, -240, -256, -257, 262_142, -262_143] {
        v.extend(ts(y, 1, 1, 0, 0, 0, 0));
        v.extend(ts(y, 12, 31, 23, 59, 59, 999_999_999));
        v.extend(ts(y, 2, 29, 12, 34, 56, 123_456_789));
    }
    for n in [0, 1, 239, 240, 255, 256, 1000, 65535, 65536, 999_999_999, 1_000_000, 500_000_000, 1_000_000_000, 1_500_000_000, 1_999_999_999] {
        v.extend(ts(2016, 12, 31, 23, 59, 59, n));
        if n < 1_000_000_000 {
            v.extend(ts(2016, 6, 30, 1, 2, 3, n));
        }
    }
    for m in 1..=12 {
        v.extend(ts(2001, m, 28, 5, 6, 7, 8));
    }
    v.push(NaiveDateTime::MIN);
    v.push(NaiveDateTime::MAX);
    v
}
pub fn odd_leap_timestamps() -> Vec<NaiveDateTime> {
    [(0, 1_000_000_000), (30, 1_500_000_000), (58, 1_999_999_999)].into_iter().filter_map(|(s, n)| ts(2020, 1, 1, 12, 0, s, n)).collect()
}

pub fn zones() -> Vec<Tz> {
    vec![chrono_tz::UTC, chrono_tz::Europe::London, chrono_tz::America::Argentina::ComodRivadavia, chrono_tz::Etc::GMTPlus12, chrono_tz::Asia::Kolkata, chrono_tz::EST5EDT]
}

pub fn v4s() -> Vec<Ipv4Addr> {
    vec![Ipv4Addr::new(0, 0, 0, 0), Ipv4Addr::new(127, 0, 0, 1), Ipv4Addr::new(255, 255, 255, 255), Ipv4Addr::new(1, 2, 3, 4), Ipv4Addr::new(240, 239, 0, 255)]
}
pub fn v6s() -> Vec<Ipv6Addr> {
    vec![Ipv6Addr::UNSPECIFIED, Ipv6Addr::LOCALHOST, Ipv6Addr::new(1, 2, 3, 4, 5, 6, 7, 8), Ipv6Addr::new(0x0102, 0x0304, 0x0506, 0x0708, 0x090a, 0x0b0c, 0x0d0e, 0x0f10), Ipv6Addr::from([0xFF; 16]), Ipv6Addr::new(0xfe80, 0, 0, 0, 0, 0, 0, 1)]
}

///JSON documents; floats in them are ones whose shortest text the standard parser reads back exactly, except `odd_json`.
pub fn jsons() -> Vec<J> {
    vec![
        json!(null), json!(true), json!(false), json!(0), json!(-1), json!(1), json!(u64::MAX), json!(i64::MIN), json!(1.0), json!(-0.5), json!(0.1), json!(1e300), json!(""), json!("a"), json!("\u{0}\"\\\u{1f596}"), json!([]), json!({}), json!([[]]), json!([{}]), json!({"a": 1}),
        json!({"a": {"b": [1, 2.5, null]}}), json!({"": ""}), json!([1, "a", null, true, {"k": [0]}]), json!({"souris_type": "x"}), json!({"JSON": 1}), json!("x".repeat(300)), json!({"k": "aaaaaaaaaaaaaaaa", "l": "aaaaaaaaaaaaaaaaaaa"}),
    ]
}
pub fn odd_json() -> Vec<J> {
    let mut v: Vec<J> = f64s().into_iter().filter(|f| f.is_finite()).map(|f| json!(f)).collect();
    v.extend([json!(1.7976931348623155e308), json!(-9.313225746154785e-10), json!(1.7e-300), json!(8.98846567431158e307), json!(0.3), json!(2.2250738585072014e-308)]);
    v
}

pub fn leaves() -> Vec<Value> {
    let mut v = vec![Value::Null(()), Value::Boolean(false), Value::Boolean(true)];
    v.extend(chars().into_iter().map(Value::Character));
    v.extend(strings().into_iter().map(Value::String));
    v.extend(binaries().into_iter().map(|b| Value::Binary(BinaryData(b))));
    v.extend(ints().into_iter().map(Value::Integer));
    v.extend(imaginaries().into_iter().map(Value::Imaginary));
    v.extend(timestamps().into_iter().map(Value::Timestamp));
    v.extend(odd_leap_timestamps().into_iter().map(Value::Timestamp));
    v.extend(jsons().into_iter().map(Value::JSON));
    v.extend(f32s().into_iter().map(Value::SingleFloat));
    v.extend(f64s().into_iter().map(Value::DoubleFloat));
    v.extend(zones().into_iter().map(Value::Timezone));
    v.extend(v4s().into_iter().map(Value::Ipv4Addr));
    v.extend(v6s().into_iter().map(Value::Ipv6Addr));
    v.push(Value::Array(vec![]));
    v.push(Value::Map(HashMap::new()));
    v
}

///A few of each kind, for combining.
pub fn few_leaves() -> Vec<Value> {
    let mut v = vec![Value::Null(()), Value::Boolean(false), Value::Boolean(true)];
    v.extend(['a', '\u{f0}', '🖖'].map(Value::Character));
    v.extend(["", "a", "aaaa", "ab", "é🖖", "JSON"].map(|s| Value::String(s.into())));
    v.push(Value::String("x".repeat(240)));
    v.extend([vec![], vec![0], vec![0; 300], vec![1, 2, 3]].map(|b| Value::Binary(BinaryData(b))));
    for (mag, neg, ty) in [(0, false, 5), (0, false, 11), (239, false, 5), (240, false, 5), (255, false, 11), (256, false, 5), (1, true, 11), (17, true, 11), (256, true, 11), (u128::MAX, false, 5), (1 << 127, true, 11)] {
        v.extend(make(Num { neg, mag }, ty).map(Value::Integer));
    }
    v.push(Value::Imaginary(Imaginary::CartesianForm { real: Integer::from(-3_i8), imaginary: Integer::from(240_u8) }));
    v.push(Value::Imaginary(Imaginary::PolarForm { modulus: 1.25, argument: -0.0 }));
    v.extend(ts(2024, 2, 29, 23, 59, 59, 1_500_000_000).map(Value::Timestamp));
    v.extend(ts(-5, 3, 4, 5, 6, 7, 240).map(Value::Timestamp));
    v.extend([json!({"a": [1, "é"]}), json!(2.5), json!(null)].map(Value::JSON));
    v.extend([0.0_f32, f32::NAN, 1.5].map(Value::SingleFloat));
    v.extend([-0.0_f64, f64::NAN, 1.5, f64::from_bits(0x0102_0304_0506_0708)].map(Value::DoubleFloat));
    v.push(Value::Timezone(chrono_tz::Europe::London));
    v.push(Value::Ipv4Addr(Ipv4Addr::new(1, 2, 3, 240)));
    v.push(Value::Ipv6Addr(Ipv6Addr::new(1, 2, 3, 4, 5, 6, 7, 0xF0F1)));
    v.push(Value::Array(vec![]));
    v.push(Value::Map(HashMap::new()));
    v
}

///One of each kind that matters for structure.
pub fn tiny_leaves() -> Vec<Value> {
    vec![
        Value::Null(()),
        Value::Integer(Integer::from(7_u8)),
        Value::String("a".into()),
        Value::String("bé".into()),
        Value::JSON(json!({"a": "b"})),
        Value::Timezone(chrono_tz::UTC),
        Value::DoubleFloat(-0.0),
        Value::Binary(BinaryData(vec![0; 9])),
    ]
}

pub fn map_of(entries: Vec<(String, Value)>) -> Value {
    let mut m = HashMap::new();
    for (k, v) in entries {
        m.insert(k, v);
    }
    Value::Map(m)
}

///The same kind and contents, floats bit for bit, by the reference's own rules.
pub fn exact(a: &Value, b: &Value) -> bool {
    match (a, b) {
        (Value::Character(a), Value::Character(b)) => *a as u32 == *b as u32,
        (Value::String(a), Value::String(b)) => a.as_bytes() == b.as_bytes(),
        (Value::Binary(a), Value::Binary(b)) => a.0 == b.0,
        (Value::Boolean(a), Value::Boolean(b)) => *a as u8 == *b as u8,
        (Value::Integer(a), Value::Integer(b)) => num_of(a).is_some() && num_of(a) == num_of(b),
        (Value::Imaginary(a), Value::Imaginary(b)) => match (a, b) {
            (Imaginary::CartesianForm { real: r, imaginary: i }, Imaginary::CartesianForm { real: r2, imaginary: i2 }) => num_of(r).is_some() && num_of(i).is_some() && num_of(r) == num_of(r2) && num_of(i) == num_of(i2),
            (Imaginary::PolarForm { modulus: m, argument: g }, Imaginary::PolarForm { modulus: m2, argument: g2 }) => m.to_bits() == m2.to_bits() && g.to_bits() == g2.to_bits(),
            _ => false,
        },
        (Value::Timestamp(a), Value::Timestamp(b)) => a.date() == b.date() && a.time().num_seconds_from_midnight() == b.time().num_seconds_from_midnight() && a.time().nanosecond() == b.time().nanosecond(),
        (Value::JSON(a), Value::JSON(b)) => json_exact(a, b),
        (Value::Null(()), Value::Null(())) => true,
        (Value::SingleFloat(a), Value::SingleFloat(b)) => a.to_bits() == b.to_bits(),
        (Value::DoubleFloat(a), Value::DoubleFloat(b)) => a.to_bits() == b.to_bits(),
        (Value::Array(a), Value::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| exact(a, b)),
        (Value::Map(a), Value::Map(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| exact(v, w))),
        (Value::Timezone(a), Value::Timezone(b)) => a.name() == b.name(),
        (Value::Ipv4Addr(a), Value::Ipv4Addr(b)) => a.octets() == b.octets(),
        (Value::Ipv6Addr(a), Value::Ipv6Addr(b)) => a.octets() == b.octets(),
        _ => false,
    }
}
pub fn json_exact(a: &J, b: &J) -> bool {
    match (a, b) {
        (J::Null, J::Null) => true,
        (J::Bool(a), J::Bool(b)) => a == b,
        (J::String(a), J::String(b)) => a == b,
        (J::Number(a), J::Number(b)) => match (a.as_u64(), b.as_u64(), a.as_i64(), b.as_i64()) {
            (Some(x), Some(y), _, _) => x == y,
            (None, None, Some(x), Some(y)) => x == y,
            (None, None, None, None) => a.as_f64().map(f64::to_bits) == b.as_f64().map(f64::to_bits),
            _ => false,
        },
        (J::Array(a), J::Array(b)) => a.len() == b.len() && a.iter().zip(b).all(|(a, b)| json_exact(a, b)),
        (J::Object(a), J::Object(b)) => a.len() == b.len() && a.iter().all(|(k, v)| b.get(k).is_some_and(|w| json_exact(v, w))),
        _ => false,
    }
}

///All the text a dictionary could be made from.
pub fn text_of(v: &Value, out: &mut String) {
    match v {
        Value::String(s) => out.push_str(s),
        Value::JSON(j) => out.push_str(&j.to_string()),
        Value::Timezone(t) => out.push_str(t.name()),
        Value::Array(a) => a.iter().for_each(|v| text_of(v, out)),
        Value::Map(m) => m.iter().for_each(|(k, v)| {
            out.push_str(k);
            text_of(v, out);
        }),
        _ => {}
    }
}

///Short and stable, for naming a failure.
pub fn name(v: &Value) -> String {
    let s = match v {
        Value::Character(c) => format!("char:U+{:04X}", *c as u32),
        Value::String(s) => format!("str:{}:{}", s.len(), crate::ck::hex(&s.as_bytes()[..s.len().min(12)])),
        Value::Binary(b) => format!("bin:{}:{}", b.0.len(), crate::ck::hex(&b.0[..b.0.len().min(12)])),
        Value::Boolean(b) => format!("bool:{b}"),
        Value::Integer(i) => format!("int:{i}"),
        Value::Imaginary(Imaginary::CartesianForm { real, imaginary }) => format!("imag:{real},{imaginary}"),
        Value::Imaginary(Imaginary::PolarForm { modulus, argument }) => format!("polar:{:016x},{:016x}", modulus.to_bits(), argument.to_bits()),
        Value::Timestamp(t) => format!("time:{}T{}+{}", t.date(), t.time().num_seconds_from_midnight(), t.time().nanosecond()),
        Value::JSON(j) => format!("json:{j}"),
        Value::Null(()) => "null".into(),
        Value::SingleFloat(f) => format!("f32:{:08x}", f.to_bits()),
        Value::DoubleFloat(f) => format!("f64:{:016x}", f.to_bits()),
        Value::Array(a) => format!("[{}]", a.iter().take(4).map(name).collect::<Vec<_>>().join(",")),
        Value::Map(m) => {
            let mut e: Vec<_> = m.iter().map(|(k, v)| format!("{k:?}={}", name(v))).collect();
            e.sort();
            e.truncate(4);
            format!("{{{}}}", e.join(","))
        }
        Value::Timezone(t) => format!("tz:{t}"),
        Value::Ipv4Addr(a) => format!("v4:{a}"),
        Value::Ipv6Addr(a) => format!("v6:{a}"),
    };
    let mut s: String = s.chars().map(|c| if c.is_whitespace() { '_' } else { c }).collect();
    if s.len() > 160 {
        s = format!("{}#{:016x}", s.chars().take(100).collect::<String>(), crate::ck::h64(&s));
    }
    s
}

///All values with at most `nodes` nodes, arrays and maps over the given leaves; maps use keys "a", "b", ...
pub fn trees(nodes: usize, leaves: &[Value]) -> Vec<Value> {
    let mut by_size: Vec<Vec<Value>> = vec![vec![]];
    for n in 1..=nodes {
        let mut here = vec![];
        if n == 1 {
            here.extend(leaves.iter().cloned());
        }
        //children whose sizes sum to n - 1
        for split in compositions(n - 1) {
            let mut idx = vec![0_usize; split.len()];
            if split.iter().any(|s| by_size[*s].is_empty()) {
                continue;
            }
            loop {
                let kids: Vec<Value> = split.iter().zip(&idx).map(|(s, i)| by_size[*s][*i].clone()).collect();
                here.push(map_of(kids.iter().cloned().enumerate().map(|(i, v)| (char::from(b'a' + i as u8).to_string(), v)).collect()));
                here.push(Value::Array(kids));
                let mut k = 0;
                loop {
                    if k == idx.len() {
                        break;
                    }
                    idx[k] += 1;
                    if idx[k] < by_size[split[k]].len() {
                        break;
                    }
                    idx[k] = 0;
                    k += 1;
                }
                if k == idx.len() {
                    break;
                }
            }
        }
        by_size.push(here);
    }
    by_size.into_iter().flatten().collect()
}
fn compositions(n: usize) -> Vec<Vec<usize>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for first in 1..=n {
        for mut rest in compositions(n - first) {
            rest.insert(0, first);
            out.push(rest);
        }
    }
    out
}

///All orders of `0..n`.
pub fn permutations(n: usize) -> Vec<Vec<u8>> {
    if n == 0 {
        return vec![vec![]];
    }
    let mut out = vec![];
    for p in permutations(n - 1) {
        for at in 0..=p.len() {
            let mut q = p.clone();
            q.insert(at, (n - 1) as u8);
            out.push(q);
        }
    }
    out.sort();
    out
}

///How many strings over `base` symbols are at most `max` long.
pub fn string_count(base: u64, max: u32) -> u64 {
    (0..=max).map(|k| base.pow(k)).sum()
}
///The `i`th string over `base` symbols, shortest first.
pub fn nth_string(mut i: u64, base: u64) -> Vec<u8> {
    let mut len = 0;
    let mut count = 1_u64;
    while i >= count {
        i -= count;
        count *= base;
        len += 1;
    }
    let mut v = Vec::with_capacity(len);
    for _ in 0..len {
        v.push((i % base) as u8);
        i /= base;
    }
    v
}

///How many containers there are beside one another, in each of a few shapes.
const WIDTHS: [usize; 16] = [1, 2, 3, 6, 7, 8, 63, 64, 127, 128, 129, 130, 256, 257, 1025, 4000];
pub const SIBLINGS: u64 = 2 * 7 * WIDTHS.len() as u64;
///An array or map of many containers, none of which is inside another one of them.
pub fn siblings(i: u64) -> (String, Value) {
    let (outer, shape, n) = (i % 2, i / 2 % 7, WIDTHS[(i / 14) as usize]);
    let one = |j: usize| {
        let leaf = Value::Boolean(j % 3 == 0);
        let shape = if shape == 6 { j as u64 % 6 } else { shape };
        match shape {
            0 => Value::Array(vec![]),
            1 => map_of(vec![]),
            2 => Value::Array(vec![leaf]),
            3 => map_of(vec![("k".into(), leaf)]),
            4 => map_of(vec![("a".into(), Value::Array(vec![leaf, map_of(vec![("b".into(), Value::Null(()))])])), ("c".into(), Value::Null(()))]),
            _ => nested(if n < 200 { 126 } else { 9 }, j % 4, &leaf),
        }
    };
    let v = if outer == 0 { Value::Array((0..n).map(one).collect()) } else { map_of((0..n).map(|j| (format!("{j}"), one(j))).collect()) };
    (format!("outer{outer}:shape{shape}:{n}"), v)
}

pub fn nested(depth: usize, kind: usize, inner: &Value) -> Value {
    let mut v = inner.clone();
    for d in 0..depth {
        let array = match kind {
            0 => true,
            1 => false,
            2 => d % 2 == 0,
            3 => d % 2 == 1,
            _ => d % 3 == 0,
        };
        v = if kind == 4 {
            //with a sibling before and after
            if array {
                Value::Array(vec![Value::Null(()), v, Value::Boolean(true)])
            } else {
                map_of(vec![("x".into(), Value::Null(())), ("k".into(), v), ("z".into(), Value::String("k".into()))])
            }
        } else if array {
            Value::Array(vec![v])
        } else {
            map_of(vec![("k".into(), v)])
        };
    }
    v
}
