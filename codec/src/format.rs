//! A second reader and writer of everything that is stored, written from the description of the format. Nothing in here calls the code's own.
use crate::corpus::*;
use chrono::{Datelike, NaiveDate, NaiveDateTime, NaiveTime, Timelike};
use sourisdb::{
    hashbrown::HashMap,
    types::{binary::BinaryData, imaginary::Imaginary, integer::Integer},
    values::Value,
};
use std::collections::BTreeSet;
use std::net::{Ipv4Addr, Ipv6Addr};

pub type R<T> = Result<T, String>;

///A dictionary as the reference sees it.
#[derive(Clone, Debug, PartialEq)]
pub enum Tree<T> {
    Leaf(T),
    Branch(Box<Tree<T>>, Box<Tree<T>>),
}
impl<T: Clone + PartialEq> Tree<T> {
    pub fn of(symbols: &[T], shape: u64) -> Self {
        match symbols {
            [] => unreachable!("a dictionary of nothing"),
            [one] => Tree::Leaf(one.clone()),
            _ => {
                let at = match shape {
                    1 if symbols.len() <= 100 => 1,
                    2 if symbols.len() <= 100 => symbols.len() - 1,
                    _ => symbols.len() / 2,
                };
                Tree::Branch(Box::new(Self::of(&symbols[..at], shape)), Box::new(Self::of(&symbols[at..], shape)))
            }
        }
    }
    pub fn codes(&self) -> Vec<(T, Vec<bool>)> {
        fn go<T: Clone>(t: &Tree<T>, so_far: &mut Vec<bool>, out: &mut Vec<(T, Vec<bool>)>) {
            match t {
                Tree::Leaf(x) => out.push((x.clone(), so_far.clone())),
                Tree::Branch(l, r) => {
                    so_far.push(true);
                    go(l, so_far, out);
                    *so_far.last_mut().unwrap() = false;
                    go(r, so_far, out);
                    so_far.pop();
                }
            }
        }
        let mut out = vec![];
        go(self, &mut vec![], &mut out);
        if let [(_, code)] = &mut out[..] {
            *code = vec![true];
        }
        out
    }
    pub fn decode(&self, bits: &[bool]) -> R<Vec<T>> {
        let mut out = vec![];
        let mut at = self;
        for b in bits {
            if let Tree::Branch(l, r) = at {
                at = if *b { l } else { r };
            }
            if let Tree::Leaf(x) = at {
                out.push(x.clone());
                at = self;
            }
        }
        if at == self { Ok(out) } else { Err("bits left over".into()) }
    }
}

///The reference's reader.
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub p: usize,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Self {
        Self { b, p: 0 }
    }
    pub fn take(&mut self, n: usize) -> R<&'a [u8]> {
        let s = self.b.get(self.p..self.p.checked_add(n).ok_or("length")?).ok_or_else(|| format!("{n} bytes wanted at {} of {}", self.p, self.b.len()))?;
        self.p += n;
        Ok(s)
    }
    pub fn byte(&mut self) -> R<u8> {
        Ok(self.take(1)?[0])
    }
    pub fn end(&self) -> R<()> {
        if self.p == self.b.len() { Ok(()) } else { Err(format!("{} bytes left over", self.b.len() - self.p)) }
    }
    pub fn int(&mut self, state: u8) -> R<Num> {
        let first = self.byte()?;
        let mut le = [if state == 2 { 255 } else { 0 }; 16];
        if first <= 239 {
            le[0] = first;
        } else {
            let n = usize::from(first - 239);
            le[..n].copy_from_slice(self.take(n)?);
        }
        match state {
            0 => Ok(Num::u(u128::from_le_bytes(le))),
            1 if le[15] < 128 => Ok(Num::u(u128::from_le_bytes(le))),
            2 if le[15] >= 128 => Ok(Num::i(i128::from_le_bytes(le))),
            _ => Err(format!("sign {state} on {le:?}")),
        }
    }
    pub fn len(&mut self) -> R<usize> {
        Ok(self.int(0)?.mag as usize)
    }
    pub fn bits(&mut self) -> R<Vec<bool>> {
        let n = self.len()?;
        let b = self.take(n.div_ceil(8))?;
        Ok((0..n).map(|i| b[i / 8] >> (i % 8) & 1 == 1).collect())
    }
    pub fn char_tree(&mut self) -> R<Tree<char>> {
        if self.b.get(self.p) == Some(&0) {
            self.p += 1;
            let l = self.char_tree()?;
            let r = self.char_tree()?;
            return Ok(Tree::Branch(Box::new(l), Box::new(r)));
        }
        let c = self.int(0)?.mag;
        char::from_u32((c as u32).wrapping_sub(1)).map(Tree::Leaf).ok_or_else(|| format!("no char {c}"))
    }
    pub fn byte_tree(&mut self) -> R<Tree<u8>> {
        match self.byte()? {
            0 => {
                let l = self.byte_tree()?;
                let r = self.byte_tree()?;
                Ok(Tree::Branch(Box::new(l), Box::new(r)))
            }
            1 => Ok(Tree::Leaf(self.byte()?)),
            x => Err(format!("{x} in a tree")),
        }
    }
    pub fn binary(&mut self, how: u8) -> R<Vec<u8>> {
        match how {
            0 => {
                let n = self.len()?;
                Ok(self.take(n)?.to_vec())
            }
            1 => {
                let n = self.len()?;
                Ok(self.take(n)?.chunks_exact(2).flat_map(|p| vec![p[1]; usize::from(p[0])]).collect())
            }
            2 => {
                let n = self.len()?;
                if n == 0 {
                    return Ok(vec![]);
                }
                let m = self.len()?;
                let out = unlz4(self.take(m)?)?;
                if out.len() == n { Ok(out) } else { Err(format!("{} bytes instead of {n}", out.len())) }
            }
            3 => match self.byte()? {
                0 => Ok(vec![]),
                1 => {
                    let n = self.len()?;
                    Ok(vec![self.byte()?; n])
                }
                2 => {
                    let t = self.byte_tree()?;
                    t.decode(&self.bits()?)
                }
                x => Err(format!("huffman form {x}")),
            },
            x => Err(format!("compression {x}")),
        }
    }
    pub fn string(&mut self, low: u8, dict: Option<&Tree<char>>) -> R<String> {
        match low {
            0 => {
                let n = self.len()?;
                String::from_utf8(self.take(n)?.to_vec()).map_err(|e| e.to_string())
            }
            1 => {
                let bits = self.bits()?;
                Ok(dict.ok_or("coded text without a dictionary")?.decode(&bits)?.into_iter().collect())
            }
            x => Err(format!("text form {x}")),
        }
    }
    pub fn whole_string(&mut self, dict: Option<&Tree<char>>) -> R<String> {
        let h = self.byte()?;
        if h >> 4 == 1 { self.string(h & 15, dict) } else { Err(format!("kind {} instead of text", h >> 4)) }
    }
    pub fn listlen(&mut self, low: u8) -> R<usize> {
        if low & 1 == 0 { Ok(usize::from(low >> 1)) } else { self.len() }
    }
    pub fn value(&mut self, dict: Option<&Tree<char>>) -> R<Value> {
        let h = self.byte()?;
        let low = h & 15;
        Ok(match h >> 4 {
            0 => Value::Character(char::from_u32(self.int(0)?.mag as u32).ok_or("no such char")?),
            1 => Value::String(self.string(low, dict)?),
            2 => Value::Binary(BinaryData(self.binary(low)?)),
            3 => Value::Boolean(low == 1),
            4 => Value::Integer(native(self.int(low & 3)?)),
            5 => {
                if low == 0 {
                    let m = f64::from_bits(u64::from_le_bytes(self.take(8)?.try_into().unwrap()));
                    let a = f64::from_bits(u64::from_le_bytes(self.take(8)?.try_into().unwrap()));
                    Value::Imaginary(Imaginary::PolarForm { modulus: m, argument: a })
                } else {
                    let (r, i) = *SIGNS.get(usize::from(low)).ok_or("no such pair of signs")?;
                    let r = self.int(r)?;
                    let i = self.int(i)?;
                    Value::Imaginary(Imaginary::CartesianForm { real: native(r), imaginary: native(i) })
                }
            }
            6 => {
                let y = self.int(low & 3)?;
                let y = if y.neg { -(y.mag as i64) } else { y.mag as i64 };
                let mut n = [0; 6];
                for x in &mut n {
                    *x = self.int(0)?.mag as u32;
                }
                let d = NaiveDate::from_ymd_opt(y as i32, n[0], n[1]).ok_or("no such day")?;
                let t = NaiveTime::from_hms_opt(n[2], n[3], n[4]).and_then(|t| t.with_nanosecond(n[5])).ok_or("no such time")?;
                Value::Timestamp(NaiveDateTime::new(d, t))
            }
            7 => Value::JSON(serde_json::from_str(&self.whole_string(dict)?).map_err(|e| e.to_string())?),
            8 => {
                let n = self.listlen(low)?;
                let mut m = HashMap::new();
                for _ in 0..n {
                    let k = self.whole_string(dict)?;
                    let v = self.value(dict)?;
                    if m.insert(k, v).is_some() {
                        return Err("a key twice".into());
                    }
                }
                Value::Map(m)
            }
            9 => Value::Null(()),
            10 => Value::DoubleFloat(f64::from_bits(u64::from_le_bytes(self.take(8)?.try_into().unwrap()))),
            11 => {
                let n = self.listlen(low)?;
                let mut a = vec![];
                for _ in 0..n {
                    a.push(self.value(dict)?);
                }
                Value::Array(a)
            }
            12 => Value::Timezone(self.whole_string(dict)?.parse().map_err(|_| "no such zone")?),
            13 => {
                let b: [u8; 4] = self.take(4)?.try_into().unwrap();
                Value::Ipv4Addr(Ipv4Addr::from(b))
            }
            14 => {
                let b = self.take(16)?;
                let mut o = [0; 16];
                for i in 0..8 {
                    o[2 * i] = b[2 * i + 1];
                    o[2 * i + 1] = b[2 * i];
                }
                Value::Ipv6Addr(Ipv6Addr::from(o))
            }
            _ => Value::SingleFloat(f32::from_bits(u32::from_le_bytes(self.take(4)?.try_into().unwrap()))),
        })
    }
}

///Which signs the low bits of a number pair stand for.
pub const SIGNS: [(u8, u8); 10] = [(9, 9), (0, 0), (0, 1), (1, 0), (0, 2), (2, 0), (1, 1), (1, 2), (2, 1), (2, 2)];

pub fn native(n: Num) -> Integer {
    make(n, if n.neg { 11 } else { 5 }).expect("a number of 128 bits")
}

pub fn unlz4(b: &[u8]) -> R<Vec<u8>> {
    let mut r = Rd::new(b);
    let mut out: Vec<u8> = vec![];
    let more = |r: &mut Rd, mut n: usize| -> R<usize> {
        if n == 15 {
            loop {
                let x = r.byte()?;
                n += usize::from(x);
                if x != 255 {
                    break;
                }
            }
        }
        Ok(n)
    };
    loop {
        let token = r.byte()?;
        let n = more(&mut r, usize::from(token >> 4))?;
        out.extend(r.take(n)?);
        if r.p == b.len() {
            return Ok(out);
        }
        let off = usize::from(u16::from_le_bytes(r.take(2)?.try_into().unwrap()));
        let n = more(&mut r, usize::from(token & 15))? + 4;
        if off == 0 || off > out.len() {
            return Err(format!("offset {off}"));
        }
        for _ in 0..n {
            out.push(out[out.len() - off]);
        }
    }
}
pub fn lz4(b: &[u8], matches: bool) -> Vec<u8> {
    let mut out = vec![];
    let len = |out: &mut Vec<u8>, n: usize| {
        if n >= 15 {
            let mut n = n - 15;
            while n >= 255 {
                out.push(255);
                n -= 255;
            }
            out.push(n as u8);
        }
    };
    let (mut from, mut p) = (0, 0);
    while matches && p + 16 < b.len() {
        let best = (1..=p.min(40)).map(|o| (b[p..b.len() - 12].iter().zip(&b[p - o..]).take_while(|(x, y)| x == y).count(), o)).max().unwrap_or((0, 0));
        if best.0 < 4 {
            p += 1;
            continue;
        }
        let lit = p - from;
        out.push((lit.min(15) << 4 | (best.0 - 4).min(15)) as u8);
        len(&mut out, lit);
        out.extend(&b[from..p]);
        out.extend((best.1 as u16).to_le_bytes());
        len(&mut out, best.0 - 4);
        p += best.0;
        from = p;
    }
    let lit = b.len() - from;
    out.push((lit.min(15) << 4) as u8);
    len(&mut out, lit);
    out.extend(&b[from..]);
    out
}

///What the writer is free to choose.
#[derive(Clone, Copy, Debug)]
pub struct Choice {
    ///of binary values (0 to 3) and how hard it tries (4 and up)
    pub binary: u64,
    ///numbers that are not negative are marked as signed
    pub signed: bool,
    ///text by the dictionary: always, never, or only every other one
    pub coded: u64,
    pub reverse: bool,
}
pub const CHOICES: u64 = 6 * 2 * 3 * 2;
pub fn choice(i: u64) -> Choice {
    Choice { binary: i % 6, signed: i / 6 % 2 == 1, coded: i / 12 % 3, reverse: i / 36 % 2 == 1 }
}

///The reference's writer.
pub struct Wr<'a> {
    pub out: Vec<u8>,
    dict: Option<(&'a Tree<char>, HashMap<char, Vec<bool>>)>,
    how: Choice,
    texts: u64,
}
pub fn put_int(out: &mut Vec<u8>, n: Num) {
    let (le, fill) = if n.neg { (n.to_i().unwrap().to_le_bytes(), 255) } else { (n.mag.to_le_bytes(), 0) };
    let mut used = le.iter().rposition(|b| *b != fill).map_or(0, |i| i + 1);
    if n.neg {
        used = used.max(1);
    }
    if used <= 1 && le[0] <= 239 {
        out.push(le[0]);
    } else {
        out.push(239 + used as u8);
        out.extend(&le[..used]);
    }
}
pub fn put_bits(out: &mut Vec<u8>, bits: &[bool]) {
    put_int(out, Num::u(bits.len() as u128));
    for c in bits.chunks(8) {
        out.push(c.iter().enumerate().map(|(i, b)| u8::from(*b) << i).sum());
    }
}
pub fn put_char_tree(out: &mut Vec<u8>, t: &Tree<char>) {
    match t {
        Tree::Leaf(c) => put_int(out, Num::u(u128::from(*c as u32) + 1)),
        Tree::Branch(l, r) => {
            out.push(0);
            put_char_tree(out, l);
            put_char_tree(out, r);
        }
    }
}
pub fn put_byte_tree(out: &mut Vec<u8>, t: &Tree<u8>) {
    match t {
        Tree::Leaf(b) => out.extend([1, *b]),
        Tree::Branch(l, r) => {
            out.push(0);
            put_byte_tree(out, l);
            put_byte_tree(out, r);
        }
    }
}
///The low bits and the bytes.
pub fn binary(b: &[u8], how: u64) -> (u8, Vec<u8>) {
    let mut out = vec![];
    match how {
        0 => {
            put_int(&mut out, Num::u(b.len() as u128));
            out.extend(b);
            (0, out)
        }
        1 | 4 => {
            let most = if how == 1 { 255 } else { 3 };
            let mut pairs = vec![];
            let mut i = 0;
            while i < b.len() {
                let n = b[i..].iter().take_while(|x| **x == b[i]).count().min(most);
                pairs.extend([n as u8, b[i]]);
                i += n;
            }
            put_int(&mut out, Num::u(pairs.len() as u128));
            out.extend(pairs);
            (1, out)
        }
        2 | 5 => {
            put_int(&mut out, Num::u(b.len() as u128));
            if !b.is_empty() {
                let c = lz4(b, how == 2);
                put_int(&mut out, Num::u(c.len() as u128));
                out.extend(c);
            }
            (2, out)
        }
        _ => {
            let symbols: BTreeSet<u8> = b.iter().copied().collect();
            match symbols.len() {
                0 => out.push(0),
                1 => {
                    out.push(1);
                    put_int(&mut out, Num::u(b.len() as u128));
                    out.push(b[0]);
                }
                _ => {
                    out.push(2);
                    let t = Tree::of(&symbols.into_iter().collect::<Vec<_>>(), b.len() as u64 % 3);
                    put_byte_tree(&mut out, &t);
                    let codes: HashMap<u8, Vec<bool>> = t.codes().into_iter().collect();
                    put_bits(&mut out, &b.iter().flat_map(|b| codes[b].clone()).collect::<Vec<_>>());
                }
            }
            (3, out)
        }
    }
}
impl<'a> Wr<'a> {
    pub fn new(dict: Option<&'a Tree<char>>, how: Choice) -> Self {
        Self { out: vec![], dict: dict.map(|t| (t, t.codes().into_iter().collect())), how, texts: 0 }
    }
    pub fn int(&mut self, n: Num) {
        put_int(&mut self.out, n);
    }
    pub fn state(&self, n: Num) -> u8 {
        if n.neg {
            2
        } else {
            u8::from(self.how.signed && n.mag >> 127 == 0)
        }
    }
    pub fn text(&mut self, s: &str) {
        self.texts += 1;
        let coded = match self.how.coded {
            0 => true,
            1 => false,
            _ => self.texts % 2 == 0,
        };
        let bits = self.dict.as_ref().filter(|_| coded).and_then(|(_, codes)| s.chars().map(|c| codes.get(&c).cloned()).collect::<Option<Vec<_>>>());
        if let Some(bits) = bits {
            self.out.push(0x11);
            put_bits(&mut self.out, &bits.concat());
        } else {
            self.out.push(0x10);
            self.int(Num::u(s.len() as u128));
            self.out.extend(s.as_bytes());
        }
    }
    pub fn list(&mut self, kind: u8, n: usize) {
        if n < 7 {
            self.out.push(kind << 4 | (n as u8) << 1);
        } else {
            self.out.push(kind << 4 | 1);
            self.int(Num::u(n as u128));
        }
    }
    pub fn value(&mut self, v: &Value) {
        match v {
            Value::Character(c) => {
                self.out.push(0x00);
                self.int(Num::u(u128::from(*c as u32)));
            }
            Value::String(s) => self.text(s),
            Value::Binary(b) => {
                let (low, bytes) = binary(&b.0, self.how.binary);
                self.out.push(0x20 | low);
                self.out.extend(bytes);
            }
            Value::Boolean(b) => self.out.push(0x30 | u8::from(*b)),
            Value::Integer(i) => {
                let n = num_of(i).unwrap();
                self.out.push(0x40 | self.state(n));
                self.int(n);
            }
            Value::Imaginary(Imaginary::PolarForm { modulus, argument }) => {
                self.out.push(0x50);
                self.out.extend(modulus.to_bits().to_le_bytes());
                self.out.extend(argument.to_bits().to_le_bytes());
            }
            Value::Imaginary(Imaginary::CartesianForm { real, imaginary }) => {
                let (r, i) = (num_of(real).unwrap(), num_of(imaginary).unwrap());
                let signs = (self.state(r), self.state(i));
                self.out.push(0x50 | SIGNS.iter().position(|s| *s == signs).unwrap() as u8);
                self.int(r);
                self.int(i);
            }
            Value::Timestamp(t) => {
                let y = Num::i(i128::from(t.date().year()));
                self.out.push(0x60 | if y.neg { 2 } else { 1 - u8::from(!self.how.signed) });
                self.int(y);
                for n in [t.date().month(), t.date().day(), t.time().hour(), t.time().minute(), t.time().second(), t.time().nanosecond()] {
                    self.int(Num::u(u128::from(n)));
                }
            }
            Value::JSON(j) => {
                self.out.push(0x70);
                self.text(&serde_json::to_string(j).unwrap());
            }
            Value::Map(m) => {
                self.list(8, m.len());
                let mut e: Vec<_> = m.iter().collect();
                e.sort_by_key(|(k, _)| k.as_str());
                if self.how.reverse {
                    e.reverse();
                }
                for (k, v) in e {
                    self.text(k);
                    self.value(v);
                }
            }
            Value::Null(()) => self.out.push(0x90),
            Value::DoubleFloat(f) => {
                self.out.push(0xA0);
                self.out.extend(f.to_bits().to_le_bytes());
            }
            Value::Array(a) => {
                self.list(11, a.len());
                for v in a {
                    self.value(v);
                }
            }
            Value::Timezone(z) => {
                self.out.push(0xC0);
                self.text(z.name());
            }
            Value::Ipv4Addr(a) => {
                self.out.push(0xD0);
                self.out.extend(a.octets());
            }
            Value::Ipv6Addr(a) => {
                self.out.push(0xE0);
                for p in a.octets().chunks(2) {
                    self.out.extend([p[1], p[0]]);
                }
            }
            Value::SingleFloat(f) => {
                self.out.push(0xF0);
                self.out.extend(f.to_bits().to_le_bytes());
            }
        }
    }
}

pub fn read_file(b: &[u8]) -> R<Value> {
    let mut r = Rd::new(b);
    if r.take(8)? != b"SOURISDB" {
        return Err("no magic bytes".into());
    }
    let h = r.byte()?;
    let body = r.binary(h & 127)?;
    r.end()?;
    let mut r = Rd::new(&body);
    let tree = if h & 128 != 0 { Some(r.char_tree()?) } else { None };
    let v = r.value(tree.as_ref())?;
    r.end()?;
    Ok(v)
}

///A map as a file: by which compression, with a dictionary of which shape (3: without).
pub fn write_file(v: &Value, compression: u64, shape: u64, how: Choice) -> Vec<u8> {
    let symbols = symbols(v);
    let tree = (shape < 3 && !symbols.is_empty()).then(|| Tree::of(&symbols, shape));
    let mut w = Wr::new(tree.as_ref(), how);
    if let Some(t) = &tree {
        put_char_tree(&mut w.out, t);
    }
    w.value(v);
    let (low, body) = binary(&w.out, compression);
    let mut bytes = b"SOURISDB".to_vec();
    bytes.push(low | u8::from(tree.is_some()) << 7);
    bytes.extend(body);
    bytes
}
pub fn symbols(v: &Value) -> Vec<char> {
    let mut s = String::new();
    text_of(v, &mut s);
    s.chars().collect::<BTreeSet<_>>().into_iter().collect()
}
