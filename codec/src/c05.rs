//! C05: binary compression is lossless and picks the smallest form.
use crate::{
    ck::{hex, Ck, L},
    corpus::*,
};
use sourisdb::{
    types::{
        binary::{
            huffman::{huffman, un_huffman},
            lz::{lz, un_lz},
            rle::{rle, un_rle},
            BinaryCompression, BinaryData,
        },
        integer::Integer,
    },
    utilities::cursor::Cursor,
    values::Value,
};

fn key(data: &[u8]) -> String {
    if data.len() <= 24 {
        format!("{}:{}", data.len(), hex(data))
    } else {
        format!("{}:{}#{:x}", data.len(), hex(&data[..12]), crate::ck::h64(data))
    }
}

fn one(l: &mut L, name: &str, data: &[u8], bytes: Vec<u8>, trailing: &[u8], un: impl Fn(&mut Cursor<u8>) -> Result<Vec<u8>, String>) -> usize {
    let n = bytes.len();
    let mut all = bytes;
    all.extend_from_slice(trailing);
    let mut c = Cursor::new(&all);
    l.call(2);
    match un(&mut c) {
        Ok(back) => {
            l.check(back == data, || format!("{name}:{}", key(data)), || format!("restored {} from {}", hex(&back), hex(&all)));
            l.check(c.pos() == n, || format!("{name}:{}:end", key(data)), || format!("wrote {n} bytes, read {}", c.pos()));
        }
        Err(e) => l.fail(format!("{name}:{}", key(data)), format!("could not be restored: {e} from {}", hex(&all))),
    }
    n
}

fn all(l: &mut L, data: &[u8], trailing: &[u8]) {
    let plain = {
        //what storing the bytes as they are takes
        let mut v = Integer::usize(data.len()).ser().1;
        v.extend_from_slice(data);
        v
    };
    let a = one(l, "nothing", data, plain, trailing, |c| BinaryData::deser(BinaryCompression::Nothing, c).map(|b| b.0).map_err(|e| e.to_string()));
    let b = one(l, "rle", data, rle(data), trailing, |c| un_rle(c).map_err(|e| e.to_string()));
    one(l, "rle-via-data", data, rle(data), trailing, |c| BinaryData::deser(BinaryCompression::RunLengthEncoding, c).map(|b| b.0).map_err(|e| e.to_string()));
    let z = lz(data);
    let c = one(l, "lz", data, z.clone(), trailing, |c| un_lz(c).map_err(|e| e.to_string()));
    one(l, "lz-via-data", data, z, trailing, |c| BinaryData::deser(BinaryCompression::LempelZiv, c).map(|b| b.0).map_err(|e| e.to_string()));
    let h = huffman(data);
    let d = one(l, "huffman", data, h.clone(), trailing, |c| un_huffman(c).map_err(|e| e.to_string()));
    one(l, "huffman-via-data", data, h, trailing, |c| BinaryData::deser(BinaryCompression::Huffman, c).map(|b| b.0).map_err(|e| e.to_string()));
    let (how, bytes) = BinaryData(data.to_vec()).ser();
    l.saw(u64::from(u8::from(how)) << 32 | bytes.len() as u64);
    let how2 = BinaryCompression::try_from(u8::from(how));
    l.check(matches!(how2, Ok(h) if u8::from(h) == u8::from(how)), || format!("choice:{}", key(data)), || "the choice does not survive its byte".into());
    let n = one(l, "auto", data, bytes, trailing, |c| BinaryData::deser(how, c).map(|b| b.0).map_err(|e| e.to_string()));
    let best = a.min(b).min(c).min(d);
    l.check(n <= best, || format!("auto-size:{}", key(data)), || format!("chose {how:?} with {n} bytes; nothing {a}, rle {b}, lz {c}, huffman {d}"));
    //and as a value: one more byte
    let v = Value::Binary(BinaryData(data.to_vec())).ser(None);
    let mut allv = v.clone();
    allv.extend_from_slice(trailing);
    let mut c = Cursor::new(&allv);
    l.call(2);
    let back = Value::deser(&mut c, None);
    l.check(matches!(&back, Ok(Value::Binary(b)) if b.0 == data) && c.pos() == v.len(), || format!("value:{}", key(data)), || format!("{back:?}"));
    l.check(v.len() <= best + 1, || format!("value-size:{}", key(data)), || format!("{} bytes, shortest is {best}", v.len()));
}

///A text with frequent and rare symbols, for which a code beats storing it.
fn skewed(n: usize, k: usize) -> Vec<u8> {
    (0..n).map(|i| ((i * i + i / 3) % (k * k)).isqrt() as u8).collect()
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    let (two, three, four) = if t { (20, 13, 10) } else { (16, 11, 8) };
    for (base, max, syms) in [(2_u64, two, &[0_u8, 255][..]), (3, three, &[b'a', 0, 1]), (4, four, &[1, 2, 0xEF, 0xF0])] {
        ck.section(&format!("strings-{base}"), &format!("every byte string over {base} symbols up to {max} long, four methods and the automatic choice"), string_count(base, max), |i, l| {
            let s: Vec<u8> = nth_string(i, base).into_iter().map(|x| syms[x as usize]).collect();
            l.case(&s, true);
            l.sample(|| format!("{} -> {:?}", hex(&s), BinaryData(s.clone()).ser()));
            all(l, &s, &[0, 1, 2]);
        });
    }
    ck.section("short", "every byte string of at most two bytes (thorough: and every three-byte string with the first byte among 16)", string_count(256, 2) + if t { 16 << 16 } else { 0 }, |i, l| {
        let two = string_count(256, 2);
        let s = if i < two { nth_string(i, 256) } else { vec![((i - two) >> 16) as u8 * 17, ((i - two) >> 8) as u8, (i - two) as u8] };
        l.case(&s, true);
        all(l, &s, &[1, 1]);
    });
    //runs: three runs around each counter boundary
    let lens: Vec<usize> = vec![0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 16, 17, 18, 19, 20, 63, 64, 65, 126, 127, 128, 129, 238, 239, 240, 241, 253, 254, 255, 256, 257, 258, 270, 509, 510, 511, 512, 764, 765, 766, 1020, 1021];
    let n = lens.len();
    ck.section("runs", "every three runs with lengths at and around 0, 4, 16, 128, 240, 255, 510, 765, 1020, equal or different bytes", (n * n * n * 2) as u64, |i, l| {
        let i = i as usize;
        let (a, b, c) = (lens[i / 2 % n], lens[i / 2 / n % n], lens[i / 2 / n / n]);
        let bytes = if i % 2 == 0 { [7_u8, 7, 9] } else { [0, 255, 0] };
        let mut s = vec![bytes[0]; a];
        s.extend(vec![bytes[1]; b]);
        s.extend(vec![bytes[2]; c]);
        if !t && i % 2 == 1 && (a > 300 && b > 300) {
            l.case(&0, false);
            return;
        }
        l.case(&s, true);
        all(l, &s, &[255]);
    });
    let mut lens: Vec<usize> = (0..=700).collect();
    lens.extend([1023, 1024, 4095, 4096, 4097, 65534, 65535, 65536, 65537, 65545, 131_072, 1_000_000]);
    ck.section("lengths", "every length 0..=700 and around 1Ki, 4Ki, 64Ki, 1M with seven kinds of content", (lens.len() * 7) as u64, |i, l| {
        let n = lens[i as usize / 7];
        let s: Vec<u8> = match i % 7 {
            0 => vec![0; n],
            1 => (0..n).map(|i| (i % 256) as u8).collect(),
            2 => (0..n as u64).map(|i| (i.wrapping_mul(0x9E37_79B9_7F4A_7C15) >> 56) as u8).collect(),
            3 => (0..n).map(|i| (i % 2) as u8).collect(),
            4 => skewed(n, 6),
            5 => (0..n).map(|i| b"abcabcabd"[i % 9].wrapping_add((i / 300) as u8)).collect(),
            _ => (0..n).map(|i| if i + 1 == n { 1 } else { 0 }).collect(),
        };
        l.case(&(n, i % 7), true);
        all(l, &s, &[0xEF, 0xFF]);
    });
    //distances at which a match can be referred to
    let ds: Vec<usize> = vec![1, 2, 3, 4, 5, 8, 15, 16, 17, 255, 256, 257, 4095, 4096, 4097, 65533, 65534, 65535, 65536, 65537, 65540];
    let ms: Vec<usize> = vec![1, 3, 4, 5, 14, 15, 18, 19, 20, 100, 273, 274, 275, 276, 529, 530];
    ck.section("matches", "a repeated piece of every boundary length at every boundary distance, alone at the end and followed by other bytes", (ds.len() * ms.len() * 3) as u64, |i, l| {
        let i = i as usize;
        let (d, m, tail) = (ds[i / 3 / ms.len()], ms[i / 3 % ms.len()], [0, 5, 13][i % 3]);
        let piece: Vec<u8> = (0..m as u64).map(|i| (i.wrapping_mul(0xD134_2543_DE82_EF95) >> 56) as u8).collect();
        let mut s = piece.clone();
        s.extend((m..d).map(|i| (i * 7 % 251) as u8));
        s.extend(&piece);
        s.extend((0..tail).map(|i| i as u8 ^ 0x5A));
        l.case(&s, true);
        all(l, &s, &[]);
    });
    //symbol sets: all bytes used, with growing skew
    ck.section("alphabets", "inputs with exactly k different bytes, k = 1..=256, even and skewed", 256 * 4, |i, l| {
        let k = i as usize / 4 + 1;
        let mut s = vec![];
        match i % 4 {
            0 => s.extend((0..k).map(|b| b as u8)),
            1 => (0..k).for_each(|b| s.extend(vec![b as u8; 1 + b % 5])),
            2 => (0..k).for_each(|b| s.extend(vec![(255 - b) as u8; 1 << (b % 11)])),
            _ => (0..3 * k).for_each(|b| s.push((b * 7 % k) as u8)),
        }
        l.case(&s, true);
        all(l, &s, &[2]);
    });
    //codes as deep as frequencies allow
    ck.section("deep-codes", "Fibonacci frequencies giving codes of every depth up to 24 (thorough 27)", if t { 28 } else { 25 }, |i, l| {
        let (mut a, mut b) = (1_usize, 1_usize);
        let mut s = vec![];
        for k in 0..=i {
            s.extend(vec![k as u8; a]);
            (a, b) = (b, a + b);
        }
        l.case(&s, true);
        all(l, &s, &[3]);
    });
    ck.section("deepest-codes", "codes 25..=33 (thorough 36) deep, by code and by the automatic choice", if t { 12 } else { 9 }, |i, l| {
        let (mut a, mut b) = (1_usize, 1_usize);
        let mut s = vec![];
        for k in 0..26 + i {
            s.extend(vec![k as u8; a]);
            (a, b) = (b, a + b);
        }
        l.case(&i, true);
        let n = one(l, "huffman", &s, huffman(&s), &[3], |c| un_huffman(c).map_err(|e| e.to_string()));
        let (how, bytes) = BinaryData(s.clone()).ser();
        let m = one(l, "auto", &s, bytes, &[3], |c| BinaryData::deser(how, c).map(|b| b.0).map_err(|e| e.to_string()));
        l.check(m <= n, || format!("deepest{i}:size"), || format!("chose {how:?} with {m} bytes, huffman takes {n}"));
    });
}
