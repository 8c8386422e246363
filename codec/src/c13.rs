//! C13: numeric conversions and arithmetic are exact or refused.
use crate::{
    ck::{guarded, h64, Ck, L},
    corpus::*,
};
use sourisdb::types::{
    imaginary::Imaginary,
    integer::{FloatToIntegerConversionError as Fe, Integer},
};
use std::f64::consts::PI;

#[derive(Debug, PartialEq)]
enum Answer {
    Is(Num),
    NotFinite,
    TooLarge,
    Decimals,
}

fn answer(r: Result<Integer, Fe>) -> Answer {
    match r {
        Ok(i) => num_of(&i).map_or(Answer::Decimals, Answer::Is),
        Err(Fe::NotFinite) => Answer::NotFinite,
        Err(Fe::TooLarge) => Answer::TooLarge,
        Err(Fe::DecimalsNotSupported(_)) => Answer::Decimals,
    }
}

///What is right, from the bits: a whole number and how far the float is from it. `None` for what is not finite.
fn whole(bits: u64, exp_bits: u32, man_bits: u32) -> Option<(Option<Num>, f64)> {
    let neg = bits >> (exp_bits + man_bits) & 1 == 1;
    let e = (bits >> man_bits) & ((1 << exp_bits) - 1);
    let m = bits & ((1 << man_bits) - 1);
    let bias = (1_i32 << (exp_bits - 1)) - 1;
    if e == (1 << exp_bits) - 1 {
        return None;
    }
    let (mant, exp) = if e == 0 { (m, 1 - bias - man_bits as i32) } else { (m | 1 << man_bits, e as i32 - bias - man_bits as i32) };
    //the value is mant * 2^exp
    if mant == 0 {
        return Some((Some(Num::u(0)), 0.0));
    }
    if exp >= 0 {
        //whole; does it fit?
        if exp as u32 + 64 - mant.leading_zeros() > 128 {
            return Some((None, 0.0));
        }
        let mag = u128::from(mant) << exp;
        if neg && mag > 1 << 127 {
            return Some((None, 0.0));
        }
        return Some((Some(Num { neg, mag }), 0.0));
    }
    let sh = (-exp) as u32;
    if sh >= 64 {
        //less than a half
        return Some((Some(Num::u(0)), (mant as f64) * 2_f64.powi(exp)));
    }
    let int = if sh == 64 { 0 } else { mant >> sh };
    let frac = mant & ((1_u64 << sh) - 1);
    let half = 1_u64 << (sh - 1);
    let (near, dist) = if frac > half { (int + 1, (1_u64 << sh) - frac) } else { (int, frac) };
    Some((Some(Num { neg: neg && near != 0, mag: u128::from(near) }), dist as f64 * 2_f64.powi(exp)))
}

fn judge(l: &mut L, got: Answer, w: Option<(Option<Num>, f64)>, eps: f64, key: impl FnOnce() -> String) {
    let (ok, want) = match &w {
        None => (got == Answer::NotFinite, "refused as not finite".to_string()),
        Some((None, _)) => (got == Answer::TooLarge, "refused as too large".to_string()),
        Some((Some(n), d)) if *d == 0.0 => (got == Answer::Is(*n), format!("exactly {}", n.text())),
        //whether something that close counts as whole is the code's choice, but not which number it is
        Some((Some(n), d)) if *d <= 2.0 * eps => (got == Answer::Is(*n) || got == Answer::Decimals, format!("{} or refused as a decimal", n.text())),
        Some(_) => (got == Answer::Decimals, "refused as a decimal".to_string()),
    };
    l.check(ok, key, || format!("gave {got:?}, should be {want}"));
}

fn f64_case(l: &mut L, bits: u64) {
    l.calls += 1;
    judge(l, answer(Integer::try_from(f64::from_bits(bits))), whole(bits, 11, 52), f64::EPSILON, || format!("f64:{bits:016x}"));
}
fn f32_case(l: &mut L, bits: u32) {
    l.calls += 1;
    judge(l, answer(Integer::try_from(f32::from_bits(bits))), whole(u64::from(bits), 8, 23), f64::from(f32::EPSILON), || format!("f32:{bits:08x}"));
}

fn arith(a: Num, b: Num, op: u64) -> Option<Option<Num>> {
    //outer none: no answer exists; inner none: more than 128 bits of magnitude
    let add = |a: Num, b: Num| -> Option<Num> {
        if a.neg == b.neg {
            a.mag.checked_add(b.mag).map(|mag| Num { neg: a.neg && mag != 0, mag })
        } else {
            let (big, small) = if a.mag >= b.mag { (a, b) } else { (b, a) };
            let mag = big.mag - small.mag;
            Some(Num { neg: big.neg && mag != 0, mag })
        }
    };
    match op {
        0 => Some(add(a, b)),
        1 => Some(add(a, Num { neg: !b.neg && b.mag != 0, mag: b.mag })),
        2 => Some(a.mag.checked_mul(b.mag).map(|mag| Num { neg: a.neg != b.neg && mag != 0, mag })),
        _ => (b.mag != 0).then(|| {
            let mag = a.mag / b.mag;
            Some(Num { neg: a.neg != b.neg && mag != 0, mag })
        }),
    }
}

pub fn run(ck: &Ck) {
    let t = ck.thorough;
    //f64: every exponent and sign, every pattern of the highest and lowest bits of the mantissa
    let (hi, lo) = if t { (12_u32, 6_u32) } else { (8, 4) };
    let per = 1_u64 << hi;
    ck.section("f64-bits", &format!("every sign and exponent of a double with every pattern of its {hi} highest and {lo} lowest mantissa bits, the rest zeros or ones"), 4096 * per, |i, l| {
        let (se, h) = (i / per, i % per);
        l.case(&i, true);
        let mid = 52 - hi - lo;
        for low in 0..1_u64 << lo {
            for m in [0, (1_u64 << mid) - 1] {
                f64_case(l, se << 52 | h << (52 - hi) | m << lo | low);
            }
        }
        l.saw(se);
    });
    //whole numbers and their neighbours
    let ns = numbers(2);
    ck.section("f64-near-whole", "the doubles nearest every boundary number, their 8 neighbours, and every binary fraction away from it", ns.len() as u64, |i, l| {
        let n = ns[i as usize];
        l.case(&i, true);
        let f = n.mag as f64 * if n.neg { -1.0 } else { 1.0 };
        for d in -4..=4_i64 {
            f64_case(l, f.to_bits().wrapping_add_signed(d));
        }
        for k in 1..=70 {
            for s in [1.0, -1.0] {
                let x = f + s * 2_f64.powi(-k);
                for d in -1..=1 {
                    f64_case(l, x.to_bits().wrapping_add_signed(d));
                }
            }
        }
        f64_case(l, (f + 0.1).to_bits());
        let f = n.mag as f32 * if n.neg { -1.0 } else { 1.0 };
        for d in -4..=4_i32 {
            f32_case(l, f.to_bits().wrapping_add_signed(d));
        }
        for k in 1..=40 {
            for s in [1.0, -1.0] {
                f32_case(l, (f + s * 2_f32.powi(-k)).to_bits());
            }
        }
    });
    if t {
        ck.section("f32-all", "every single float there is", 1 << 20, |i, l| {
            l.case(&i, true);
            for k in 0..4096_u32 {
                f32_case(l, (i as u32) << 12 | k);
            }
        });
    } else {
        ck.section("f32-bits", "every sign, exponent and 10 highest mantissa bits of a single float, the rest every pattern of the lowest 3 with zeros or ones between", 1 << 19, |i, l| {
            l.case(&i, true);
            for low in 0..8_u32 {
                for m in [0_u32, 0x3FF] {
                    f32_case(l, (i as u32) << 13 | m << 3 | low);
                }
            }
        });
    }

    //and back
    ck.section("to-float", "every boundary number as every type, to a double and a single", ns.len() as u64, |i, l| {
        let n = ns[i as usize];
        l.case(&i, true);
        for ty in 0..12 {
            let Some(x) = make(n, ty) else { continue };
            l.calls += 2;
            let (f, g) = (f64::from(x), f32::from(x));
            let exact = n.mag == 0 || 128 - n.mag.leading_zeros() - n.mag.trailing_zeros() <= 53;
            let want = n.mag as f64 * if n.neg { -1.0 } else { 1.0 };
            let ok = if exact { f == want } else { ((f - want) / want).abs() <= 4e-16 };
            l.check(ok, || format!("f64:{}:{}", n.text(), TYPES[ty]), || format!("gave {f:e}"));
            let exact = n.mag == 0 || 128 - n.mag.leading_zeros() - n.mag.trailing_zeros() <= 24;
            let want = n.mag as f32 * if n.neg { -1.0 } else { 1.0 };
            let ok = if exact || !want.is_finite() { g == want || (!want.is_finite() && g >= f32::MAX) } else { ((g - want) / want).abs() <= 3e-7 };
            l.check(ok, || format!("f32:{}:{}", n.text(), TYPES[ty]), || format!("gave {g:e}"));
            //what came out whole goes back in unchanged
            if f < 3.4e38 && f.fract() == 0.0 && f < 2_f64.powi(128) {
                let back = Integer::try_from(f).ok().and_then(|x| num_of(&x));
                if 128 - n.mag.leading_zeros() <= 53 {
                    l.check(back == Some(n), || format!("there-and-back:{}", n.text()), || format!("came back as {back:?}"));
                }
            }
        }
    });

    //arithmetic
    let mut an: Vec<Num> = vec![];
    for m in magnitudes(1).into_iter().filter(|m| if t { *m < 40 || *m > 290 || *m == 255 || *m == 256 } else { [0, 1, 2, 3, 7, 10, 127, 128, 239, 240, 255, 256].contains(m) || *m > 65000 && (m.count_ones() <= 1 || m.wrapping_add(1).count_ones() <= 1 || m.wrapping_sub(1).count_ones() <= 1) }) {
        an.push(Num::u(m));
        if m > 0 && m <= 1 << 127 {
            an.push(Num { neg: true, mag: m });
        }
    }
    let k = an.len() as u64;
    let tys = [(5, 5), (5, 11), (11, 5), (11, 11)];
    ck.section("arithmetic", &format!("every ordered pair of {k} boundary numbers, made from unsigned and signed types, under the four operations"), k * k, |i, l| {
        let (a, b) = (an[(i / k) as usize], an[(i % k) as usize]);
        l.case(&i, true);
        for (ta, tb) in tys {
            let (Some(x), Some(y)) = (make(a, ta), make(b, tb)) else { continue };
            for op in 0..4 {
                l.calls += 1;
                let got = guarded(|| match op {
                    0 => x + y,
                    1 => x - y,
                    2 => x * y,
                    _ => x / y,
                });
                let right = arith(a, b, op);
                let fits = match right {
                    Some(Some(r)) => {
                        if (ta, tb) == (5, 5) {
                            r.to_u().is_some()
                        } else {
                            a.to_i().is_some() && b.to_i().is_some() && r.to_i().is_some()
                        }
                    }
                    _ => false,
                };
                let got = got.map(|g| num_of(&g));
                let ok = match (&got, right) {
                    (Ok(Some(g)), Some(Some(r))) => *g == r,
                    (Ok(_), _) => false,
                    (Err(_), _) => !fits,
                };
                l.check(ok, || format!("{}{}{}:{ta},{tb}", a.text(), ["+", "-", "*", "/"][op as usize], b.text()), || format!("gave {got:?}, should be {right:?}"));
            }
        }
    });
    //small operands of every native type
    let small: Vec<Num> = [0_u128, 1, 2, 5, 127, 128, 255].iter().flat_map(|m| [Num::u(*m), Num { neg: *m > 0, mag: *m }]).collect();
    ck.section("arithmetic-types", "small operands made from every pair of the 12 native types", 144, |i, l| {
        let (ta, tb) = (i as usize / 12, i as usize % 12);
        l.case(&i, true);
        for a in &small {
            for b in &small {
                let (Some(x), Some(y)) = (make(*a, ta), make(*b, tb)) else { continue };
                for op in 0..4 {
                    l.calls += 1;
                    let got = guarded(|| match op {
                        0 => x + y,
                        1 => x - y,
                        2 => x * y,
                        _ => x / y,
                    })
                    .ok()
                    .map(|g| num_of(&g));
                    let unsigned = ta < 6 && tb < 6;
                    let right = arith(*a, *b, op).flatten().filter(|r| !unsigned || !r.neg);
                    let ok = match (got, right) {
                        (Some(g), Some(r)) => g == Some(r),
                        //a refusal is right only if there is nothing to give
                        (None, None) => true,
                        (Some(g), None) => g == arith(*a, *b, op).flatten() && g.is_some(),
                        (None, Some(_)) => false,
                    };
                    l.check(ok, || format!("{}{}{}:{},{}", a.text(), ["+", "-", "*", "/"][op as usize], b.text(), TYPES[ta], TYPES[tb]), || format!("gave {got:?}, should be {right:?}"));
                }
            }
        }
    });

    //complex numbers
    let range = if t { 300 } else { 100 };
    let w = 2 * range + 1;
    ck.section("polar-grid", &format!("every cartesian number with both parts from -{range} to {range}"), (w * w) as u64, |i, l| {
        let (re, im) = ((i as i64 / w) - range, (i as i64 % w) - range);
        l.case(&i, true);
        polar(l, Num::i(re.into()), Num::i(im.into()));
    });
    let big: Vec<Num> = ns.iter().copied().filter(|n| n.mag > 290 && (n.mag.count_ones() <= 1 || n.mag.wrapping_add(1).count_ones() <= 1) || n.mag < 2).collect();
    let b = big.len() as u64;
    ck.section("polar-large", &format!("every pair of {b} numbers at powers of two"), b * b, |i, l| {
        l.case(&i, true);
        polar(l, big[(i / b) as usize], big[(i % b) as usize]);
    });
    let mods: Vec<f64> = (0..=40).map(f64::from).chain([0.5, 1.5, 1e6, 1e15, 1e38, 1e39, 3.5e38, 1e300, -1.0, -7.0, -0.0, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, 5e-324]).collect();
    let args: Vec<f64> = (-96..=96).map(|k| f64::from(k) * PI / 48.0).chain([0.1, 1.0, -1.0, 100.0, 1e10, f64::NAN, f64::INFINITY, f64::NEG_INFINITY, -0.0, 5e-324, (3.0_f64 / 4.0).atan(), -(5.0_f64 / 12.0).atan()]).collect();
    ck.section("to-cartesian", "a grid of moduli and of arguments in 48ths of a half turn, and odd ones, to cartesian form", (mods.len() * args.len()) as u64, |i, l| {
        let (m, a) = (mods[i as usize / args.len()], args[i as usize % args.len()]);
        l.case(&i, true);
        l.call(1);
        let p = Imaginary::PolarForm { modulus: m, argument: a };
        cartesian(l, p, m, a, &|| format!("{m:e}@{a:e}"));
    });
}

fn polar(l: &mut L, re: Num, im: Num) {
    let key = || format!("{},{}", re.text(), im.text());
    for ty in [(5, 5), (11, 11), (5, 11)] {
        let (Some(r), Some(i)) = (make(re, ty.0), make(im, ty.1)) else { continue };
        let c = Imaginary::CartesianForm { real: r, imaginary: i };
        l.call(2);
        let Imaginary::PolarForm { modulus, argument } = c.to_polar_form() else {
            l.fail(key(), "is not in polar form");
            continue;
        };
        let (x, y) = (re.mag as f64 * if re.neg { -1.0 } else { 1.0 }, im.mag as f64 * if im.neg { -1.0 } else { 1.0 });
        let scale = x.abs().max(y.abs());
        let h = if scale == 0.0 { 0.0 } else { scale * ((x / scale).powi(2) + (y / scale).powi(2)).sqrt() };
        l.check((modulus - h).abs() <= 1e-12 * h && modulus >= 0.0, || format!("{}:modulus", key()), || format!("modulus is {modulus}, should be {h}"));
        l.check(argument.is_finite() && argument.abs() <= PI, || format!("{}:range", key()), || format!("argument is {argument}"));
        if scale > 0.0 {
            //the direction the argument points in is the direction of the number
            let (dx, dy) = (argument.cos(), argument.sin());
            let close = (dx - x / h).abs() <= 1e-12 && (dy - y / h).abs() <= 1e-12;
            l.check(close, || format!("{}:direction", key()), || format!("argument is {argument}, which points to {dx},{dy} and not {},{}", x / h, y / h));
            let half = PI / 2.0;
            let quadrant = match (x > 0.0, x < 0.0, y > 0.0, y < 0.0) {
                (true, _, true, _) => argument >= 0.0 && argument <= half,
                (true, _, _, true) => argument <= 0.0 && argument >= -half,
                (_, true, true, _) => argument >= half,
                (_, true, _, true) => argument <= -half,
                (true, _, _, _) => argument == 0.0,
                (_, true, _, _) => (argument.abs() - PI).abs() < 1e-15,
                (_, _, true, _) => (argument - half).abs() < 1e-15,
                _ => (argument + half).abs() < 1e-15,
            };
            l.check(quadrant, || format!("{}:quadrant", key()), || format!("argument is {argument}"));
        } else {
            l.check(modulus == 0.0, || format!("{}:zero", key()), || format!("modulus of zero is {modulus}"));
        }
        l.saw(h64(&(argument * 100.0) .to_bits()));
        //the same thing again
        let p = Imaginary::PolarForm { modulus, argument };
        l.check(matches!(p.to_polar_form(), Imaginary::PolarForm { modulus: m, argument: a } if m.to_bits() == modulus.to_bits() && a.to_bits() == argument.to_bits()), || format!("{}:again", key()), || "polar form of polar form differs".into());
        l.check(matches!(c.to_cartesian_form(), Ok(d) if same(&c, &d)), || format!("{}:stays", key()), || "cartesian form of cartesian form differs".into());
        match p.to_cartesian_form() {
            Ok(back) => {
                if scale <= 1e6 {
                    l.check(same(&back, &c), || format!("{}:back", key()), || format!("came back as {back}"));
                } else {
                    cartesian(l, p, modulus, argument, &key);
                }
            }
            Err((q, _)) => {
                l.check(matches!(q, Imaginary::PolarForm { modulus: m, argument: a } if m.to_bits() == modulus.to_bits() && a.to_bits() == argument.to_bits()), || format!("{}:refused", key()), || "a refused conversion changed the number".into());
                let must = im.mag == 0 && !re.neg && x < 3e38;
                l.check(!must, || format!("{}:must", key()), || "a positive real number does not convert back".into());
            }
        }
    }
}

fn same(a: &Imaginary, b: &Imaginary) -> bool {
    match (a, b) {
        (Imaginary::CartesianForm { real: r, imaginary: i }, Imaginary::CartesianForm { real: s, imaginary: j }) => num_of(r) == num_of(s) && num_of(i) == num_of(j),
        _ => false,
    }
}

fn cartesian(l: &mut L, p: Imaginary, m: f64, a: f64, key: &dyn Fn() -> String) {
    let (x, y) = (m * a.cos(), m * a.sin());
    match p.to_cartesian_form() {
        Ok(Imaginary::CartesianForm { real, imaginary }) => {
            let num = |n: Integer| num_of(&n).map_or(f64::NAN, |n| n.mag as f64 * if n.neg { -1.0 } else { 1.0 });
            let (r, i) = (num(real), num(imaginary));
            let tol = 1e-9 * (1.0 + m.abs());
            let ok = x.is_finite() && y.is_finite() && (r - x).abs() <= tol && (i - y).abs() <= tol;
            l.check(ok, || format!("{}:value", key()), || format!("gave {r},{i}, should be {x},{y}"));
            if m.abs() < 1e6 {
                let far = (x - x.round()).abs() > 1e-9 || (y - y.round()).abs() > 1e-9;
                l.check(!far, || format!("{}:decimals", key()), || format!("{x},{y} was taken for whole"));
            }
        }
        Ok(_) => l.fail(key(), "is not in cartesian form"),
        Err((Imaginary::PolarForm { modulus, argument }, why)) => {
            l.check(modulus.to_bits() == m.to_bits() && argument.to_bits() == a.to_bits(), || format!("{}:refused", key()), || "a refused conversion changed the number".into());
            let right = match why {
                Fe::NotFinite => !x.is_finite() || !y.is_finite(),
                Fe::TooLarge => x.abs() > 1e38 || y.abs() > 1e38,
                Fe::DecimalsNotSupported(_) => (x - x.round()).abs() > 1e-17 || (y - y.round()).abs() > 1e-17,
            };
            l.check(right, || format!("{}:reason", key()), || format!("refused as {why:?} though it is {x},{y}"));
            let must = a == 0.0 && m.is_finite() && m.fract() == 0.0 && (0.0..3e38).contains(&m);
            l.check(!must, || format!("{}:must", key()), || "a positive real number does not convert".into());
        }
        Err(_) => l.fail(key(), "a refused conversion changed the form"),
    }
}
