//! Amounts and signed amounts against big integers.
use common::primitives::amount::{Amount, SignedAmount};
use num::{bigint::Sign, BigInt, BigUint, Signed as _, ToPrimitive, Zero};
use pbt::{check, check_eq, enumerated, facet, note, Gen, Property, Res};
use serialization::{Compact, Decode, DecodeAll, Encode};

pub const P: Property = Property {
    id: "C01",
    rule: "Operands are drawn with a bias to 0, powers of two, the maximum and all magnitudes (second operands also as quotient, complement or neighbour of the first); every operation is compared with arbitrary-precision integers. Non-trivial: both operands differ from 0 and 1.",
    facets: &[
        facet("unsigned_ops", 1_200_000, unsigned_ops),
        facet("signed_ops", 1_200_000, signed_ops),
        facet("sums", 400_000, sums),
        facet("conversions", 600_000, conversions),
        facet("codec", 600_000, codec),
        enumerated("shift_all", 200 * 4, shift_all),
    ],
    assumptions: &["The remainder of the smallest signed amount by -1 may be refused (as in the native type)."],
};

fn big(v: u128) -> BigInt {
    BigInt::from(v)
}
fn as_u(v: &BigInt) -> Option<u128> {
    v.to_u128()
}
fn as_i(v: &BigInt) -> Option<i128> {
    v.to_i128()
}
fn atoms(a: Option<Amount>) -> Option<u128> {
    a.map(|a| a.into_atoms())
}
fn satoms(a: Option<SignedAmount>) -> Option<i128> {
    a.map(|a| a.into_atoms())
}

/// A second operand that is likely to sit at a boundary with the first.
pub fn related(g: &mut Gen, a: u128) -> u128 {
    let d = u128::from(g.below(4));
    match g.weighted(&[5, 1, 1, 1, 1, 1]) {
        0 => g.u128(),
        1 => (u128::MAX - a).wrapping_add(1).wrapping_sub(d),
        2 => a.wrapping_add(d).wrapping_sub(1),
        3 => {
            if a == 0 {
                d
            } else {
                (u128::MAX / a).wrapping_add(1).wrapping_sub(d)
            }
        }
        4 => {
            // a divisor or near-divisor
            let q = u128::from(g.below(1000) + 1);
            (a / q).wrapping_add(d)
        }
        _ => !a,
    }
}

fn unsigned_ops(g: &mut Gen) -> Res {
    let a = g.u128();
    let b = related(g, a);
    note!(g, "a={a} b={b}");
    g.nontrivial_if(a > 1 && b > 1);
    let (x, y) = (Amount::from_atoms(a), Amount::from_atoms(b));
    let (p, q) = (big(a), big(b));
    check_eq!(x.into_atoms(), a, "atoms");
    let sum = as_u(&(&p + &q));
    g.tag_if(sum.is_none(), "sum overflows");
    check_eq!(atoms(x + y), sum, "{a} + {b}");
    let dif = as_u(&(&p - &q));
    g.tag_if(dif.is_none(), "difference is negative");
    check_eq!(atoms(x - y), dif, "{a} - {b}");
    let prod = as_u(&(&p * &q));
    g.tag_if(prod.is_none(), "product overflows");
    check_eq!(atoms(x * b), prod, "{a} * {b}");
    let (quo, rem) = if b == 0 { (None, None) } else { (as_u(&(&p / &q)), as_u(&(&p % &q))) };
    g.tag_if(b == 0, "division by zero");
    check_eq!(atoms(x / b), quo, "{a} / {b}");
    check_eq!(atoms(x % b), rem, "{a} % {b}");
    check_eq!(x.abs_diff(y).into_atoms(), as_u(&(&p - &q).abs()).unwrap(), "abs_diff({a}, {b})");
    check_eq!(x.cmp(&y), p.cmp(&q), "cmp({a}, {b})");
    check_eq!(x.partial_cmp(&y), Some(p.cmp(&q)), "partial_cmp({a}, {b})");
    check_eq!(x == y, p == q, "eq({a}, {b})");
    // Bitwise operations, bit by bit.
    let bits = |f: fn(bool, bool) -> bool| -> u128 {
        (0..128).filter(|i| f(p.bit(*i), q.bit(*i))).map(|i| 1u128 << i).sum()
    };
    check_eq!((x & y).into_atoms(), bits(|s, t| s && t), "{a} & {b}");
    check_eq!((x | y).into_atoms(), bits(|s, t| s || t), "{a} | {b}");
    check_eq!((x ^ y).into_atoms(), bits(|s, t| s != t), "{a} ^ {b}");
    check_eq!((!x).into_atoms(), bits(|s, _| !s), "!{a}");
    let mut z = x;
    z &= y;
    check_eq!(z.into_atoms(), bits(|s, t| s && t), "{a} &= {b}");
    z = x;
    z |= y;
    check_eq!(z.into_atoms(), bits(|s, t| s || t), "{a} |= {b}");
    z = x;
    z ^= y;
    check_eq!(z.into_atoms(), bits(|s, t| s != t), "{a} ^= {b}");
    let s = if g.bool() { g.below(140) as u32 } else { g.u32() };
    let (l, r) = if s < 128 {
        let m = (BigInt::from(1) << 128) - 1;
        (as_u(&((&p << s) & m)), as_u(&(&p >> s)))
    } else {
        (None, None)
    };
    g.tag_if(s >= 128, "shift beyond the width");
    check_eq!(atoms(x << s), l, "{a} << {s}");
    check_eq!(atoms(x >> s), r, "{a} >> {s}");
    check_eq!(x.as_non_zero(), (a != 0).then_some(x), "as_non_zero({a})");
    let m = common::amount_sum!(x, y, x);
    check_eq!(atoms(m), as_u(&(&p + &q)).and(as_u(&(&p + &q + &p))), "amount_sum!({a}, {b}, {a})");
    check_eq!((Amount::ZERO.into_atoms(), Amount::MAX.into_atoms()), (0, u128::MAX), "constants");
    Ok(())
}

fn signed(g: &mut Gen) -> i128 {
    match g.weighted(&[2, 2, 3]) {
        0 => g.uint(127) as i128,
        1 => -(g.uint(127) as i128),
        _ => g.u128() as i128,
    }
}

fn srelated(g: &mut Gen, a: i128) -> i128 {
    let d = g.below(4) as i128;
    match g.weighted(&[5, 1, 1, 1, 1]) {
        0 => signed(g),
        1 => i128::MAX.wrapping_sub(a).wrapping_add(1).wrapping_sub(d),
        2 => i128::MIN.wrapping_sub(a).wrapping_add(d).wrapping_sub(1),
        3 => {
            let lim = if g.bool() { i128::MAX } else { i128::MIN };
            lim.checked_div(a).unwrap_or(d).wrapping_add(1).wrapping_sub(d)
        }
        _ => *g.pick(&[-1, 0, 1, i128::MIN, i128::MAX, i128::MIN + 1]),
    }
}

fn signed_ops(g: &mut Gen) -> Res {
    let a = signed(g);
    let b = srelated(g, a);
    note!(g, "a={a} b={b}");
    g.nontrivial_if(a.unsigned_abs() > 1 && b.unsigned_abs() > 1);
    let (x, y) = (SignedAmount::from_atoms(a), SignedAmount::from_atoms(b));
    let (p, q) = (BigInt::from(a), BigInt::from(b));
    let sum = as_i(&(&p + &q));
    g.tag_if(sum.is_none(), "sum overflows");
    check_eq!(satoms(x + y), sum, "{a} + {b}");
    let dif = as_i(&(&p - &q));
    g.tag_if(dif.is_none(), "difference overflows");
    check_eq!(satoms(x - y), dif, "{a} - {b}");
    let prod = as_i(&(&p * &q));
    g.tag_if(prod.is_none(), "product overflows");
    check_eq!(satoms(x * b), prod, "{a} * {b}");
    let quo = if b == 0 { None } else { as_i(&(&p / &q)) };
    check_eq!(satoms(x / b), quo, "{a} / {b}");
    let rem = if b == 0 { None } else { as_i(&(&p % &q)) };
    if a == i128::MIN && b == -1 {
        g.tag("MIN % -1");
        check!(matches!(satoms(x % b), None | Some(0)), "MIN % -1");
    } else {
        check_eq!(satoms(x % b), rem, "{a} % {b}");
    }
    check_eq!(satoms(-x), as_i(&-&p), "-{a}");
    check_eq!(x.cmp(&y), p.cmp(&q), "cmp({a}, {b})");
    check_eq!(x == y, a == b, "eq");
    check_eq!(
        (SignedAmount::ZERO.into_atoms(), SignedAmount::MIN.into_atoms(), SignedAmount::MAX.into_atoms()),
        (0, i128::MIN, i128::MAX),
        "constants"
    );
    Ok(())
}

fn sums(g: &mut Gen) -> Res {
    let n = g.len(0, 20);
    let near = g.bool();
    let v: Vec<u128> = (0..n)
        .map(|_| if near { (u128::MAX / n as u128).wrapping_add(u128::from(g.below(3))).wrapping_sub(1) } else { g.u128() >> g.below(8) })
        .collect();
    note!(g, "{v:?}");
    let total: BigUint = v.iter().map(|x| BigUint::from(*x)).sum();
    g.nontrivial_if(n > 1);
    g.tag_if(total.to_u128().is_none(), "overflows");
    let s: Option<Amount> = v.iter().map(|x| Amount::from_atoms(*x)).sum();
    check_eq!(atoms(s), total.to_u128(), "sum of {v:?}");
    // Signed: partial sums may leave the range, so only a result within it at every prefix is promised exactly.
    let w: Vec<i128> = (0..n).map(|_| signed(g) >> g.below(6)).collect();
    note!(g, "{w:?}");
    let mut t = BigInt::zero();
    let mut ok = true;
    for x in &w {
        t += BigInt::from(*x);
        ok &= as_i(&t).is_some();
    }
    let s: Option<SignedAmount> = w.iter().map(|x| SignedAmount::from_atoms(*x)).sum();
    if ok {
        check_eq!(satoms(s), as_i(&t), "sum of {w:?}");
    } else {
        g.tag("signed overflow on the way");
        check!(s.is_none() || satoms(s) == as_i(&t), "sum of {w:?} is {s:?}");
        if as_i(&t).is_none() {
            check!(s.is_none(), "sum of {w:?} does not fit, got {s:?}");
        }
    }
    Ok(())
}

fn conversions(g: &mut Gen) -> Res {
    let a = g.u128();
    let b = signed(g);
    note!(g, "a={a} b={b}");
    g.nontrivial_if(a > 1 && b != 0);
    let (x, y) = (Amount::from_atoms(a), SignedAmount::from_atoms(b));
    let su = (a <= i128::MAX as u128).then_some(a as i128);
    check_eq!(satoms(x.into_signed()), su, "Amount::into_signed({a})");
    check_eq!(satoms(SignedAmount::from_unsigned(x)), su, "SignedAmount::from_unsigned({a})");
    let us = (b >= 0).then_some(b as u128);
    check_eq!(atoms(y.into_unsigned()), us, "SignedAmount::into_unsigned({b})");
    check_eq!(atoms(Amount::from_signed(y)), us, "Amount::from_signed({b})");
    g.tag_if(su.is_none(), "does not fit signed");
    g.tag_if(us.is_none(), "negative");
    Ok(())
}

fn codec(g: &mut Gen) -> Res {
    let a = g.u128();
    let b = related(g, a);
    let c = signed(g);
    note!(g, "a={a} b={b} c={c}");
    g.nontrivial_if(a > 1 && a != b);
    let x = Amount::from_atoms(a);
    let e = x.encode();
    check_eq!(Amount::decode_all(&mut &e[..]), Ok(x), "decode(encode({a}))");
    // The documented wire format of compact integers.
    check_eq!(e, Compact(a).encode(), "encoding of {a}");
    let want = compact_ref(a);
    check_eq!(e, want, "wire bytes of {a}");
    check_eq!(x.encoded_size(), want.len(), "encoded size of {a}");
    let f = Amount::from_atoms(b).encode();
    check_eq!(e == f, a == b, "encodings of {a} and {b} coincide");
    let s = SignedAmount::from_atoms(c);
    let se = s.encode();
    check_eq!(se, c.to_le_bytes().to_vec(), "encoding of signed {c}");
    check_eq!(SignedAmount::decode_all(&mut &se[..]), Ok(s), "decode(encode({c}))");
    // Any bytes: refused or canonical.
    let bytes = g.bytes(0, 20);
    let mut inp = &bytes[..];
    if let Ok(v) = Amount::decode(&mut inp) {
        let used = bytes.len() - inp.len();
        g.tag("random bytes decode");
        check_eq!(v.encode(), bytes[..used].to_vec(), "re-encoding of decoded {bytes:?}");
    }
    let js = serde_json::to_string(&x).map_err(|e| e.to_string())?;
    check_eq!(js, format!("{{\"atoms\":\"{a}\"}}"), "JSON of {a}");
    check_eq!(serde_json::from_str::<Amount>(&js).map_err(|e| e.to_string()), Ok(x), "JSON round trip of {a}");
    Ok(())
}

pub fn compact_ref(v: u128) -> Vec<u8> {
    if v < 1 << 6 {
        vec![(v as u8) << 2]
    } else if v < 1 << 14 {
        (((v as u16) << 2) | 1).to_le_bytes().to_vec()
    } else if v < 1 << 30 {
        (((v as u32) << 2) | 2).to_le_bytes().to_vec()
    } else {
        let (s, b) = BigInt::from(v).to_bytes_le();
        assert_eq!(s, Sign::Plus);
        let mut out = vec![(((b.len() - 4) as u8) << 2) | 3];
        out.extend(b);
        out
    }
}

fn shift_all(g: &mut Gen) -> Res {
    let i = g.below(800);
    let s = (i % 200) as u32;
    let a = [u128::MAX, 1, 1 << 127, 0x5555_5555_5555_5555_5555_5555_5555_5555][(i / 200) as usize];
    note!(g, "{a} by {s}");
    g.nontrivial();
    let x = Amount::from_atoms(a);
    let m = (BigUint::from(1u8) << 128u32) - BigUint::from(1u8);
    let (l, r) = if s < 128 {
        (((BigUint::from(a) << s) & m).to_u128(), (BigUint::from(a) >> s).to_u128())
    } else {
        (None, None)
    };
    check_eq!(atoms(x << s), l, "{a} << {s}");
    check_eq!(atoms(x >> s), r, "{a} >> {s}");
    Ok(())
}
