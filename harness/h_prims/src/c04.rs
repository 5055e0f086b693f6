//! Compact targets against the reference definition.
use common::{primitives::Compact, uint::Uint256};
use num::{BigUint, One, ToPrimitive as _, Zero};
use pbt::{check, check_eq, enumerated, facet, note, Gen, Property, Res};
use serialization::{DecodeAll, Encode};

pub const P: Property = Property {
    id: "C04",
    rule: "All 256 exponents with boundary mantissas (enumerated), random compact values, and 256-bit targets of every bit length with biased leading bytes. The oracle computes on arbitrary-precision integers. Non-trivial: the exponent lies between 1 and 34 and the mantissa is not zero, or the target has more than 24 bits.",
    facets: &[
        enumerated("all_exponents", 256 * 64, expand_enumerated),
        facet("expand_random", 1_600_000, expand_random),
        facet("compress", 1_600_000, compress),
        facet("order", 800_000, order),
        facet("expand_block", 3_000, expand_block),
    ],
    assumptions: &[],
};

fn big(x: Uint256) -> BigUint {
    BigUint::from_bytes_le(&x.to_bytes())
}
fn small(v: &BigUint) -> Uint256 {
    let mut b = v.to_bytes_le();
    b.resize(32, 0);
    Uint256::from_slice(&b).unwrap()
}

/// The definition: Ok(value), or Err for negative or overflowing encodings.
fn ref_expand(c: u32) -> Option<BigUint> {
    let (e, m) = (c >> 24, c & 0x7f_ffff);
    let (v, word) = if e <= 3 {
        let w = m >> (8 * (3 - e));
        (BigUint::from(w), w)
    } else {
        (BigUint::from(m) << (8 * (e - 3)), m)
    };
    if word != 0 && c & 0x80_0000 != 0 {
        return None; // negative
    }
    if v.bits() > 256 {
        return None;
    }
    Some(v)
}

fn ref_compress(v: &BigUint) -> u32 {
    let mut size = v.bits().div_ceil(8) as u32;
    let mut m: u64 = if size <= 3 {
        v.to_u64().unwrap() << (8 * (3 - size))
    } else {
        (v >> (8 * (size - 3))).to_u64().unwrap()
    };
    if m & 0x80_0000 != 0 {
        m >>= 8;
        size += 1;
    }
    (m as u32) | (size << 24)
}

fn expand_one(c: u32) -> Res {
    let got = Uint256::try_from(Compact(c)).ok().map(big);
    let want = ref_expand(c);
    check_eq!(got, want, "expansion of {c:#010x}");
    if let Some(v) = want {
        let again = Compact::from(small(&v));
        check_eq!(again.0, ref_compress(&v), "compression of the expansion of {c:#010x}");
        // canonical: no leading zero byte in the mantissa unless it carries the sign bit
        let canonical = ref_compress(&v) == c;
        if canonical {
            check_eq!(again, Compact(c), "canonical {c:#010x} is not stable");
        }
        check_eq!(Uint256::try_from(again).ok().map(big), Some(v), "re-expansion of {c:#010x}");
    }
    let e = Compact(c).encode();
    check_eq!(e, c.to_le_bytes().to_vec(), "wire form");
    check_eq!(Compact::decode_all(&mut &e[..]), Ok(Compact(c)), "wire round trip");
    Ok(())
}

fn expand_enumerated(g: &mut Gen) -> Res {
    const M: [u32; 32] = [
        0, 1, 2, 0x7f, 0x80, 0xff, 0x100, 0x101, 0x7fff, 0x8000, 0xffff, 0x10000, 0x10001, 0x7fffff, 0x7f0000, 0x7f00ff, 0x123456,
        0x008000, 0x00ff00, 0x400000, 0x3fffff, 0x0000f0, 0x00ff01, 0x010000, 0x7fff00, 0x7fffff, 0x555555, 0x2aaaaa, 0x000080,
        0x00007f, 0x0100ff, 0x012345,
    ];
    let i = g.below(256 * 64) as u32;
    let (e, k) = (i / 64, i % 64);
    let c = (e << 24) | M[(k % 32) as usize] | if k >= 32 { 0x80_0000 } else { 0 };
    note!(g, "{c:#010x}");
    g.nontrivial_if((1..=34).contains(&e) && c & 0x7f_ffff != 0);
    expand_one(c)
}

fn expand_random(g: &mut Gen) -> Res {
    let e = if g.chance(3, 4) { g.below(36) as u32 } else { g.below(256) as u32 };
    let m = match g.weighted(&[2, 2, 1]) {
        0 => g.below(1 << 24) as u32,
        1 => (g.below(1 << 24) >> g.below(24)) as u32,
        _ => (g.u32()) & 0xff_ffff,
    };
    let c = (e << 24) | m;
    note!(g, "{c:#010x}");
    g.nontrivial_if((1..=34).contains(&e) && c & 0x7f_ffff != 0);
    g.tag(match (ref_expand(c).is_some(), m & 0x80_0000 != 0) {
        (true, _) => "valid",
        (false, true) => "negative",
        (false, false) => "overflow",
    });
    expand_one(c)
}

/// A run of neighbouring mantissas (cheap: exhausts small neighbourhoods).
fn expand_block(g: &mut Gen) -> Res {
    let c = (g.below(40) as u32) << 24 | (g.below(1 << 24) as u32 & !0xff);
    note!(g, "{c:#010x} and the 255 values after it");
    g.nontrivial();
    (0..256).try_for_each(|k| expand_one(c | k))
}

fn target(g: &mut Gen) -> BigUint {
    let bits = g.below(257);
    if bits == 0 {
        return BigUint::zero();
    }
    let mut v = BigUint::from_bytes_le(&g.bytes_exact(32));
    v &= (BigUint::one() << bits) - 1u8;
    match g.weighted(&[3, 1, 1, 1]) {
        0 => v.set_bit(bits - 1, true),
        1 => v = (BigUint::one() << bits) - 1u8,
        2 => v = BigUint::one() << (bits - 1),
        _ => {}
    }
    v
}

fn compress(g: &mut Gen) -> Res {
    let v = target(g);
    note!(g, "{v:x}");
    g.nontrivial_if(v.bits() > 24);
    let c = Compact::from(small(&v));
    check_eq!(c.0, ref_compress(&v), "compression of {v:x}");
    check!(c.0 & 0x80_0000 == 0, "compression of {v:x} is negative: {:#010x}", c.0);
    let x = Uint256::try_from(c).map_err(|_| format!("compression of {v:x}, {:#010x}, does not expand", c.0))?;
    let x = big(x);
    check!(x <= v, "compression of {v:x} rounds up to {x:x}");
    // The leading bytes survive: at least the 16 most significant bits.
    let keep = v.bits().saturating_sub(15);
    check_eq!(&x >> keep, &v >> keep, "leading bits of {v:x}");
    g.tag_if(x != v, "rounded down");
    check_eq!(Compact::from(small(&x)), c, "compression of {v:x} is not stable");
    check_eq!(v.is_zero(), c.0 == 0, "zero");
    Ok(())
}

fn order(g: &mut Gen) -> Res {
    let a = target(g);
    let b = match g.weighted(&[1, 1, 1]) {
        0 => target(g),
        1 => &a + BigUint::from(g.below(300)),
        _ => &a >> g.below(9),
    } & ((BigUint::one() << 256u32) - 1u8);
    note!(g, "{a:x} {b:x}");
    g.nontrivial_if(a != b && a.bits() > 24);
    let (lo, hi) = if a <= b { (a, b) } else { (b, a) };
    let (x, y) = (Compact::from(small(&lo)), Compact::from(small(&hi)));
    let (p, q) = (ref_expand(x.0), ref_expand(y.0));
    check!(p.is_some() && p <= q, "compression of {lo:x} and {hi:x} inverts their order");
    check!(x.0 <= y.0, "compact numbers of {lo:x} and {hi:x} invert their order");
    Ok(())
}
