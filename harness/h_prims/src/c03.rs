//! Wide integers against arbitrary-precision integers.
use common::{
    primitives::Amount,
    uint::{endian, BitArray, Uint128, Uint256, Uint512, UintConversionError},
};
use num::{BigUint, Integer as _, One, ToPrimitive as _, Zero};
use pbt::{check, check_eq, enumerated, facet, no_panic, note, Gen, Property, Res};
use std::collections::{hash_map::DefaultHasher, HashSet};
use std::hash::{Hasher as _};

pub const P: Property = Property {
    id: "C03",
    rule: "Words are drawn with a bias to 0, all ones, powers of two and short values; second operands are often related to the first (complement, neighbour, shifted copy, near-multiple, near-quotient). Every operation is compared with arbitrary-precision integers. Non-trivial: both operands have more than 64 significant bits, or the shift distance is not a multiple of 64.",
    facets: &[
        facet("arith_128", 600_000, |g| arith::<W128>(g)),
        facet("arith_256", 600_000, |g| arith::<W256>(g)),
        facet("arith_512", 400_000, |g| arith::<W512>(g)),
        facet("bits_128", 400_000, |g| bits::<W128>(g)),
        facet("bits_256", 400_000, |g| bits::<W256>(g)),
        facet("bits_512", 320_000, |g| bits::<W512>(g)),
        facet("conversions", 600_000, conversions),
        facet("bytes_128", 240_000, |g| bytes::<W128>(g)),
        facet("bytes_256", 240_000, |g| bytes::<W256>(g)),
        facet("bytes_512", 240_000, |g| bytes::<W512>(g)),
        facet("endian_helpers", 240_000, endian_helpers),
        enumerated("all_shifts", 128 + 256 + 512 + 192, all_shifts),
    ],
    assumptions: &[],
};

/// One of the widths, seen through plain functions (so that each type's own code is exercised).
trait W: Copy + PartialEq + Eq + Ord + std::fmt::Debug + std::hash::Hash + Default {
    const BITS: u32;
    fn of(words: &[u64]) -> Self;
    fn words(&self) -> Vec<u64>;
    fn add(self, o: Self) -> [Option<Self>; 2];
    fn sub(self, o: Self) -> [Option<Self>; 2];
    fn mul(self, o: Self) -> [Option<Self>; 2];
    fn div(self, o: Self) -> [Option<Self>; 2];
    fn rem(self, o: Self) -> [Option<Self>; 2];
    fn wide(self, o: Self) -> (Self, Self);
    fn mul32(self, o: u32) -> Self;
    fn and(self, o: Self) -> Self;
    fn or(self, o: Self) -> Self;
    fn xor(self, o: Self) -> Self;
    fn not(self) -> Self;
    fn shl(self, n: usize) -> Self;
    fn shr(self, n: usize) -> Self;
    fn bits(&self) -> usize;
    fn bit(&self, i: usize) -> bool;
    fn slice(&self, a: usize, b: usize) -> Self;
    fn mask(&self, n: usize) -> Self;
    fn tz(&self) -> usize;
    fn low(&self) -> (u32, u64);
    fn be_bytes(&self) -> Vec<u8>;
    fn le_bytes(&self) -> Vec<u8>;
    fn from_be(b: &[u8]) -> Result<Self, (usize, usize)>;
    fn from_le(b: &[u8]) -> Result<Self, (usize, usize)>;
    fn from_all(b: &[u8], words: &[u64]) -> Vec<Self>;
    fn from64(v: u64) -> Vec<Self>;
    fn from128(v: u128) -> Vec<Self>;
    fn consts() -> [Self; 5];
    fn hex(&self) -> [String; 5];
    fn index(&self) -> Vec<u64>;
}

macro_rules! width {
    ($w:ident, $t:ident, $n:expr) => {
        #[derive(Clone, Copy, PartialEq, Eq, PartialOrd, Ord, Debug, Hash, Default)]
        struct $w($t);
        impl W for $w {
            const BITS: u32 = $t::BITS;
            fn of(words: &[u64]) -> Self {
                $w($t(words.try_into().expect("words")))
            }
            fn words(&self) -> Vec<u64> {
                self.0 .0.to_vec()
            }
            fn add(self, o: Self) -> [Option<Self>; 2] {
                [(self.0 + o.0).map($w), self.0.checked_add(&o.0).map($w)]
            }
            fn sub(self, o: Self) -> [Option<Self>; 2] {
                [(self.0 - o.0).map($w), self.0.checked_sub(&o.0).map($w)]
            }
            fn mul(self, o: Self) -> [Option<Self>; 2] {
                [(self.0 * o.0).map($w), self.0.checked_mul(&o.0).map($w)]
            }
            fn div(self, o: Self) -> [Option<Self>; 2] {
                [(self.0 / o.0).map($w), self.0.checked_div(&o.0).map($w)]
            }
            fn rem(self, o: Self) -> [Option<Self>; 2] {
                [(self.0 % o.0).map($w), self.0.checked_rem(&o.0).map($w)]
            }
            fn wide(self, o: Self) -> (Self, Self) {
                let (l, h) = self.0.widening_mul(&o.0);
                ($w(l), $w(h))
            }
            fn mul32(self, o: u32) -> Self {
                $w(self.0.mul_u32(o))
            }
            fn and(self, o: Self) -> Self {
                $w(self.0 & o.0)
            }
            fn or(self, o: Self) -> Self {
                $w(self.0 | o.0)
            }
            fn xor(self, o: Self) -> Self {
                $w(self.0 ^ o.0)
            }
            fn not(self) -> Self {
                $w(!self.0)
            }
            fn shl(self, n: usize) -> Self {
                $w(self.0 << n)
            }
            fn shr(self, n: usize) -> Self {
                $w(self.0 >> n)
            }
            fn bits(&self) -> usize {
                self.0.bits()
            }
            fn bit(&self, i: usize) -> bool {
                self.0.bit(i)
            }
            fn slice(&self, a: usize, b: usize) -> Self {
                $w(self.0.bit_slice(a, b))
            }
            fn mask(&self, n: usize) -> Self {
                $w(self.0.mask(n))
            }
            fn tz(&self) -> usize {
                self.0.trailing_zeros()
            }
            fn low(&self) -> (u32, u64) {
                (self.0.low_u32(), self.0.low_u64())
            }
            fn be_bytes(&self) -> Vec<u8> {
                self.0.to_be_bytes().to_vec()
            }
            fn le_bytes(&self) -> Vec<u8> {
                self.0.to_bytes().to_vec()
            }
            fn from_be(b: &[u8]) -> Result<Self, (usize, usize)> {
                $t::from_be_slice(b).map($w).map_err(|e| (e.actual, e.expected))
            }
            fn from_le(b: &[u8]) -> Result<Self, (usize, usize)> {
                $t::from_slice(b).map($w).map_err(|e| (e.actual, e.expected))
            }
            fn from_all(b: &[u8], words: &[u64]) -> Vec<Self> {
                let a: [u8; $n * 8] = b.try_into().expect("bytes");
                let mut r = a;
                r.reverse();
                vec![
                    $w($t::from_bytes(a)),
                    $w($t::from(a)),
                    $w($t::from(&a)),
                    $w($t::from_be_bytes(r)),
                    $w($t::from(words)),
                ]
            }
            fn from64(v: u64) -> Vec<Self> {
                vec![$w($t::from_u64(v)), $w($t::from(v))]
            }
            fn from128(v: u128) -> Vec<Self> {
                vec![
                    $w($t::from_u128(v)),
                    $w($t::from(v)),
                    $w($t::from_amount(Amount::from_atoms(v))),
                    $w($t::from(Amount::from_atoms(v))),
                ]
            }
            fn consts() -> [Self; 5] {
                [$w($t::ZERO), $w($t::ONE), $w($t::MAX), $w(<$t as BitArray>::zero()), $w(<$t as BitArray>::one())]
            }
            fn hex(&self) -> [String; 5] {
                [
                    format!("{:x}", self.0),
                    format!("{:#x}", self.0),
                    format!("{:X}", self.0),
                    format!("{:#X}", self.0),
                    format!("{:?}", self.0),
                ]
            }
            fn index(&self) -> Vec<u64> {
                let mut v: Vec<u64> = (0..self.0.len()).map(|i| self.0[i]).collect();
                if self.0[..] != v[..] || self.0[1..] != v[1..] || self.0[..1] != v[..1] || self.0[1..$n] != v[1..] {
                    v.clear();
                }
                if *self.0.as_inner() != self.0.inner() || self.0.into_inner() != self.0.inner() || self.0.is_empty() {
                    v.clear();
                }
                v
            }
        }
    };
}
width!(W128, Uint128, 2);
width!(W256, Uint256, 4);
width!(W512, Uint512, 8);

fn big(words: &[u64]) -> BigUint {
    let mut b = vec![];
    for w in words {
        b.push(*w as u32);
        b.push((w >> 32) as u32);
    }
    BigUint::new(b)
}
fn val<T: W>(x: T) -> BigUint {
    big(&x.words())
}
fn max(bits: u32) -> BigUint {
    (BigUint::one() << bits) - BigUint::one()
}
fn fit<T: W>(v: &BigUint) -> Option<T> {
    (v.bits() <= u64::from(T::BITS)).then(|| {
        let mut w = v.to_u64_digits();
        w.resize(T::BITS as usize / 64, 0);
        T::of(&w)
    })
}

fn word(g: &mut Gen) -> u64 {
    match g.weighted(&[2, 2, 3, 1]) {
        0 => 0,
        1 => u64::MAX,
        2 => g.raw64(),
        _ => g.u64(),
    }
}

fn any<T: W>(g: &mut Gen) -> T {
    let n = T::BITS as usize / 64;
    let k = g.urange(0, n);
    let mut w: Vec<u64> = (0..k).map(|_| word(g)).collect();
    w.resize(n, 0);
    let x = T::of(&w);
    match g.weighted(&[5, 1, 1, 1]) {
        0 => x,
        1 => fit(&(val(x) << g.below(64) & max(T::BITS))).unwrap(),
        2 => fit(&(BigUint::one() << g.below(T::BITS.into()))).unwrap(),
        _ => fit(&(max(T::BITS) >> g.below(T::BITS.into()))).unwrap(),
    }
}

fn pair<T: W>(g: &mut Gen) -> (T, T) {
    let a: T = any(g);
    let m = max(T::BITS);
    let p = val(a);
    let d = BigUint::from(g.below(4));
    let b = match g.weighted(&[4, 1, 1, 1, 1, 1]) {
        0 => return (a, any(g)),
        1 => &m - &p + d,
        2 => p + d,
        3 => {
            if p.is_zero() {
                d
            } else {
                &m / &p + d
            }
        }
        4 => p / (BigUint::from(g.below(1 << 20)) + 1u8) + d,
        _ => p >> g.below(T::BITS.into()),
    };
    (a, fit(&(b & m)).unwrap())
}

fn both<T: W>(got: [Option<T>; 2], want: Option<BigUint>, what: &str) -> Res {
    let want: Option<T> = want.and_then(|v| fit(&v));
    check!(got[0] == want && got[1] == want, "{what}: got {:?} and {:?}, expected {:?}", got[0], got[1], want);
    Ok(())
}

fn arith<T: W>(g: &mut Gen) -> Res {
    let (a, b): (T, T) = pair(g);
    let (p, q) = (val(a), val(b));
    note!(g, "{a:?} {b:?}");
    g.nontrivial_if(p.bits() > 64 && q.bits() > 64);
    let m = max(T::BITS);
    both(a.add(b), Some(&p + &q), &format!("{a:?} + {b:?}"))?;
    g.tag_if(&p + &q > m, "sum overflows");
    both(a.sub(b), (p >= q).then(|| &p - &q), &format!("{a:?} - {b:?}"))?;
    g.tag_if(p < q, "difference is negative");
    both(a.mul(b), Some(&p * &q), &format!("{a:?} * {b:?}"))?;
    g.tag_if(&p * &q > m, "product overflows");
    let dr = (!q.is_zero()).then(|| p.div_rem(&q));
    g.tag_if(dr.is_none(), "division by zero");
    g.tag_if(dr.as_ref().is_some_and(|(x, _)| x.bits() > 64), "large quotient");
    both(a.div(b), dr.clone().map(|x| x.0), &format!("{a:?} / {b:?}"))?;
    both(a.rem(b), dr.map(|x| x.1), &format!("{a:?} % {b:?}"))?;
    let (lo, hi) = a.wide(b);
    check_eq!(val(lo) + (val(hi) << T::BITS), &p * &q, "widening {a:?} * {b:?}");
    let k = g.u32();
    check_eq!(val(a.mul32(k)), (&p * BigUint::from(k)) & &m, "{a:?} * u32 {k} (low bits)");
    check_eq!(a.cmp(&b), p.cmp(&q), "cmp({a:?}, {b:?})");
    check_eq!(a.partial_cmp(&b), Some(p.cmp(&q)), "partial_cmp({a:?}, {b:?})");
    check_eq!(a == b, p == q, "eq({a:?}, {b:?})");
    let h = |x: &T| {
        let mut s = DefaultHasher::new();
        x.hash(&mut s);
        s.finish()
    };
    check!(p != q || h(&a) == h(&b), "equal values hash differently");
    Ok(())
}

fn bits<T: W>(g: &mut Gen) -> Res {
    let (a, b): (T, T) = pair(g);
    let (p, q) = (val(a), val(b));
    let n = T::BITS as usize;
    note!(g, "{a:?} {b:?}");
    g.nontrivial_if(p.bits() > 64);
    let m = max(T::BITS);
    check_eq!(val(a.and(b)), &p & &q, "and");
    check_eq!(val(a.or(b)), &p | &q, "or");
    check_eq!(val(a.xor(b)), &p ^ &q, "xor");
    check_eq!(val(a.not()), &m ^ &p, "not");
    check_eq!(a.bits() as u64, p.bits(), "bit length of {a:?}");
    check_eq!(a.tz(), p.trailing_zeros().map_or(n, |x| x as usize), "trailing zeros of {a:?}");
    let i = g.usize(n);
    check_eq!(a.bit(i), p.bit(i as u64), "bit {i} of {a:?}");
    let s = match g.weighted(&[4, 1, 1]) {
        0 => g.usize(n + 1),
        1 => 64 * g.usize(n / 64 + 1),
        _ => g.usize(3 * n),
    };
    note!(g, "shift {s}");
    g.tag_if(s >= n, "shift beyond the width");
    check_eq!(val(a.shl(s)), (&p << s) & &m, "{a:?} << {s}");
    check_eq!(val(a.shr(s)), &p >> s, "{a:?} >> {s}");
    let k = g.usize(n + 70);
    check_eq!(val(a.mask(k)), &p & ((BigUint::one() << k) - 1u8), "{a:?} masked to {k} bits");
    let st = g.usize(n + 1);
    let en = st + g.usize(n - st + 1);
    check_eq!(val(a.slice(st, en)), (&p >> st) & ((BigUint::one() << (en - st)) - 1u8), "{a:?} bits {st}..{en}");
    check_eq!(a.low(), ((&p & BigUint::from(u32::MAX)).to_u32().unwrap(), (&p & BigUint::from(u64::MAX)).to_u64().unwrap()), "low words");
    check_eq!(a.index(), a.words(), "words by index");
    Ok(())
}

fn bytes<T: W>(g: &mut Gen) -> Res {
    let a: T = any(g);
    let p = val(a);
    let n = T::BITS as usize / 8;
    note!(g, "{a:?}");
    g.nontrivial_if(p.bits() > 64);
    let mut le = p.to_bytes_le();
    le.resize(n, 0);
    let mut be = le.clone();
    be.reverse();
    check_eq!(a.le_bytes(), le, "little-endian bytes of {a:?}");
    check_eq!(a.be_bytes(), be, "big-endian bytes of {a:?}");
    check_eq!(T::from_be(&be), Ok(a), "from big-endian");
    check_eq!(T::from_le(&le), Ok(a), "from little-endian");
    for (i, x) in T::from_all(&le, &a.words()).into_iter().enumerate() {
        check_eq!(x, a, "constructor {i}");
    }
    let other = g.usize(2 * n + 2);
    if other != n {
        let buf = vec![7u8; other];
        check_eq!(T::from_be(&buf), Err((other, n)), "big-endian slice of wrong length");
        check_eq!(T::from_le(&buf), Err((other, n)), "little-endian slice of wrong length");
    }
    let h = format!("{:0w$x}", p, w = 2 * n);
    let u = h.to_uppercase();
    check_eq!(a.hex(), [h.clone(), format!("0x{h}"), u.clone(), format!("0X{u}"), format!("0x{h}")], "hexadecimal forms");
    let (v64, v128) = (g.u64(), g.u128());
    for x in T::from64(v64) {
        check_eq!(val(x), BigUint::from(v64), "from u64");
    }
    for x in T::from128(v128) {
        check_eq!(val(x), BigUint::from(v128), "from u128 and amounts");
    }
    let [z, o, m, z2, o2] = T::consts();
    check!(
        val(z).is_zero() && val(o).is_one() && val(m) == max(T::BITS) && z2 == z && o2 == o && T::default() == z,
        "constants"
    );
    Ok(())
}

fn conversions(g: &mut Gen) -> Res {
    // Values around the width limits.
    let lim = *g.pick(&[64u32, 128, 256, 512]);
    let v = match g.weighted(&[2, 1, 1]) {
        0 => val::<W512>(any(g)),
        1 => (max(lim) + BigUint::from(g.below(4))) - BigUint::from(g.below(4)),
        _ => max(lim) >> g.below(lim.into()),
    } & max(512);
    note!(g, "{v:x}");
    let x = fit::<W512>(&v).unwrap().0;
    g.nontrivial_if(v.bits() > 120);
    match (Uint256::try_from(x), v.bits() <= 256) {
        (Ok(y), true) => check_eq!(big(&y.0), v, "512 to 256 bits"),
        (Err(e), false) => check!(e == UintConversionError::ConversionOverflow, "error kind"),
        (r, _) => return Err(format!("512 to 256 bits of {v:x}: {r:?}")),
    }
    g.tag(if v.bits() <= 128 {
        "at most 128 bits"
    } else if v.bits() <= 256 {
        "at most 256 bits"
    } else {
        "more"
    });
    let y = fit::<W256>(&(&v & max(256))).unwrap().0;
    let yv = big(&y.0);
    check_eq!(big(&Uint512::from(y).0), yv, "256 to 512 bits");
    match (u128::try_from(y), yv.bits() <= 128) {
        (Ok(z), true) => check_eq!(BigUint::from(z), yv, "256 bits to u128"),
        (Err(_), false) => {}
        (r, _) => return Err(format!("256 bits to u128 of {yv:x}: {r:?}")),
    }
    check_eq!(big(&y.low_128().0), &yv & max(128), "low 128 bits");
    let w = fit::<W128>(&(&v & max(128))).unwrap().0;
    check_eq!(big(&Uint256::from(w).0), big(&w.0), "128 to 256 bits");
    check_eq!(BigUint::from(u128::from(w)), big(&w.0), "128 bits to u128");
    Ok(())
}

fn endian_helpers(g: &mut Gen) -> Res {
    let v = g.u64();
    note!(g, "{v:x}");
    g.nontrivial_if(v > 255);
    check_eq!(endian::slice_to_u64_be(&v.to_be_bytes()), v, "u64 be");
    check_eq!(endian::slice_to_u64_le(&v.to_le_bytes()), v, "u64 le");
    check_eq!(endian::u64_to_array_be(v), v.to_be_bytes(), "u64 to be");
    check_eq!(endian::u64_to_array_le(v), v.to_le_bytes(), "u64 to le");
    let u = v as u32;
    check_eq!(endian::slice_to_u32_be(&u.to_be_bytes()), u, "u32 be");
    check_eq!(endian::slice_to_u32_le(&u.to_le_bytes()), u, "u32 le");
    check_eq!(endian::u32_to_array_be(u), u.to_be_bytes(), "u32 to be");
    check_eq!(endian::u32_to_array_le(u), u.to_le_bytes(), "u32 to le");
    let s = v as u16;
    check_eq!(endian::slice_to_u16_le(&s.to_le_bytes()), s, "u16 le");
    check_eq!(endian::u16_to_array_le(s), s.to_le_bytes(), "u16 to le");
    let n = g.usize(12);
    if n != 8 {
        check!(no_panic(|| endian::slice_to_u64_be(&vec![0; n])).is_err(), "wrong length accepted");
    }
    Ok(())
}

fn all_shifts(g: &mut Gen) -> Res {
    let i = g.below(1088) as usize;
    fn one<T: W>(s: usize, seen: &mut HashSet<String>) -> Res {
        let n = T::BITS as usize / 64;
        for w in [vec![u64::MAX; n], vec![0x0123_4567_89ab_cdef; n], (1..=n as u64).map(|k| k.wrapping_mul(0x9e37_79b9_7f4a_7c15)).collect()] {
            let a = T::of(&w);
            let p = val(a);
            check_eq!(val(a.shl(s)), (&p << s) & max(T::BITS), "{a:?} << {s}");
            check_eq!(val(a.shr(s)), &p >> s, "{a:?} >> {s}");
            check_eq!(val(a.mask(s)), &p & ((BigUint::one() << s) - 1u8), "{a:?} mask {s}");
            seen.insert(format!("{a:?}"));
        }
        Ok(())
    }
    let mut seen = HashSet::new();
    g.nontrivial_if(i % 64 != 0);
    note!(g, "{i}");
    match i {
        0..=191 => one::<W128>(i, &mut seen),
        192..=511 => one::<W256>(i - 192, &mut seen),
        _ => one::<W512>(i - 512, &mut seen),
    }
}
