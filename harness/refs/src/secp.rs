//! secp256k1, BIP340 signatures and BIP32 derivation over big integers.
use crate::hashes::{hmac_sha512, sha256};
use num::{bigint::BigUint, One, Zero};

fn hex(s: &str) -> BigUint {
    BigUint::parse_bytes(s.as_bytes(), 16).unwrap()
}
pub struct Curve {
    pub p: BigUint,
    pub n: BigUint,
    pub g: (BigUint, BigUint),
}
pub fn curve() -> &'static Curve {
    static C: std::sync::OnceLock<Curve> = std::sync::OnceLock::new();
    C.get_or_init(|| Curve {
        p: hex("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"),
        n: hex("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
        g: (
            hex("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
            hex("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
        ),
    })
}

pub type Affine = Option<(BigUint, BigUint)>;
type Jac = (BigUint, BigUint, BigUint);

fn sub(a: &BigUint, b: &BigUint, p: &BigUint) -> BigUint {
    if a >= b {
        a - b
    } else {
        a + p - b
    }
}

fn dbl(q: &Jac) -> Jac {
    let p = &curve().p;
    if q.2.is_zero() {
        return q.clone();
    }
    let (x, y, z) = q;
    let a = x * x % p;
    let b = y * y % p;
    let c = &b * &b % p;
    let d = (x * &b * 4u32) % p;
    let e = (&a * 3u32) % p;
    let x3 = sub(&(&e * &e % p), &((&d * 2u32) % p), p);
    let y3 = sub(&(&e * sub(&d, &x3, p) % p), &((&c * 8u32) % p), p);
    let z3 = (y * z * 2u32) % p;
    (x3, y3, z3)
}

fn add(q: &Jac, r: &Jac) -> Jac {
    let p = &curve().p;
    if q.2.is_zero() {
        return r.clone();
    }
    if r.2.is_zero() {
        return q.clone();
    }
    let z1z1 = &q.2 * &q.2 % p;
    let z2z2 = &r.2 * &r.2 % p;
    let u1 = &q.0 * &z2z2 % p;
    let u2 = &r.0 * &z1z1 % p;
    let s1 = &q.1 * &r.2 % p * &z2z2 % p;
    let s2 = &r.1 * &q.2 % p * &z1z1 % p;
    if u1 == u2 {
        return if s1 == s2 { dbl(q) } else { (BigUint::one(), BigUint::one(), BigUint::zero()) };
    }
    let h = sub(&u2, &u1, p);
    let rr = sub(&s2, &s1, p);
    let hh = &h * &h % p;
    let hhh = &h * &hh % p;
    let v = &u1 * &hh % p;
    let x3 = sub(&sub(&(&rr * &rr % p), &hhh, p), &((&v * 2u32) % p), p);
    let y3 = sub(&(&rr * sub(&v, &x3, p) % p), &(&s1 * &hhh % p), p);
    let z3 = &q.2 * &r.2 % p * &h % p;
    (x3, y3, z3)
}

fn affine(q: &Jac) -> Affine {
    let p = &curve().p;
    if q.2.is_zero() {
        return None;
    }
    let zi = q.2.modpow(&(p - 2u32), p);
    let z2 = &zi * &zi % p;
    Some((&q.0 * &z2 % p, &q.1 * &z2 % p * &zi % p))
}

fn jac(a: &Affine) -> Jac {
    match a {
        None => (BigUint::one(), BigUint::one(), BigUint::zero()),
        Some((x, y)) => (x.clone(), y.clone(), BigUint::one()),
    }
}

fn mul_jac(k: &BigUint, q: &Jac) -> Jac {
    let mut r = jac(&None);
    for i in (0..k.bits()).rev() {
        r = dbl(&r);
        if k.bit(i) {
            r = add(&r, q);
        }
    }
    r
}

fn g_table() -> &'static Vec<Jac> {
    static T: std::sync::OnceLock<Vec<Jac>> = std::sync::OnceLock::new();
    T.get_or_init(|| {
        // 2^i G, normalised
        let mut v = vec![];
        let mut q = jac(&Some(curve().g.clone()));
        for _ in 0..256 {
            v.push(jac(&affine(&q)));
            q = dbl(&q);
        }
        v
    })
}

pub fn mul_g(k: &BigUint) -> Affine {
    let t = g_table();
    let mut r = jac(&None);
    for i in 0..k.bits() {
        if k.bit(i) {
            r = add(&r, &t[i as usize]);
        }
    }
    affine(&r)
}

pub fn point_add(a: &Affine, b: &Affine) -> Affine {
    affine(&add(&jac(a), &jac(b)))
}

pub fn be32(v: &BigUint) -> [u8; 32] {
    let b = v.to_bytes_be();
    let mut o = [0; 32];
    o[32 - b.len()..].copy_from_slice(&b);
    o
}
pub fn int(b: &[u8]) -> BigUint {
    BigUint::from_bytes_be(b)
}

/// The point with an even y for an x coordinate, if there is one.
pub fn lift_x(x: &BigUint) -> Affine {
    let p = &curve().p;
    if x >= p {
        return None;
    }
    let c = (x * x % p * x + 7u32) % p;
    let y = c.modpow(&((p + 1u32) >> 2), p);
    if &y * &y % p != c {
        return None;
    }
    Some((x.clone(), if y.bit(0) { p - y } else { y }))
}

/// 33-byte compressed form.
pub fn compress(a: &Affine) -> [u8; 33] {
    let (x, y) = a.as_ref().expect("a finite point");
    let mut o = [0; 33];
    o[0] = 2 + u8::from(y.bit(0));
    o[1..].copy_from_slice(&be32(x));
    o
}

/// Is this a valid 33-byte compressed point?
pub fn valid_compressed(b: &[u8]) -> bool {
    b.len() == 33 && (b[0] == 2 || b[0] == 3) && lift_x(&int(&b[1..])).is_some()
}

pub fn decompress(b: &[u8]) -> Affine {
    if b.len() != 33 || !(b[0] == 2 || b[0] == 3) {
        return None;
    }
    let (x, y) = lift_x(&int(&b[1..]))?;
    let y = if b[0] == 3 { &curve().p - y } else { y };
    Some((x, y))
}

pub fn valid_secret(b: &[u8]) -> bool {
    b.len() == 32 && !int(b).is_zero() && int(b) < curve().n
}

pub fn tagged(tag: &str, parts: &[&[u8]]) -> [u8; 32] {
    let t = sha256(tag.as_bytes());
    let mut v = t.clone();
    v.extend(&t);
    for p in parts {
        v.extend(*p);
    }
    sha256(&v).try_into().unwrap()
}

/// BIP340 signature of a 32-byte message.
pub fn bip340_sign(secret: &[u8; 32], msg: &[u8; 32], aux: &[u8; 32]) -> [u8; 64] {
    let n = &curve().n;
    let d0 = int(secret);
    let (px, py) = mul_g(&d0).expect("secret is valid");
    let d = if py.bit(0) { n - &d0 } else { d0 };
    let px = be32(&px);
    let mask = tagged("BIP0340/aux", &[aux]);
    let t: Vec<u8> = be32(&d).iter().zip(mask).map(|(a, b)| a ^ b).collect();
    let k0 = int(&tagged("BIP0340/nonce", &[&t, &px, msg])) % n;
    let (rx, ry) = mul_g(&k0).expect("nonce is not zero");
    let k = if ry.bit(0) { n - k0 } else { k0 };
    let rx = be32(&rx);
    let e = int(&tagged("BIP0340/challenge", &[&rx, &px, msg])) % n;
    let s = (k + e * d) % n;
    let mut o = [0; 64];
    o[..32].copy_from_slice(&rx);
    o[32..].copy_from_slice(&be32(&s));
    o
}

/// BIP340 verification with the x coordinate of a compressed key.
pub fn bip340_verify(key: &[u8; 33], msg: &[u8; 32], sig: &[u8; 64]) -> bool {
    let c = curve();
    let Some(pt) = lift_x(&int(&key[1..])) else { return false };
    let r = int(&sig[..32]);
    let s = int(&sig[32..]);
    if r >= c.p || s >= c.n {
        return false;
    }
    let e = int(&tagged("BIP0340/challenge", &[&sig[..32], &key[1..], msg])) % &c.n;
    let neg = if e.is_zero() { e } else { &c.n - e };
    let q = add(&jac(&mul_g(&s)), &mul_jac(&neg, &jac(&Some(pt))));
    match affine(&q) {
        None => false,
        Some((x, y)) => !y.bit(0) && x == r,
    }
}

/// BIP32: (secret, chain code) of the master key of a seed.
pub fn bip32_master(seed: &[u8]) -> Option<([u8; 32], [u8; 32])> {
    let i = hmac_sha512(b"Bitcoin seed", seed);
    valid_secret(&i[..32]).then(|| (i[..32].try_into().unwrap(), i[32..].try_into().unwrap()))
}

/// BIP32 CKDpriv.
pub fn bip32_child(secret: &[u8; 32], cc: &[u8; 32], index: u32) -> Option<([u8; 32], [u8; 32])> {
    let mut data = if index >> 31 == 1 {
        let mut d = vec![0];
        d.extend(secret);
        d
    } else {
        compress(&mul_g(&int(secret))).to_vec()
    };
    data.extend(index.to_be_bytes());
    let i = hmac_sha512(cc, &data);
    let n = &curve().n;
    if int(&i[..32]) >= *n {
        return None;
    }
    let k = (int(&i[..32]) + int(secret)) % n;
    (!k.is_zero()).then(|| (be32(&k), i[32..].try_into().unwrap()))
}

#[cfg(test)]
mod tests {
    #[test]
    fn vectors() {
        use crate::hashes::*;
        let h = |v: Vec<u8>| v.iter().map(|b| format!("{b:02x}")).collect::<String>();
        assert_eq!(h(sha1(b"abc")), "a9993e364706816aba3e25717850c26c9cd0d89d");
        assert_eq!(h(ripemd160(b"abc")), "8eb208f7e05d987a9b044a8e98c6b087f15a0bfc");
        assert!(h(sha256(b"abc")).starts_with("ba7816bf"));
        assert!(h(sha512(b"abc")).starts_with("ddaf35a1"));
        assert!(h(blake2b512(b"abc")).starts_with("ba80a53f"));
        assert!(h(sha3_512(b"abc")).starts_with("b751850b"));
    }
}
