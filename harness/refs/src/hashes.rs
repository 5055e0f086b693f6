//! SHA-1, SHA-256, SHA-512, SHA3-512, RIPEMD-160, BLAKE2b-512 and HMAC-SHA-512, from their specifications.

fn primes(n: usize) -> Vec<u64> {
    let mut v: Vec<u64> = vec![];
    let mut c = 2;
    while v.len() < n {
        if v.iter().all(|p| c % p != 0) {
            v.push(c);
        }
        c += 1;
    }
    v
}

/// First 64 bits of the fractional part of the k-th root (2 or 3) of p.
fn frac_root(p: u64, k: u32) -> u64 {
    // largest r with r^k <= p << (64 k)
    use num::BigUint;
    let target = BigUint::from(p) << (64 * k);
    let r = target.nth_root(k);
    (r & BigUint::from(u64::MAX)).try_into().unwrap()
}

struct Consts {
    k512: [u64; 80],
    h512: [u64; 8],
}
fn consts() -> &'static Consts {
    static C: std::sync::OnceLock<Consts> = std::sync::OnceLock::new();
    C.get_or_init(|| {
        let p = primes(80);
        let mut k512 = [0; 80];
        let mut h512 = [0; 8];
        for i in 0..80 {
            k512[i] = frac_root(p[i], 3);
        }
        for i in 0..8 {
            h512[i] = frac_root(p[i], 2);
        }
        Consts { k512, h512 }
    })
}

fn pad(data: &[u8], block: usize, len_bytes: usize, big: bool) -> Vec<u8> {
    let mut v = data.to_vec();
    v.push(0x80);
    while v.len() % block != block - len_bytes {
        v.push(0);
    }
    let bits = data.len() as u128 * 8;
    if big {
        v.extend(&bits.to_be_bytes()[16 - len_bytes..]);
    } else {
        v.extend(&bits.to_le_bytes()[..len_bytes]);
    }
    v
}

pub fn sha256(data: &[u8]) -> Vec<u8> {
    let c = consts();
    let mut h: Vec<u32> = c.h512.iter().map(|x| (x >> 32) as u32).collect();
    for blk in pad(data, 64, 8, true).chunks(64) {
        let mut w: Vec<u32> = blk.chunks(4).map(|b| u32::from_be_bytes(b.try_into().unwrap())).collect();
        for i in 16..64 {
            let s0 = w[i - 15].rotate_right(7) ^ w[i - 15].rotate_right(18) ^ (w[i - 15] >> 3);
            let s1 = w[i - 2].rotate_right(17) ^ w[i - 2].rotate_right(19) ^ (w[i - 2] >> 10);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut s = h.clone();
        for i in 0..64 {
            let s1 = s[4].rotate_right(6) ^ s[4].rotate_right(11) ^ s[4].rotate_right(25);
            let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
            let k = (c.k512[i] >> 32) as u32;
            let t1 = s[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(k).wrapping_add(w[i]);
            let s0 = s[0].rotate_right(2) ^ s[0].rotate_right(13) ^ s[0].rotate_right(22);
            let t2 = s0.wrapping_add((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
            s.rotate_right(1);
            s[4] = s[4].wrapping_add(t1);
            s[0] = t1.wrapping_add(t2);
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(s[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

pub fn sha512(data: &[u8]) -> Vec<u8> {
    let c = consts();
    let mut h: Vec<u64> = c.h512.to_vec();
    for blk in pad(data, 128, 16, true).chunks(128) {
        let mut w: Vec<u64> = blk.chunks(8).map(|b| u64::from_be_bytes(b.try_into().unwrap())).collect();
        for i in 16..80 {
            let s0 = w[i - 15].rotate_right(1) ^ w[i - 15].rotate_right(8) ^ (w[i - 15] >> 7);
            let s1 = w[i - 2].rotate_right(19) ^ w[i - 2].rotate_right(61) ^ (w[i - 2] >> 6);
            w.push(w[i - 16].wrapping_add(s0).wrapping_add(w[i - 7]).wrapping_add(s1));
        }
        let mut s = h.clone();
        for i in 0..80 {
            let s1 = s[4].rotate_right(14) ^ s[4].rotate_right(18) ^ s[4].rotate_right(41);
            let ch = (s[4] & s[5]) ^ (!s[4] & s[6]);
            let t1 = s[7].wrapping_add(s1).wrapping_add(ch).wrapping_add(c.k512[i]).wrapping_add(w[i]);
            let s0 = s[0].rotate_right(28) ^ s[0].rotate_right(34) ^ s[0].rotate_right(39);
            let t2 = s0.wrapping_add((s[0] & s[1]) ^ (s[0] & s[2]) ^ (s[1] & s[2]));
            s.rotate_right(1);
            s[4] = s[4].wrapping_add(t1);
            s[0] = t1.wrapping_add(t2);
        }
        for i in 0..8 {
            h[i] = h[i].wrapping_add(s[i]);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

pub fn hmac_sha512(key: &[u8], data: &[u8]) -> Vec<u8> {
    let mut k = if key.len() > 128 { sha512(key) } else { key.to_vec() };
    k.resize(128, 0);
    let inner: Vec<u8> = k.iter().map(|b| b ^ 0x36).chain(data.iter().copied()).collect();
    let outer: Vec<u8> = k.iter().map(|b| b ^ 0x5c).chain(sha512(&inner)).collect();
    sha512(&outer)
}

pub fn sha1(data: &[u8]) -> Vec<u8> {
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    for blk in pad(data, 64, 8, true).chunks(64) {
        let mut w: Vec<u32> = blk.chunks(4).map(|b| u32::from_be_bytes(b.try_into().unwrap())).collect();
        for i in 16..80 {
            w.push((w[i - 3] ^ w[i - 8] ^ w[i - 14] ^ w[i - 16]).rotate_left(1));
        }
        let [mut a, mut b, mut c, mut d, mut e] = h;
        for (i, wi) in w.iter().enumerate() {
            let (f, k) = match i / 20 {
                0 => ((b & c) | (!b & d), 0x5A827999),
                1 => (b ^ c ^ d, 0x6ED9EBA1),
                2 => ((b & c) | (b & d) | (c & d), 0x8F1BBCDCu32),
                _ => (b ^ c ^ d, 0xCA62C1D6),
            };
            let t = a.rotate_left(5).wrapping_add(f).wrapping_add(e).wrapping_add(k).wrapping_add(*wi);
            (e, d, c, b, a) = (d, c, b.rotate_left(30), a, t);
        }
        for (x, y) in h.iter_mut().zip([a, b, c, d, e]) {
            *x = x.wrapping_add(y);
        }
    }
    h.iter().flat_map(|x| x.to_be_bytes()).collect()
}

pub fn ripemd160(data: &[u8]) -> Vec<u8> {
    const RL: [u8; 80] = [
        0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 7, 4, 13, 1, 10, 6, 15, 3, 12, 0, 9, 5, 2, 14, 11, 8, 3, 10, 14, 4, 9, 15, 8,
        1, 2, 7, 0, 6, 13, 11, 5, 12, 1, 9, 11, 10, 0, 8, 12, 4, 13, 3, 7, 15, 14, 5, 6, 2, 4, 0, 5, 9, 7, 12, 2, 10, 14, 1, 3, 8, 11, 6,
        15, 13,
    ];
    const RR: [u8; 80] = [
        5, 14, 7, 0, 9, 2, 11, 4, 13, 6, 15, 8, 1, 10, 3, 12, 6, 11, 3, 7, 0, 13, 5, 10, 14, 15, 8, 12, 4, 9, 1, 2, 15, 5, 1, 3, 7, 14, 6,
        9, 11, 8, 12, 2, 10, 0, 4, 13, 8, 6, 4, 1, 3, 11, 15, 0, 5, 12, 2, 13, 9, 7, 10, 14, 12, 15, 10, 4, 1, 5, 8, 7, 6, 2, 13, 14, 0, 3,
        9, 11,
    ];
    const SL: [u8; 80] = [
        11, 14, 15, 12, 5, 8, 7, 9, 11, 13, 14, 15, 6, 7, 9, 8, 7, 6, 8, 13, 11, 9, 7, 15, 7, 12, 15, 9, 11, 7, 13, 12, 11, 13, 6, 7, 14, 9,
        13, 15, 14, 8, 13, 6, 5, 12, 7, 5, 11, 12, 14, 15, 14, 15, 9, 8, 9, 14, 5, 6, 8, 6, 5, 12, 9, 15, 5, 11, 6, 8, 13, 12, 5, 12, 13,
        14, 11, 8, 5, 6,
    ];
    const SR: [u8; 80] = [
        8, 9, 9, 11, 13, 15, 15, 5, 7, 7, 8, 11, 14, 14, 12, 6, 9, 13, 15, 7, 12, 8, 9, 11, 7, 7, 12, 7, 6, 15, 13, 11, 9, 7, 15, 11, 8, 6,
        6, 14, 12, 13, 5, 14, 13, 13, 7, 5, 15, 5, 8, 11, 14, 14, 6, 14, 6, 9, 12, 9, 12, 5, 15, 8, 8, 5, 12, 9, 12, 5, 14, 6, 8, 13, 6, 5,
        15, 13, 11, 11,
    ];
    const KL: [u32; 5] = [0, 0x5A827999, 0x6ED9EBA1, 0x8F1BBCDC, 0xA953FD4E];
    const KR: [u32; 5] = [0x50A28BE6, 0x5C4DD124, 0x6D703EF3, 0x7A6D76E9, 0];
    fn f(j: usize, x: u32, y: u32, z: u32) -> u32 {
        match j {
            0 => x ^ y ^ z,
            1 => (x & y) | (!x & z),
            2 => (x | !y) ^ z,
            3 => (x & z) | (y & !z),
            _ => x ^ (y | !z),
        }
    }
    let mut h: [u32; 5] = [0x67452301, 0xEFCDAB89, 0x98BADCFE, 0x10325476, 0xC3D2E1F0];
    for blk in pad(data, 64, 8, false).chunks(64) {
        let x: Vec<u32> = blk.chunks(4).map(|b| u32::from_le_bytes(b.try_into().unwrap())).collect();
        let mut l = h;
        let mut r = h;
        for j in 0..80 {
            let t = l[0].wrapping_add(f(j / 16, l[1], l[2], l[3])).wrapping_add(x[RL[j] as usize]).wrapping_add(KL[j / 16]);
            let t = t.rotate_left(SL[j].into()).wrapping_add(l[4]);
            l = [l[4], t, l[1], l[2].rotate_left(10), l[3]];
            let t = r[0].wrapping_add(f(4 - j / 16, r[1], r[2], r[3])).wrapping_add(x[RR[j] as usize]).wrapping_add(KR[j / 16]);
            let t = t.rotate_left(SR[j].into()).wrapping_add(r[4]);
            r = [r[4], t, r[1], r[2].rotate_left(10), r[3]];
        }
        h = [
            h[1].wrapping_add(l[2]).wrapping_add(r[3]),
            h[2].wrapping_add(l[3]).wrapping_add(r[4]),
            h[3].wrapping_add(l[4]).wrapping_add(r[0]),
            h[4].wrapping_add(l[0]).wrapping_add(r[1]),
            h[0].wrapping_add(l[1]).wrapping_add(r[2]),
        ];
    }
    h.iter().flat_map(|x| x.to_le_bytes()).collect()
}

pub fn sha3_512(data: &[u8]) -> Vec<u8> {
    fn keccak_f(a: &mut [[u64; 5]; 5]) {
        let mut lfsr = 1u8;
        let mut bit = || {
            let r = lfsr & 1 == 1;
            lfsr = if lfsr & 0x80 != 0 { (lfsr << 1) ^ 0x71 } else { lfsr << 1 };
            r
        };
        for _ in 0..24 {
            let c: Vec<u64> = (0..5).map(|x| (0..5).fold(0, |s, y| s ^ a[x][y])).collect();
            for x in 0..5 {
                let d = c[(x + 4) % 5] ^ c[(x + 1) % 5].rotate_left(1);
                for y in 0..5 {
                    a[x][y] ^= d;
                }
            }
            let (mut x, mut y) = (1, 0);
            let mut cur = a[x][y];
            for t in 0..24u32 {
                (x, y) = (y, (2 * x + 3 * y) % 5);
                let next = a[x][y];
                a[x][y] = cur.rotate_left((t + 1) * (t + 2) / 2 % 64);
                cur = next;
            }
            for y in 0..5 {
                let row: Vec<u64> = (0..5).map(|x| a[x][y]).collect();
                for x in 0..5 {
                    a[x][y] = row[x] ^ (!row[(x + 1) % 5] & row[(x + 2) % 5]);
                }
            }
            for j in 0..7 {
                if bit() {
                    a[0][0] ^= 1u64 << ((1u32 << j) - 1);
                }
            }
        }
    }
    const RATE: usize = 72;
    let mut v = data.to_vec();
    v.push(6);
    while v.len() % RATE != 0 {
        v.push(0);
    }
    *v.last_mut().unwrap() |= 0x80;
    let mut a = [[0u64; 5]; 5];
    for blk in v.chunks(RATE) {
        for (i, w) in blk.chunks(8).enumerate() {
            a[i % 5][i / 5] ^= u64::from_le_bytes(w.try_into().unwrap());
        }
        keccak_f(&mut a);
    }
    (0..8).flat_map(|i: usize| a[i % 5][i / 5].to_le_bytes()).collect()
}

pub fn blake2b512(data: &[u8]) -> Vec<u8> {
    const SIGMA: [[usize; 16]; 10] = [
        [0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15],
        [14, 10, 4, 8, 9, 15, 13, 6, 1, 12, 0, 2, 11, 7, 5, 3],
        [11, 8, 12, 0, 5, 2, 15, 13, 10, 14, 3, 6, 7, 1, 9, 4],
        [7, 9, 3, 1, 13, 12, 11, 14, 2, 6, 5, 10, 4, 0, 15, 8],
        [9, 0, 5, 7, 2, 4, 10, 15, 14, 1, 11, 12, 6, 8, 3, 13],
        [2, 12, 6, 10, 0, 11, 8, 3, 4, 13, 7, 5, 15, 14, 1, 9],
        [12, 5, 1, 15, 14, 13, 4, 10, 0, 7, 6, 3, 9, 2, 8, 11],
        [13, 11, 7, 14, 12, 1, 3, 9, 5, 0, 15, 4, 8, 6, 2, 10],
        [6, 15, 14, 9, 11, 3, 0, 8, 12, 2, 13, 7, 1, 4, 10, 5],
        [10, 2, 8, 4, 7, 6, 1, 5, 15, 11, 9, 14, 3, 12, 13, 0],
    ];
    let iv = consts().h512;
    let mut h = iv;
    h[0] ^= 0x0101_0040;
    let blocks = data.len().div_ceil(128).max(1);
    for n in 0..blocks {
        let part = &data[(n * 128).min(data.len())..((n + 1) * 128).min(data.len())];
        let mut b = part.to_vec();
        b.resize(128, 0);
        let m: Vec<u64> = b.chunks(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect();
        let last = n + 1 == blocks;
        let t = (n * 128 + part.len()) as u128;
        let mut v = [0u64; 16];
        v[..8].copy_from_slice(&h);
        v[8..].copy_from_slice(&iv);
        v[12] ^= t as u64;
        v[13] ^= (t >> 64) as u64;
        if last {
            v[14] = !v[14];
        }
        for r in 0..12 {
            let s = SIGMA[r % 10];
            for (i, [a, b, c, d]) in
                [[0, 4, 8, 12], [1, 5, 9, 13], [2, 6, 10, 14], [3, 7, 11, 15], [0, 5, 10, 15], [1, 6, 11, 12], [2, 7, 8, 13], [3, 4, 9, 14]]
                    .into_iter()
                    .enumerate()
            {
                for (k, (r1, r2)) in [(32, 24), (16, 63)].into_iter().enumerate() {
                    v[a] = v[a].wrapping_add(v[b]).wrapping_add(m[s[2 * i + k]]);
                    v[d] = (v[d] ^ v[a]).rotate_right(r1);
                    v[c] = v[c].wrapping_add(v[d]);
                    v[b] = (v[b] ^ v[c]).rotate_right(r2);
                }
            }
        }
        for i in 0..8 {
            h[i] ^= v[i] ^ v[i + 8];
        }
    }
    h.iter().flat_map(|x| x.to_le_bytes()).collect()
}
