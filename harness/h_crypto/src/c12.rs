//! Hash functions against independent implementations, streams, hash values, slice equality.
use common::primitives::id::{Id, H256};
use crypto::hash::*;
use crypto::util::eq::SliceEqualityCheckMethod;
use pbt::{check, check_eq, enumerated, facet, no_panic, Gen, Property, Res};
use refs::hashes as r;
use serialization::{DecodeAll, Encode};

pub const P: Property = Property {
    id: "C12",
    rule: "Messages of every length from 0 to 600 and random ones to 2000 bytes, cut into random pieces, with resets, clones and reuse; digests compared with independent implementations of the standards; hash values in both byte orders, hex and JSON, with malformed text. Non-trivial: a non-empty message or a non-zero value.",
    facets: &[
        enumerated("every_length", 600 * 2, every_length),
        facet("streams", 25_000, streams),
        facet("values", 120_000, values),
        facet("text", 200_000, text),
        facet("equality", 300_000, equality),
    ],
    assumptions: &["Blanks inside hexadecimal text are skipped by the parsing library and are not generated as malformed text.", "Messages are at most 2000 bytes (16 blocks)."],
};

fn standard(m: &[u8]) -> [(&'static str, Vec<u8>); 7] {
    let b = r::blake2b512(m);
    [
        ("blake2b", b.clone()),
        ("blake2b32", b[..32].to_vec()),
        ("sha1", r::sha1(m)),
        ("sha256", r::sha256(m)),
        ("sha3_512", r::sha3_512(m)),
        ("ripemd160", r::ripemd160(m)),
        ("sha256+ripemd160", r::ripemd160(&r::sha256(m))),
    ]
}

fn one_shot(m: &[u8]) -> [Vec<u8>; 6] {
    [
        hash::<Blake2b, _>(m).to_vec(),
        hash::<Blake2b32, _>(m).to_vec(),
        hash::<Sha1, _>(m).to_vec(),
        hash::<Sha256, _>(m).to_vec(),
        hash::<Sha3_512, _>(m).to_vec(),
        hash::<Ripemd160, _>(m).to_vec(),
    ]
}

fn compare(m: &[u8]) -> Res {
    let want = standard(m);
    for (got, (name, want)) in one_shot(m).iter().zip(&want) {
        check_eq!(got, want, "{name} of {} bytes {}", m.len(), hex::encode(&m[..m.len().min(80)]));
    }
    Ok(())
}

fn every_length(g: &mut Gen) -> Res {
    let n = g.below(600) as usize;
    let k = g.below(2);
    let m: Vec<u8> = if k == 0 { vec![0; n] } else { (0..n).map(|i| (i * 131 + n) as u8 ^ 0x5a).collect() };
    g.nontrivial_if(n > 0);
    compare(&m)
}

fn feed<S: StreamHasher>(g: &mut Gen, m: &[u8], want: &[u8], name: &str) -> Res {
    let mut s = S::new();
    // earlier use must leave no trace
    match g.below(4) {
        0 => {
            s.write(g.bytes(0, 200));
            s.reset();
        }
        1 => {
            s.write(g.bytes(0, 200));
            s.finalize();
        }
        2 => {
            s.finalize();
            s.reset();
            s.reset();
        }
        _ => {}
    }
    let mut rest = m;
    while !rest.is_empty() {
        let n = match g.below(5) {
            0 => 0,
            1 => 1,
            2 => *g.pick(&[63, 64, 65, 71, 72, 73, 127, 128, 129]),
            3 => rest.len(),
            _ => g.urange(0, rest.len()),
        }
        .min(rest.len());
        if g.bool() {
            s.write(&rest[..n]).write(b"");
        } else {
            s.write(rest[..n].to_vec());
        }
        rest = &rest[n..];
    }
    check_eq!(&s.finalize()[..], want, "{name} of {} bytes in pieces", m.len());
    // finalising leaves a fresh stream
    s.write(m);
    check_eq!(&s.finalize()[..], want, "{name} of {} bytes, second use", m.len());
    check_eq!(s.finalize(), S::new().finalize(), "{name}: finalised stream is fresh");
    s.write(m).reset();
    check_eq!(s.finalize(), S::new().finalize(), "{name}: reset stream is fresh");
    s.write(m).write(m);
    let twice = s.finalize();
    s.write([m, m].concat());
    check_eq!(s.finalize(), twice, "{name} of the doubled message");
    Ok(())
}

fn cloned<S: StreamHasher + Clone>(g: &mut Gen, m: &[u8], want: &[u8], name: &str) -> Res {
    let k = g.usize(m.len() + 1);
    let mut a = S::new();
    a.write(&m[..k]);
    let mut b = a.clone();
    b.write(g.bytes(0, 50));
    b.finalize();
    let mut c = a.clone();
    a.write(&m[k..]);
    c.write(&m[k..]);
    check_eq!(&a.finalize()[..], want, "{name}: original after cloning");
    check_eq!(&c.finalize()[..], want, "{name}: clone");
    Ok(())
}

fn streams(g: &mut Gen) -> Res {
    let m = if g.chance(1, 8) { g.bytes(0, 2000) } else { g.bytes(0, 300) };
    g.nontrivial_if(!m.is_empty());
    compare(&m)?;
    let w = standard(&m);
    feed::<Blake2bStream>(g, &m, &w[0].1, "blake2b")?;
    feed::<Blake2b32Stream>(g, &m, &w[1].1, "blake2b32")?;
    feed::<Sha1Stream>(g, &m, &w[2].1, "sha1")?;
    feed::<Sha256Stream>(g, &m, &w[3].1, "sha256")?;
    feed::<Sha3_512Stream>(g, &m, &w[4].1, "sha3_512")?;
    feed::<Ripemd160Stream>(g, &m, &w[5].1, "ripemd160")?;
    feed::<Sha256Ripmd160Stream>(g, &m, &w[6].1, "sha256+ripemd160")?;
    cloned::<Blake2bStream>(g, &m, &w[0].1, "blake2b")?;
    cloned::<Blake2b32Stream>(g, &m, &w[1].1, "blake2b32")?;
    cloned::<Sha1Stream>(g, &m, &w[2].1, "sha1")?;
    cloned::<Sha256Stream>(g, &m, &w[3].1, "sha256")?;
    cloned::<Sha3_512Stream>(g, &m, &w[4].1, "sha3_512")?;
    cloned::<Ripemd160Stream>(g, &m, &w[5].1, "ripemd160")?;
    // hashing an encoded object equals hashing its encoding
    let obj = (g.u64(), m.clone(), g.bool());
    let mut s = common::primitives::id::DefaultHashAlgoStream::new();
    common::primitives::id::hash_encoded_to(&obj, &mut s);
    check_eq!(s.finalize()[..], r::blake2b512(&obj.encode())[..32], "hash of an encoded object");
    let id: H256 = common::primitives::id::default_hash(&m);
    check_eq!(id.as_bytes(), &w[1].1[..], "default hash");
    check_eq!(common::primitives::id::hash_encoded(&obj).0, r::blake2b512(&obj.encode())[..32], "default hash of an object");
    Ok(())
}

fn values(g: &mut Gen) -> Res {
    let b: [u8; 32] = g.array();
    let h = H256(b);
    g.nontrivial_if(b != [0; 32]);
    let be = hex::encode(b);
    let mut rev = b;
    rev.reverse();
    check_eq!(format!("{h:x}"), be, "hex");
    check_eq!(h.as_bitcoin_uint256_hex(), hex::encode(rev), "hex in the other order");
    check_eq!(format!("{:x}", h.into_arith_uint256()), hex::encode(rev), "as a number");
    check_eq!(h.into_arith_uint256().to_bytes(), b, "number bytes");
    check!(H256::from(h.into_arith_uint256()) == h, "back from the number");
    check_eq!(serde_json::to_string(&h).unwrap(), format!("\"{be}\""), "JSON");
    check!(serde_json::from_str::<H256>(&format!("\"{be}\"")).is_ok_and(|x| x == h), "from JSON");
    check!(be.parse::<H256>().is_ok_and(|x| x == h), "from hex");
    check!(be.to_uppercase().parse::<H256>().is_ok_and(|x| x == h), "from upper-case hex");
    check_eq!(h.encode(), b.to_vec(), "encoding");
    check!(H256::decode_all(&mut &b[..]).is_ok_and(|x| x == h), "decoding");
    check!(H256::from(generic_array::GenericArray::from(b)) == h, "from an array");
    check!(H256::from_slice(&b) == h, "from a slice");
    let mut c: [u8; 32] = g.array();
    if g.bool() {
        c = b;
        c[g.usize(32)] ^= 1 << g.below(8);
    }
    let o = H256(c);
    check_eq!(h.cmp(&o), b.cmp(&c), "order");
    check_eq!(h == o, b == c, "equality");
    let (i, j) = (Id::<()>::new(h), Id::<()>::from(o));
    check_eq!(i.cmp(&j), b.cmp(&c), "order of ids");
    check_eq!(i.partial_cmp(&j), Some(b.cmp(&c)), "partial order of ids");
    check_eq!(i == j, b == c, "equality of ids");
    check!(i.to_hash() == h && *i.as_hash() == h && i.as_ref() == &b[..], "hash of an id");
    check_eq!(format!("{i:x}"), be, "id hex");
    check_eq!(format!("{i:X}"), be.to_uppercase(), "id upper hex");
    check_eq!(format!("{i:#x}"), format!("0x{be}"), "id prefixed hex");
    check_eq!(serde_json::to_string(&i).unwrap(), format!("\"{be}\""), "id JSON");
    check!(serde_json::from_str::<Id<()>>(&format!("\"{be}\"")).is_ok_and(|x| x == i), "id from JSON");
    check_eq!(i.encode(), b.to_vec(), "id encoding");
    check!(Id::<()>::decode_all(&mut &b[..]).is_ok_and(|x| x == i), "id decoding");
    check!(Id::<()>::zero().to_hash() == H256::zero(), "zero id");
    let s = g.seed();
    let (x, y, z) = (H256::random_using(&mut crate::rng(s)), H256::random_using(&mut crate::rng(s)), H256::random_using(&mut crate::rng(s ^ 1)));
    check!(x == y && x != z, "random values");
    Ok(())
}

fn text(g: &mut Gen) -> Res {
    let b: [u8; 32] = g.array();
    let mut s = hex::encode(b);
    let mut ok = true;
    match g.below(6) {
        0 => {
            let n = g.usize(64);
            s.truncate(n);
            ok = false;
        }
        1 => {
            s.push_str(&hex::encode(g.bytes(1, 3)));
            ok = false;
        }
        2 => {
            let i = g.usize(64);
            s.replace_range(i..i + 1, g.pick(&["g", "G", "x", "-", "+", "é", "\0", "@", "/", ":", "`", "[", "Ａ"]));
            ok = false;
        }
        3 => {
            s.pop();
            ok = false;
        }
        4 => {
            let t = g.text(70).replace([' ', '\t', '\n', '\r'], "");
            ok = hex::decode(t.strip_prefix("0x").unwrap_or(&t)).is_ok_and(|b| b.len() == 32);
            s = t;
        }
        _ => {}
    }
    g.nontrivial();
    g.tag_if(!ok, "malformed");
    check_eq!(no_panic(|| s.parse::<H256>())?.is_ok(), ok, "{s:?} as a hash");
    let j = serde_json::to_string(&s).unwrap();
    check_eq!(no_panic(|| serde_json::from_str::<H256>(&j))?.is_ok(), ok, "{s:?} as a JSON hash");
    check_eq!(no_panic(|| serde_json::from_str::<Id<()>>(&j))?.is_ok(), ok, "{s:?} as a JSON id");
    for j in ["null", "1", "[]", "{}", "true", "[1,2,3]"] {
        check!(serde_json::from_str::<H256>(j).is_err(), "{j} accepted");
    }
    let n = g.len(0, 70);
    let raw = g.bytes_exact(n);
    check_eq!(H256::decode_all(&mut &raw[..]).is_ok(), n == 32, "hash of {n} bytes");
    Ok(())
}

fn equality(g: &mut Gen) -> Res {
    let a = g.bytes(0, 40);
    let b = match g.below(7) {
        0 => a.clone(),
        1 => [&a[..], &a[..]].concat(),
        2 => a[..g.usize(a.len() + 1)].to_vec(),
        3 => {
            let mut b = a.clone();
            if !b.is_empty() {
                let i = g.usize(b.len());
                b[i] ^= 1 << g.below(8);
            }
            b
        }
        4 => {
            // period: the shorter repeats into the longer
            let k = g.urange(1, 4);
            a.iter().copied().cycle().take(a.len() * k).collect()
        }
        5 => vec![0; g.usize(6)],
        _ => g.bytes(0, 40),
    };
    g.nontrivial_if(!a.is_empty() || !b.is_empty());
    let want = a == b;
    for (x, y) in [(&a, &b), (&b, &a)] {
        check_eq!(SliceEqualityCheckMethod::Normal.are_equal(x, y), want, "plain comparison of {x:02x?} and {y:02x?}");
        check_eq!(no_panic(|| SliceEqualityCheckMethod::TimingResistant.are_equal(x, y))?, want, "constant-time comparison of {x:02x?} and {y:02x?}");
        check_eq!(SliceEqualityCheckMethod::timing_resistant_equal(x, y), want, "constant-time comparison of {x:02x?} and {y:02x?}");
    }
    let (c, d): (Vec<u16>, Vec<u16>) = (a.iter().map(|x| u16::from(*x) << 8).collect(), b.iter().map(|x| u16::from(*x) << 8).collect());
    check_eq!(SliceEqualityCheckMethod::TimingResistant.are_equal(&c, &d), want, "words {c:02x?} and {d:02x?}");
    g.tag_if(want, "equal");
    Ok(())
}
