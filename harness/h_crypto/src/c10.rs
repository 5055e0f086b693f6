//! Verifiable random outputs: determinism, verification, binding; differential against the library's definition.
use crypto::vrf::transcript::{no_rng::VRFTranscript, traits::SignableTranscript, with_rng::VRFTranscriptWithRng};
use crypto::vrf::{VRFKeyKind, VRFPrivateKey, VRFPublicKey, VRFReturn};
use generic_array::typenum;
use pbt::{check, check_eq, facet, no_panic, note, Gen, Property, Res};
use serialization::{Decode, DecodeAll, Encode};

pub const P: Property = Property {
    id: "C10",
    rule: "Random keys and transcripts of up to 6 labelled numbers and byte strings; neighbours of each transcript (label, order, value, split, kind, count, initial label), keys and proofs with changed bits. Non-trivial: a proof was made and verified.",
    facets: &[
        facet("proofs", 3_000, proofs),
        facet("bound", 9_000, bound),
        facet("altered", 9_000, altered),
        facet("encodings", 20_000, encodings),
    ],
    assumptions: &["A number attached to a transcript is the same as its eight little-endian bytes attached under that label."],
};

const LABELS: [&[u8]; 8] = [b"", b"a", b"b", b"ab", b"slot", b"epoch", b"a\x08\0\0\0", b"VRF"];

#[derive(Clone, Debug, PartialEq)]
enum Op {
    U64(usize, u64),
    Raw(usize, Vec<u8>),
}
impl Op {
    fn canon(&self) -> (usize, Vec<u8>) {
        match self {
            Op::U64(l, v) => (*l, v.to_le_bytes().to_vec()),
            Op::Raw(l, b) => (*l, b.clone()),
        }
    }
}
#[derive(Clone, Debug, PartialEq)]
struct T {
    label: usize,
    ops: Vec<Op>,
}
impl T {
    fn canon(&self) -> (usize, Vec<(usize, Vec<u8>)>) {
        (self.label, self.ops.iter().map(Op::canon).collect())
    }
    fn attach<X: SignableTranscript>(&self, mut t: X) -> X {
        for o in &self.ops {
            t = match o {
                Op::U64(l, v) => t.attach_u64(LABELS[*l], *v),
                Op::Raw(l, b) => t.attach_raw_data(LABELS[*l], b),
            };
        }
        t
    }
    fn build(&self) -> VRFTranscript {
        self.attach(VRFTranscript::new(LABELS[self.label]))
    }
    /// The same in the proof library's own terms.
    fn reference(&self) -> merlin::Transcript {
        let mut t = merlin::Transcript::new(LABELS[self.label]);
        for (l, b) in self.canon().1 {
            t.append_message(LABELS[l], &b);
        }
        t
    }
}

fn op(g: &mut Gen) -> Op {
    let l = g.usize(LABELS.len());
    if g.bool() {
        Op::U64(l, g.u64())
    } else {
        Op::Raw(l, g.bytes(0, 40))
    }
}
fn transcript(g: &mut Gen) -> T {
    T { label: g.usize(LABELS.len()), ops: g.vec(0, 6, op) }
}

fn key(g: &mut Gen) -> Result<(VRFPrivateKey, VRFPublicKey), String> {
    let seed: [u8; 32] = g.array();
    VRFPrivateKey::new_using_random_bytes(&seed, VRFKeyKind::Schnorrkel).map_err(|e| format!("key from {seed:02x?}: {e}"))
}

fn data(r: &VRFReturn) -> ([u8; 32], [u8; 64]) {
    let VRFReturn::Schnorrkel(r) = r;
    (r.vrf_preout(), r.vrf_proof())
}
fn output(r: &VRFReturn, pk: &VRFPublicKey, t: &T) -> Result<[u8; 64], String> {
    let VRFReturn::Schnorrkel(r) = r;
    let o = r
        .calculate_vrf_output_with_generic_key::<typenum::U64, _>(pk.clone(), t.build())
        .map_err(|e| format!("output: {e}"))?;
    let o32 = r
        .calculate_vrf_output_with_generic_key::<typenum::U32, _>(pk.clone(), t.build())
        .map_err(|e| format!("output: {e}"))?;
    let again = r
        .calculate_vrf_output_with_generic_key::<typenum::U64, _>(pk.clone(), t.build().with_rng(crate::rng(1)))
        .map_err(|e| format!("output: {e}"))?;
    check!(o == again, "output depends on the random source of the transcript");
    check!(o32[..].iter().any(|b| *b != 0), "zero output");
    Ok(o.into())
}

fn reference_pair(sk: &VRFPrivateKey) -> Result<schnorrkel::Keypair, String> {
    let secret = schnorrkel::SecretKey::from_bytes(&sk.encode()[1..]).map_err(|e| format!("{e}"))?;
    Ok(secret.to_keypair())
}

fn proofs(g: &mut Gen) -> Res {
    let (sk, pk) = key(g)?;
    let t = transcript(g);
    note!(g, "{t:?}");
    let a = sk.produce_vrf_data(t.build());
    let b = sk.produce_vrf_data(t.build());
    let seed = g.seed();
    let c = sk.produce_vrf_data(t.build().with_rng(crate::rng(seed)));
    let d = sk.produce_vrf_data(t.attach(VRFTranscriptWithRng::new(LABELS[t.label], crate::rng(seed))));
    let e = sk.produce_vrf_data(t.build().with_rng(crate::rng(seed ^ 1)));
    g.nontrivial();
    check!(c == d && c.encode() == d.encode(), "same random source, different proofs");
    let out = output(&a, &pk, &t)?;
    for (x, name) in [(&a, "first"), (&b, "second"), (&c, "seeded"), (&e, "other seed")] {
        check_eq!(data(x).0, data(&a).0, "pre-output of the {name} proof");
        check!(pk.verify_vrf_data(t.build(), x).is_ok(), "{name} proof refused");
        check!(pk.verify_vrf_data(t.build().with_rng(crate::rng(seed)), x).is_ok(), "{name} proof refused with a random source");
        check_eq!(output(x, &pk, &t)?, out, "output of the {name} proof");
    }
    check!(data(&c).1 != data(&e).1, "proofs do not depend on the random source");
    check!(data(&a).1 != data(&b).1, "proofs repeat without a fixed random source");
    // the library's own view of the same transcript and key
    let kp = reference_pair(&sk)?;
    check_eq!(&pk.encode()[1..], &kp.public.to_bytes()[..], "public key");
    let (pre, proof) = data(&a);
    let rp = schnorrkel::vrf::VRFPreOut::from_bytes(&pre).map_err(|e| format!("{e}"))?;
    let rproof = schnorrkel::vrf::VRFProof::from_bytes(&proof).map_err(|e| format!("{e}"))?;
    let (io, _) = kp.public.vrf_verify(t.reference(), &rp, &rproof).map_err(|e| format!("the library refuses the proof: {e}"))?;
    check_eq!(<[u8; 64]>::from(io.make_bytes::<generic_array::GenericArray<u8, typenum::U64>>(b"MintlayerVRFOutput!")), out, "output by the library");
    let (rio, rproof, _) = kp.vrf_sign(t.reference());
    check_eq!(rio.to_preout().to_bytes(), pre, "pre-output by the library");
    let mut enc = vec![0];
    enc.extend(rio.to_preout().to_bytes());
    enc.extend(rproof.to_bytes());
    let foreign = VRFReturn::decode_all(&mut &enc[..]).map_err(|e| format!("{e}"))?;
    check!(pk.verify_vrf_data(t.build(), &foreign).is_ok(), "a proof made by the library is refused");
    check_eq!(output(&foreign, &pk, &t)?, out, "output of the library's proof");
    Ok(())
}

fn neighbour(g: &mut Gen, t: &T) -> T {
    let mut u = t.clone();
    let n = u.ops.len();
    match g.below(8) {
        0 => u.label = g.usize(LABELS.len()),
        1 => u.ops.push(op(g)),
        2 if n > 0 => {
            u.ops.remove(g.usize(n));
        }
        3 if n > 1 => {
            let (i, j) = (g.usize(n), g.usize(n));
            u.ops.swap(i, j);
        }
        4 if n > 0 => {
            let i = g.usize(n);
            let l = g.usize(LABELS.len());
            match &mut u.ops[i] {
                Op::U64(x, _) | Op::Raw(x, _) => *x = l,
            }
        }
        5 if n > 0 => {
            // move the boundary between a value and the next
            let i = g.usize(n);
            let (l, b) = u.ops[i].canon();
            let k = g.usize(b.len() + 1);
            u.ops[i] = Op::Raw(l, b[..k].to_vec());
            u.ops.insert(i + 1, Op::Raw(l, b[k..].to_vec()));
        }
        6 if n > 0 => {
            let i = g.usize(n);
            match &mut u.ops[i] {
                Op::U64(_, v) => *v ^= 1 << g.below(64),
                Op::Raw(_, b) => {
                    if b.is_empty() || g.bool() {
                        b.push(0)
                    } else {
                        let k = g.usize(b.len());
                        b[k] ^= 1 << g.below(8);
                    }
                }
            }
        }
        _ => u = transcript(g),
    }
    u
}

fn bound(g: &mut Gen) -> Res {
    let (sk, pk) = key(g)?;
    let t = transcript(g);
    let r = sk.produce_vrf_data(t.build());
    check!(pk.verify_vrf_data(t.build(), &r).is_ok(), "own proof refused");
    g.nontrivial();
    let u = neighbour(g, &t);
    note!(g, "{t:?} / {u:?}");
    let same = u.canon() == t.canon();
    check_eq!(pk.verify_vrf_data(u.build(), &r).is_ok(), same, "proof for {t:?} checked for {u:?}");
    let ru = sk.produce_vrf_data(u.build());
    check_eq!(data(&ru).0 == data(&r).0, same, "outputs of {t:?} and {u:?}");
    check_eq!(output(&ru, &pk, &u)? == output(&r, &pk, &t)?, same, "outputs of {t:?} and {u:?}");
    g.tag_if(!same, "other transcript");
    let (sk2, pk2) = key(g)?;
    if sk2 != sk {
        check!(pk2 != pk, "different keys, same public key");
        check!(pk2.verify_vrf_data(t.build(), &r).is_err(), "proof accepted for another key");
        let r2 = sk2.produce_vrf_data(t.build());
        check!(data(&r2).0 != data(&r).0, "two keys give the same pre-output");
        check!(output(&r2, &pk2, &t)? != output(&r, &pk, &t)?, "two keys give the same output");
        // parts of different proofs do not combine
        let mut mix = vec![0];
        mix.extend(data(&r).0);
        mix.extend(data(&r2).1);
        if let Ok(m) = VRFReturn::decode_all(&mut &mix[..]) {
            check!(pk.verify_vrf_data(t.build(), &m).is_err() && pk2.verify_vrf_data(t.build(), &m).is_err(), "mixed proof accepted");
        }
        let mut mix = vec![0];
        mix.extend(data(&r2).0);
        mix.extend(data(&r).1);
        if let Ok(m) = VRFReturn::decode_all(&mut &mix[..]) {
            check!(pk.verify_vrf_data(t.build(), &m).is_err() && pk2.verify_vrf_data(t.build(), &m).is_err(), "mixed proof accepted");
        }
    }
    Ok(())
}

fn altered(g: &mut Gen) -> Res {
    let (sk, pk) = key(g)?;
    let t = transcript(g);
    let r = sk.produce_vrf_data(t.build());
    let enc = r.encode();
    g.nontrivial();
    let mut e = enc.clone();
    match g.below(6) {
        0 => {
            // the same scalar plus the group order
            let l = num::BigUint::parse_bytes(b"1000000000000000000000000000000014def9dea2f79cd65812631a5cf5d3ed", 16).unwrap();
            let at = 33 + 32 * g.usize(2);
            let v = num::BigUint::from_bytes_le(&e[at..at + 32]) + l;
            let mut b = v.to_bytes_le();
            b.resize(32, 0);
            e[at..at + 32].copy_from_slice(&b);
        }
        1 => {
            let at = 1 + 32 * g.usize(3);
            let junk: [u8; 32] = g.array();
            e[at..at + 32].copy_from_slice(&junk);
        }
        2 => e[33..].rotate_left(32),
        3 => {
            let other = sk.produce_vrf_data(t.build());
            let at = 33 + 32 * g.usize(2);
            e[at..at + 32].copy_from_slice(&other.encode()[at..at + 32]);
        }
        _ => {
            let i = g.range(1, 96) as usize;
            e[i] ^= 1 << g.below(8);
        }
    }
    if e == enc {
        return Ok(());
    }
    match no_panic(|| VRFReturn::decode_all(&mut &e[..]))? {
        Ok(bad) => {
            check_eq!(bad.encode(), e, "re-encoding");
            check!(no_panic(|| pk.verify_vrf_data(t.build(), &bad))?.is_err(), "altered proof accepted: {e:02x?}");
            g.tag("refused by verification");
        }
        Err(_) => g.tag("refused by decoding"),
    }
    Ok(())
}

fn encodings(g: &mut Gen) -> Res {
    let seed: [u8; 32] = g.array();
    let (sk, pk) = VRFPrivateKey::new_using_random_bytes(&seed, VRFKeyKind::Schnorrkel).map_err(|e| format!("{e}"))?;
    let (sk2, pk2) = VRFPrivateKey::new_using_random_bytes(&seed, VRFKeyKind::Schnorrkel).map_err(|e| format!("{e}"))?;
    check!(sk == sk2 && pk == pk2, "same bytes, different keys");
    check!(sk.to_public_key() == pk && VRFPublicKey::from_private_key(&sk) == pk, "public key");
    let mut other = seed;
    other[g.usize(32)] ^= 1 << g.below(8);
    let (sk3, pk3) = VRFPrivateKey::new_using_random_bytes(&other, VRFKeyKind::Schnorrkel).map_err(|e| format!("{e}"))?;
    check!(sk3 != sk && pk3 != pk, "different bytes, same key");
    g.nontrivial();
    let (a, b) = (sk.encode(), pk.encode());
    check_eq!((a.len(), a[0], b.len(), b[0]), (65, 0, 33, 0), "encodings");
    check_eq!((sk.encoded_size(), pk.encoded_size()), (65, 33), "sizes");
    check!(VRFPrivateKey::decode_all(&mut &a[..]).is_ok_and(|x| x == sk && x.to_public_key() == pk), "private round trip");
    check!(VRFPublicKey::decode_all(&mut &b[..]).is_ok_and(|x| x == pk), "public round trip");
    let j = serde_json::to_string(&pk).map_err(|e| format!("{e}"))?;
    check_eq!(j, format!("\"{}\"", hex::encode(&b)), "JSON");
    check!(serde_json::from_str::<VRFPublicKey>(&j).is_ok_and(|x| x == pk), "from JSON");
    check!(sk.kind() == VRFKeyKind::Schnorrkel && pk.kind() == VRFKeyKind::Schnorrkel, "kinds");
    if g.chance(1, 4) {
        let s = g.seed();
        let (x, px) = VRFPrivateKey::new_from_rng(&mut crate::rng(s), VRFKeyKind::Schnorrkel);
        let (y, py) = VRFPrivateKey::new_from_rng(&mut crate::rng(s), VRFKeyKind::Schnorrkel);
        check!(x == y && px == py && x.to_public_key() == px, "generated pair");
        let (z, pz) = VRFPrivateKey::new_from_entropy(VRFKeyKind::Schnorrkel);
        check!(z != x && z.to_public_key() == pz, "pair from entropy");
        let t = transcript(g);
        let r = sk.produce_vrf_data(t.build());
        let e = r.encode();
        check_eq!((e.len(), e[0], r.encoded_size()), (97, 0, 97), "proof encoding");
        check_eq!(e[1..33], data(&r).0, "pre-output bytes");
        check_eq!(e[33..], data(&r).1, "proof bytes");
        let back = VRFReturn::decode_all(&mut &e[..]).map_err(|x| format!("{x}"))?;
        check!(back == r && pk.verify_vrf_data(t.build(), &back).is_ok(), "proof round trip");
        let VRFReturn::Schnorrkel(inner) = &r;
        check_eq!(serde_json::to_string(inner).unwrap(), format!("\"{}\"", hex::encode(&e[1..])), "JSON of a proof");
        let mut long = e.clone();
        long.push(7);
        check!(VRFReturn::decode_all(&mut &long[..]).is_err(), "extended");
        let mut inp = &long[..];
        check!(VRFReturn::decode(&mut inp).is_ok_and(|x| x == r) && inp.len() == 1, "prefix decoding");
        let c = g.usize(e.len());
        check!(VRFReturn::decode_all(&mut &e[..c]).is_err(), "truncated");
        let mut k = e;
        k[0] = g.range(1, 255) as u8;
        check!(VRFReturn::decode_all(&mut &k[..]).is_err(), "unknown kind");
    }
    // refused inputs
    let n = g.len(0, 80);
    let junk = g.bytes_exact(n);
    let r = no_panic(|| VRFPrivateKey::new_using_random_bytes(&junk, VRFKeyKind::Schnorrkel))?;
    check_eq!(r.is_ok(), n == 32, "key from {n} bytes");
    for (what, len, ok) in [
        ("private key", 65, no_panic(|| VRFPrivateKey::decode_all(&mut &junk[..]))?.is_ok()),
        ("public key", 33, no_panic(|| VRFPublicKey::decode_all(&mut &junk[..]))?.is_ok()),
        ("proof", 97, no_panic(|| VRFReturn::decode_all(&mut &junk[..]))?.is_ok()),
    ] {
        check!(!ok || n == len && junk[0] == 0, "{n} bytes accepted as a {what}");
    }
    // public keys: exactly the canonical group elements
    let mut p: [u8; 33] = g.array();
    p[0] = 0;
    if g.bool() {
        p.copy_from_slice(&b);
        p[1 + g.usize(32)] ^= 1 << g.below(8);
    }
    let want = schnorrkel::PublicKey::from_bytes(&p[1..]).is_ok();
    let got = no_panic(|| VRFPublicKey::decode_all(&mut &p[..]))?;
    check_eq!(got.is_ok(), want, "public key {p:02x?}");
    if let Ok(k) = got {
        check_eq!(k.encode(), p.to_vec(), "re-encoding");
        check!(k != pk || p[..] == b[..], "two encodings of one key");
    }
    check_eq!(serde_json::from_str::<VRFPublicKey>(&format!("\"{}\"", hex::encode(p))).is_ok(), want, "JSON");
    let mut p: [u8; 65] = g.array();
    p[0] = 0;
    let want = schnorrkel::SecretKey::from_bytes(&p[1..]).is_ok();
    let got = no_panic(|| VRFPrivateKey::decode_all(&mut &p[..]))?;
    check_eq!(got.is_ok(), want, "private key {p:02x?}");
    let mut k = if g.bool() { a } else { b };
    k[0] = g.range(1, 255) as u8;
    check!(VRFPrivateKey::decode_all(&mut &k[..]).is_err() && VRFPublicKey::decode_all(&mut &k[..]).is_err(), "unknown kind");
    Ok(())
}
