//! Keys and signatures against BIP340 over big integers.
use crypto::key::secp256k1::{Secp256k1PrivateKey, Secp256k1PublicKey};
use crypto::key::signature::SignatureKind;
use crypto::key::{KeyKind, PredefinedSigAuxDataProvider, PrivateKey, PublicKey, Secp256k1SchnorrAuxDataProvider, Signature};
use num::bigint::BigUint;
use pbt::{check, check_eq, facet, no_panic, note, Gen, Property, Res};
use refs::secp;
use serialization::{Decode, DecodeAll, Encode};

pub const P: Property = Property {
    id: "C08",
    rule: "Secrets (random, 1, the group order minus 1 and neighbours), messages of 0 to 400 bytes, auxiliary data; signatures are compared with BIP340 computed over big integers, corrupted keys, messages and signatures must be refused, and encodings are judged by the curve equation. Non-trivial: a signature was made or an encoding of the right length was judged.",
    facets: &[
        facet("bip340", 3_000, bip340),
        facet("refused", 20_000, refused),
        facet("any_signature", 1_500, any_signature),
        facet("encodings", 30_000, encodings),
        facet("garbage", 60_000, garbage),
    ],
    assumptions: &["Schnorr verification uses the x coordinate only: a key and its negation accept the same signatures."],
};

struct Aux([u8; 32]);
impl Secp256k1SchnorrAuxDataProvider for Aux {
    fn get_secp256k1_schnorr_aux_data(&mut self) -> [u8; 32] {
        self.0
    }
}

pub fn secret(g: &mut Gen) -> [u8; 32] {
    let n = &secp::curve().n;
    let v = match g.below(10) {
        0 => BigUint::from(g.below(5) + 1),
        1 => n - (g.below(5) + 1),
        2 => (n >> 1) + g.below(4),
        3 => BigUint::from(1u32) << g.below(255),
        _ => secp::int(&g.array::<32>()) % (n - 1u32) + 1u32,
    };
    secp::be32(&v)
}

fn private(s: &[u8; 32]) -> Result<PrivateKey, String> {
    Ok(Secp256k1PrivateKey::from_bytes(s).map_err(|e| format!("valid secret {s:02x?} refused: {e:?}"))?.into())
}

fn digest(msg: &[u8]) -> [u8; 32] {
    refs::hashes::blake2b512(msg)[..32].try_into().unwrap()
}

fn raw(sig: &Signature) -> Result<[u8; 64], String> {
    let e = sig.encode();
    check_eq!(e.len(), 65, "signature encoding length");
    check_eq!(e[0], 0, "signature kind byte");
    Ok(e[1..].try_into().unwrap())
}

fn message(g: &mut Gen) -> Vec<u8> {
    if g.chance(1, 4) {
        g.bytes_exact(32)
    } else {
        g.bytes(0, 400)
    }
}

fn bip340(g: &mut Gen) -> Res {
    let s = secret(g);
    let sk = private(&s)?;
    let pk = PublicKey::from_private_key(&sk);
    let want_pk = secp::compress(&secp::mul_g(&secp::int(&s)));
    let e = pk.encode();
    check_eq!(&e[1..], &want_pk[..], "public key of {s:02x?}");
    let msg = message(g);
    note!(g, "secret {}, message {}", hex::encode(s), hex::encode(&msg));
    let m = digest(&msg);
    let mut aux: [u8; 32] = g.array();
    let sig = match g.below(3) {
        0 => {
            aux = [0; 32];
            sk.sign_message(&msg, &mut PredefinedSigAuxDataProvider)
        }
        1 => sk.sign_message(&msg, &mut Aux(aux)),
        _ => {
            let mut r = crate::rng(g.seed());
            let sig = sk.sign_message(&msg, &mut r).map_err(|e| format!("{e}"))?;
            check!(secp::bip340_verify(&want_pk, &m, &raw(&sig)?), "signature with random auxiliary data is not a valid BIP340 signature");
            check!(pk.verify_message(&sig, &msg), "own signature (random auxiliary data) is refused");
            // random auxiliary data really varies
            let again = sk.sign_message(&msg, &mut r).map_err(|e| format!("{e}"))?;
            check!(pk.verify_message(&again, &msg), "second signature refused");
            check!(raw(&sig)? != raw(&again)?, "two signatures with random auxiliary data are identical");
            sk.sign_message(&msg, &mut Aux(aux))
        }
    }
    .map_err(|e| format!("signing failed: {e}"))?;
    let want = secp::bip340_sign(&s, &m, &aux);
    check_eq!(raw(&sig)?, want, "BIP340 signature");
    check!(pk.verify_message(&sig, &msg), "own signature is refused");
    let other_kind: bool = sig.is_aggregable() || pk.is_aggregable();
    check!(!other_kind, "Schnorr signatures are not aggregable");
    g.nontrivial();
    Ok(())
}

/// Deterministic, cheap: no oracle needed to know that these must fail.
fn refused(g: &mut Gen) -> Res {
    let s = secret(g);
    let sk = private(&s)?;
    let pk = PublicKey::from_private_key(&sk);
    let msg = message(g);
    let sig = if g.bool() { sk.sign_message(&msg, &mut PredefinedSigAuxDataProvider) } else { sk.sign_message(&msg, &mut Aux(g.array())) }
        .map_err(|e| format!("{e}"))?;
    check!(pk.verify_message(&sig, &msg), "own signature is refused");
    check!(Signature::from_data(sig.encode()).is_ok_and(|x| x == sig), "signature encoding");
    g.nontrivial();
    let n = &secp::curve().n;
    match g.below(4) {
        0 => {
            g.tag("message");
            let mut m = msg.clone();
            match g.below(6) {
                0 if !m.is_empty() => {
                    let i = g.usize(m.len());
                    m[i] ^= 1 << g.below(8);
                }
                1 if !m.is_empty() => {
                    m.pop();
                }
                2 => m.push(g.byte()),
                3 => m.insert(0, g.byte()),
                4 => m.extend(msg.iter().copied().take(40)),
                _ => m = message(g),
            }
            if m != msg {
                check!(!pk.verify_message(&sig, &m), "signature of {msg:02x?} accepted for {m:02x?}");
            }
        }
        1 => {
            g.tag("signature");
            let mut b = raw(&sig)?;
            match g.below(6) {
                0 => b.rotate_left(32),
                1 => {
                    let v = n - secp::int(&b[32..]);
                    b[32..].copy_from_slice(&secp::be32(&v));
                }
                2 => {
                    for x in &mut b[g.usize(2) * 32..][..32] {
                        *x = 0;
                    }
                }
                3 => {
                    let i = g.usize(64);
                    b[i] = b[i].wrapping_add(g.byte() | 1);
                }
                4 => b.reverse(),
                _ => {
                    let i = g.usize(64);
                    b[i] ^= 1 << g.below(8);
                }
            }
            if b != raw(&sig)? {
                let bad = Signature::from_raw_data(b, SignatureKind::Secp256k1Schnorr).map_err(|e| format!("{e}"))?;
                check!(!no_panic(|| pk.verify_message(&bad, &msg))?, "altered signature {b:02x?} accepted");
            }
        }
        2 => {
            g.tag("key");
            let s2 = secret(g);
            if s2 != s && secp::int(&s2) + secp::int(&s) != *n {
                let pk2 = PublicKey::from_private_key(&private(&s2)?);
                check!(pk2 != pk, "different secrets, same public key");
                check!(!pk2.verify_message(&sig, &msg), "signature of {s:02x?} accepted for the key of {s2:02x?}");
            }
        }
        _ => {
            g.tag("other signature");
            let m2 = message(g);
            if m2 != msg {
                let sig2 = sk.sign_message(&m2, &mut PredefinedSigAuxDataProvider).map_err(|e| format!("{e}"))?;
                check!(!pk.verify_message(&sig2, &msg), "signature of another message accepted");
                let (a, b) = (raw(&sig)?, raw(&sig2)?);
                let mut mix = a;
                mix[32..].copy_from_slice(&b[32..]);
                let mix = Signature::from_raw_data(mix, SignatureKind::Secp256k1Schnorr).map_err(|e| format!("{e}"))?;
                check!(!pk.verify_message(&mix, &msg), "mixed signature accepted");
            }
        }
    }
    Ok(())
}

/// Verdicts on arbitrary signatures equal the definition's (including ones built to verify for a chosen R).
fn any_signature(g: &mut Gen) -> Res {
    let c = secp::curve();
    let s = secret(g);
    let sk = private(&s)?;
    let pk = PublicKey::from_private_key(&sk);
    let cpk: [u8; 33] = pk.encode()[1..].try_into().unwrap();
    let msg = message(g);
    let m = digest(&msg);
    let mut b: [u8; 64] = g.array();
    match g.below(5) {
        // a valid signature with a nonce of our own (any nonce is valid by the definition)
        0 | 1 => {
            let k = secp::int(&secret(g));
            let (rx, ry) = secp::mul_g(&k).unwrap();
            let flip = g.chance(1, 3); // wrong parity of R
            let k = if ry.bit(0) != flip { &c.n - k } else { k };
            let d = secp::int(&s);
            let d = if cpk[0] == 3 { &c.n - d } else { d };
            b[..32].copy_from_slice(&secp::be32(&rx));
            let e = secp::int(&secp::tagged("BIP0340/challenge", &[&b[..32], &cpk[1..], &m])) % &c.n;
            b[32..].copy_from_slice(&secp::be32(&((k + e * d) % &c.n)));
            g.tag_if(flip, "odd R");
        }
        // out-of-range parts
        2 => b[32..].copy_from_slice(&secp::be32(&(&c.n + g.below(10)))),
        3 => b[..32].copy_from_slice(&secp::be32(&(&c.p + g.below(10)))),
        _ => {}
    }
    let want = secp::bip340_verify(&cpk, &m, &b);
    let sig = Signature::from_raw_data(b, SignatureKind::Secp256k1Schnorr).map_err(|e| format!("{e}"))?;
    check_eq!(no_panic(|| pk.verify_message(&sig, &msg))?, want, "verdict on {b:02x?}");
    g.tag_if(want, "valid");
    g.nontrivial();
    Ok(())
}

fn encodings(g: &mut Gen) -> Res {
    let s = secret(g);
    let sk = private(&s)?;
    let pk = PublicKey::from_private_key(&sk);
    g.nontrivial();
    match g.below(4) {
        0 => {
            let e = sk.encode();
            check_eq!(e.len(), 33, "private key encoding");
            check_eq!((e[0], &e[1..]), (0, &s[..]), "private key encoding");
            check_eq!(sk.encoded_size(), 33, "encoded size of a private key");
            let back = PrivateKey::decode_all(&mut &e[..]).map_err(|x| format!("{x}"))?;
            check!(back == sk, "private key round trip");
            check!(PublicKey::from_private_key(&back) == pk, "public key after the round trip");
            let sp = Secp256k1PrivateKey::decode_all(&mut &s[..]).map_err(|x| format!("{x}"))?;
            check_eq!(sp.as_bytes(), &s[..], "secp private key bytes");
            check_eq!(sp.encode(), s.to_vec(), "secp private key encoding");
            check!(Secp256k1PrivateKey::from_native(*sp.as_native()) == sp, "native round trip");
            check!(PrivateKey::from(sp) == sk, "secp private key");
            let other = private(&secret(g))?;
            check_eq!(other == sk, other.encode() == e, "private key equality");
            check!(sk.kind() == KeyKind::Secp256k1Schnorr && pk.kind() == KeyKind::Secp256k1Schnorr, "kinds");
        }
        1 => {
            let e = pk.encode();
            check_eq!(e.len(), 34, "public key encoding");
            check_eq!(e[0], 0, "kind");
            check!(secp::valid_compressed(&e[1..]), "encoded public key is on the curve");
            check_eq!(pk.encoded_size(), 34, "encoded size");
            check!(PublicKey::decode_all(&mut &e[..]).is_ok_and(|x| x == pk), "public key round trip");
            let sp = Secp256k1PublicKey::from_bytes(&e[1..]).map_err(|x| format!("{x:?}"))?;
            check_eq!(&sp.as_bytes()[..], &e[1..], "bytes");
            check_eq!(&sp.encode()[..], &e[1..], "secp public key encoding");
            check!(Secp256k1PublicKey::decode_all(&mut &e[1..]).is_ok_and(|x| x == sp), "secp public key round trip");
            check!(Secp256k1PublicKey::from_native(*sp.as_native()) == sp, "native");
            check!(PublicKey::from(sp.clone()) == pk, "from secp");
            let Ok(t) = Secp256k1PublicKey::try_from(pk.clone());
            check!(t == sp, "into secp");
            let j = serde_json::to_string(&pk).map_err(|x| format!("{x}"))?;
            check_eq!(j, format!("\"{}\"", hex::encode(&e)), "JSON of a public key");
            check!(serde_json::from_str::<PublicKey>(&j).is_ok_and(|x| x == pk), "public key from JSON");
        }
        2 => {
            let b: [u8; 64] = g.array();
            let sig = Signature::from_raw_data(b, SignatureKind::Secp256k1Schnorr).map_err(|e| format!("{e}"))?;
            let e = sig.encode();
            check_eq!((e[0], &e[1..]), (0, &b[..]), "signature encoding");
            check!(Signature::decode_all(&mut &e[..]).is_ok_and(|x| x == sig), "signature round trip");
            check!(Signature::from_data(&e).is_ok_and(|x| x == sig), "from_data");
            check_eq!(sig.encoded_size(), 65, "encoded size");
            check!(matches!(sig.kind(), SignatureKind::Secp256k1Schnorr), "kind");
            let j = serde_json::to_string(&sig).map_err(|x| format!("{x}"))?;
            check_eq!(j, format!("\"{}\"", hex::encode(&e)), "JSON of a signature");
            // decoding from a longer stream takes exactly its own bytes
            let tail = g.bytes(1, 5);
            let long: Vec<u8> = e.iter().chain(&tail).copied().collect();
            let mut inp = &long[..];
            check!(Signature::decode(&mut inp).is_ok_and(|x| x == sig), "prefix decoding");
            check_eq!(inp, &tail[..], "bytes left");
            check!(Signature::from_data(&long).is_err(), "trailing bytes accepted");
        }
        _ => {
            let seed = g.seed();
            let (mut r, mut r2) = (crate::rng(seed), crate::rng(seed));
            let (a, pa) = PrivateKey::new_from_rng(&mut r, KeyKind::Secp256k1Schnorr);
            let (b, pb) = PrivateKey::new_from_rng(&mut r2, KeyKind::Secp256k1Schnorr);
            check!(a == b && pa == pb, "same random source, different keys");
            check!(PublicKey::from_private_key(&a) == pa, "generated public key does not belong to the private key");
            let (c, pc) = PrivateKey::new_from_rng(&mut r, KeyKind::Secp256k1Schnorr);
            check!(c != a && pc != pa, "two generated keys are equal");
            check!(secp::valid_secret(&a.encode()[1..]), "generated secret in range");
            let m = message(g);
            let sig = a.sign_message(&m, &mut r).map_err(|e| format!("{e}"))?;
            check!(pa.verify_message(&sig, &m) && !pc.verify_message(&sig, &m), "generated keys");
            let (e, pe) = PrivateKey::new_from_entropy(KeyKind::Secp256k1Schnorr);
            check!(PublicKey::from_private_key(&e) == pe && e != a, "key from entropy");
        }
    }
    Ok(())
}

fn garbage(g: &mut Gen) -> Res {
    let c = secp::curve();
    match g.below(5) {
        0 => {
            // 33-byte public keys
            let mut b: [u8; 33] = g.array();
            b[0] = *g.pick(&[2, 3, 2, 3, 0, 1, 4, 5, 6, 7, 0x82, b[0]]);
            match g.below(8) {
                0 => b[1..].copy_from_slice(&secp::be32(&(&c.p + g.below(20)))),
                1 => b[1..].copy_from_slice(&secp::be32(&(&c.p - (g.below(20) + 1)))),
                2 => b[1..].copy_from_slice(&secp::be32(&BigUint::from(g.below(20)))),
                _ => {}
            }
            let want = secp::valid_compressed(&b);
            let got = no_panic(|| Secp256k1PublicKey::decode_all(&mut &b[..]))?;
            check_eq!(got.is_ok(), want, "public key {b:02x?}");
            if let Ok(k) = got {
                check_eq!(k.encode(), b.to_vec(), "re-encoding");
                // and it derives consistently: the JSON form reads back
                let pk = PublicKey::from(k);
                check!(serde_json::from_str::<PublicKey>(&serde_json::to_string(&pk).unwrap()).is_ok_and(|x| x == pk), "JSON");
                g.tag("valid public key");
            }
            let full: Vec<u8> = std::iter::once(0).chain(b).collect();
            check_eq!(PublicKey::decode_all(&mut &full[..]).is_ok(), want, "public key {b:02x?} with kind");
            check_eq!(serde_json::from_str::<PublicKey>(&format!("\"{}\"", hex::encode(&full))).is_ok(), want, "JSON public key");
            g.nontrivial();
        }
        1 => {
            let mut b: [u8; 32] = g.array();
            match g.below(6) {
                0 => b = secp::be32(&(&c.n + g.below(10))),
                1 => b = secp::be32(&(&c.n - (g.below(10) + 1))),
                2 => b = secp::be32(&BigUint::from(g.below(3))),
                3 => b = [0xff; 32],
                _ => {}
            }
            let want = secp::valid_secret(&b);
            check_eq!(no_panic(|| Secp256k1PrivateKey::from_bytes(&b))?.is_ok(), want, "secret {b:02x?}");
            check_eq!(Secp256k1PrivateKey::decode_all(&mut &b[..]).is_ok(), want, "secret {b:02x?} decoded");
            let full: Vec<u8> = std::iter::once(0).chain(b).collect();
            check_eq!(PrivateKey::decode_all(&mut &full[..]).is_ok(), want, "private key {b:02x?}");
            g.tag_if(!want, "out of range");
            g.nontrivial();
        }
        2 => {
            // unknown kinds
            let kind = g.range(1, 255) as u8;
            let s = secret(g);
            let mut e = private(&s)?.encode();
            e[0] = kind;
            check!(PrivateKey::decode_all(&mut &e[..]).is_err(), "private key of unknown kind {kind}");
            let mut e = PublicKey::from_private_key(&private(&s)?).encode();
            e[0] = kind;
            check!(PublicKey::decode_all(&mut &e[..]).is_err(), "public key of unknown kind {kind}");
            let mut e = g.bytes_exact(65);
            e[0] = kind;
            check!(Signature::from_data(&e).is_err(), "signature of unknown kind {kind}");
            check!(Signature::decode_all(&mut &e[..]).is_err(), "signature of unknown kind {kind}");
            g.nontrivial();
        }
        3 => {
            // wrong lengths
            let n = g.len(0, 200);
            let mut b = g.bytes_exact(n);
            if !b.is_empty() && g.bool() {
                b[0] = 0;
            }
            if n != 65 {
                check!(no_panic(|| Signature::from_data(&b))?.is_err(), "signature of {n} bytes");
            }
            if n != 64 {
                check!(no_panic(|| Signature::from_raw_data(&b, SignatureKind::Secp256k1Schnorr))?.is_err(), "raw signature of {n} bytes");
            }
            if n != 32 {
                check!(no_panic(|| Secp256k1PrivateKey::from_bytes(&b))?.is_err(), "secret of {n} bytes");
            }
            if n != 33 {
                check!(no_panic(|| PrivateKey::decode_all(&mut &b[..]))?.is_err(), "private key of {n} bytes");
                if n != 65 {
                    check!(no_panic(|| Secp256k1PublicKey::from_bytes(&b))?.is_err(), "public key of {n} bytes");
                }
            }
            if n != 34 {
                check!(no_panic(|| PublicKey::decode_all(&mut &b[..]))?.is_err(), "public key of {n} bytes");
            }
        }
        _ => {
            // truncations and extensions of valid encodings
            let sk = private(&secret(g))?;
            let pk = PublicKey::from_private_key(&sk);
            let (a, b) = (sk.encode(), pk.encode());
            let (i, j) = (g.usize(a.len()), g.usize(b.len()));
            check!(PrivateKey::decode_all(&mut &a[..i]).is_err(), "truncated private key");
            check!(PublicKey::decode_all(&mut &b[..j]).is_err(), "truncated public key");
            let x = g.byte();
            check!(PrivateKey::decode_all(&mut &[&a[..], &[x]].concat()[..]).is_err(), "extended private key");
            check!(PublicKey::decode_all(&mut &[&b[..], &[x]].concat()[..]).is_err(), "extended public key");
            let t = g.text(80);
            let js = serde_json::to_string(&t).unwrap();
            let ok = hex::decode(t.trim()).is_ok_and(|b| b.len() == 34);
            let got = no_panic(|| serde_json::from_str::<PublicKey>(&js))?;
            check!(got.is_err() || ok, "JSON {js} accepted as a public key");
            let mut h = hex::encode(&b);
            match g.below(3) {
                0 => {
                    h.pop();
                }
                1 => h.push('0'),
                _ => h.replace_range(g.usize(h.len())..h.len(), ""),
            }
            check!(serde_json::from_str::<PublicKey>(&format!("\"{h}\"")).is_err(), "malformed hex {h}");
            g.nontrivial();
        }
    }
    Ok(())
}
