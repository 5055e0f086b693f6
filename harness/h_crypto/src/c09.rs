//! Hierarchical keys against BIP32 over big integers; paths and child numbers against their text grammar.
use crypto::key::extended::{ExtendedKeyKind, ExtendedPrivateKey, ExtendedPublicKey};
use crypto::key::hdkd::chain_code::ChainCode;
use crypto::key::hdkd::child_number::ChildNumber;
use crypto::key::hdkd::derivable::{Derivable, DerivationError};
use crypto::key::hdkd::derivation_path::DerivationPath;
use crypto::key::hdkd::u31::U31;
use crypto::key::secp256k1::extended_keys::{Secp256k1ExtendedPrivateKey, Secp256k1ExtendedPublicKey};
use crypto::key::{PredefinedSigAuxDataProvider, PublicKey};
use crypto::vrf::{transcript::{no_rng::VRFTranscript, traits::SignableTranscript}, ExtendedVRFPrivateKey, ExtendedVRFPublicKey, VRFKeyKind, VRFPublicKey};
use pbt::{check, check_eq, facet, no_panic, note, Gen, Property, Res};
use refs::secp;
use serialization::{Decode, DecodeAll, Encode};

pub const P: Property = Property {
    id: "C09",
    rule: "Seeds of 0 to 200 bytes and paths of up to 7 steps mixing hardened and normal child numbers with boundary indices, compared with BIP32 computed over big integers; long paths (to 256 steps) and public derivation compared with each other; path and number text compared with the grammar. Non-trivial: the path has at least one step, or the text has at least one digit.",
    facets: &[
        facet("bip32", 1_500, bip32),
        facet("commutes", 6_000, commutes),
        facet("distinct", 4_000, distinct),
        facet("vrf_keys", 2_500, vrf_keys),
        facet("long_paths", 60, long_paths),
        facet("encodings", 8_000, encodings),
        facet("numbers", 150_000, numbers),
        facet("number_text", 150_000, number_text),
        facet("path_text", 120_000, path_text),
        facet("paths", 120_000, paths),
    ],
    assumptions: &["The chance of the exceptional cases of BIP32 (a derived number out of range) is below 2^-127 and they are not generated."],
};

fn index(g: &mut Gen) -> u32 {
    match g.below(6) {
        0 => g.below(4) as u32,
        1 => 0x7fff_ffff - g.below(3) as u32,
        2 => *g.pick(&[44, 19788, 1, 2, 0x100, 0x1_0000, 0x0100_0000]),
        _ => g.raw64() as u32 & 0x7fff_ffff,
    }
}
fn child(g: &mut Gen) -> u32 {
    index(g) | if g.bool() { 1 << 31 } else { 0 }
}
fn num(i: u32) -> ChildNumber {
    ChildNumber::from_index_with_hardened_bit(i)
}
fn path(v: &[u32]) -> DerivationPath {
    v.iter().map(|i| num(*i)).collect::<Vec<_>>().try_into().expect("short path")
}
fn master(seed: &[u8]) -> Result<ExtendedPrivateKey, String> {
    ExtendedPrivateKey::new_master(seed, ExtendedKeyKind::Secp256k1Schnorr).map_err(|e| format!("master key of {seed:02x?}: {e}"))
}
fn seed(g: &mut Gen) -> Vec<u8> {
    match g.below(3) {
        0 => g.bytes_exact(64),
        1 => g.bytes_exact(16),
        _ => g.bytes(0, 200),
    }
}
fn e<T>(r: Result<T, DerivationError>) -> Result<T, String> {
    r.map_err(|e| format!("derivation failed: {e}"))
}

/// (path, chain code, 32-byte secret) of the encoding.
fn parts(enc: &[u8], key_len: usize) -> Result<(Vec<u32>, [u8; 32], Vec<u8>), String> {
    check!(enc.len() > 2, "encoding");
    check_eq!(enc[0], 0, "kind");
    let n = enc[1] as usize;
    check_eq!(enc.len(), 2 + 4 * n + 32 + key_len, "length of the encoding");
    let p = enc[2..2 + 4 * n].chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
    let r = &enc[2 + 4 * n..];
    Ok((p, r[..32].try_into().unwrap(), r[32..].to_vec()))
}

fn bip32(g: &mut Gen) -> Res {
    let s = seed(g);
    let v = g.vec(0, 7, child);
    note!(g, "seed {}, path {v:?}", hex::encode(&s));
    let mut key = master(&s)?;
    let Some((mut rk, mut rc)) = secp::bip32_master(&s) else { return Ok(()) };
    g.nontrivial_if(!v.is_empty());
    for step in 0..=v.len() {
        let (p, cc, k) = parts(&key.encode(), 32)?;
        check_eq!(p, v[..step].to_vec(), "path of the key");
        check_eq!(key.get_derivation_path(), &path(&v[..step]), "derivation path");
        check_eq!(k, rk.to_vec(), "secret after {step} steps");
        check_eq!(cc, rc, "chain code after {step} steps");
        let pb = secp::compress(&secp::mul_g(&secp::int(&rk)));
        let pk = key.to_public_key();
        let (p, cc, k) = parts(&pk.encode(), 33)?;
        check_eq!((p, cc, &k[..]), (v[..step].to_vec(), rc, &pb[..]), "public key after {step} steps");
        check!(pk == ExtendedPublicKey::from_private_key(&key), "from_private_key");
        let (plain, code) = pk.clone().into_public_key_and_chain_code();
        check_eq!(code.into_array(), rc, "chain code");
        check!(plain == pk.clone().into_public_key(), "into_public_key");
        check_eq!(&plain.encode()[1..], &pb[..], "plain public key");
        let sk = key.clone().private_key();
        check_eq!(&sk.encode()[1..], &rk[..], "plain private key");
        check!(PublicKey::from_private_key(&sk) == plain, "plain keys belong together");
        if step < v.len() {
            let Some(n) = secp::bip32_child(&rk, &rc, v[step]) else { return Ok(()) };
            (rk, rc) = n;
            // public derivation of the same step
            match pk.derive_child(num(v[step])) {
                Ok(child) => {
                    check!(v[step] >> 31 == 0, "hardened child derived from a public key");
                    let (p, cc, k) = parts(&child.encode(), 33)?;
                    check_eq!(p, v[..=step].to_vec(), "path of the public child");
                    check_eq!((cc, &k[..]), (rc, &secp::compress(&secp::mul_g(&secp::int(&rk)))[..]), "public child");
                }
                Err(DerivationError::CannotDeriveHardenedKeyFromPublicKey(n)) => {
                    check!(v[step] >> 31 == 1, "normal child refused");
                    check_eq!(n.into_encoded_index(), v[step], "child named in the error");
                }
                Err(x) => return Err(format!("public derivation: {x}")),
            }
            key = e(key.derive_child(num(v[step])))?;
        }
    }
    if !v.is_empty() {
        let whole = e(master(&s)?.derive_absolute_path(&path(&v)))?;
        check!(whole.encode() == key.encode(), "whole path");
    }
    Ok(())
}

fn commutes(g: &mut Gen) -> Res {
    let s = seed(g);
    let v = g.vec(1, 8, child);
    note!(g, "seed {}, path {v:?}", hex::encode(&s));
    g.nontrivial();
    let root = master(&s)?;
    check!(root == master(&s)?, "same seed, different master keys");
    let cut = g.usize(v.len() + 1);
    let at = if cut == 0 { root.clone() } else { e(root.clone().derive_absolute_path(&path(&v[..cut])))? };
    let end = e(root.clone().derive_absolute_path(&path(&v)))?;
    if cut < v.len() {
        let via = e(at.clone().derive_absolute_path(&path(&v)))?;
        check!(via.encode() == end.encode(), "derivation via step {cut}");
        let mut k = at.clone();
        for i in &v[cut..] {
            k = e(k.derive_child(num(*i)))?;
        }
        check!(k.encode() == end.encode(), "step by step from {cut}");
        // public derivation of the rest
        let hard = v[cut..].iter().any(|i| i >> 31 == 1);
        match at.to_public_key().derive_absolute_path(&path(&v)) {
            Ok(p) => {
                check!(!hard, "public derivation over a hardened step");
                check!(p.encode() == end.to_public_key().encode(), "public derivation differs");
                g.tag("public");
            }
            Err(DerivationError::CannotDeriveHardenedKeyFromPublicKey(n)) => {
                check!(hard, "public derivation refused without a hardened step");
                check_eq!(Some(n.into_encoded_index()), v[cut..].iter().copied().find(|i| i >> 31 == 1), "first hardened step");
            }
            Err(x) => return Err(format!("public derivation: {x}")),
        }
    }
    // keys only derive below themselves
    let mut w = g.vec(0, 5, child);
    if g.bool() {
        w = v.clone();
        if g.bool() {
            w.truncate(g.usize(v.len() + 1));
        }
        if !w.is_empty() && g.bool() {
            let i = g.usize(w.len());
            w[i] ^= 1 << *g.pick(&[0, 31, 5]);
        }
    }
    let below = w.len() > cut && w[..cut] == v[..cut];
    match at.clone().derive_absolute_path(&path(&w)) {
        Ok(k) => {
            check!(below, "{w:?} derived from {:?}", &v[..cut]);
            check!(k.encode() == e(root.derive_absolute_path(&path(&w)))?.encode(), "derived below");
        }
        Err(DerivationError::CannotDerivePath(p)) => {
            check!(!below, "{w:?} not derivable from {:?}", &v[..cut]);
            check!(p == path(&w), "path named in the error");
        }
        Err(x) => return Err(format!("{x}")),
    }
    check_eq!(at.to_public_key().derive_absolute_path(&path(&w)).is_ok(), below && w[cut..].iter().all(|i| i >> 31 == 0), "public derivation below");
    // the derived pair signs and verifies
    let m = g.bytes(0, 40);
    let sig = end.clone().private_key().sign_message(&m, &mut PredefinedSigAuxDataProvider).map_err(|x| format!("{x}"))?;
    check!(end.to_public_key().into_public_key().verify_message(&sig, &m), "derived pair");
    Ok(())
}

fn distinct(g: &mut Gen) -> Res {
    let s = seed(g);
    let v = g.vec(0, 5, child);
    let mut w = v.clone();
    let mut s2 = s.clone();
    match g.below(5) {
        0 => w.push(child(g)),
        1 if !w.is_empty() => {
            let i = g.usize(w.len());
            w[i] ^= 1 << g.below(32);
        }
        2 if w.len() > 1 => w.swap(0, 1),
        3 if !s.is_empty() => {
            let i = g.usize(s.len());
            s2[i] ^= 1 << g.below(8);
        }
        _ => {
            w = g.vec(0, 5, child);
        }
    }
    if v == w && s == s2 {
        return Ok(());
    }
    // trailing zeros of a short seed are HMAC padding of the message? no: the seed is the message, so it counts
    g.nontrivial();
    let derive = |s: &[u8], v: &[u32]| -> Result<ExtendedPrivateKey, String> {
        v.iter().try_fold(master(s)?, |k, i| e(k.derive_child(num(*i))))
    };
    let (a, b) = (derive(&s, &v)?, derive(&s2, &w)?);
    let (pa, pb) = (parts(&a.encode(), 32)?, parts(&b.encode(), 32)?);
    check!(pa.2 != pb.2, "paths {v:?} and {w:?} give the same secret");
    check!(pa.1 != pb.1, "paths {v:?} and {w:?} give the same chain code");
    check!(a.clone().private_key() != b.clone().private_key(), "equal private keys");
    check!(a.to_public_key().into_public_key() != b.to_public_key().into_public_key(), "equal public keys");
    check!(a != b && a.to_public_key() != b.to_public_key(), "equal extended keys");
    Ok(())
}

fn vparts(enc: &[u8], key_len: usize) -> Result<(Vec<u32>, [u8; 32], Vec<u8>), String> {
    let n = enc[0] as usize;
    check_eq!(enc.len(), 1 + 4 * n + 32 + 1 + key_len, "length of the VRF key encoding");
    let p = enc[1..1 + 4 * n].chunks(4).map(|c| u32::from_be_bytes(c.try_into().unwrap())).collect();
    let r = &enc[1 + 4 * n..];
    check_eq!(r[32], 0, "kind");
    Ok((p, r[..32].try_into().unwrap(), r[33..].to_vec()))
}

/// VRF keys: own master constant, schnorrkel derivation.
fn vrf_keys(g: &mut Gen) -> Res {
    use schnorrkel::derive::Derivation as _;
    let s = seed(g);
    let v = g.vec(0, 4, child);
    note!(g, "seed {}, path {v:?}", hex::encode(&s));
    let vm = |s: &[u8]| ExtendedVRFPrivateKey::new_master(s, VRFKeyKind::Schnorrkel).map_err(|x| format!("{x}"));
    let root = vm(&s)?;
    check!(root == vm(&s)?, "same seed, different keys");
    let i = refs::hashes::hmac_sha512(b"Bitcoin VRF seed", &s);
    let mut rk = schnorrkel::MiniSecretKey::from_bytes(&i[..32]).unwrap().expand(schnorrkel::ExpansionMode::Uniform);
    let mut rc: [u8; 32] = i[32..].try_into().unwrap();
    let mut key = root.clone();
    g.nontrivial_if(!v.is_empty());
    for step in 0..=v.len() {
        let (p, cc, k) = vparts(&key.encode(), 64)?;
        check_eq!((p, cc, &k[..]), (v[..step].to_vec(), rc, &rk.to_bytes()[..]), "VRF secret after {step} steps");
        check_eq!(key.get_derivation_path(), &path(&v[..step]), "path");
        let pk = key.to_public_key();
        check!(pk == ExtendedVRFPublicKey::from_private_key(&key), "from_private_key");
        let (p, cc, k) = vparts(&pk.encode(), 32)?;
        check_eq!((p, cc, &k[..]), (v[..step].to_vec(), rc, &rk.to_public().to_bytes()[..]), "VRF public key after {step} steps");
        check!(VRFPublicKey::from_private_key(&key.clone().private_key()) == *pk.public_key(), "plain keys");
        check!(pk.clone().into_public_key() == *pk.public_key(), "into_public_key");
        check_eq!(pk.get_derivation_path(), &path(&v[..step]), "public path");
        if step < v.len() {
            let n = v[step];
            if n >> 31 == 1 {
                let (m, c) = rk.hard_derive_mini_secret_key(Some(schnorrkel::derive::ChainCode(rc)), n.to_be_bytes());
                rk = m.expand(schnorrkel::ExpansionMode::Uniform);
                rc = c.0;
                check!(
                    matches!(pk.derive_child(num(n)), Err(DerivationError::CannotDeriveHardenedKeyFromPublicKey(x)) if x == num(n)),
                    "hardened VRF child from a public key"
                );
                key = e(key.derive_child(num(n)))?;
            } else {
                let (k, c) = rk.derived_key_simple(schnorrkel::derive::ChainCode(rc), n.to_be_bytes());
                rk = schnorrkel::SecretKey::from_bytes(&k.to_bytes()).map_err(|x| format!("{x}"))?;
                rc = c.0;
                let pubchild = e(pk.derive_child(num(n)))?;
                let parent = key.clone();
                key = e(key.derive_child(num(n)))?;
                check!(pubchild == key.to_public_key(), "public VRF derivation differs");
                // the nonce half of a derived secret is random by design: keep ours in step
                let (_, _, got) = vparts(&key.encode(), 64)?;
                if got[32..] != rk.to_bytes()[32..] {
                    let mut b = rk.to_bytes();
                    b[32..].copy_from_slice(&got[32..]);
                    rk = schnorrkel::SecretKey::from_bytes(&b).map_err(|x| format!("{x}"))?;
                    g.tag("random nonce half");
                }
                drop(parent);
            }
        }
    }
    if !v.is_empty() {
        let whole = e(root.derive_absolute_path(&path(&v)))?;
        let (a, b) = (whole.to_public_key(), key.to_public_key());
        check!(a == b, "whole VRF path");
        check!(vm(&s)?.to_public_key() != a, "child equals master");
    }
    // the derived pair proves and verifies
    let t = VRFTranscript::new(b"t").attach_u64(b"n", g.u64());
    let d = key.clone().private_key().produce_vrf_data(t.clone());
    check!(key.to_public_key().public_key().verify_vrf_data(t, &d).is_ok(), "derived VRF pair");
    let enc = key.encode();
    check!(ExtendedVRFPrivateKey::decode_all(&mut &enc[..]).is_ok_and(|x| x == key), "VRF private round trip");
    let enc = key.to_public_key().encode();
    check!(ExtendedVRFPublicKey::decode_all(&mut &enc[..]).is_ok_and(|x| x == key.to_public_key()), "VRF public round trip");
    // a secp master of the same seed shares nothing
    let (_, c2, k2) = parts(&master(&s)?.encode(), 32)?;
    let (_, c1, k1) = vparts(&vm(&s)?.encode(), 64)?;
    check!(c1 != c2 && k1[..32] != k2[..], "VRF and signing keys coincide");
    Ok(())
}

fn long_paths(g: &mut Gen) -> Res {
    let s = seed(g);
    let n = *g.pick(&[254, 255, 256, 200]);
    let v: Vec<u32> = (0..n).map(|_| index(g)).collect();
    g.nontrivial();
    let mut k = master(&s)?;
    let mut p = k.to_public_key();
    let mut vk = ExtendedVRFPublicKey::from_private_key(&ExtendedVRFPrivateKey::new_master(&s, VRFKeyKind::Schnorrkel).map_err(|x| format!("{x}"))?);
    for (i, c) in v.iter().enumerate() {
        let (a, b, c2) = (k.clone().derive_child(num(*c)), p.clone().derive_child(num(*c)), vk.clone().derive_child(num(*c)));
        if i == 255 {
            check!(matches!(a, Err(DerivationError::PathTooLong)), "256 private steps: {a:?}");
            check!(matches!(b, Err(DerivationError::PathTooLong)), "256 public steps: {b:?}");
            check!(matches!(c2, Err(DerivationError::PathTooLong)), "256 VRF steps: {c2:?}");
            return Ok(());
        }
        k = e(a)?;
        p = e(b)?;
        vk = e(c2)?;
    }
    check!(k.to_public_key() == p, "long public derivation");
    check!(k.to_public_key().encode() == p.encode(), "long public derivation");
    check!(ExtendedPrivateKey::decode_all(&mut &k.encode()[..]).is_ok_and(|x| x.encode() == k.encode()), "long path round trip");
    check!(ExtendedPublicKey::decode_all(&mut &p.encode()[..]).is_ok_and(|x| x.encode() == p.encode()), "long path round trip");
    Ok(())
}

fn encodings(g: &mut Gen) -> Res {
    let s = seed(g);
    let v = g.vec(0, 4, child);
    let k = v.iter().try_fold(master(&s)?, |k, i| e(k.derive_child(num(*i))))?;
    let p = k.to_public_key();
    g.nontrivial();
    let (a, b) = (k.encode(), p.encode());
    let back = ExtendedPrivateKey::decode_all(&mut &a[..]).map_err(|x| format!("{x}"))?;
    check!(back == k && back.encode() == a, "private round trip");
    let pback = ExtendedPublicKey::decode_all(&mut &b[..]).map_err(|x| format!("{x}"))?;
    check!(pback == p && pback.encode() == b, "public round trip");
    check_eq!(k.encoded_size(), a.len(), "size");
    // decoded keys derive the same children
    let c = index(g);
    check!(e(back.derive_child(num(c)))?.encode() == e(k.clone().derive_child(num(c)))?.encode(), "child of the decoded key");
    check!(e(pback.derive_child(num(c)))?.encode() == e(p.clone().derive_child(num(c)))?.encode(), "child of the decoded public key");
    // rebuilt from its parts
    let (plain, code) = p.clone().into_public_key_and_chain_code();
    let Ok(sp) = plain.try_into();
    let re = ExtendedPublicKey::new(Secp256k1ExtendedPublicKey::new_unchecked(path(&v), code, sp));
    check!(re == p && re.encode() == b, "rebuilt public key");
    // the secp layer
    let sk = Secp256k1ExtendedPrivateKey::decode_all(&mut &a[1..]).map_err(|x| format!("{x}"))?;
    check_eq!(&sk.encode()[..], &a[1..], "secp private");
    check_eq!(sk.private_key().as_bytes(), &k.clone().private_key().encode()[1..], "secp private key");
    check!(sk.clone().into_private_key() == *sk.private_key(), "into_private_key");
    let spk = Secp256k1ExtendedPublicKey::from_private_key(&sk);
    check_eq!(&spk.encode()[..], &b[1..], "secp public");
    check_eq!(spk.chain_code(), code, "chain code");
    check!(spk.clone().into_public_key() == *spk.public_key(), "into_public_key");
    // corruption of what must be valid
    let mut x = a.clone();
    x[0] = g.range(1, 255) as u8;
    check!(ExtendedPrivateKey::decode_all(&mut &x[..]).is_err(), "unknown kind");
    let mut x = b.clone();
    x[0] = g.range(1, 255) as u8;
    check!(ExtendedPublicKey::decode_all(&mut &x[..]).is_err(), "unknown kind");
    let mut x = a.clone();
    let n = x.len();
    x[n - 32..].copy_from_slice(&if g.bool() { [0; 32] } else { secp::be32(&(&secp::curve().n + g.below(3))) });
    check!(ExtendedPrivateKey::decode_all(&mut &x[..]).is_err(), "secret out of range");
    let mut x = b.clone();
    let n = x.len();
    let pos = n - 33;
    x[pos..].copy_from_slice(&g.array::<33>());
    check_eq!(ExtendedPublicKey::decode_all(&mut &x[..]).is_ok(), secp::valid_compressed(&x[pos..]), "public key on the curve");
    let cut = g.usize(a.len());
    check!(ExtendedPrivateKey::decode_all(&mut &a[..cut]).is_err(), "truncated");
    check!(ExtendedPublicKey::decode_all(&mut &b[..cut.min(b.len() - 1)]).is_err(), "truncated");
    let mut long = a.clone();
    long.push(g.byte());
    check!(ExtendedPrivateKey::decode_all(&mut &long[..]).is_err(), "extended");
    let junk = g.bytes(0, 80);
    no_panic(|| ExtendedPrivateKey::decode_all(&mut &junk[..]))?.ok();
    no_panic(|| ExtendedPublicKey::decode_all(&mut &junk[..]))?.ok();
    no_panic(|| ExtendedVRFPrivateKey::decode_all(&mut &junk[..]))?.ok();
    no_panic(|| ExtendedVRFPublicKey::decode_all(&mut &junk[..]))?.ok();
    // generated
    let sd = g.seed();
    let (x, px) = ExtendedPrivateKey::new_from_rng(&mut crate::rng(sd), ExtendedKeyKind::Secp256k1Schnorr);
    let (y, _) = ExtendedPrivateKey::new_from_rng(&mut crate::rng(sd), ExtendedKeyKind::Secp256k1Schnorr);
    check!(x.encode() == y.encode() && x.to_public_key().encode() == px.encode(), "generated pair");
    check!(x.get_derivation_path().is_root(), "generated keys are roots");
    let (z, _) = ExtendedPrivateKey::new_from_rng(&mut crate::rng(sd ^ 1), ExtendedKeyKind::Secp256k1Schnorr);
    let ((_, c1, k1), (_, c2, k2)) = (parts(&x.encode(), 32)?, parts(&z.encode(), 32)?);
    check!(c1 != c2 && k1 != k2, "generated keys coincide");
    Ok(())
}

fn numbers(g: &mut Gen) -> Res {
    let i = child(g);
    let n = num(i);
    let low = i & 0x7fff_ffff;
    g.nontrivial();
    check_eq!(n.into_encoded_index(), i, "encoded index");
    check_eq!((ChildNumber::ZERO.into_encoded_index(), ChildNumber::ONE.into_encoded_index()), (0, 1), "named numbers");
    check_eq!(n.get_index().into_u32(), low, "index");
    check_eq!((n.is_hardened(), n.is_normal()), (i >> 31 == 1, i >> 31 == 0), "kind of {i}");
    check_eq!(n.into_encoded_be_bytes(), i.to_be_bytes(), "bytes");
    check_eq!(ChildNumber::from_encoded_be_bytes(i.to_be_bytes()), n, "from bytes");
    let u = U31::from_u32(low).ok_or("U31 refused")?;
    check_eq!((U31::ZERO.into_u32(), U31::ONE.into_u32(), U31::TWO.into_u32()), (0, 1, 2), "named small numbers");
    check_eq!(ChildNumber::from_hardened(u).into_encoded_index(), low | 1 << 31, "hardened");
    check_eq!(ChildNumber::from_normal(u).into_encoded_index(), low, "normal");
    check_eq!(if i >> 31 == 1 { ChildNumber::from_hardened(u) } else { ChildNumber::from_normal(u) }, n, "constructors");
    // increment stays in its kind
    match n.increment() {
        Ok(m) => {
            check!(low != 0x7fff_ffff, "increment of the last number");
            check_eq!(m.into_encoded_index(), i + 1, "increment");
            check!(m > n, "order");
        }
        Err(x) => {
            check_eq!(low, 0x7fff_ffff, "increment refused: {x}");
        }
    }
    check_eq!(u.plus_one().ok().map(U31::into_u32), Some(low + 1).filter(|x| x >> 31 == 0), "plus one");
    let (w, msb) = U31::from_u32_with_msb(i);
    check_eq!((w.into_u32(), msb), (low, i >> 31 == 1), "split");
    check_eq!(w.into_encoded_with_msb(msb), i, "joined");
    check_eq!(w.into_encoded_with_msb(!msb), i ^ 1 << 31, "joined, other bit");
    check_eq!(U31::from_u32(i).map(u32::from), Some(i).filter(|x| x >> 31 == 0), "from_u32");
    check_eq!(U31::try_from(i).ok(), U31::from_u32(i), "try_from");
    check_eq!(w.encode(), low.encode(), "U31 encoding");
    check_eq!(U31::decode_all(&mut &i.encode()[..]).ok(), U31::from_u32(i), "U31 decoding");
    check_eq!(w.to_string(), low.to_string(), "U31 text");
    check_eq!(w.to_string().parse::<U31>().ok(), Some(w), "U31 from text");
    check_eq!(i.to_string().parse::<U31>().ok(), U31::from_u32(i), "U31 from text");
    let j = child(g);
    check_eq!(num(i) == num(j), i == j, "equality");
    check_eq!(num(i).cmp(&num(j)), i.cmp(&j), "order of {i} and {j}");
    let d = n.to_string();
    check_eq!(d, format!("{low}{}", if i >> 31 == 1 { "'" } else { "" }), "text");
    check_eq!(format!("{n:#}"), format!("{low}{}", if i >> 31 == 1 { "h" } else { "" }), "alternate text");
    check_eq!(d.parse::<ChildNumber>().ok(), Some(n), "from text");
    check_eq!(format!("{n:#}").parse::<ChildNumber>().ok(), Some(n), "from alternate text");
    let a: [u8; 32] = g.array();
    let c = ChainCode::from(a);
    check_eq!(c.into_array(), a, "chain code");
    check_eq!(<[u8; 32]>::from(c), a, "chain code");
    check_eq!(c.encode(), a.to_vec(), "chain code encoding");
    check!(ChainCode::decode_all(&mut &a[..]).is_ok_and(|x| x == c), "chain code decoding");
    check_eq!(&ChainCode::from(n).into_array()[..4], &i.to_be_bytes()[..], "chain code of a number");
    Ok(())
}

/// The child number a text denotes.
fn ref_number(s: &str) -> Option<u32> {
    let (d, hard) = match s.strip_suffix('\'').or_else(|| s.strip_suffix('h')) {
        Some(x) => (x, true),
        None => (s, false),
    };
    if d.is_empty() || d.len() > 10 || !d.bytes().all(|b| b.is_ascii_digit()) || (d.len() > 1 && d.starts_with('0')) {
        return None;
    }
    let v: u64 = d.parse().unwrap();
    (v < 1 << 31).then(|| v as u32 | if hard { 1 << 31 } else { 0 })
}

fn number_like(g: &mut Gen) -> String {
    match g.below(5) {
        0 => g.string(&['0', '1', '2', '7', '9', '\'', 'h', 'H', '-', '+', '"', ' ', '_', '٣'], 0, 6),
        1 => format!("{}{}", (1u64 << 31) - 3 + g.below(6), g.pick(&["", "'", "h", "''", "'h", "H", " "])),
        2 => format!("{}{}", g.uint(40), g.pick(&["", "'", "h"])),
        3 => format!("{}{}", g.pick(&["0", "00", "+", "-", " ", ""]), num(child(g))),
        _ => num(child(g)).to_string(),
    }
}

fn number_text(g: &mut Gen) -> Res {
    let s = number_like(g);
    let got = no_panic(|| s.parse::<ChildNumber>())?;
    let want = ref_number(&s);
    check_eq!(got.as_ref().ok().map(|n| n.into_encoded_index()), want, "{s:?} as a child number: {got:?}");
    g.tag_if(want.is_some(), "accepted");
    g.nontrivial_if(s.bytes().any(|b| b.is_ascii_digit()));
    let t = g.text(12);
    check_eq!(no_panic(|| t.parse::<ChildNumber>())?.ok().map(|n| n.into_encoded_index()), ref_number(&t), "{t:?} as a child number");
    no_panic(|| t.parse::<U31>())?.ok();
    Ok(())
}

fn ref_path(s: &str) -> Option<Vec<u32>> {
    let mut it = s.split('/');
    if it.next() != Some("m") {
        return None;
    }
    let v: Option<Vec<u32>> = it.map(ref_number).collect();
    v.filter(|v| v.len() <= 255)
}

fn path_text(g: &mut Gen) -> Res {
    let s = match g.below(6) {
        0 => {
            let parts = g.vec(0, 5, number_like);
            format!("{}{}", g.pick(&["m/", "m", "M/", "", "/", "m//", "x/"]), parts.join("/"))
        }
        1 => g.text(20),
        2 => {
            let n = *g.pick(&[254, 255, 256, 257, 300]);
            let mut s = String::from("m");
            for _ in 0..n {
                s += "/";
                s += &num(child(g)).to_string();
            }
            s
        }
        _ => {
            let v = g.vec(0, 8, child);
            let mut s = path(&v).to_string();
            if g.chance(1, 3) {
                let i = g.usize(s.len() + 1);
                s.insert(i, *g.pick(&['/', '\'', 'h', '0', 'm', ' ']));
            }
            s
        }
    };
    let got = no_panic(|| s.parse::<DerivationPath>())?;
    let want = ref_path(&s);
    check_eq!(got.as_ref().ok().map(|p| p.as_slice().iter().map(|n| n.into_encoded_index()).collect::<Vec<_>>()), want, "{s:?} as a path");
    if let Ok(p) = got {
        check_eq!(p.to_string(), s.replace('h', "'"), "text of the parsed path");
        check_eq!(p.to_string().parse::<DerivationPath>().ok(), Some(p.clone()), "round trip");
        g.tag("accepted");
    }
    g.nontrivial_if(s.bytes().any(|b| b.is_ascii_digit()));
    Ok(())
}

fn paths(g: &mut Gen) -> Res {
    let v = g.vec(0, 8, child);
    let w = match g.below(4) {
        0 => v[..g.usize(v.len() + 1)].to_vec(),
        1 => {
            let mut w = v.clone();
            if !w.is_empty() {
                let i = g.usize(w.len());
                w[i] ^= 1 << g.below(32);
            }
            w
        }
        _ => g.vec(0, 4, child),
    };
    let (p, q) = (path(&v), path(&w));
    g.nontrivial_if(!v.is_empty());
    check_eq!(p.len(), v.len(), "length");
    check_eq!((p.is_empty(), p.is_root()), (v.is_empty(), v.is_empty()), "root");
    check_eq!(p.as_slice().iter().map(|n| n.into_encoded_index()).collect::<Vec<_>>(), v, "slice");
    check_eq!((&p).into_iter().map(|n| n.into_encoded_index()).collect::<Vec<_>>(), v, "iteration");
    check_eq!(p.clone().into_vec().len(), v.len(), "into_vec");
    check_eq!(p == q, v == w, "equality");
    check_eq!(p.cmp(&q), v.cmp(&w), "order");
    let want = (v.len() > w.len() && v[..w.len()] == w[..]).then(|| v[w.len()..].to_vec());
    check_eq!(p.get_super_path_diff(&q).map(|s| s.iter().map(|n| n.into_encoded_index()).collect::<Vec<_>>()), want, "difference of {v:?} and {w:?}");
    let enc = p.encode();
    let mut bytes = vec![v.len() as u8];
    bytes.extend(v.iter().flat_map(|i| i.to_be_bytes()));
    check_eq!(enc, bytes, "encoding");
    check_eq!(DerivationPath::decode_all(&mut &enc[..]).ok(), Some(p.clone()), "round trip");
    if !v.is_empty() {
        let c = g.usize(enc.len());
        check!(DerivationPath::decode_all(&mut &enc[..c]).is_err(), "truncated");
    }
    let junk = g.bytes(0, 30);
    let mut inp = &junk[..];
    let ok = !junk.is_empty() && junk.len() > 4 * junk[0] as usize;
    check_eq!(no_panic(|| DerivationPath::decode(&mut inp))?.is_ok(), ok, "decoding {junk:02x?}");
    check_eq!(DerivationPath::empty(), path(&[]), "empty");
    if g.chance(1, 50) {
        let n = g.urange(250, 270);
        let l: Vec<ChildNumber> = (0..n).map(|_| num(child(g))).collect();
        let r = DerivationPath::try_from(l.clone());
        check_eq!(r.is_ok(), n <= 255, "path of {n} steps");
        if let Ok(r) = r {
            check_eq!(DerivationPath::decode_all(&mut &r.encode()[..]).ok(), Some(r), "long round trip");
        }
    }
    Ok(())
}
