//! Symmetric and end-to-end encryption, password hashing.
use crypto::ephemeral_e2e::{EndToEndPrivateKey, EndToEndPublicKey};
use crypto::kdf::argon2::Argon2Config;
use crypto::kdf::{hash_from_challenge, hash_password, verify_password, KdfChallenge, KdfConfig, KdfResult};
use crypto::symkey::{key_size, Error, SymmetricKey, SymmetricKeyKind};
use crypto::util::eq::SliceEqualityCheckMethod;
use pbt::{check, check_eq, facet, no_panic, note, Gen, Property, Res};
use serialization::{Decode, DecodeAll, Encode};
use std::num::NonZeroUsize;

pub const P: Property = Property {
    id: "C11",
    rule: "Random keys, messages of 0 to 600 bytes and associated data; ciphertexts, keys and data with changed bits, cut, extended and recombined; password hashing with small cost parameters, all parameters varied. Non-trivial: something was encrypted or hashed.",
    facets: &[
        facet("symmetric", 60_000, symmetric),
        facet("end_to_end", 8_000, end_to_end),
        facet("passwords", 6_000, passwords),
        facet("parameters", 20_000, parameters),
        facet("encodings", 60_000, encodings),
    ],
    assumptions: &["Absent and empty associated data are the same.", "Password hashing is exercised with memory costs of at most 64 KiB and at most 2^28 lanes (beyond, the hashing library itself multiplies with overflow in debug builds)."],
};
const KIND: SymmetricKeyKind = SymmetricKeyKind::XChacha20Poly1305;

fn skey(g: &mut Gen) -> Result<([u8; 32], SymmetricKey), String> {
    let b: [u8; 32] = g.array();
    Ok((b, SymmetricKey::from_raw_key(KIND, &b).map_err(|e| format!("{e}"))?))
}
fn aad(g: &mut Gen) -> Option<Vec<u8>> {
    g.chance(2, 3).then(|| g.bytes(0, 60))
}
fn change(g: &mut Gen, v: &[u8]) -> Vec<u8> {
    let mut v = v.to_vec();
    match g.below(8) {
        0 => v.push(g.byte()),
        1 => v.insert(0, g.byte()),
        2 if !v.is_empty() => {
            v.pop();
        }
        3 if !v.is_empty() => {
            v.remove(0);
        }
        4 if !v.is_empty() => v.truncate(g.usize(v.len())),
        5 if v.len() > 1 => {
            let (i, j) = (g.usize(v.len()), g.usize(v.len()));
            v.swap(i, j);
        }
        _ if !v.is_empty() => {
            let i = g.usize(v.len());
            v[i] ^= 1 << g.below(8);
        }
        _ => v.push(0),
    }
    v
}

fn symmetric(g: &mut Gen) -> Res {
    let (kb, k) = skey(g)?;
    let msg = g.bytes(0, 600);
    let ad = aad(g);
    let ad = ad.as_deref();
    let mut rng = crate::rng(g.seed());
    note!(g, "key {}, {} bytes, data {ad:02x?}", hex::encode(kb), msg.len());
    let c = k.encrypt(&msg, &mut rng, ad).map_err(|e| format!("encryption failed: {e}"))?;
    g.nontrivial();
    check!(k.decrypt(&c, ad).is_ok_and(|m| m == msg), "decryption");
    let again = SymmetricKey::from_raw_key(KIND, &kb).map_err(|e| format!("{e}"))?;
    check!(again == k, "key equality");
    check!(again.decrypt(&c, ad).is_ok_and(|m| m == msg), "decryption with the key made again");
    // a wallet reads its key back from bytes
    let stored = SymmetricKey::decode_all(&mut &k.encode()[..]).map_err(|e| format!("{e}"))?;
    check!(stored.decrypt(&c, ad).is_ok_and(|m| m == msg), "decryption with the decoded key");
    let c2 = k.encrypt(&msg, &mut rng, ad).map_err(|e| format!("{e}"))?;
    check!(c2 != c, "the same ciphertext twice");
    // nothing of two ciphertexts repeats
    let same = c.iter().zip(&c2).filter(|(a, b)| a == b).count();
    check!(c.len() < 40 || same < c.len() / 2, "ciphertexts of one message share {same} of {} bytes", c.len());
    if msg.len() >= 8 {
        check!(!c.windows(msg.len()).any(|w| w == msg), "message visible in the ciphertext");
    }
    match g.below(6) {
        0 | 1 => {
            let bad = change(g, &c);
            if bad != c {
                let r = no_panic(|| k.decrypt(&bad, ad))?;
                check!(r.is_err(), "altered ciphertext decrypted");
            }
        }
        2 => {
            let mut b = kb;
            b[g.usize(32)] ^= 1 << g.below(8);
            let other = SymmetricKey::from_raw_key(KIND, &b).map_err(|e| format!("{e}"))?;
            check!(other != k, "different keys are equal");
            check!(other.decrypt(&c, ad).is_err(), "decrypted with another key");
            let (ob, other) = skey(g)?;
            check!(ob == kb || other.decrypt(&c, ad).is_err(), "decrypted with another key");
        }
        3 => {
            let bad = if g.bool() { Some(change(g, ad.unwrap_or(b""))) } else { aad(g) };
            if bad.as_deref().unwrap_or(b"") != ad.unwrap_or(b"") {
                check!(k.decrypt(&c, bad.as_deref()).is_err(), "data {bad:02x?} instead of {ad:02x?}");
            }
            if ad.unwrap_or(b"").is_empty() {
                check!(k.decrypt(&c, None).is_ok() && k.decrypt(&c, Some(b"")).is_ok(), "no and empty data");
            }
        }
        4 => {
            // recombined ciphertexts
            let other = g.bytes(0, 600);
            let d = k.encrypt(&other, &mut rng, ad).map_err(|e| format!("{e}"))?;
            let n = *g.pick(&[24, 24, 16, 40]);
            let mix = [&c[..n], &d[n..]].concat();
            if mix != c && mix != d {
                check!(k.decrypt(&mix, ad).is_err(), "recombined ciphertext decrypted");
            }
            let n = c.len() - 16;
            let mix = [&c[..n], &d[d.len() - 16..]].concat();
            if mix != c && mix != d {
                check!(k.decrypt(&mix, ad).is_err(), "tag of another ciphertext accepted");
            }
        }
        _ => {
            let junk = g.bytes(0, 80);
            let r = no_panic(|| k.decrypt(&junk, ad))?;
            check!(r.is_err(), "junk decrypted");
            if junk.len() < 24 {
                check!(matches!(r, Err(Error::CipherTextTooShort(..))), "short ciphertext: {r:?}");
            }
        }
    }
    Ok(())
}

fn end_to_end(g: &mut Gen) -> Res {
    let s = g.seed();
    let a = EndToEndPrivateKey::new_from_rng(&mut crate::rng(s));
    let b = EndToEndPrivateKey::new_from_rng(&mut crate::rng(s.wrapping_add(1)));
    let c = EndToEndPrivateKey::new_from_rng(&mut crate::rng(s.wrapping_add(2)));
    let mut r = crate::rng(g.seed());
    let (pa, pb, pc) = (a.public_key(), b.public_key(), c.public_key());
    check!(EndToEndPublicKey::from_private_key(&a) == pa && pa != pb && pb != pc, "public keys");
    check_eq!(pa.encode(), pa.as_bytes().to_vec(), "encoding");
    let wire = |p: &EndToEndPublicKey| EndToEndPublicKey::decode_all(&mut &p.encode()[..]).map_err(|e| format!("{e}"));
    check!(wire(&pa)? == pa && wire(&pb)? == pb, "public key round trip");
    let ab = a.shared_secret(&wire(&pb)?);
    let ba = b.shared_secret(&wire(&pa)?);
    check!(ab == ba, "the two ends disagree");
    let ac = a.shared_secret(&pc);
    let bc = b.shared_secret(&pc);
    check!(ac != ab && bc != ab && ac != bc, "a third key gives the secret");
    g.nontrivial();
    let msg = g.bytes(0, 300);
    let e = ab.encrypt(&msg, &mut r).map_err(|e| format!("{e}"))?;
    check!(ba.decrypt(&e).is_ok_and(|m| m == msg), "decryption at the other end");
    check!(ab.decrypt(&e).is_ok_and(|m| m == msg), "decryption at the same end");
    check!(ac.decrypt(&e).is_err() && bc.decrypt(&e).is_err(), "third party decrypts");
    check!(ab.encrypt(&msg, &mut r).is_ok_and(|x| x != e), "the same ciphertext twice");
    let bad = change(g, &e);
    if bad != e {
        check!(no_panic(|| ba.decrypt(&bad))?.is_err(), "altered ciphertext decrypted");
    }
    let obj: (u64, Vec<u8>, Option<u32>) = (g.u64(), g.bytes(0, 40), g.bool().then(|| g.u32()));
    let e = ab.encode_then_encrypt(&obj, &mut r).map_err(|e| format!("{e}"))?;
    let got = ba.decrypt_then_decode::<(u64, Vec<u8>, Option<u32>)>(&e).map_err(|e| format!("{e}"))?;
    check_eq!(got, obj, "object");
    check!(ba.decrypt(&e).is_ok_and(|x| x == obj.encode()), "bytes of the object");
    check!(ac.decrypt_then_decode::<(u64, Vec<u8>, Option<u32>)>(&e).is_err(), "third party decodes");
    // a decrypted text that is not exactly one object is refused
    let mut extra = obj.encode();
    extra.push(g.byte());
    let e = ab.encrypt(&extra, &mut r).map_err(|e| format!("{e}"))?;
    check!(ba.decrypt_then_decode::<(u64, Vec<u8>, Option<u32>)>(&e).is_err(), "trailing bytes accepted");
    let e = ab.encrypt(&obj.encode()[..7], &mut r).map_err(|e| format!("{e}"))?;
    check!(ba.decrypt_then_decode::<(u64, Vec<u8>, Option<u32>)>(&e).is_err(), "truncated object accepted");
    check!(no_panic(|| a.shared_secret(&pa)).is_err(), "a secret shared with oneself");
    Ok(())
}

struct Pw {
    m: u32,
    t: u32,
    p: u32,
    hash: usize,
    salt: usize,
}
fn pw(g: &mut Gen) -> Pw {
    let p = g.range(1, 3) as u32;
    Pw { m: 8 * p + g.below(24) as u32, t: g.range(1, 3) as u32, p, hash: g.urange(4, 70), salt: g.urange(8, 40) }
}
fn config(c: &Pw) -> KdfConfig {
    KdfConfig::Argon2id {
        config: Argon2Config::new(c.m, c.t, c.p),
        hash_length: NonZeroUsize::new(c.hash).unwrap(),
        salt_length: NonZeroUsize::new(c.salt).unwrap(),
    }
}

fn passwords(g: &mut Gen) -> Res {
    let c = pw(g);
    let password = g.bytes(0, 60);
    let mut rng = crate::rng(g.seed());
    let r = hash_password(&mut rng, config(&c), &password).map_err(|e| format!("{e}"))?;
    g.nontrivial();
    let KdfResult::Argon2id { config: used, salt, hashed_password } = r.clone();
    check_eq!((used.m_cost_memory_size, used.t_cost_iterations, used.p_cost_parallelism), (c.m, c.t, c.p), "stored parameters");
    check_eq!((salt.len(), hashed_password.len()), (c.salt, c.hash), "lengths");
    // the algorithm itself
    let params = argon2::Params::new(c.m, c.t, c.p, Some(c.hash)).map_err(|e| format!("{e}"))?;
    let mut want = vec![0; c.hash];
    argon2::Argon2::new(argon2::Algorithm::Argon2id, argon2::Version::V0x13, params)
        .hash_password_into(&password, &salt, &mut want)
        .map_err(|e| format!("{e}"))?;
    check_eq!(hashed_password, want, "Argon2id of the password");
    // stored and read back
    let stored = KdfResult::decode_all(&mut &r.encode()[..]).map_err(|e| format!("{e}"))?;
    check!(stored == r, "result round trip");
    let ch = r.clone().into_challenge();
    let ch = KdfChallenge::decode_all(&mut &ch.encode()[..]).map_err(|e| format!("{e}")).and_then(|x| {
        check!(x == ch, "challenge round trip");
        Ok(x)
    })?;
    check!(!ch.encode().windows(hashed_password.len()).any(|w| w == hashed_password), "challenge contains the key");
    check!(hash_from_challenge(ch.clone(), &password).is_ok_and(|x| x == r), "recovered key");
    for m in [SliceEqualityCheckMethod::Normal, SliceEqualityCheckMethod::TimingResistant] {
        check!(verify_password(&password, &stored, m).is_ok_and(|x| x), "right password refused");
    }
    let wrong = change(g, &password);
    if wrong != password {
        for m in [SliceEqualityCheckMethod::Normal, SliceEqualityCheckMethod::TimingResistant] {
            check!(verify_password(&wrong, &stored, m).is_ok_and(|x| !x), "password {wrong:02x?} accepted for {password:02x?}");
        }
        let KdfResult::Argon2id { hashed_password: h, .. } = hash_from_challenge(ch.clone(), &wrong).map_err(|e| format!("{e}"))?;
        check!(h != hashed_password, "another password gives the key");
    }
    // every stored parameter matters
    let mut other = stored;
    let KdfResult::Argon2id { config, salt: os, hashed_password: oh } = &mut other;
    let what = g.below(6);
    match what {
        0 => config.m_cost_memory_size += config.p_cost_parallelism * 4,
        1 => config.t_cost_iterations += 1,
        2 => {
            config.p_cost_parallelism += 1;
            config.m_cost_memory_size = config.m_cost_memory_size.max(8 * config.p_cost_parallelism);
        }
        3 => {
            let i = g.usize(os.len());
            os[i] ^= 1 << g.below(8);
        }
        4 => os.push(0),
        _ => {
            let i = g.usize(oh.len());
            oh[i] ^= 1 << g.below(8);
        }
    }
    for m in [SliceEqualityCheckMethod::Normal, SliceEqualityCheckMethod::TimingResistant] {
        check!(verify_password(&password, &other, m).is_ok_and(|x| !x), "parameters changed (choice {what}), password still accepted");
    }
    // hashing again takes another salt
    let again = hash_password(&mut rng, self::config(&c), &password).map_err(|e| format!("{e}"))?;
    let KdfResult::Argon2id { salt: s2, hashed_password: h2, .. } = again;
    check!(s2 != salt && h2 != hashed_password, "the salt repeats");
    Ok(())
}

fn parameters(g: &mut Gen) -> Res {
    // out-of-range parameters fail without a crash
    let c = Pw {
        m: *g.pick(&[0, 1, 7, 8, 15, 16, 24, 32]),
        t: g.below(3) as u32,
        p: *g.pick(&[0, 1, 2, 3, 4, 0x00ff_ffff, 0x0100_0000, 0x1000_0000]),
        hash: g.urange(1, 12),
        salt: g.urange(1, 12),
    };
    let password = g.bytes(0, 10);
    let ok = c.p >= 1 && c.p <= 0x00ff_ffff && c.m >= 8 && u64::from(c.m) >= 8 * u64::from(c.p) && c.t >= 1 && c.hash >= 4 && c.salt >= 8;
    let r = no_panic(|| hash_password(&mut crate::rng(1), config(&c), &password))?;
    check_eq!(r.is_ok(), ok, "m {} t {} p {} hash {} salt {}", c.m, c.t, c.p, c.hash, c.salt);
    g.nontrivial_if(ok);
    let ch = KdfChallenge::Argon2id {
        config: Argon2Config::new(c.m, c.t, c.p),
        salt: vec![5; c.salt],
        password_hash_len: if g.chance(1, 4) { 0 } else { c.hash as u32 },
    };
    let zero = matches!(ch, KdfChallenge::Argon2id { password_hash_len: 0, .. });
    check_eq!(no_panic(|| hash_from_challenge(ch, &password))?.is_ok(), ok && !zero, "challenge");
    let res = KdfResult::Argon2id { config: Argon2Config::new(c.m, c.t, c.p), salt: vec![5; c.salt], hashed_password: vec![1; if zero { 0 } else { c.hash }] };
    let v = no_panic(|| verify_password(&password, &res, SliceEqualityCheckMethod::Normal))?;
    check_eq!(v.is_ok(), ok && !zero, "verification");
    check!(!v.unwrap_or(false), "a made-up hash is accepted");
    Ok(())
}

fn encodings(g: &mut Gen) -> Res {
    let (kb, k) = skey(g)?;
    check_eq!(key_size(KIND), 32, "key size");
    let e = k.encode();
    check_eq!((e[0], &e[1..]), (0, &kb[..]), "key encoding");
    check_eq!(k.encoded_size(), 33, "size");
    check!(SymmetricKey::decode_all(&mut &e[..]).is_ok_and(|x| x == k), "key round trip");
    let c = g.usize(e.len());
    check!(SymmetricKey::decode_all(&mut &e[..c]).is_err(), "truncated");
    let mut l = e.clone();
    l.push(g.byte());
    check!(SymmetricKey::decode_all(&mut &l[..]).is_err(), "extended");
    l[0] = g.range(1, 255) as u8;
    check!(SymmetricKey::decode(&mut &l[..]).is_err(), "unknown kind");
    let n = g.len(0, 70);
    let b = g.bytes_exact(n);
    match no_panic(|| SymmetricKey::from_raw_key(KIND, &b))? {
        Ok(x) => {
            check_eq!(n, 32, "key length");
            check_eq!(&x.encode()[1..], &b[..], "raw key");
        }
        Err(x) => {
            check!(n != 32, "32-byte key refused");
            check_eq!(x, Error::WrongLenKeyBytes(n, 32), "error");
        }
    }
    let s = g.seed();
    let (x, y) = (SymmetricKey::new(KIND, &mut crate::rng(s)), SymmetricKey::new(KIND, &mut crate::rng(s)));
    check!(x == y && x != SymmetricKey::new(KIND, &mut crate::rng(s ^ 1)), "generated keys");
    check_eq!(SymmetricKeyKind::decode_all(&mut &KIND.encode()[..]).ok(), Some(KIND), "kind");
    g.nontrivial();
    // stored parameters
    let res = KdfResult::Argon2id { config: Argon2Config::new(g.u32(), g.u32(), g.u32()), salt: g.bytes(0, 40), hashed_password: g.bytes(0, 70) };
    let e = res.encode();
    check_eq!(e[0], 0, "kind");
    check!(KdfResult::decode_all(&mut &e[..]).is_ok_and(|x| x == res), "result round trip");
    let c = g.usize(e.len());
    check!(KdfResult::decode_all(&mut &e[..c]).is_err(), "truncated result");
    let ch = res.clone().into_challenge();
    let (KdfResult::Argon2id { config, salt, hashed_password }, KdfChallenge::Argon2id { config: c2, salt: s2, password_hash_len }) = (&res, &ch);
    check!(config == c2 && salt == s2 && *password_hash_len as usize == hashed_password.len(), "challenge of a result");
    let e = ch.encode();
    check!(KdfChallenge::decode_all(&mut &e[..]).is_ok_and(|x| x == ch), "challenge round trip");
    let c = g.usize(e.len());
    check!(KdfChallenge::decode_all(&mut &e[..c]).is_err(), "truncated challenge");
    let junk = g.bytes(0, 60);
    no_panic(|| KdfChallenge::decode_all(&mut &junk[..]))?.ok();
    no_panic(|| KdfResult::decode_all(&mut &junk[..]))?.ok();
    check_eq!(no_panic(|| EndToEndPublicKey::decode_all(&mut &junk[..]))?.is_ok(), junk.len() == 32, "exchange key");
    Ok(())
}
