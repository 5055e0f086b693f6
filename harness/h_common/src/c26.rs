//! Signatures that authorise spending.

use crate::c24::blake;
use common::{
    address::pubkeyhash::PublicKeyHash,
    chain::{
        classic_multisig::{ClassicMultisigChallenge, ClassicMultisigChallengeError},
        config::create_regtest,
        htlc::HtlcSecret,
        signature::{
            inputsig::{
                arbitrary_message::{
                    produce_message_challenge, ArbitraryMessageSignature, ArbitraryMessageSignatureRef, SignArbitraryMessageError,
                },
                authorize_hashed_timelock_contract_spend::AuthorizedHashedTimelockContractSpend,
                classical_multisig::{
                    authorize_classical_multisig::{
                        sign_classical_multisig_spending, AuthorizedClassicalMultisigSpend, ClassicalMultisigCompletionStatus,
                        ClassicalMultisigSigningError as SignErr,
                    },
                    encode_decode_multisig_spend::{decode_multisig_spend, encode_multisig_spend},
                    multisig_partial_signature::{
                        PartiallySignedMultisigChallenge, PartiallySignedMultisigState, PartiallySignedMultisigStructureError as Structure,
                        SigsVerifyResult,
                    },
                },
                htlc::*,
                standard_signature::StandardInputSignature,
                InputWitness,
            },
            sighash::{
                input_commitments::{
                    make_sighash_input_commitments_for_kernel_input_utxos, make_sighash_input_commitments_for_kernel_inputs,
                    make_sighash_input_commitments_for_transaction_inputs, make_sighash_input_commitments_for_transaction_inputs_at_height,
                    OrderInfo, PoolInfo, SighashInputCommitment as Commit, SighashInputCommitmentCreationError as CommitErr, TrivialUtxoProvider,
                },
                sighashtype::{InputsMode, OutputsMode, SigHashType},
                signature_hash,
            },
            verify_signature, DestinationSigError as E, EvaluatedInputWitness, Signable, Transactable,
        },
        AccountCommand, ChainConfig, Destination, OrderAccountCommand, OrderId, PoolId, SighashInputCommitmentVersion, SignedTransaction,
        Transaction, TxInput, TxOutput,
    },
    primitives::{BlockHeight, H256},
};
use crypto::key::{PredefinedSigAuxDataProvider as Zeros, PrivateKey, PublicKey, Signature};
use gens::{enc::*, make, make::pool};
use pbt::*;
use serialization::{Decode, DecodeAll, Encode};
use std::{borrow::Cow, collections::BTreeMap, num::NonZeroU8, sync::OnceLock};
use test_utils::random::{Seed, TestRng};

pub const P: Property = Property {
    id: "C26",
    rule: "a case is non-trivial when something was signed and then altered, or a hash was made over at least two inputs or outputs",
    facets: &[
        facet("hashes", 60000, hashes),
        facet("covered_parts", 30000, covered_parts),
        facet("one_key", 10000, one_key),
        facet("multisig_signing", 3000, multisig_signing),
        facet("multisig_verdicts", 6000, multisig_verdicts),
        facet("contracts", 4000, contracts),
        facet("messages", 6000, messages),
        facet("commitments", 30000, commitments),
        facet("challenges", 20000, challenges),
        facet("witness_bytes", 40000, witness_bytes),
        enumerated("hash_types", 256, hash_types),
    ],
    assumptions: &["the meaning of a single Schnorr signature is judged by C08; here its owner and its message decide"],
};

type Res = Result<(), String>;

fn config() -> &'static ChainConfig {
    static C: OnceLock<ChainConfig> = OnceLock::new();
    C.get_or_init(create_regtest)
}

const MODES: [u8; 6] = [1, 2, 3, 0x81, 0x82, 0x83];

fn mode(g: &mut Gen) -> u8 {
    *g.pick(&MODES)
}

fn kind(m: u8) -> SigHashType {
    SigHashType::try_from(m).expect("a valid type")
}

/// Something to sign with any of its parts missing.
#[derive(Clone, Debug)]
struct Thing {
    inputs: Option<Vec<TxInput>>,
    outputs: Option<Vec<TxOutput>>,
    version: Option<u8>,
    flags: Option<u128>,
}

impl Signable for Thing {
    fn inputs(&self) -> Option<&[TxInput]> {
        self.inputs.as_deref()
    }
    fn outputs(&self) -> Option<&[TxOutput]> {
        self.outputs.as_deref()
    }
    fn version_byte(&self) -> Option<u8> {
        self.version
    }
    fn flags(&self) -> Option<u128> {
        self.flags
    }
}

impl Thing {
    fn of(t: &Transaction) -> Self {
        Thing { inputs: Some(t.inputs().to_vec()), outputs: Some(t.outputs().to_vec()), version: Some(1), flags: Some(t.flags()) }
    }
}

/// What is hashed, from the format alone.
fn reference(m: u8, t: &Thing, c: &[Commit<'static>], i: usize) -> Result<H256, E> {
    let inputs = t.inputs.as_ref().ok_or(E::SigHashRequestWithoutInputs)?;
    if i >= inputs.len() {
        return Err(E::InvalidInputIndex(i, inputs.len()));
    }
    if inputs.len() != c.len() {
        return Err(E::InvalidInputCommitmentsCountVsInputs(c.len(), inputs.len()));
    }
    let mut b = vec![m];
    b.extend(t.version);
    if let Some(f) = t.flags {
        b.extend(f.to_le_bytes());
    }
    if m & 0x80 == 0 {
        b.extend((inputs.len() as u32).to_le_bytes());
        inputs.iter().for_each(|x| b.extend(enc(x)));
        b.extend((c.len() as u32).to_le_bytes());
        c.iter().for_each(|x| b.extend(enc(x)));
    } else {
        b.extend(enc(&inputs[i]));
        b.extend(enc(&c[i]));
    }
    let empty = vec![];
    let outs = t.outputs.as_ref().unwrap_or(&empty);
    match m & 0x7f {
        1 => {
            let mut w = W::default();
            w.list(outs);
            b.extend(w.0);
        }
        3 => b.extend(enc(outs.get(i).ok_or(E::InvalidInputIndex(i, outs.len()))?)),
        _ => (),
    }
    Ok(blake(&b))
}

fn thing(g: &mut Gen) -> Thing {
    Thing {
        inputs: (!g.chance(1, 12)).then(|| g.vec(0, 5, make::input)),
        outputs: (!g.chance(1, 6)).then(|| g.vec(0, 5, make::output)),
        version: g.chance(2, 3).then(|| g.u8()),
        flags: g.chance(2, 3).then(|| g.u128()),
    }
}

fn hashes(g: &mut Gen) -> Res {
    let t = thing(g);
    let n = t.inputs.as_ref().map_or(0, |i| i.len());
    let nc = if g.chance(1, 10) { g.usize(n + 3) } else { n };
    let c: Vec<_> = (0..nc).map(|_| make::commitment(g)).collect();
    let m = mode(g);
    let i = if g.chance(1, 10) { n + g.usize(3) } else { g.usize(n.max(1)) };
    note!(g, "mode {m:#x}, input {i}, {} commitments, {t:?} {c:?}", c.len());
    g.nontrivial_if(n > 1 || t.outputs.as_ref().map_or(0, |o| o.len()) > 1);
    let want = reference(m, &t, &c, i);
    g.tag(if want.is_ok() { "hashed" } else { "refused" });
    check_eq!(signature_hash(kind(m), &t, &c, i), want, "hash to sign");
    // a real transaction is the same thing with version 1
    if let (Some(i2), Some(o2), Some(f)) = (&t.inputs, &t.outputs, t.flags) {
        let tx = Transaction::new(f, i2.clone(), o2.clone()).map_err(|e| format!("{e}"))?;
        let t = Thing::of(&tx);
        let want = reference(m, &t, &c, i);
        check_eq!(signature_hash(kind(m), &tx, &c, i), want, "hash of a transaction");
        let sigs = i2.iter().map(|_| make::witness(g)).collect::<Vec<_>>();
        let st = SignedTransaction::new(tx, sigs.clone()).map_err(|e| format!("{e:?}"))?;
        check_eq!(signature_hash(kind(m), &st, &c, i), want, "hash of a signed transaction");
        check_eq!(Transactable::signatures(&st), sigs.iter().cloned().map(Some).collect::<Vec<_>>(), "signatures of a signed transaction");
    }
    Ok(())
}

/// Sign one input, edit one part, and the verdict depends on whether the part is covered.
fn covered_parts(g: &mut Gen) -> Res {
    let n = g.urange(1, 4);
    let m = mode(g);
    let single = m & 0x7f == 3;
    let t0 = Transaction::new(
        g.u128(),
        (0..n).map(|_| make::input(g)).collect(),
        (0..if single { g.urange(n, 4) } else { g.usize(5) }).map(|_| make::output(g)).collect(),
    )
    .map_err(|e| format!("{e}"))?;
    let mut t = Thing::of(&t0);
    let c: Vec<_> = (0..n).map(|_| make::commitment(g)).collect();
    let i = g.usize(n);
    let k = g.usize(24);
    let (sk, pk) = &pool().keys[k];
    let by_hash = g.bool();
    let d = if by_hash { Destination::PublicKeyHash(pk.into()) } else { Destination::PublicKey(pk.clone()) };
    let s = StandardInputSignature::produce_uniparty_signature_for_input(sk, kind(m), d.clone(), &t, &c, i, &mut Zeros)
        .map_err(|e| format!("owner cannot sign: {e}"))?;
    check_eq!(s.sighash_type().get(), m, "type of the signature");
    let ok = |t: &Thing, c: &[Commit<'static>], i, s: &StandardInputSignature, d: &Destination| {
        verify_signature(config(), d, t, &EvaluatedInputWitness::Standard(s.clone()), c, i)
    };
    check_eq!(ok(&t, &c, i, &s, &d), Ok(()), "signature just made");
    g.nontrivial();
    let before = (t.clone(), c.clone(), i);
    let (mut c2, mut i2) = (c.clone(), i);
    let (ins, outs) = (t.inputs.as_mut().unwrap(), t.outputs.as_mut().unwrap());
    let other = (i + 1 + g.usize(n)) % n; // maybe i itself
    let anyone = m & 0x80 != 0;
    // what is edited, and whether the signature covers it
    let (what, covered) = match g.below(16) {
        0 => {
            t.flags = Some(t0.flags() ^ 1 << g.below(128));
            ("flags", true)
        }
        1 => {
            ins[i] = make::input(g);
            ("this input", true)
        }
        2 => {
            c2[i] = make::commitment(g);
            ("this input's commitment", true)
        }
        3 if n > 1 => {
            ins[other] = make::input(g);
            ("another input", !anyone || other == i)
        }
        4 if n > 1 => {
            c2[other] = make::commitment(g);
            ("another commitment", !anyone || other == i)
        }
        5 => {
            ins.push(make::input(g));
            c2.push(make::commitment(g));
            ("a new last input", !anyone)
        }
        6 if n > 1 && i < n - 1 => {
            ins.pop();
            c2.pop();
            ("the last input gone", !anyone)
        }
        7 if !single => {
            ins.insert(0, make::input(g));
            c2.insert(0, make::commitment(g));
            i2 += 1;
            ("a new first input", !anyone)
        }
        8 => {
            outs.push(make::output(g));
            ("a new output", m & 0x7f == 1)
        }
        9 if !outs.is_empty() => {
            let at = g.usize(outs.len());
            outs[at] = make::output(g);
            ("an output", m & 0x7f == 1 || single && at == i)
        }
        10 if !single && !outs.is_empty() => {
            outs.pop();
            ("the last output gone", m & 0x7f == 1)
        }
        11 if outs.len() > 1 => {
            let (a, b) = (g.usize(outs.len()), g.usize(outs.len()));
            outs.swap(a, b);
            ("outputs swapped", m & 0x7f == 1 || single && (a == i || b == i))
        }
        12 if n > 1 => {
            let (a, b) = (g.usize(n), g.usize(n));
            ins.swap(a, b);
            c2.swap(a, b);
            ("inputs swapped", !anyone || a == i || b == i)
        }
        13 if n > 1 => {
            i2 = other;
            let same = t0.inputs()[i] == t0.inputs()[i2] && c[i] == c[i2] && (!single || t0.outputs()[i] == t0.outputs()[i2]);
            // for a signature over every input, nothing names the one it is for
            ("moved", anyone && !same || single && t0.outputs()[i] != t0.outputs()[i2])
        }
        14 => {
            t.version = Some(2);
            ("the version", true)
        }
        _ => ("nothing", false),
    };
    g.tag(what);
    let inp = |t: &Thing, c: &[Commit<'static>], i: usize| reference(m, t, c, i).ok();
    let same = inp(&t, &c2, i2) == inp(&before.0, &before.1, before.2);
    note!(g, "mode {m:#x} input {i}, edit: {what}, covered: {covered}, same hash: {same}");
    let v = ok(&t, &c2, i2, &s, &d);
    if !covered {
        check_eq!(v, Ok(()), "an edit of a part that is not covered ({what}, type {m:#x}) broke the signature");
    } else if !same {
        check_eq!(v, Err(E::SignatureVerificationFailed), "an edit of a covered part ({what}, type {m:#x})");
    } else {
        check_eq!(v, Ok(()), "nothing really changed ({what}, type {m:#x})");
    }
    // the signature is bound to its type
    let m2 = mode(g);
    let s2 = StandardInputSignature::new(kind(m2), s.raw_signature().to_vec());
    let v = ok(&before.0, &before.1, before.2, &s2, &d);
    match reference(m2, &before.0, &before.1, before.2) {
        Err(e) => check_eq!(v, Err(e), "another type"),
        Ok(_) => check_eq!(v.is_ok(), m == m2, "signature of type {m:#x} presented as {m2:#x}"),
    }
    Ok(())
}

fn rng(g: &mut Gen) -> TestRng {
    TestRng::new(Seed::from_u64(g.seed()))
}

/// An edit of bytes that surely changes them.
fn mangle(g: &mut Gen, b: &mut Vec<u8>) -> &'static str {
    match g.below(4) {
        0 => {
            b.push(g.u8());
            "one more byte"
        }
        1 if !b.is_empty() => {
            b.truncate(g.usize(b.len()));
            "cut"
        }
        _ if !b.is_empty() => {
            let i = g.usize(b.len());
            b[i] ^= 1 << g.below(8);
            "flipped bit"
        }
        _ => {
            b.push(0);
            "one more byte"
        }
    }
}

fn one_key(g: &mut Gen) -> Res {
    let t = Transaction::new(g.u128(), vec![make::input(g), make::input(g)], vec![make::output(g), make::output(g)]).map_err(|e| format!("{e}"))?;
    let c = vec![make::commitment(g), make::commitment(g)];
    let m = mode(g);
    let i = g.usize(2);
    let (a, b) = (g.usize(24), if g.chance(2, 3) { None } else { Some(g.usize(24)) });
    let b = b.unwrap_or(a);
    let owner = &pool().keys[a];
    let signer = &pool().keys[b];
    let d = match g.weighted(&[3, 3, 1, 1, 1]) {
        0 => Destination::PublicKey(owner.1.clone()),
        1 => Destination::PublicKeyHash((&owner.1).into()),
        2 => Destination::AnyoneCanSpend,
        3 => Destination::ScriptHash(make::id(g)),
        _ => Destination::ClassicMultisig((&owner.1).into()),
    };
    // the hash of a key is of its encoding
    check_eq!(PublicKeyHash::from(&owner.1).as_ref(), &blake(&owner.1.encode()).0[..20], "hash of a key");
    let mut r = rng(g);
    let zeros = g.bool();
    note!(g, "owner key {a}, signer {b}, {d:?}, input {i}, type {m:#x}");
    let made = if zeros {
        StandardInputSignature::produce_uniparty_signature_for_input(&signer.0, kind(m), d.clone(), &t, &c, i, &mut Zeros)
    } else {
        StandardInputSignature::produce_uniparty_signature_for_input(&signer.0, kind(m), d.clone(), &t, &c, i, &mut r)
    };
    let hash = signature_hash(kind(m), &t, &c, i).map_err(|e| format!("{e}"))?;
    let verify = |w: EvaluatedInputWitness, d: &Destination| verify_signature(config(), d, &t, &w, &c, i);
    // without a signature
    let nothing = EvaluatedInputWitness::NoSignature(g.bool().then(|| g.bytes(0, 5)));
    check_eq!(
        verify(nothing.clone(), &d),
        if d == Destination::AnyoneCanSpend { Ok(()) } else { Err(E::SignatureNotFound) },
        "no signature for {d:?}"
    );
    for at in [2, 3, usize::MAX] {
        check_eq!(verify_signature(config(), &d, &t, &nothing, &c, at), Err(E::InvalidSignatureIndex(at, 2)), "an input that does not exist");
    }
    let want_err = match &d {
        Destination::AnyoneCanSpend => Some(E::AttemptedToProduceSignatureForAnyoneCanSpend),
        Destination::ScriptHash(_) => Some(E::Unsupported),
        Destination::ClassicMultisig(_) => Some(E::AttemptedToProduceClassicalMultisigSignatureInUnipartySignatureCode),
        Destination::PublicKey(_) if a != b => Some(E::SpendeePrivatePublicKeyMismatch),
        Destination::PublicKeyHash(_) if a != b => Some(E::PublicKeyToHashMismatch),
        _ => None,
    };
    g.tag(if want_err.is_some() { "not signed" } else { "signed" });
    if let Some(e) = want_err {
        check_eq!(made, Err(e), "signing");
        // a signature by the wrong key made by hand
        let sig = signer.0.sign_message(&hash.encode(), &mut r).map_err(|e| format!("{e}"))?;
        let mut raw = sig.encode();
        let with_key = g.bool();
        if with_key {
            raw = [signer.1.encode(), raw].concat();
        }
        g.nontrivial();
        let s = StandardInputSignature::new(kind(m), raw);
        let v = verify(EvaluatedInputWitness::Standard(s.clone()), &d);
        match (&d, with_key) {
            (Destination::AnyoneCanSpend, _) => {
                check_eq!(v, Err(E::SignatureNotNeeded), "signature for anyone");
                check_eq!(s.verify_signature(config(), &d, &hash), Err(E::AttemptedToVerifyStandardSignatureForAnyoneCanSpend), "direct");
            }
            (Destination::ScriptHash(_), _) => check_eq!(v, Err(E::Unsupported), "signature for a script"),
            (Destination::ClassicMultisig(_), _) => check_eq!(v, Err(E::InvalidSignatureEncoding), "signature for a multisig"),
            (Destination::PublicKey(_), true) => check_eq!(v, Err(E::InvalidSignatureEncoding), "key and signature for a key"),
            (Destination::PublicKey(_), false) => check_eq!(v, Err(E::SignatureVerificationFailed), "another's signature"),
            (Destination::PublicKeyHash(_), true) => check_eq!(v, Err(E::PublicKeyToHashMismatch), "another's key and signature"),
            (Destination::PublicKeyHash(_), false) => check!(matches!(v, Err(E::AddressAuthDecodingFailed(_))), "no key: {v:?}"),
        }
        // the owner's key with another's signature
        if let Destination::PublicKeyHash(_) = d {
            let s = StandardInputSignature::new(kind(m), [owner.1.encode(), sig.encode()].concat());
            check_eq!(verify(EvaluatedInputWitness::Standard(s), &d), Err(E::SignatureVerificationFailed), "owner's key, another's signature");
        }
        return Ok(());
    }
    let s = made.map_err(|e| format!("owner cannot sign: {e}"))?;
    g.nontrivial();
    check_eq!(s.sighash_type().get(), m, "type");
    let w = EvaluatedInputWitness::Standard(s.clone());
    check_eq!(verify(w.clone(), &d), Ok(()), "own signature");
    check_eq!(s.verify_signature(config(), &d, &hash), Ok(()), "own signature directly");
    // the raw form
    let with_key = matches!(d, Destination::PublicKeyHash(_));
    let pre = if with_key { owner.1.encode() } else { vec![] };
    check!(s.raw_signature().starts_with(&pre), "key first");
    let sig = Signature::decode_all(&mut &s.raw_signature()[pre.len()..]).map_err(|_| "not a signature")?;
    check!(owner.1.verify_message(&sig, &hash.encode()), "the signature is not over the hash");
    check_eq!(s.clone().into_raw_signature(), s.raw_signature(), "raw form");
    // another destination
    let x = g.usize(24);
    let d2 = match g.below(3) {
        0 => Destination::PublicKey(pool().keys[x].1.clone()),
        1 => Destination::PublicKeyHash((&pool().keys[x].1).into()),
        _ => Destination::PublicKeyHash(PublicKeyHash(g.array())),
    };
    check_eq!(verify(w, &d2).is_ok(), d2 == d, "a signature for {d:?} at {d2:?}");
    // altered bytes
    let mut raw = s.raw_signature().to_vec();
    let how = mangle(g, &mut raw);
    let v = no_panic(|| verify(EvaluatedInputWitness::Standard(StandardInputSignature::new(kind(m), raw)), &d))?;
    check!(v.is_err(), "{how}: still accepted");
    Ok(())
}

struct Multi {
    min: u8,
    keys: Vec<usize>,
    challenge: ClassicMultisigChallenge,
}

/// Made of bytes, so that it need not be valid.
fn challenge_of(min: u8, keys: &[PublicKey]) -> ClassicMultisigChallenge {
    ClassicMultisigChallenge::decode_all(&mut &(min, keys.to_vec()).encode()[..]).expect("any numbers")
}

fn validity(min: u8, n: usize) -> Result<(), ClassicMultisigChallengeError> {
    use ClassicMultisigChallengeError::*;
    let max = config().max_classic_multisig_public_keys_count();
    Err(match () {
        _ if n == 0 => EmptyPublicKeys,
        _ if n > max => TooManyPublicKeys(n, max),
        _ if min == 0 => MinRequiredSignaturesIsZero,
        _ if min as usize > n => MoreRequiredSignaturesThanPublicKeys(min, n),
        _ => return Ok(()),
    })
}

fn multi(g: &mut Gen) -> Multi {
    let bad = g.chance(1, 10);
    let n = if bad { g.usize(3) } else { g.urange(1, 5) };
    let min = if bad { g.usize(5) } else { g.urange(1, n) } as u8;
    let distinct = g.chance(3, 4);
    let start = g.usize(24);
    let keys: Vec<_> = (0..n).map(|i| if distinct { (start + i * 5) % 24 } else { g.usize(3) }).collect();
    let pks: Vec<_> = keys.iter().map(|k| pool().keys[*k].1.clone()).collect();
    Multi { min, challenge: challenge_of(min, &pks), keys }
}

fn challenges(g: &mut Gen) -> Res {
    let max = config().max_classic_multisig_public_keys_count();
    check_eq!(max, 32, "largest number of keys");
    let n = if g.bool() { g.usize(4) } else { g.urange(max - 2, max + 2) };
    let min = if g.bool() { g.usize(4) } else { (n + g.usize(3)).saturating_sub(1) } as u8;
    let keys: Vec<_> = (0..n).map(|_| make::public_key(g)).collect();
    note!(g, "{min} of {n}");
    g.nontrivial_if(n > 1);
    let want = validity(min, n);
    g.tag(if want.is_ok() { "valid" } else { "invalid" });
    let c = challenge_of(min, &keys);
    check_eq!(c.is_valid(config()), want, "validity");
    check_eq!((c.min_required_signatures(), c.public_keys()), (min, &keys[..]), "parts");
    check_eq!(c.encode(), (min, keys.clone()).encode(), "encoding");
    if let Some(m) = NonZeroU8::new(min) {
        check_eq!(ClassicMultisigChallenge::new(config(), m, keys.clone()), want.map(|_| c.clone()), "constructor");
        check_eq!(c.min_required_signatures_as_non_zero(), m, "number required");
    }
    if n > 0 {
        check_eq!(c.public_keys_count_as_non_zero().get(), n, "number of keys");
    }
    check_eq!(PublicKeyHash::from(&c).as_ref(), &blake(&c.encode()).0[..20], "hash of a challenge");
    Ok(())
}

fn structure(m: &Multi, sigs: &BTreeMap<u8, bool>) -> Result<(), Structure> {
    validity(m.min, m.keys.len()).map_err(Structure::InvalidChallenge)?;
    if sigs.keys().any(|i| *i as usize >= m.keys.len()) {
        return Err(Structure::InvalidSignatureIndex);
    }
    if sigs.len() > m.min as usize {
        return Err(Structure::Overconstrained(sigs.len(), m.min as usize));
    }
    Ok(())
}

#[derive(Clone, Copy, PartialEq, Debug)]
enum Verdict {
    Complete,
    Incomplete,
    Invalid,
}

fn verdict(m: &Multi, sigs: &BTreeMap<u8, bool>) -> Result<Verdict, Structure> {
    structure(m, sigs)?;
    Ok(match () {
        _ if sigs.values().any(|v| !v) => Verdict::Invalid,
        _ if sigs.len() < m.min as usize => Verdict::Incomplete,
        _ => Verdict::Complete,
    })
}

/// Any set of signatures, right and wrong.
fn multisig_verdicts(g: &mut Gen) -> Res {
    let m = multi(g);
    let hash = make::hash(g);
    let mut sigs = BTreeMap::new();
    let mut model = BTreeMap::new();
    // mostly as many as needed
    let count = match g.below(4) {
        0 => g.usize(m.keys.len() + 2),
        _ => m.min as usize,
    };
    let mut places: Vec<usize> = (0..m.keys.len().max(1)).collect();
    g.shuffle(&mut places);
    for p in places.into_iter().take(count) {
        let p = if g.chance(1, 30) { m.keys.len() + g.usize(3) } else { p };
        let own = m.keys.get(p).copied().unwrap_or(0);
        let wrong = g.chance(1, 10);
        let k = if wrong { g.usize(24) } else { own };
        let other_message = g.chance(1, 30);
        let msg = if other_message { make::hash(g) } else { hash };
        let s = pool().keys[k].0.sign_message(&msg.encode(), &mut Zeros).map_err(|e| format!("{e}"))?;
        sigs.insert(p as u8, s);
        model.insert(p as u8, k == own && msg == hash);
    }
    note!(g, "{} of {:?}, signatures {model:?}", m.min, m.keys);
    g.nontrivial_if(!sigs.is_empty());
    let v = verdict(&m, &model);
    g.tag(match &v {
        Ok(Verdict::Complete) => "complete",
        Ok(Verdict::Incomplete) => "incomplete",
        Ok(Verdict::Invalid) => "invalid",
        Err(_) => "malformed",
    });
    let a = AuthorizedClassicalMultisigSpend::new(sigs.clone(), m.challenge.clone());
    check_eq!(a.encode(), (sigs.iter().map(|(i, s)| (*i, s.clone())).collect::<Vec<_>>(), &m.challenge).encode(), "encoding of the spend");
    check_eq!(AuthorizedClassicalMultisigSpend::from_data(&a.encode()).as_ref(), Ok(&a), "decoding of the spend");
    check_eq!((a.available_signatures_count(), a.is_empty()), (sigs.len(), sigs.is_empty()), "number of signatures");
    check_eq!(a.public_key_indices().collect::<Vec<_>>(), model.keys().copied().collect::<Vec<_>>(), "places signed");
    check_eq!(a.iter().map(|(i, s)| (i, s.clone())).collect::<BTreeMap<_, _>>(), sigs, "signatures listed");
    check_eq!(a.signatures(), &sigs, "signatures");
    check_eq!(a.clone().take(), sigs, "signatures taken");
    check_eq!(a.challenge(), &m.challenge, "challenge");
    let mut grown = AuthorizedClassicalMultisigSpend::new_empty(m.challenge.clone());
    check!(grown.is_empty(), "new and not empty");
    sigs.iter().rev().for_each(|(i, s)| grown.add_signature(*i, s.clone()));
    check_eq!(grown, a, "built one by one");
    let msg = hash.encode();
    match PartiallySignedMultisigChallenge::from_partial(config(), &msg, &a) {
        Err(e) => check_eq!(Err(e), v, "structure"),
        Ok(p) => {
            let v = v.clone().map_err(|e| format!("accepted in spite of {e}"))?;
            check_eq!(p.missing_signatures_count(), m.min as i32 - sigs.len() as i32, "missing signatures");
            check_eq!((p.challenge(), p.signatures()), (&m.challenge, &a), "parts");
            match p.check_structurally_valid(config()) {
                Ok(PartiallySignedMultisigState::Complete(n)) => check_eq!((n, sigs.len()), (m.min as usize, n), "complete state"),
                Ok(PartiallySignedMultisigState::Incomplete(n, of)) => {
                    check_eq!((n, of), (sigs.len(), m.min as usize), "incomplete state");
                    check!(n < of, "incomplete and enough");
                }
                Err(e) => return Err(format!("structure {e}")),
            }
            let got = match p.verify_signatures(config()).map_err(|e| format!("{e}"))? {
                SigsVerifyResult::CompleteAndValid => Verdict::Complete,
                SigsVerifyResult::Incomplete => Verdict::Incomplete,
                SigsVerifyResult::Invalid => Verdict::Invalid,
            };
            check_eq!(got, v, "verdict");
        }
    }
    // as a destination
    let right = g.chance(4, 5);
    let addr = if right { PublicKeyHash::from(&m.challenge) } else { PublicKeyHash(g.array()) };
    let d = Destination::ClassicMultisig(addr);
    let want = match v {
        _ if !right => Err(E::ClassicalMultisigWitnessHashMismatch),
        Err(e) => Err(E::InvalidClassicalMultisig(e)),
        Ok(Verdict::Complete) => Ok(()),
        Ok(Verdict::Incomplete) => Err(E::IncompleteClassicalMultisigSignature(m.min, sigs.len() as u8)),
        Ok(Verdict::Invalid) => Err(E::InvalidClassicalMultisigSignature),
    };
    let s = StandardInputSignature::new(kind(mode(g)), a.encode());
    check_eq!(s.verify_signature(config(), &d, &hash), want, "as a destination");
    check_eq!(ArbitraryMessageSignature::from_data(a.encode()).verify_signature(config(), &d, &hash), want, "for a message");
    for d in [Destination::PublicKey(pool().keys[0].1.clone()), Destination::PublicKeyHash(addr)] {
        check!(s.verify_signature(config(), &d, &hash).is_err(), "multisig accepted for {d:?}");
    }
    if want.is_ok() {
        check!(s.verify_signature(config(), &d, &blake(&msg)).is_err(), "another hash");
        let mut raw = a.encode();
        let how = mangle(g, &mut raw);
        let v = no_panic(|| StandardInputSignature::new(kind(1), raw).verify_signature(config(), &d, &hash))?;
        check!(v.is_err(), "{how}: still accepted");
    }
    Ok(())
}

/// Signing step by step, with refusals.
fn multisig_signing(g: &mut Gen) -> Res {
    let m = multi(g);
    let t = Transaction::new(g.u128(), vec![make::input(g)], vec![make::output(g)]).map_err(|e| format!("{e}"))?;
    let c = vec![make::commitment(g)];
    let ty = mode(g);
    let hash = signature_hash(kind(ty), &t, &c, 0).map_err(|e| format!("{e}"))?;
    let mut a = AuthorizedClassicalMultisigSpend::new_empty(m.challenge.clone());
    let mut model: BTreeMap<u8, bool> = BTreeMap::new();
    note!(g, "{} of {:?}", m.min, m.keys);
    let mut r = rng(g);
    for _ in 0..g.urange(1, 9) {
        // a stray signature from outside
        if g.chance(1, 20) {
            let p = g.usize(m.keys.len() + 1) as u8;
            a.add_signature(p, pool().signatures[0].clone());
            model.insert(p, false);
        }
        let p = if g.chance(1, 12) { g.usize(8) } else { g.usize(m.keys.len().max(1)) } as u8;
        let own = m.keys.get(p as usize).copied();
        let k = if g.chance(1, 8) { g.usize(24) } else { own.unwrap_or(0) };
        let want = match () {
            _ if validity(m.min, m.keys.len()).is_err() => Err(SignErr::AttemptedToSignClassicalMultisigWithInvalidChallenge(
                validity(m.min, m.keys.len()).unwrap_err(),
            )),
            _ if model.contains_key(&p) => Err(SignErr::ClassicalMultisigIndexAlreadyExists(p)),
            _ => match verdict(&m, &model) {
                Err(e) => Err(SignErr::InvalidClassicalMultisig(e)),
                Ok(Verdict::Complete) => Err(SignErr::AttemptedToSignAlreadyCompleteClassicalMultisig),
                Ok(Verdict::Invalid) => Err(SignErr::AttemptedToSignClassicalMultisigWithPreExistingInvalidSignature),
                Ok(Verdict::Incomplete) => match own {
                    None => Err(SignErr::InvalidClassicalMultisigKeyIndex(p, m.keys.len())),
                    Some(o) if o != k => Err(SignErr::SpendeePrivateChallengePublicKeyMismatch),
                    Some(_) => Ok(model.len() + 1 == m.min as usize),
                },
            },
        };
        let got = sign_classical_multisig_spending(config(), p, &pool().keys[k].0, &m.challenge, &hash, a.clone(), &mut r);
        match (&want, got) {
            (Ok(done), Ok(s)) => {
                g.tag(if *done { "finished" } else { "one more" });
                check_eq!(s.is_complete(), *done, "completion");
                check_eq!(matches!(s, ClassicalMultisigCompletionStatus::Complete(_)), *done, "kind of status");
                let b = s.take();
                model.insert(p, true);
                check_eq!(b.public_key_indices().collect::<Vec<_>>(), model.keys().copied().collect::<Vec<_>>(), "places signed");
                check!(a.iter().all(|(i, s)| b.signatures().get(&i) == Some(s)), "earlier signatures changed");
                a = b;
                g.nontrivial();
            }
            (w, got) => {
                g.tag("refused");
                check_eq!(got.map(|_| true), w.clone(), "signing place {p} with key {k}, having {model:?}");
            }
        }
    }
    // into an input signature
    let want = match verdict(&m, &model) {
        Err(e) => Err(E::InvalidClassicalMultisig(e)),
        Ok(Verdict::Complete) => Ok(StandardInputSignature::new(kind(ty), a.encode())),
        Ok(Verdict::Incomplete) => Err(E::IncompleteClassicalMultisigAuthorization),
        Ok(Verdict::Invalid) => Err(E::InvalidClassicalMultisigAuthorization),
    };
    let got = StandardInputSignature::produce_classical_multisig_signature_for_input(config(), &a, kind(ty), &t, &c, 0);
    check_eq!(got, want, "input signature");
    let refund = produce_classical_multisig_signature_for_htlc_refunding(config(), &a, kind(ty), &t, &c, 0);
    check_eq!(
        refund,
        want.clone().map(|s| StandardInputSignature::new(kind(ty), AuthorizedHashedTimelockContractSpend::Refund(s.into_raw_signature()).encode())),
        "refund of a contract"
    );
    check_eq!(
        StandardInputSignature::produce_classical_multisig_signature_for_input(config(), &a, kind(ty), &t, &c, 1),
        Err(E::InvalidInputIndex(1, 1)),
        "input that does not exist"
    );
    if let Ok(s) = want {
        let d = Destination::ClassicMultisig((&m.challenge).into());
        check_eq!(verify_signature(config(), &d, &t, &EvaluatedInputWitness::Standard(s), &c, 0), Ok(()), "finished multisig");
    }
    Ok(())
}

fn contracts(g: &mut Gen) -> Res {
    // the spend forms
    let secret = HtlcSecret::new(g.array());
    let raw = g.bytes(0, 80);
    let spend = AuthorizedHashedTimelockContractSpend::Spend(secret.clone(), raw.clone());
    let refund = AuthorizedHashedTimelockContractSpend::Refund(raw.clone());
    check_eq!(spend.encode(), [vec![0], secret.secret().to_vec(), raw.encode()].concat(), "spend bytes");
    check_eq!(refund.encode(), [vec![1], raw.encode()].concat(), "refund bytes");
    for x in [&spend, &refund] {
        let mut b = x.encode();
        check_eq!(AuthorizedHashedTimelockContractSpend::from_data(&b).as_ref(), Ok(x), "decoding");
        b.push(0);
        check_eq!(AuthorizedHashedTimelockContractSpend::from_data(&b), Err(E::InvalidSignatureEncoding), "trailing byte");
    }
    // signing for them
    let t = Transaction::new(g.u128(), vec![make::input(g)], vec![make::output(g)]).map_err(|e| format!("{e}"))?;
    let c = vec![make::commitment(g)];
    let ty = mode(g);
    let i = usize::from(g.chance(1, 10));
    let k = &pool().keys[g.usize(24)];
    let d = match g.weighted(&[3, 3, 1]) {
        0 => Destination::PublicKey(k.1.clone()),
        1 => Destination::PublicKeyHash((&k.1).into()),
        _ => make::destination(g),
    };
    note!(g, "{d:?} type {ty:#x}");
    let plain = StandardInputSignature::produce_uniparty_signature_for_input(&k.0, kind(ty), d.clone(), &t, &c, i, &mut Zeros);
    g.nontrivial_if(plain.is_ok());
    g.tag(if plain.is_ok() { "signed" } else { "refused" });
    check_eq!(
        produce_uniparty_signature_for_htlc_spending(&k.0, kind(ty), d.clone(), &t, &c, i, secret.clone(), &mut Zeros),
        plain.clone().map(|s| {
            StandardInputSignature::new(kind(ty), AuthorizedHashedTimelockContractSpend::Spend(secret.clone(), s.into_raw_signature()).encode())
        }),
        "signature to spend with the secret"
    );
    check_eq!(
        produce_uniparty_signature_for_htlc_refunding(&k.0, kind(ty), d.clone(), &t, &c, i, &mut Zeros),
        plain.clone().map(|s| StandardInputSignature::new(kind(ty), AuthorizedHashedTimelockContractSpend::Refund(s.into_raw_signature()).encode())),
        "signature for a refund"
    );
    // the secret and its hash
    check_eq!(secret.hash().as_ref(), &refs::hashes::ripemd160(&refs::hashes::sha256(secret.secret()))[..], "hash of the secret");
    check_eq!(secret.clone().consume(), *secret.secret(), "the secret itself");
    // multisig through an output
    let m = multi(g);
    let n = g.usize(m.keys.len() + 1);
    let a = AuthorizedClassicalMultisigSpend::new(
        (0..n as u8).map(|i| (i, g.pick(&pool().signatures).clone())).collect(),
        m.challenge.clone(),
    );
    let kinds = g.below(14);
    let out = (kinds < 13).then(|| make::output_of(g, kinds % 12));
    let is_contract = matches!(out, Some(TxOutput::Htlc(..)));
    let s = encode_multisig_spend(&a, out.as_ref());
    check_eq!(s.sighash_type().get(), 1, "type of a partial signature");
    let want = if is_contract { AuthorizedHashedTimelockContractSpend::Refund(a.encode()).encode() } else { a.encode() };
    check_eq!(s.raw_signature(), &want[..], "partial signature for {out:?}");
    check_eq!(decode_multisig_spend(&s, out.as_ref()).as_ref(), Ok(&a), "partial signature read back");
    if is_contract {
        g.tag("contract");
        let s = StandardInputSignature::new(kind(1), AuthorizedHashedTimelockContractSpend::Spend(secret, a.encode()).encode());
        check_eq!(decode_multisig_spend(&s, out.as_ref()), Err(E::InvalidClassicalMultisigAuthorization), "spend instead of refund");
        let s = StandardInputSignature::new(kind(1), AuthorizedHashedTimelockContractSpend::Refund(vec![9]).encode());
        check_eq!(decode_multisig_spend(&s, out.as_ref()), Err(E::InvalidSignatureEncoding), "refund of rubbish");
    }
    let junk = g.bytes(0, 30);
    let s = StandardInputSignature::new(kind(1), junk);
    let _ = no_panic(|| decode_multisig_spend(&s, out.as_ref()).map(|_| ()))?;
    Ok(())
}

fn messages(g: &mut Gen) -> Res {
    let msg = g.bytes(0, 60);
    let ch = produce_message_challenge(&msg);
    let bytes = [&b"===MINTLAYER MESSAGE BEGIN===\n"[..], &msg, b"\n===MINTLAYER MESSAGE END==="].concat();
    check_eq!(ch, blake(&bytes), "challenge of a message");
    let (a, b) = (g.usize(24), g.usize(24));
    let b = if g.bool() { a } else { b };
    let (owner, signer) = (&pool().keys[a], &pool().keys[b]);
    let d = match g.weighted(&[3, 3, 1]) {
        0 => Destination::PublicKey(owner.1.clone()),
        1 => Destination::PublicKeyHash((&owner.1).into()),
        _ => make::destination(g),
    };
    let mut r = rng(g);
    let got = ArbitraryMessageSignature::produce_uniparty_signature(&signer.0, &d, &msg, &mut r);
    note!(g, "owner {a}, signer {b}, {d:?}, message {msg:?}");
    use SignArbitraryMessageError as S;
    let want = match &d {
        Destination::AnyoneCanSpend => Some(S::AttemptedToProduceSignatureForAnyoneCanSpend),
        Destination::ScriptHash(_) => Some(S::Unsupported),
        Destination::ClassicMultisig(_) => Some(S::AttemptedToProduceClassicalMultisigSignatureInUnipartySignatureCode),
        Destination::PublicKey(k) => (*k != signer.1).then_some(S::DestinationSigError(E::SpendeePrivatePublicKeyMismatch)),
        Destination::PublicKeyHash(h) => {
            (*h != PublicKeyHash::from(&signer.1)).then_some(S::DestinationSigError(E::PublicKeyToHashMismatch))
        }
    };
    g.tag(if want.is_some() { "refused" } else { "signed" });
    // as the hash of whatever key it is
    let own = Destination::PublicKeyHash((&signer.1).into());
    let u = ArbitraryMessageSignature::produce_uniparty_signature_as_pub_key_hash_spending(&signer.0, &msg, &mut r).map_err(|e| format!("{e}"))?;
    check_eq!(u.verify_signature(config(), &own, &ch), Ok(()), "signature for the hash of one's key");
    g.nontrivial();
    let s = match (got, want) {
        (Ok(s), None) => s,
        (got, want) => {
            check_eq!(got.err(), want, "signing a message");
            match &d {
                Destination::AnyoneCanSpend => check_eq!(
                    u.verify_signature(config(), &d, &ch),
                    Err(E::AttemptedToVerifyStandardSignatureForAnyoneCanSpend),
                    "message of anyone"
                ),
                Destination::ScriptHash(_) => check_eq!(u.verify_signature(config(), &d, &ch), Err(E::Unsupported), "message of a script"),
                _ => check!(u.verify_signature(config(), &d, &ch).is_err(), "another's message"),
            }
            return Ok(());
        }
    };
    check_eq!(s.verify_signature(config(), &d, &ch), Ok(()), "own message");
    let h = s.to_hex();
    check_eq!(hex::decode(&h).ok().as_deref(), Some(s.as_raw()), "hexadecimal form");
    check_eq!(s.as_ref().to_hex(), h, "hexadecimal form of the reference");
    check_eq!(s.as_ref().as_raw(), s.as_raw(), "bytes of the reference");
    check_eq!(ArbitraryMessageSignature::from_data(s.clone().into_raw()), s, "from bytes");
    let rf = ArbitraryMessageSignatureRef::from_data(s.as_raw());
    check_eq!(rf.verify_signature(config(), &d, &ch), Ok(()), "own message by reference");
    // another message, a plain hash, altered bytes, another destination
    let mut other = msg.clone();
    mangle(g, &mut other);
    for x in [produce_message_challenge(&other), blake(&msg)] {
        check_eq!(rf.verify_signature(config(), &d, &x), Err(E::SignatureVerificationFailed), "another message");
    }
    let mut raw = s.as_raw().to_vec();
    let how = mangle(g, &mut raw);
    check!(no_panic(|| ArbitraryMessageSignature::from_data(raw).verify_signature(config(), &d, &ch))?.is_err(), "{how}: still accepted");
    let d2 = match g.below(3) {
        0 => Destination::PublicKey(pool().keys[b].1.clone()),
        1 => Destination::PublicKeyHash((&pool().keys[(b + 1) % 24].1).into()),
        _ => make::destination(g),
    };
    check_eq!(s.verify_signature(config(), &d2, &ch).is_ok(), d2 == d, "signature for {d:?} at {d2:?}");
    Ok(())
}

fn commitments(g: &mut Gen) -> Res {
    let n = g.usize(6);
    let inputs: Vec<_> = (0..n).map(|_| make::input(g)).collect();
    let mut pools = BTreeMap::new();
    let mut orders = BTreeMap::new();
    let mut utxos: Vec<Option<TxOutput>> = vec![];
    let drop = |g: &mut Gen| g.chance(1, 25);
    for i in &inputs {
        let u = match i {
            TxInput::Utxo(_) => (!drop(g)).then(|| make::output(g)),
            _ => g.chance(1, 4).then(|| make::output(g)),
        };
        if let Some(TxOutput::ProduceBlockFromStake(_, p)) = &u {
            if !drop(g) {
                pools.insert(*p, PoolInfo { staker_balance: make::amount(g) });
            }
        }
        utxos.push(u);
        let o = match i {
            TxInput::AccountCommand(_, AccountCommand::ConcludeOrder(o) | AccountCommand::FillOrder(o, _, _))
            | TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(o) | OrderAccountCommand::FillOrder(o, _)) => Some(o),
            _ => None,
        };
        if let Some(o) = o {
            if !drop(g) {
                orders.insert(
                    *o,
                    OrderInfo {
                        initially_asked: make::output_value(g),
                        initially_given: make::output_value(g),
                        ask_balance: make::amount(g),
                        give_balance: make::amount(g),
                    },
                );
            }
        }
    }
    if g.chance(1, 20) {
        utxos.truncate(g.usize(n + 1));
    }
    let v1 = g.bool();
    let version = if v1 { SighashInputCommitmentVersion::V1 } else { SighashInputCommitmentVersion::V0 };
    type Err = CommitErr<std::convert::Infallible, std::convert::Infallible, std::convert::Infallible>;
    let one = |i: usize| -> Result<Commit<'static>, Err> {
        let order = |o: &OrderId| orders.get(o).cloned().ok_or(CommitErr::OrderNotFound(*o, i));
        let fill = |o: &OrderId| {
            order(o).map(|x| Commit::FillOrderAccountCommand { initially_asked: x.initially_asked, initially_given: x.initially_given })
        };
        let conclude = |o: &OrderId| {
            order(o).map(|x| Commit::ConcludeOrderAccountCommand {
                initially_asked: x.initially_asked,
                initially_given: x.initially_given,
                ask_balance: x.ask_balance,
                give_balance: x.give_balance,
            })
        };
        match &inputs[i] {
            TxInput::Utxo(p) => {
                let u = utxos.get(i).cloned().flatten().ok_or(CommitErr::UtxoNotFound(p.clone(), i))?;
                if let TxOutput::ProduceBlockFromStake(_, p) = &u {
                    let b = pools.get(p).ok_or(CommitErr::PoolNotFound(*p, i))?.staker_balance;
                    return Ok(Commit::ProduceBlockFromStakeUtxo { utxo: Cow::Owned(u), staker_balance: b });
                }
                Ok(Commit::Utxo(Cow::Owned(u)))
            }
            TxInput::AccountCommand(_, AccountCommand::ConcludeOrder(o)) => conclude(o),
            TxInput::AccountCommand(_, AccountCommand::FillOrder(o, _, _)) => fill(o),
            TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(o)) => conclude(o),
            TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(o, _)) => fill(o),
            _ => Ok(Commit::None),
        }
    };
    let old = |c: Commit<'static>| match c {
        Commit::ProduceBlockFromStakeUtxo { utxo, .. } => Commit::Utxo(utxo),
        Commit::Utxo(u) => Commit::Utxo(u),
        _ => Commit::None,
    };
    let want: Result<Vec<_>, Err> = (0..n).map(one).collect();
    let v1_want = want.clone();
    let want = want.map(|l| if v1 { l } else { l.into_iter().map(old).collect() });
    note!(g, "version {} inputs {inputs:?} outputs {utxos:?}", u8::from(v1));
    g.nontrivial_if(n > 1);
    g.tag(if want.is_ok() { "made" } else { "refused" });
    let provider = TrivialUtxoProvider(&utxos);
    let got = make_sighash_input_commitments_for_transaction_inputs(&inputs, &provider, &pools, &orders, version);
    check_eq!(got, want, "commitments");
    if let Ok(l) = &got {
        check_eq!(l.iter().map(|c| c.deep_clone()).collect::<Vec<_>>(), *l, "deep copies");
    }
    // at a height: regtest uses the newer version from a known height on
    let at = BlockHeight::new(g.u64());
    let got = make_sighash_input_commitments_for_transaction_inputs_at_height(&inputs, &provider, &pools, &orders, config(), at);
    let newer = config().chainstate_upgrades().version_at_height(at).1.sighash_input_commitment_version() == SighashInputCommitmentVersion::V1;
    check_eq!(got, v1_want.map(|l| if newer { l } else { l.into_iter().map(old).collect() }), "commitments at {at}");
    // those of a block reward
    let want: Result<Vec<_>, Err> = (0..n)
        .map(|i| match &inputs[i] {
            TxInput::Utxo(p) => utxos.get(i).cloned().flatten().map(|u| Commit::Utxo(Cow::Owned(u))).ok_or(CommitErr::UtxoNotFound(p.clone(), i)),
            x => Err(CommitErr::NonUtxoKernelInput(x.clone(), i)),
        })
        .collect();
    check_eq!(make_sighash_input_commitments_for_kernel_inputs(&inputs, &provider), want, "commitments of a kernel");
    let outs: Vec<_> = utxos.iter().flatten().cloned().collect();
    check_eq!(
        make_sighash_input_commitments_for_kernel_input_utxos(&outs),
        outs.iter().map(|o| Commit::Utxo(Cow::Borrowed(o))).collect::<Vec<_>>(),
        "commitments of outputs"
    );
    let _: Option<PoolId> = None;
    Ok(())
}

fn witness_bytes(g: &mut Gen) -> Res {
    let m = mode(g);
    let raw = g.bytes(0, 200);
    let s = StandardInputSignature::new(kind(m), raw.clone());
    let bytes = [vec![m], raw.encode()].concat();
    check_eq!(s.encode(), bytes, "bytes of a signature");
    check_eq!(s.encoded_size(), bytes.len(), "size");
    check!(s.size_hint() <= bytes.len() + 8, "hint {}", s.size_hint());
    let mut out = vec![];
    s.encode_to(&mut out);
    check_eq!(out, bytes, "bytes written");
    check_eq!(StandardInputSignature::from_data(&bytes), Ok(s.clone()), "read back");
    g.nontrivial_if(!raw.is_empty());
    let mut b = bytes.clone();
    match g.below(3) {
        0 => b[0] = g.u8(),
        1 => {
            mangle(g, &mut b);
        }
        _ => b = g.bytes(0, 40),
    }
    note!(g, "{b:?}");
    // only what decodes to a valid type and whole bytes
    let got = no_panic(|| StandardInputSignature::from_data(&b))?;
    match got {
        Ok(x) => {
            check_eq!(x.encode(), b, "other bytes of the same signature");
            check!(MODES.contains(&b[0]), "type {}", b[0]);
            g.tag("accepted");
        }
        Err(e) => {
            g.tag("refused");
            check_eq!(e, E::DecodingWitnessFailed, "error");
            let valid = b.first().is_some_and(|t| MODES.contains(t)) && Vec::<u8>::decode_all(&mut &b[1..]).is_ok();
            check!(!valid, "refused");
        }
    }
    // within a witness
    let w = InputWitness::Standard(s.clone());
    check_eq!(w.encode(), [vec![1], bytes.clone()].concat(), "bytes of a witness");
    check_eq!(InputWitness::decode(&mut &w.encode()[..]).ok(), Some(w), "witness read back");
    let e = EvaluatedInputWitness::Standard(s);
    check_eq!(e.encode(), [vec![1], bytes].concat(), "bytes of an evaluated witness");
    check_eq!(EvaluatedInputWitness::decode_all(&mut &e.encode()[..]).ok(), Some(e), "evaluated witness read back");
    let _: (Option<PrivateKey>, Option<PublicKey>) = (None, None);
    Ok(())
}

fn hash_types(g: &mut Gen) -> Res {
    let b = g.below(256) as u8;
    g.nontrivial();
    let got = SigHashType::try_from(b);
    if !MODES.contains(&b) {
        check_eq!(got, Err(E::InvalidSigHashValue(b)), "type {b}");
        return Ok(());
    }
    let t = got.map_err(|e| format!("type {b}: {e}"))?;
    check_eq!(t.get(), b, "byte");
    check_eq!(t.inputs_mode(), if b & 0x80 != 0 { InputsMode::AnyoneCanPay } else { InputsMode::CommitWhoPays }, "inputs of {b}");
    check_eq!(
        t.outputs_mode(),
        match b & 0x7f {
            1 => OutputsMode::All,
            2 => OutputsMode::None,
            _ => OutputsMode::Single,
        },
        "outputs of {b}"
    );
    check_eq!((SigHashType::all().get(), SigHashType::default().get()), (1, 1), "default");
    Ok(())
}
