//! The encoding of chain objects.

use common::{
    chain::{
        block::{signed_block_header::SignedBlockHeader, BlockHeader, BlockReward, ConsensusData},
        htlc::HashedTimelockContract,
        output_value::OutputValue,
        signature::{inputsig::InputWitness, sighash::input_commitments::SighashInputCommitment},
        stakelock::StakePoolData,
        timelock::OutputTimeLock,
        tokens::{Metadata, NftIssuance, TokenIssuance, TokenTotalSupply},
        AccountCommand, AccountOutPoint, AccountSpending, AccountType, Block, Destination, Genesis, OrderAccountCommand, OrderData,
        SignedTransaction, Transaction, TxInput, TxOutput, UtxoOutPoint,
    },
    primitives::{per_thousand::PerThousand, Amount, Compact, H256},
};
use gens::{enc::*, make};
use pbt::*;
use serialization::{Decode, DecodeAll, Encode};
use std::fmt::Debug;

pub const P: Property = Property {
    id: "C23",
    rule: "a case is non-trivial when the object has at least two fields of variable length that are not empty, or the damaged bytes got decoded, or failed after the first four bytes",
    facets: &[
        facet("small", 300000, small),
        facet("outputs", 300000, outputs),
        facet("inputs", 200000, inputs),
        facet("transactions", 100000, transactions),
        facet("blocks", 40000, blocks),
        facet("damaged", 1000000, damaged),
        facet("hashed_only", 20000, hashed_only),
        enumerated("tags", 256, tags),
    ],
    assumptions: &["the SCALE codec crate is a stand-in, written to its published format, since the original is not in the offline cargo cache"],
};

type Res = Result<(), String>;

/// An object against its bytes: written alike, sized alike, read back, and read only from all of them.
fn object<T: Encode + Decode + PartialEq + Debug>(g: &mut Gen, what: &'static str, v: &T, want: Vec<u8>) -> Res {
    let got = v.encode();
    check_eq!(got, want, "{what}: encoding of {v:?}");
    check_eq!(v.encoded_size(), want.len(), "{what}: encoded size of {v:?}");
    let mut buf = vec![7];
    v.encode_to(&mut buf);
    check!(buf[1..] == want[..], "{what}: encoding into a buffer");
    check_eq!(v.using_encoded(|b| b.to_vec()), want, "{what}: encoding borrowed");
    check_eq!(T::decode_all(&mut &want[..]).as_ref(), Ok(v), "{what}: decoding of {want:02x?}");

    // Followed by something else, it is read up to its end.
    let tail = g.bytes(1, 4);
    let long = [&want[..], &tail[..]].concat();
    let mut rest = &long[..];
    check_eq!(T::decode(&mut rest).as_ref(), Ok(v), "{what}: decoding of {want:02x?} and more");
    check_eq!(rest, &tail[..], "{what}: what is left after decoding");
    check!(T::decode_all(&mut &long[..]).is_err(), "{what}: decoded all of {want:02x?} and more");

    if !want.is_empty() {
        let n = g.usize(want.len());
        check!(T::decode(&mut &want[..n]).is_err(), "{what}: the first {n} bytes of {want:02x?} decode");
    }
    g.tag(what);
    g.nontrivial_if(want.len() > 40);
    note!(g, "{what} {want:02x?}");
    Ok(())
}

/// An object that is part of others is written into them byte by byte.
fn same<T: Encode + Decode + PartialEq + Debug + Enc>(g: &mut Gen, what: &'static str, v: &T) -> Res {
    let w = enc(v);
    object(g, what, v, w)
}

fn small(g: &mut Gen) -> Res {
    match g.below(13) {
        0 => {
            let v = make::destination(g);
            same(g, "destination", &v)
        }
        1 => {
            let v = make::output_value(g);
            same(g, "value", &v)
        }
        2 => {
            let v = make::timelock(g);
            same(g, "time lock", &v)
        }
        3 => {
            let v = make::total_supply(g);
            same(g, "total supply", &v)
        }
        4 => {
            let v = make::token_issuance(g);
            same(g, "token issuance", &v)
        }
        5 => {
            let v = make::pool_data(g);
            same(g, "pool data", &v)
        }
        6 => {
            let v = make::htlc(g);
            same(g, "htlc", &v)
        }
        7 => {
            let v = make::metadata(g);
            same(g, "metadata", &v)
        }
        8 => {
            let v = NftIssuance::V0(common::chain::tokens::NftIssuanceV0 { metadata: make::metadata(g) });
            same(g, "nft issuance", &v)
        }
        9 => {
            let v = OrderData::new(make::destination(g), make::output_value(g), make::output_value(g));
            same(g, "order data", &v)
        }
        10 => {
            let v = make::hash(g);
            same(g, "hash", &v)
        }
        11 => {
            let v = PerThousand::new(g.range(0, 1000) as u16).expect("in range");
            same(g, "per thousand", &v)
        }
        _ => {
            let v = make::compact(g);
            same(g, "compact", &v)
        }
    }
}

fn outputs(g: &mut Gen) -> Res {
    let v = make::output(g);
    same(g, "output", &v)
}

fn inputs(g: &mut Gen) -> Res {
    match g.below(8) {
        0 => {
            let v = make::outpoint(g);
            same(g, "outpoint", &v)
        }
        1 => {
            let v = make::account_command(g);
            same(g, "account command", &v)
        }
        2 => {
            let v = make::order_command(g);
            same(g, "order command", &v)
        }
        3 => {
            let v = make::spending(g);
            same(g, "account spending", &v)
        }
        4 => {
            let v = make::account_type(g);
            same(g, "account type", &v)
        }
        5 => {
            let v = make::witness(g);
            same(g, "witness", &v)
        }
        6 => {
            let v = AccountOutPoint::new(make::nonce(g), make::spending(g));
            same(g, "account outpoint", &v)
        }
        _ => {
            let v = make::input(g);
            same(g, "input", &v)
        }
    }
}

fn transactions(g: &mut Gen) -> Res {
    if g.bool() {
        let v = make::transaction(g);
        check_eq!(v.version_byte(), enc(&v)[0], "version byte");
        check_eq!(v.is_replaceable(), v.flags() & 1 == 1, "replaceable with flags {}", v.flags());
        return same(g, "transaction", &v);
    }
    let v = make::signed_transaction(g);
    check_eq!(v.version_byte(), enc(&v)[0], "version byte");
    // A number of witnesses other than of inputs.
    let (tx, mut w) = (v.transaction().clone(), v.signatures().to_vec());
    if w.is_empty() || g.bool() {
        w.push(make::witness(g));
    } else {
        w.pop();
    }
    let mut bytes = enc(&tx);
    let mut l = W::default();
    l.list(&w);
    bytes.extend(l.0);
    check!(SignedTransaction::new(tx.clone(), w.clone()).is_err(), "{} witnesses for {} inputs", w.len(), tx.inputs().len());
    check!(tx.clone().with_signatures(w.clone()).is_err(), "{} witnesses for {} inputs", w.len(), tx.inputs().len());
    check!(SignedTransaction::decode_all(&mut &bytes[..]).is_err(), "decoded {} witnesses for {} inputs", w.len(), tx.inputs().len());
    same(g, "signed transaction", &v)
}

fn blocks(g: &mut Gen) -> Res {
    match g.below(6) {
        0 => {
            let (v, roots) = make::header(g);
            object(g, "header", &v, header_bytes(&v, roots))
        }
        1 => {
            let (v, roots) = make::signed_header(g);
            check_eq!(v.header_size(), header_bytes(v.header(), roots).len() + signature_len(&v), "header size");
            object(g, "signed header", &v, signed_header_bytes(&v, roots))
        }
        2 => {
            let v = make::consensus(g);
            same(g, "consensus", &v)
        }
        3 => {
            let v = make::reward(g);
            same(g, "reward", &v)
        }
        _ => {
            let v = make::block(g);
            let size = v.block_size();
            let header = signed_header_bytes(v.header(), (v.merkle_root(), v.witness_merkle_root())).len();
            let mut txs = 0;
            for t in v.transactions() {
                txs += enc(t).len();
            }
            check_eq!(size.size_from_header(), header, "size of the header");
            check_eq!(size.size_from_txs(), txs, "size of the transactions");
            check_eq!(size.size_from_smart_contracts(), 0, "size of the smart contracts");
            same(g, "block", &v)
        }
    }
}

fn signature_len(h: &SignedBlockHeader) -> usize {
    use common::chain::block::signed_block_header::BlockHeaderSignature as S;
    match h.signature_data() {
        S::None => 1,
        S::HeaderSignature(_) => 66,
    }
}

/// Things that are written to be hashed.
fn hashed_only(g: &mut Gen) -> Res {
    if g.bool() {
        let v: Genesis = make::genesis(g);
        return same(g, "genesis", &v);
    }
    let v: SighashInputCommitment = make::commitment(g);
    check_eq!(v.encode(), enc(&v), "commitment {v:?}");
    g.nontrivial_if(v != SighashInputCommitment::None);
    Ok(())
}

/// Any bytes are refused or are the one encoding of what they decode to.
fn canonical<T: Encode + Decode + PartialEq + Debug>(g: &mut Gen, what: &'static str, bytes: &[u8]) -> Res {
    let mut rest = bytes;
    let read = no_panic(|| T::decode(&mut rest)).map_err(|e| format!("{what}: decoding of {bytes:02x?} {e}"))?;
    let used = bytes.len() - rest.len();
    match read {
        Ok(v) => {
            check_eq!(v.encode(), bytes[..used].to_vec(), "{what}: {:02x?} decoded to {v:?}", &bytes[..used]);
            check_eq!(v.encoded_size(), used, "{what}: size of {v:?}");
            g.tag("decoded");
            g.nontrivial();
            note!(g, "{what} {:02x?}", &bytes[..used]);
        }
        Err(_) => {
            g.tag("refused");
            g.nontrivial_if(used > 4);
        }
    }
    Ok(())
}

fn damage(g: &mut Gen, mut b: Vec<u8>) -> Vec<u8> {
    for _ in 0..g.range(1, 3) {
        if b.is_empty() {
            b.push(g.byte());
            continue;
        }
        let i = if g.bool() { g.usize(b.len().min(12)) } else { g.usize(b.len()) };
        match g.below(8) {
            0 => b[i] ^= 1 << g.below(8),
            1 => b[i] = g.byte(),
            2 => b[i] = g.below(14) as u8,
            3 => {
                b.insert(i, g.byte());
            }
            4 => {
                b.remove(i);
            }
            5 => b.truncate(i),
            // The same number, longer.
            6 => {
                let x = b[i];
                match x & 3 {
                    0 => {
                        let v = ((x >> 2) as u16) << 2 | 1;
                        b.splice(i..i + 1, v.to_le_bytes());
                    }
                    1 if i + 1 < b.len() => {
                        let v = u16::from_le_bytes([x, b[i + 1]]) >> 2;
                        b.splice(i..i + 2, ((v as u32) << 2 | 2).to_le_bytes());
                    }
                    2 if i + 3 < b.len() => {
                        let v = u32::from_le_bytes([x, b[i + 1], b[i + 2], b[i + 3]]) >> 2;
                        b.splice(i..i + 4, [&[3][..], &v.to_le_bytes()[..]].concat());
                    }
                    _ => {
                        let n = (x >> 2) as usize + 4;
                        if i + n < b.len() {
                            b[i] = x.wrapping_add(4);
                            b.insert(i + n + 1, 0);
                        }
                    }
                }
            }
            _ => {
                let e = (i + g.usize(9)).min(b.len());
                let part = b[i..e].to_vec();
                let at = g.usize(b.len() + 1);
                b.splice(at..at, part);
            }
        }
    }
    b
}

fn damaged(g: &mut Gen) -> Res {
    macro_rules! go {
        ($t:ty, $name:expr, $v:expr) => {{
            let b = if g.chance(1, 6) { g.bytes(0, 40) } else { let v = $v; damage(g, v) };
            canonical::<$t>(g, $name, &b)
        }};
    }
    match g.below(24) {
        0 => go!(Destination, "destination", enc(&make::destination(g))),
        1 => go!(OutputValue, "value", enc(&make::output_value(g))),
        2 => go!(OutputTimeLock, "time lock", enc(&make::timelock(g))),
        3 => go!(TokenTotalSupply, "total supply", enc(&make::total_supply(g))),
        4 => go!(TokenIssuance, "token issuance", enc(&make::token_issuance(g))),
        5 => go!(StakePoolData, "pool data", enc(&make::pool_data(g))),
        6 => go!(HashedTimelockContract, "htlc", enc(&make::htlc(g))),
        7 => go!(Metadata, "metadata", enc(&make::metadata(g))),
        8 => go!(UtxoOutPoint, "outpoint", enc(&make::outpoint(g))),
        9 => go!(AccountCommand, "account command", enc(&make::account_command(g))),
        10 => go!(OrderAccountCommand, "order command", enc(&make::order_command(g))),
        11 => go!(AccountSpending, "account spending", enc(&make::spending(g))),
        12 => go!(AccountType, "account type", enc(&make::account_type(g))),
        13 => go!(InputWitness, "witness", enc(&make::witness(g))),
        14 => go!(TxInput, "input", enc(&make::input(g))),
        15 | 16 => go!(TxOutput, "output", enc(&make::output(g))),
        17 => go!(Transaction, "transaction", enc(&make::transaction(g))),
        18 => go!(SignedTransaction, "signed transaction", enc(&make::signed_transaction(g))),
        19 => go!(ConsensusData, "consensus", enc(&make::consensus(g))),
        20 => go!(BlockHeader, "header", { let (h, r) = make::header(g); header_bytes(&h, r) }),
        21 => go!(SignedBlockHeader, "signed header", { let (h, r) = make::signed_header(g); signed_header_bytes(&h, r) }),
        22 => go!(BlockReward, "reward", enc(&make::reward(g))),
        _ => go!(Block, "block", enc(&make::block(g))),
    }
}

/// The first byte of each kind of object, over all bytes.
fn tags(g: &mut Gen) -> Res {
    let t = g.below(256) as u8;
    let known = |n: u8| t < n;
    let with = |rest: &[u8]| [&[t][..], rest, &[0; 400][..]].concat();
    let ok = |r: Result<(), serialization::Error>| r.is_ok();
    macro_rules! reads {
        ($t:ty, $b:expr) => {
            ok(<$t>::decode(&mut &$b[..]).map(|v| assert_eq!(v.encode()[0], t)))
        };
    }
    let key = enc(&make::pool().keys[0].1);
    check_eq!(reads!(Destination, with(&key)), known(5), "destination {t}");
    check_eq!(reads!(OutputValue, with(if t == 1 { &[1] } else { &[] })), known(3), "value {t}");
    check_eq!(reads!(OutputTimeLock, with(&[])), known(4), "time lock {t}");
    check_eq!(reads!(TokenTotalSupply, with(&[])), known(3), "total supply {t}");
    check_eq!(reads!(TokenIssuance, with(&[])), t == 1, "token issuance {t}");
    check_eq!(reads!(NftIssuance, with(&[])), t == 0, "nft issuance {t}");
    check_eq!(reads!(OrderAccountCommand, with(&[])), known(3), "order command {t}");
    check_eq!(reads!(AccountCommand, with(&[])), known(9), "account command {t}");
    check_eq!(reads!(AccountSpending, with(&[])), t == 0, "account spending {t}");
    check_eq!(reads!(AccountType, with(&[])), known(3), "account type {t}");
    check_eq!(reads!(TxInput, with(&[])), known(4), "input {t}");
    check_eq!(reads!(InputWitness, with(&[1])), known(2), "witness {t}");
    check_eq!(reads!(Transaction, with(&[])), t == 1, "transaction {t}");
    check_eq!(reads!(ConsensusData, with(&[])), known(3), "consensus {t}");
    check_eq!(reads!(Block, with(&[])), t == 1, "block {t}");
    check_eq!(reads!(BlockHeader, with(&[])), t == 1, "header {t}");
    check_eq!(reads!(TxOutput, with(if t == 7 { &[1] } else { &[] })), known(12), "output {t}");
    g.nontrivial_if(t < 13);
    let _ = (Amount::ZERO, H256::zero(), Compact(0));
    Ok(())
}
