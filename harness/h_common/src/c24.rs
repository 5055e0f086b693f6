//! Identifiers and Merkle roots.

use common::{
    chain::{
        block::{
            signed_block_header::{BlockHeaderSignature, SignedBlockHeader},
            timestamp::BlockTimestamp,
            block_body::BlockBody, BlockCreationError, BlockHeader,
        },
        config::create_regtest,
        make_delegation_id, make_order_id, make_pool_id, make_token_id, make_token_id_with_version,
        signature::Signable,
        Block, ChainConfig, GenBlock, GenBlockId, Genesis, IdCreationError, OutPointSourceId, SignedTransaction, TokenIdGenerationVersion,
        Transaction, TxInput,
    },
    primitives::{id, BlockHeight, Id, Idable, H256},
};
use common::primitives::id::WithId;
use crypto::hash::StreamHasher;
use gens::{enc::*, make};
use pbt::*;
use serialization::{DecodeAll, Encode};
use std::{collections::BTreeMap, sync::OnceLock};

pub const P: Property = Property {
    id: "C24",
    rule: "a case is non-trivial when the object changed in one place, or the block has at least two transactions",
    facets: &[
        facet("transactions", 60000, transactions),
        facet("headers", 40000, headers),
        facet("genesis", 20000, genesis),
        facet("roots", 20000, roots),
        facet("altered", 20000, altered),
        facet("proofs", 20000, proofs),
        facet("made_ids", 60000, made_ids),
        facet("texts", 60000, texts),
        facet("with_id", 20000, with_id),
        facet("hashing", 60000, hashing),
    ],
    assumptions: &["the Merkle tree crate is a stand-in, checked against the fixed roots in /repo's tests, since the original is not in the offline cargo cache"],
};

type Res = Result<(), String>;

pub fn blake(b: &[u8]) -> H256 {
    H256::from_slice(&refs::hashes::blake2b512(b)[..32])
}

fn pair(l: H256, r: H256) -> H256 {
    blake(&[l.0, r.0].concat())
}

/// The root over leaves: missing ones up to a power of two are hashes of the one before.
pub fn root(mut l: Vec<H256>) -> H256 {
    while !l.len().is_power_of_two() {
        let n = blake(&l[l.len() - 1].0);
        l.push(n);
    }
    while l.len() > 1 {
        l = l.chunks(2).map(|p| pair(p[0], p[1])).collect();
    }
    l[0]
}

fn other_transaction(g: &mut Gen, t: &Transaction) -> Transaction {
    let (mut flags, mut i, mut o) = (t.flags(), t.inputs().to_vec(), t.outputs().to_vec());
    match g.below(7) {
        0 => flags ^= 1 << g.below(128),
        1 => i.insert(g.usize(i.len() + 1), make::input(g)),
        2 => o.insert(g.usize(o.len() + 1), make::output(g)),
        3 if !i.is_empty() => {
            i.remove(g.usize(i.len()));
        }
        4 if !o.is_empty() => {
            o.remove(g.usize(o.len()));
        }
        5 if i.len() > 1 => i.rotate_left(1),
        6 if o.len() > 1 => o.rotate_left(1),
        _ if !o.is_empty() => {
            let n = g.usize(o.len());
            o[n] = make::output(g);
        }
        _ => flags = g.u128(),
    }
    Transaction::new(flags, i, o).expect("makes a transaction")
}

fn transactions(g: &mut Gen) -> Res {
    let s = make::signed_transaction(g);
    let t = s.transaction().clone();
    let want = blake(&enc(&t));
    check_eq!(t.get_id().to_hash(), want, "id of {t:?}");
    check_eq!(t.serialized_hash(), want, "hash of {t:?}");
    check_eq!(s.serialized_hash(), blake(&enc(&s)), "hash of {s:?}");
    check_eq!(id::hash_encoded(&s), blake(&enc(&s)), "hash_encoded of {s:?}");
    // Other witnesses, same id.
    let w = t.inputs().iter().map(|_| make::witness(g)).collect::<Vec<_>>();
    let resigned = SignedTransaction::new(t.clone(), w.clone()).map_err(|e| e.to_string())?;
    check_eq!(resigned.transaction().get_id().to_hash(), want, "id with other witnesses");
    check_eq!(resigned.serialized_hash() == s.serialized_hash(), w == s.signatures(), "hash with other witnesses");
    // The parts come back.
    check_eq!(resigned.signatures(), &w[..], "witnesses");
    check_eq!(resigned.inputs(), t.inputs(), "inputs");
    check_eq!(resigned.outputs(), t.outputs(), "outputs");
    check_eq!(resigned.flags(), t.flags(), "flags");
    check_eq!(resigned.is_replaceable(), t.flags() % 2 == 1, "replaceable");
    check_eq!(Signable::inputs(&resigned), Some(t.inputs()), "signed inputs");
    check_eq!(Signable::outputs(&resigned), Some(t.outputs()), "signed outputs");
    check_eq!(Signable::flags(&resigned), Some(t.flags()), "signed flags");
    check_eq!(Signable::version_byte(&resigned), Some(1), "signed version");
    check_eq!(Signable::version_byte(&t), Some(1), "version");
    check_eq!(resigned.take_transaction(), t, "transaction");
    // Another transaction, another id.
    let o = other_transaction(g, &t);
    check_eq!(o.get_id() == t.get_id(), o == t, "ids of {o:?} and {t:?}");
    g.nontrivial_if(o != t);
    note!(g, "flags {:x}, {} inputs, {} outputs", t.flags(), t.inputs().len(), t.outputs().len());
    Ok(())
}

fn headers(g: &mut Gen) -> Res {
    let (h, roots) = make::header(g);
    let want = blake(&header_bytes(&h, roots));
    check_eq!(h.get_id().to_hash(), want, "id of {h:?}");
    check_eq!(h.block_id().to_hash(), want, "id of {h:?}");
    let sig = make::header_signature(g);
    let s = SignedBlockHeader::new(sig.clone(), h.clone());
    check_eq!(s.get_id().to_hash(), want, "id of {s:?}");
    check_eq!(s.block_id().to_hash(), want, "id of {s:?}");
    check_eq!(h.clone().with_signature(sig.clone()), s, "with_signature");
    check_eq!(h.clone().with_no_signature(), SignedBlockHeader::new(BlockHeaderSignature::None, h.clone()), "with_no_signature");
    check_eq!(s.signature_data(), &sig, "signature");
    check_eq!((s.header(), &s.clone().take_header()), (&h, &h), "header");
    check_eq!((s.timestamp(), s.prev_block_id(), s.consensus_data()), (h.timestamp(), h.prev_block_id(), h.consensus_data()), "parts");

    // A signed header is not changed.
    let signed = sig != BlockHeaderSignature::None;
    let new = make::consensus(g);
    let mut m = s.clone();
    check_eq!(m.header_mut().is_some(), !signed, "mutable");
    let r = m.try_update_consensus_data(new.clone());
    check_eq!(r.is_err(), signed, "consensus data of a signed header");
    if signed {
        check_eq!(m, s, "a signed header");
    } else {
        let mut h2 = h.clone();
        h2.update_consensus_data(new.clone());
        check_eq!(m.header(), &h2, "an updated header");
        check_eq!(h2.get_id().to_hash(), blake(&header_bytes(&h2, roots)), "id of an updated header");
    }

    // One field changed.
    let (mut prev, mut t, mut c, mut r) = (*h.prev_block_id(), h.timestamp(), h.consensus_data().clone(), roots);
    match g.below(5) {
        0 => prev = make::id(g),
        1 => t = BlockTimestamp::from_int_seconds(g.u64()),
        2 => c = new,
        3 => r.0 = make::hash(g),
        _ => r.1 = make::hash(g),
    }
    let o = BlockHeader::new(prev, r.0, r.1, t, c.clone());
    check_eq!(o.get_id() == h.get_id(), o == h, "ids of {o:?} and {h:?}");
    check_eq!(o == h, (prev, t, &c, r) == (*h.prev_block_id(), h.timestamp(), h.consensus_data(), roots), "{o:?} == {h:?}");
    let mut u = h.clone();
    u.update_timestamp(t);
    check_eq!(u.timestamp(), t, "timestamp");
    check_eq!(u.get_id().to_hash(), blake(&header_bytes(&u, roots)), "id after an update");
    g.nontrivial_if(o != h);
    Ok(())
}

fn config() -> &'static ChainConfig {
    static C: OnceLock<ChainConfig> = OnceLock::new();
    C.get_or_init(create_regtest)
}

fn genesis(g: &mut Gen) -> Res {
    let v = make::genesis(g);
    let want = blake(&enc(&v));
    check_eq!(v.get_id().to_hash(), want, "id of {v:?}");
    let o = match g.below(3) {
        0 => Genesis::new(g.text(10), v.timestamp(), v.utxos().to_vec()),
        1 => Genesis::new(v.genesis_message().to_owned(), BlockTimestamp::from_int_seconds(g.u64()), v.utxos().to_vec()),
        _ => Genesis::new(v.genesis_message().to_owned(), v.timestamp(), g.vec(0, 2, make::output)),
    };
    check_eq!(o.get_id() == v.get_id(), o == v, "ids of {o:?} and {v:?}");
    g.nontrivial_if(o != v);
    // Which block an id is.
    let c = config();
    let h = if g.bool() { c.genesis_block_id().to_hash() } else { make::hash(g) };
    let is = h == blake(&enc(&***c.genesis_block()));
    let want = if is { GenBlockId::Genesis(Id::new(h)) } else { GenBlockId::Block(Id::new(h)) };
    let id: Id<GenBlock> = Id::new(h);
    check_eq!(id.classify(c), want, "kind of block {h:x}");
    check_eq!(want.is_genesis(), is, "genesis");
    check_eq!(want.chain_block_id(), (!is).then(|| Id::new(h)), "block");
    let (b, ge): (Id<Block>, Id<Genesis>) = (Id::new(h), Id::new(h));
    check!(Id::<GenBlock>::from(b) == id && id == b && b == id && id == ge && ge == id && Id::<GenBlock>::from(ge) == id, "ids of {h:x}");
    check!(<&Id<GenBlock>>::from(&b) == &id && <&Id<GenBlock>>::from(&ge) == &id, "borrowed ids of {h:x}");
    let o = make::hash(g);
    let (ob, og): (Id<Block>, Id<Genesis>) = (Id::new(o), Id::new(o));
    check_eq!((id == ob, ob == id, id == og, og == id), (h == o, h == o, h == o, h == o), "{h:x} and {o:x}");
    check_eq!(OutPointSourceId::from(b), OutPointSourceId::BlockReward(id), "source");
    check_eq!(OutPointSourceId::from(ge), OutPointSourceId::BlockReward(id), "source");
    check_eq!(OutPointSourceId::from(id), OutPointSourceId::BlockReward(id), "source");
    let t: Id<Transaction> = Id::new(h);
    check_eq!(OutPointSourceId::from(t), OutPointSourceId::Transaction(t), "source");
    check_eq!((OutPointSourceId::from(t).get_tx_id(), OutPointSourceId::from(id).get_tx_id()), (Some(&t), None), "source transaction");
    Ok(())
}

fn leaves(b: &BlockBody, witness: bool) -> Vec<H256> {
    let txs = b.transactions().iter().map(|t| if witness { blake(&enc(t)) } else { blake(&enc(t.transaction())) });
    std::iter::once(blake(&enc(b.reward()))).chain(txs).collect()
}

/// A body of up to a dozen transactions, some of them the same.
fn body(g: &mut Gen) -> BlockBody {
    let few: Vec<SignedTransaction> = g.vec(1, 3, make::signed_transaction);
    let txs = g.vec(0, 12, |g| if g.chance(1, 4) { g.pick(&few).clone() } else { small_transaction(g) });
    BlockBody::new(make::reward(g), txs)
}

fn small_transaction(g: &mut Gen) -> SignedTransaction {
    let t = Transaction::new(g.u128(), g.vec(0, 1, make::input), g.vec(0, 1, make::output)).expect("makes a transaction");
    let w = t.inputs().iter().map(|_| make::witness(g)).collect();
    SignedTransaction::new(t, w).expect("right number")
}

fn roots(g: &mut Gen) -> Res {
    let b = body(g);
    let want = (root(leaves(&b, false)), root(leaves(&b, true)));
    let p = b.merkle_tree_proxy().map_err(|e| e.to_string())?;
    check_eq!((p.merkle_tree().root(), p.witness_merkle_tree().root()), want, "roots of {} transactions", b.transactions().len());
    check_eq!(b.reward().serialized_hash(), blake(&enc(b.reward())), "hash of the reward");
    let (prev, t, c) = (make::id(g), BlockTimestamp::from_int_seconds(g.u64()), make::consensus(g));
    let block = Block::new(b.transactions().to_vec(), prev, t, c.clone(), b.reward().clone()).map_err(|e| e.to_string())?;
    check_eq!((block.merkle_root(), block.witness_merkle_root()), want, "roots of the block");
    let h = BlockHeader::new(prev, want.0, want.1, t, c.clone());
    check_eq!(block.header(), &h.clone().with_no_signature(), "header");
    check_eq!(block.get_id(), h.get_id(), "block id");
    check_eq!((block.body(), block.block_reward(), block.transactions()), (&b, b.reward(), b.transactions()), "body");
    check_eq!((block.prev_block_id(), block.timestamp(), block.consensus_data()), (prev, t, &c), "header fields");
    check_eq!(block.clone().into_transactions(), b.transactions(), "transactions");
    let r = block.block_reward_transactable();
    let (inputs, witness) = match &c {
        common::chain::block::ConsensusData::PoS(d) => (Some(d.kernel_inputs()), d.kernel_witness().to_vec()),
        _ => (None, vec![]),
    };
    check_eq!((Signable::inputs(&r), Signable::outputs(&r)), (inputs, Some(b.reward().outputs())), "reward's inputs and outputs");
    use common::chain::signature::Transactable;
    check_eq!(r.signatures().into_iter().flatten().collect::<Vec<_>>(), witness, "reward's witness");
    g.nontrivial_if(b.transactions().len() > 1);
    Ok(())
}

/// A header does not fit any other body.
fn altered(g: &mut Gen) -> Res {
    let b = body(g);
    let (r0, r1) = (root(leaves(&b, false)), root(leaves(&b, true)));
    let h = SignedBlockHeader::new(make::header_signature(g), BlockHeader::new(make::id(g), r0, r1, BlockTimestamp::from_int_seconds(g.u64()), make::consensus(g)));
    let (mut txs, mut reward) = (b.transactions().to_vec(), b.reward().clone());
    let n = txs.len();
    let what = match g.below(8) {
        0 => "nothing",
        1 if n > 0 => {
            txs.remove(g.usize(n));
            "dropped"
        }
        2 => {
            txs.insert(g.usize(n + 1), small_transaction(g));
            "added"
        }
        3 if n > 0 => {
            let i = g.usize(n);
            let w = txs[i].inputs().iter().map(|_| make::witness(g)).collect();
            txs[i] = SignedTransaction::new(txs[i].transaction().clone(), w).expect("right number");
            "other witness"
        }
        4 if n > 0 => {
            let t = txs[g.usize(n)].clone();
            txs.insert(g.usize(n + 1), t);
            "repeated"
        }
        5 if n > 1 => {
            let (i, j) = (g.usize(n), g.usize(n));
            txs.swap(i, j);
            "swapped"
        }
        6 => {
            reward = make::reward(g);
            "other reward"
        }
        _ if n > 0 => {
            let i = g.usize(n);
            let t = other_transaction(g, txs[i].transaction());
            let w = t.inputs().iter().map(|_| make::witness(g)).collect();
            txs[i] = SignedTransaction::new(t, w).expect("right number");
            "other transaction"
        }
        _ => "nothing",
    };
    let new = BlockBody::new(reward, txs);
    let ids = |b: &BlockBody| b.transactions().iter().map(|t| t.transaction().clone()).collect::<Vec<_>>();
    let got = Block::new_from_header(h.clone(), new.clone());
    let want = (root(leaves(&new, false)), root(leaves(&new, true)));
    if new == b {
        let block = got.map_err(|e| format!("a block of its own body: {e}"))?;
        check_eq!((block.header(), block.body()), (&h, &b), "block");
        check_eq!(block.get_id(), h.get_id(), "block id");
    } else if ids(&new) != ids(&b) || new.reward() != b.reward() {
        check_eq!(got, Err(BlockCreationError::MerkleTreeMismatch(r0, want.0)), "{what}");
    } else {
        check_eq!(got, Err(BlockCreationError::WitnessMerkleTreeMismatch(r1, want.1)), "{what}");
    }
    g.tag(what);
    g.nontrivial_if(new != b);
    Ok(())
}

fn proofs(g: &mut Gen) -> Res {
    let b = body(g);
    let n = b.transactions().len();
    let p = b.merkle_tree_proxy().map_err(|e| e.to_string())?;
    for witness in [false, true] {
        let l = leaves(&b, witness);
        let top = root(l.clone());
        let leaf = |i: usize| if witness { p.witness_merkle_tree().transaction_witness_leaf(i) } else { p.merkle_tree().transaction_leaf(i) };
        let reward = if witness { p.witness_merkle_tree().block_reward_witness_leaf() } else { p.merkle_tree().block_reward_leaf() };
        check_eq!(reward, l[0], "reward leaf");
        let proof = if witness { p.witness_merkle_tree().block_reward_inclusion_proof() } else { p.merkle_tree().block_reward_inclusion_proof() };
        let proof = proof.map_err(|e| e.to_string())?;
        let ok = |r: merkletree_mintlayer::proof::verify_result::ProofVerifyResult| !r.failed();
        check!(ok(proof.verify(l[0], top)), "the reward's proof");
        for i in 0..n {
            check_eq!(leaf(i), Some(l[i + 1]), "leaf {i} of {n}");
            let proof = if witness {
                p.witness_merkle_tree().transaction_witness_inclusion_proof(i as u32)
            } else {
                p.merkle_tree().transaction_inclusion_proof(i as u32)
            };
            let proof = proof.map_err(|e| e.to_string())?;
            for (j, x) in l.iter().enumerate() {
                check_eq!(ok(proof.verify(*x, top)), *x == l[i + 1], "proof of transaction {i} for leaf {j}");
            }
            check!(!ok(proof.verify(l[i + 1], make::hash(g))), "proof for another root");
            check_eq!(proof.leaf_index_in_level(), i as u32 + 1, "index in the proof");
        }
        let out = (n + 1).next_power_of_two();
        check_eq!(leaf(out - 1), None, "leaf beyond the tree");
        check!(p.merkle_tree().transaction_inclusion_proof(out as u32 - 1).is_err(), "proof beyond the tree");
        check!(p.witness_merkle_tree().transaction_witness_inclusion_proof(out as u32 - 1).is_err(), "proof beyond the tree");
    }
    g.nontrivial_if(n > 1);
    Ok(())
}

fn made_ids(g: &mut Gen) -> Res {
    let i: Vec<TxInput> = g.vec(0, 4, make::input);
    let first = i.iter().find_map(|i| match i {
        TxInput::Utxo(o) => Some(o),
        _ => None,
    });
    let with = |n: u32| first.map(|o| blake(&[&enc(o)[..], &n.to_le_bytes()[..]].concat()));
    check_eq!(make_pool_id(&i).map(|x| x.to_hash()), with(0).ok_or(IdCreationError::NoUtxoInputsForPoolIdCreation), "pool id of {i:?}");
    check_eq!(make_delegation_id(&i).map(|x| x.to_hash()), with(1).ok_or(IdCreationError::NoUtxoInputsForDelegationIdCreation), "delegation id of {i:?}");
    let bare = first.map(|o| blake(&enc(o)));
    check_eq!(make_order_id(&i).map(|x| x.to_hash()), bare.ok_or(IdCreationError::NoUtxoInputsForOrderIdCreation), "order id of {i:?}");
    let v0 = i.first().map(|i| blake(&enc(i))).ok_or(IdCreationError::NoInputsForTokenIdCreation);
    let v1 = first.map(|o| blake(&enc(&TxInput::Utxo(o.clone())))).ok_or(IdCreationError::NoUtxoInputsForTokenIdCreation);
    check_eq!(make_token_id_with_version(TokenIdGenerationVersion::V0, &i).map(|x| x.to_hash()), v0.clone(), "token id of {i:?}");
    check_eq!(make_token_id_with_version(TokenIdGenerationVersion::V1, &i).map(|x| x.to_hash()), v1.clone(), "token id of {i:?}");
    // Mainnet and testnet changed over at a height.
    static C: OnceLock<Vec<ChainConfig>> = OnceLock::new();
    let c = g.pick(C.get_or_init(|| vec![common::chain::config::create_mainnet(), common::chain::config::create_testnet(), create_regtest()]));
    let height = BlockHeight::new(g.u64());
    let version = c.chainstate_upgrades().version_at_height(height).1.token_id_generation_version();
    let want = if version == TokenIdGenerationVersion::V0 { v0 } else { v1 };
    check_eq!(make_token_id(c, height, &i).map(|x| x.to_hash()), want, "token id at {height}");
    // Of one input, all four are different.
    if let Some(o) = first {
        let all = [with(0).unwrap_or_default(), with(1).unwrap_or_default(), bare.unwrap_or_default(), blake(&enc(&TxInput::Utxo(o.clone())))];
        let set: std::collections::BTreeSet<_> = all.iter().collect();
        check_eq!(set.len(), 4, "ids of {o:?}");
        g.nontrivial();
    }
    Ok(())
}

fn texts(g: &mut Gen) -> Res {
    let h = make::hash(g);
    let hx: String = h.0.iter().map(|b| format!("{b:02x}")).collect();
    let id: Id<Block> = Id::new(h);
    check_eq!(format!("{id:x}"), hx, "lower hex");
    check_eq!(format!("{id:#x}"), format!("0x{hx}"), "lower hex with a prefix");
    check_eq!(format!("{id:X}"), hx.to_uppercase(), "upper hex");
    check_eq!(format!("{id:#X}"), format!("0X{}", hx.to_uppercase()), "upper hex with a prefix");
    check_eq!(format!("{id:?}"), format!("Id<Block>{{{hx}}}"), "debug");
    check_eq!(format!("{id}"), format!("{}…{}", &hx[..4], &hx[60..]), "display");
    check_eq!(id.as_ref(), &h.0[..], "bytes");
    check_eq!((id.to_hash(), *id.as_hash(), Id::<Block>::from(h)), (h, h, id), "hash");
    let rev: String = h.0.iter().rev().map(|b| format!("{b:02x}")).collect();
    check_eq!(h.as_bitcoin_uint256_hex(), rev, "bitcoin hex");
    let json = format!("\"{hx}\"");
    check_eq!(serde_json::to_string(&id).map_err(|e| e.to_string())?, json, "json");
    check_eq!(serde_json::from_str::<Id<Block>>(&json).map_err(|e| e.to_string())?, id, "from json");
    check_eq!(serde_json::to_string(&h).map_err(|e| e.to_string())?, json, "json of the hash");
    check_eq!(serde_json::from_str::<H256>(&json).map_err(|e| e.to_string())?, h, "hash from json");
    check_eq!(hx.parse::<H256>().ok(), Some(h), "parsed");
    let o = make::hash(g);
    let oid: Id<Block> = Id::new(o);
    check_eq!(id.cmp(&oid), h.0.cmp(&o.0), "order of {h:x} and {o:x}");
    check_eq!(id.partial_cmp(&oid), Some(h.0.cmp(&o.0)), "order of {h:x} and {o:x}");
    check_eq!(id == oid, h.0 == o.0, "equality of {h:x} and {o:x}");
    check_eq!(Id::<Block>::zero().to_hash().0, [0; 32], "zero");
    // As keys of maps.
    let mut m = BTreeMap::new();
    m.insert(id, 1);
    m.insert(oid, 2);
    check_eq!(m.len(), if h == o { 1 } else { 2 }, "keys");
    let mut m = std::collections::HashMap::new();
    m.insert(id, 1);
    m.insert(oid, 2);
    check_eq!((m.len(), m.get(&oid)), (if h == o { 1 } else { 2 }, Some(&2)), "hashed keys");
    // Damaged texts.
    let mut c: Vec<char> = hx.chars().collect();
    match g.below(4) {
        0 => {
            c.pop();
        }
        1 => c.push('0'),
        2 => {
            let i = g.usize(c.len());
            c[i] = *g.pick(&['g', ' ', 'é', '-', '\u{0}']);
        }
        _ => c.clear(),
    }
    let bad: String = c.into_iter().collect();
    check!(bad.parse::<H256>().is_err(), "parsed {bad}");
    check!(serde_json::from_str::<Id<Block>>(&serde_json::to_string(&bad).map_err(|e| e.to_string())?).is_err(), "json {bad}");
    g.nontrivial_if(h != o);
    Ok(())
}

fn with_id(g: &mut Gen) -> Res {
    let b = make::block(g);
    let w = WithId::new(b.clone());
    check_eq!((WithId::id(&w), w.get_id()), (&b.get_id(), b.get_id()), "id");
    check_eq!((WithId::get(&w), w.as_ref(), &*w), (&b, &b, &b), "object");
    check_eq!(w.encode(), enc(&b), "encoding");
    let back = WithId::<Block>::decode_all(&mut &w.encode()[..]).map_err(|e| e.to_string())?;
    check!(back == w && WithId::id(&back) == &b.get_id(), "decoded");
    let sub = WithId::as_sub_obj(&w);
    check_eq!((WithId::id(&sub), *WithId::get(&sub)), (&b.get_id(), b.header()), "header with id");
    check_eq!(WithId::from(b.clone()).get_id(), b.get_id(), "from");
    check_eq!(WithId::take(w), b, "taken");
    let (t, u) = (make::transaction(g), make::transaction(g));
    let u = if g.bool() { t.clone() } else { u };
    check_eq!(WithId::new(t.clone()) == WithId::new(u.clone()), t == u, "equality");
    check_eq!(WithId::new(b.clone()).get_id(), (&b).get_id(), "by reference");
    g.nontrivial_if(!b.transactions().is_empty());
    Ok(())
}

fn hashing(g: &mut Gen) -> Res {
    let parts: Vec<Vec<u8>> = g.vec(0, 4, |g| g.bytes(0, 200));
    let all = parts.concat();
    check_eq!(id::default_hash(&all), blake(&all), "hash of {all:02x?}");
    let mut s = id::DefaultHashAlgoStream::new();
    for p in &parts {
        s.write(p);
    }
    check_eq!(H256::from(s.finalize()), blake(&all), "streamed hash of {parts:02x?}");
    let mut s = id::DefaultHashAlgoStream::new();
    id::hash_encoded_to(&parts, &mut s);
    check_eq!(H256::from(s.finalize()), blake(&parts.encode()), "hash of the encoding of {parts:02x?}");
    check_eq!(id::hash_encoded(&parts), blake(&parts.encode()), "hash of the encoding of {parts:02x?}");
    g.nontrivial_if(all.len() > 128);
    Ok(())
}
