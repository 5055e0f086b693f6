//! Every block judged by the node and by the plain ledger.
use crate::{
    ledger::Bad,
    world::{compare, nets, Answer, Known, Node, Tree},
};
use common::chain::{
    block::{block_body::BlockBody, Block, BlockReward},
    TxOutput,
};
use pbt::{check, check_eq, facet, note, Gen, Property, Res};
use serialization::{DecodeAll, Encode};

pub const P: Property = Property {
    id: "C34",
    rule: "Trees of up to 24 blocks of up to 5 transactions each (transfers, locks, tokens, orders, pools, delegations, \
           HTLCs, data), honest or with one thing wrong, each block judged by the node and by a ledger written anew and \
           the stored ledgers compared after each; among them copies of a block with the same header and another body. \
           Non-trivial: more than three blocks became the best one, and a block was refused for what it does on its branch.",
    facets: &[facet("histories", 6_000, histories)],
    assumptions: &[
        "Consensus of the networks used asks for no proof; proofs are C37's subject.",
        "Signatures in blocks are honest, missing, made with another key or over other data (C11, C27 take them apart).",
    ],
};

/// The block with its header and another body.
fn other_body(g: &mut Gen, b: &Block) -> Option<(Block, &'static str)> {
    let body = b.body();
    let mut txs = body.transactions().to_vec();
    let mut reward = body.reward().clone();
    let raw = b.encode();
    let at = raw.len() - body.encode().len();
    let (bytes, what) = match g.below(6) {
        0 if !txs.is_empty() => {
            // the last ones again, as in a tree that pads with the last leaf
            let n = g.urange(1, txs.len());
            txs.extend_from_within(txs.len() - n..);
            (BlockBody::new(reward, txs).encode(), "transactions again")
        }
        1 if !txs.is_empty() => {
            let i = g.urange(0, txs.len() - 1);
            txs.remove(i);
            (BlockBody::new(reward, txs).encode(), "a transaction less")
        }
        2 if txs.len() > 1 => {
            let i = g.urange(0, txs.len() - 2);
            txs.swap(i, i + 1);
            (BlockBody::new(reward, txs).encode(), "transactions in another order")
        }
        3 => {
            let mut outs: Vec<TxOutput> = reward.outputs().to_vec();
            if outs.is_empty() || g.bool() {
                let big = g.chance(1, 4);
                for _ in 0..if big { 400 } else { 1 } {
                    outs.push(gens::make::output(g));
                }
            } else {
                outs.pop();
            }
            reward = BlockReward::new(outs);
            (BlockBody::new(reward, txs).encode(), "another reward")
        }
        _ => {
            let mut bytes = raw[at..].to_vec();
            let i = g.urange(0, bytes.len() - 1);
            bytes[i] ^= 1 << g.below(8);
            (bytes, "a bit flipped")
        }
    };
    let mut all = raw[..at].to_vec();
    all.extend(bytes);
    let other = Block::decode_all(&mut &all[..]).ok()?;
    (other.body() != body).then_some((other, what))
}

fn histories(g: &mut Gen) -> Res {
    let net = g.pick(nets()).clone();
    let mut t = Tree::new(&net);
    let mut node = Node::new(&net, g.chance(1, 4))?;
    let mut known = Known::new(&t);
    let (mut late, mut tips, mut reorgs, mut bodies) = (0, 0, 0, 0);
    let n = g.len(4, 24);
    for _ in 0..n {
        let on = t.pick(g, &known.best, &known.blocks);
        let txs = g.range(0, 5);
        let id = t.grow(g, on, txs);
        let blk = t.at(&id).blk.clone().expect("made");
        let before = known.best;
        if g.chance(1, 4) {
            if let Some((other, what)) = other_body(g, &blk.block) {
                note!(g, "first with {what}");
                let raw = node.disk.maps();
                let res = node.cs.process_block(other, chainstate::BlockSource::Local);
                check!(res.is_err(), "a block with {what} than its header is for was taken");
                check_eq!(node.best()?, before, "best block");
                for (i, n) in node.disk.names().iter().enumerate() {
                    // (a header that is bad whatever the body may be remembered)
                    if n != "DBBlockIndex" {
                        check!(raw[i] == node.disk.maps()[i], "table {n} changed by a block with {what} than its header is for");
                    }
                }
                bodies += 1;
            }
        }
        let (want, why) = known.deliver(&t, &id);
        let (got, error) = node.deliver(&blk);
        note!(g, "block {} on {:?} at {}: {:?} {} {}", id, on, t.at(&id).height, want, why, error);
        check_eq!(got, want, "block {} at height {} ({}): {error}; verdict {:?}; txs {:#?}", id, t.at(&id).height, why, t.at(&id).verdict, blk.txs);
        check_eq!(node.best()?, known.best, "best block");
        match want {
            Answer::Tip => {
                tips += 1;
                reorgs += u32::from(t.at(&id).parent != Some(before));
                for k in Tree::kinds(&blk) {
                    g.tag(k);
                }
            }
            Answer::Refused => late += u32::from(matches!(t.at(&id).verdict, Err(Bad::Late(_)))),
            Answer::Side => {}
        }
        g.tag(why);
        compare(&node.disk, &t, &known.best)?;
    }
    check!(known.blocks.contains(&known.best), "unknown best block");
    g.tag_if(bodies > 0, "a block first came with another body");
    g.tag_if(reorgs > 0, "reorganisation");
    g.nontrivial_if(tips > 3 && late > 0);
    Ok(())
}
