//! The index over the tree of blocks, against walking from parent to parent.
use crate::{
    disk::Disk,
    world::{clock, compare, genesis_time, nets, Answer, Known, Node, Tree},
};
use chainstate::{GenBlockIndex, Locator};
use common::{
    chain::{block::signed_block_header::SignedBlockHeader, Block, GenBlock},
    primitives::{BlockHeight, Id, Idable},
    Uint256,
};
use pbt::{check, check_eq, facet, note, Gen, Property, Res};
use std::{
    collections::BTreeSet,
    num::NonZeroUsize,
};

pub const P: Property = Property {
    id: "C41",
    rule: "Trees of up to 140 blocks brought to a node, each query about blocks, heights, ancestors and headers put for \
           blocks and heights at random and answered by walking parents. Non-trivial: the tree has a branch off the best \
           chain of at least three blocks, or an exported tree with a branch.",
    facets: &[facet("index", 1_500, index), facet("carry_over", 1_500, carry_over)],
    assumptions: &[
        "Of blocks of the same height the list of all blocks may give any first.",
        "Blocks of branches never tried may keep a file with other branches from being taken up whole, if they turn out to be bad.",
        "Work adds up block by block; every block here adds one (C37 has the sizes).",
    ],
};

/// A tree with long branches.
fn bushy(g: &mut Gen, lo: usize, hi: usize, txs: u64) -> Result<(Tree, Node, Known, BTreeSet<Id<GenBlock>>), String> {
    let net = g.pick(nets()).clone();
    let mut t = Tree::new(&net);
    let mut node = Node::new(&net, g.chance(1, 20))?;
    let mut known = Known::new(&t);
    let mut heads = vec![t.root];
    let mut refused = BTreeSet::new();
    let spread = g.range(1, 12);
    for _ in 0..g.len(lo, hi) {
        let on = if g.chance(spread, 100) { *g.pick(&t.order) } else { *g.pick(&heads) };
        let on = if known.blocks.contains(&on) && !known.failed.contains(&on) { on } else { known.best };
        let n = if txs == 0 { 0 } else { g.range(0, txs) };
        let id = t.grow(g, on, n);
        let (want, why) = known.deliver(&t, &id);
        let b = t.at(&id).blk.clone().expect("made");
        let (got, e) = node.deliver(&b);
        check_eq!(got, want, "block {id} ({why}): {e}");
        heads.retain(|h| *h != on);
        if want != Answer::Refused {
            heads.push(id);
        } else {
            refused.insert(id);
            heads.push(on);
        }
        if heads.len() > 5 {
            let i = g.urange(0, heads.len() - 1);
            heads.remove(i);
        }
    }
    check_eq!(node.best()?, known.best, "best block");
    Ok((t, node, known, refused))
}

fn header(t: &Tree, id: &Id<GenBlock>) -> SignedBlockHeader {
    t.at(id).blk.as_ref().expect("not genesis").block.header().clone()
}

fn block_id(t: &Tree, id: &Id<GenBlock>) -> Id<Block> {
    t.at(id).blk.as_ref().expect("not genesis").id()
}

fn ids(v: &[SignedBlockHeader]) -> Vec<Id<GenBlock>> {
    v.iter().map(|h| h.get_id().into()).collect()
}

fn e<T, E: std::fmt::Display>(what: &'static str) -> impl Fn(E) -> Result<T, String> {
    move |e| Err(format!("{what}: {e}"))
}

fn gen_index(node: &Node, id: &Id<GenBlock>) -> Result<GenBlockIndex, String> {
    node.cs
        .get_gen_block_index_for_any_block(id)
        .or_else(e("index"))?
        .ok_or_else(|| format!("no index for {id}"))
}

/// Heights below the first by none, 1, 2, 4, 8 and so on.
fn steps(top: u64) -> Vec<u64> {
    let mut v = vec![top];
    let mut d = 1u64;
    while d <= top {
        v.push(top - d);
        d *= 2;
    }
    v
}

fn index(g: &mut Gen) -> Res {
    let (t, node, known, refused) = bushy(g, 5, 140, 0)?;
    let cs = &node.cs;
    let main = t.path(&known.best);
    let top = main.len() as u64 - 1;
    let all: Vec<_> = t.order.iter().filter(|x| known.blocks.contains(x)).copied().collect();
    // which of them are kept for good
    let kept: BTreeSet<_> = all
        .iter()
        .filter(|x| node.disk.table("DBBlock").contains_key(&serialization::Encode::encode(*x)) || **x == t.root)
        .copied()
        .collect();
    for x in &all {
        check!(kept.contains(x) || t.at(x).state.is_none(), "block {x} is not kept");
    }
    let random = |g: &mut Gen| Id::<GenBlock>::new(gens::make::hash(g));

    // what the index says about every block
    let proof = {
        let genesis = gen_index(&node, &t.root)?;
        check_eq!(genesis.block_height().into_int(), 0, "height of genesis");
        check!(genesis.prev_block_id().is_none(), "parent of genesis");
        genesis.chain_trust()
    };
    check_eq!(proof, Uint256::ZERO, "work at genesis");
    for x in all.iter().skip(1) {
        let p = t.at(x);
        let i = gen_index(&node, x)?;
        let parent = p.parent.expect("not genesis");
        check_eq!(i.block_id(), *x, "id");
        check_eq!(i.prev_block_id(), Some(parent), "parent of {x}");
        check_eq!(i.block_height().into_int(), p.height, "height of {x}");
        check_eq!(i.block_timestamp().as_int_seconds(), *p.times.last().expect("some"), "time of {x}");
        check_eq!(i.chain_timestamps_max().as_int_seconds(), *p.times.iter().max().expect("some"), "latest time up to {x}");
        let below = gen_index(&node, &parent)?;
        check_eq!(i.chain_trust(), (below.chain_trust() + Uint256::ONE).expect("small"), "work of {x}");
        let n: usize = t.path(x).iter().filter_map(|y| t.at(y).blk.as_ref()).map(|b| b.block.transactions().len()).sum();
        check_eq!(i.chain_transaction_count(), n as u128, "transactions up to {x}");
        check_eq!(i.status().is_ok(), !known.failed.contains(x), "status of {x}");
        check_eq!(i.is_persisted(), kept.contains(x), "whether {x} is kept");
        let b = cs.get_block_index_for_any_block(&block_id(&t, x)).or_else(e("index"))?.ok_or("no index")?;
        check_eq!(*b.block_header(), header(&t, x), "header of {x}");
        check!(t.path(x).contains(b.some_ancestor()), "{x} has an ancestor it does not have");
        check_eq!(
            cs.get_block_header(&block_id(&t, x)).or_else(e("header"))?,
            Some(header(&t, x)),
            "header of {x}"
        );
        check_eq!(
            cs.get_block(&block_id(&t, x)).or_else(e("block"))?,
            kept.contains(x).then(|| p.blk.as_ref().expect("made").block.clone()),
            "block {x}"
        );
        if kept.contains(x) {
            check_eq!(
                cs.get_block_reward(&b).or_else(e("reward"))?,
                Some(p.blk.as_ref().expect("made").block.block_reward().clone()),
                "reward of {x}"
            );
        }
        check_eq!(
            cs.get_block_index_for_persisted_block(&block_id(&t, x)).or_else(e("index"))?.is_some(),
            kept.contains(x),
            "index of {x} if kept"
        );
    }
    // the best chain
    check_eq!(cs.get_best_block_height().or_else(e("height"))?.into_int(), top, "best height");
    check_eq!(cs.get_best_block_index().or_else(e("index"))?.block_id(), known.best, "best index");
    match cs.get_best_block_header() {
        Ok(h) => check_eq!(Some(h), (top > 0).then(|| header(&t, &known.best)), "best header"),
        Err(_) => check_eq!(top, 0, "no best header"),
    }
    let info = cs.info().or_else(e("info"))?;
    check_eq!(info.best_block_height.into_int(), top, "best height");
    check_eq!(info.best_block_id, known.best, "best block");
    check_eq!(info.best_block_timestamp.as_int_seconds(), *t.at(&known.best).times.last().expect("some"), "time of the best block");
    check_eq!(info.median_time.as_int_seconds(), crate::ledger::median(&t.at(&known.best).times), "median time");
    check_eq!(
        cs.get_min_height_with_allowed_reorg().or_else(e("height"))?.into_int(),
        known.min_reorg_height(&t),
        "lowest height to fork off"
    );
    let list: Vec<Id<GenBlock>> = cs.get_mainchain_blocks_list().or_else(e("list"))?.into_iter().map(Into::into).collect();
    check_eq!(list, main[1..].to_vec(), "the best chain");
    let tree: Vec<Id<GenBlock>> = cs.get_block_id_tree_as_list().or_else(e("list"))?.into_iter().map(Into::into).collect();
    check!(tree.windows(2).all(|w| t.at(&w[0]).height <= t.at(&w[1]).height), "all blocks are not listed by height");
    // a block refused at once may be there or not
    let there: BTreeSet<_> = tree.iter().copied().collect();
    check_eq!(there.len(), tree.len(), "a block is listed twice");
    for x in all.iter().skip(1) {
        check!(there.contains(x), "block {x} is not among all blocks");
    }
    for x in &there {
        check!(known.blocks.contains(x) || refused.contains(x), "block {x} is among all blocks");
    }

    let thorough = if g.thorough { 60 } else { 25 };
    for _ in 0..thorough {
        let a = *g.pick(&all);
        let b = *g.pick(&all);
        let path = t.path(&a);
        let ia = gen_index(&node, &a)?;
        // ancestors
        let h = g.range(0, path.len() as u64 + 1);
        match cs.get_ancestor(&ia, BlockHeight::new(h)) {
            Ok(i) => check_eq!(Some(&i.block_id()), path.get(h as usize), "ancestor of {a} at {h}"),
            Err(_) => check!(h >= path.len() as u64, "no ancestor of {a} at {h}"),
        }
        let common = *path.iter().zip(t.path(&b)).take_while(|(x, y)| **x == *y).last().expect("genesis at least").0;
        let lca = cs.last_common_ancestor(&ia, &gen_index(&node, &b)?).or_else(e("ancestor"))?;
        check_eq!(lca.block_id(), common, "last common ancestor of {a} and {b}");
        check_eq!(
            cs.last_common_ancestor_by_id(&a, &b).or_else(e("ancestor"))?,
            Some((common, BlockHeight::new(t.at(&common).height))),
            "last common ancestor of {a} and {b}"
        );
        let r = random(g);
        check_eq!(cs.last_common_ancestor_by_id(&a, &r).or_else(e("ancestor"))?, None, "ancestor with an unknown block");
        check_eq!(cs.last_common_ancestor_by_id(&r, &a).or_else(e("ancestor"))?, None, "ancestor of an unknown block");
        // the best chain
        let in_main = main.contains(&a);
        check_eq!(cs.is_block_in_main_chain(&a).or_else(e("main chain"))?, in_main, "{a} in the main chain");
        check_eq!(
            cs.get_block_height_in_main_chain(&a).or_else(e("main chain"))?.map(|h| h.into_int()),
            in_main.then(|| t.at(&a).height),
            "height of {a} in the main chain"
        );
        check!(!cs.is_block_in_main_chain(&r).unwrap_or(false), "an unknown block in the main chain");
        let h = g.range(0, top + 2);
        check_eq!(
            cs.get_block_id_from_height(BlockHeight::new(h)).or_else(e("height"))?,
            main.get(h as usize).copied(),
            "block at {h}"
        );
        check_eq!(
            cs.calculate_median_time_past(&a).or_else(e("median"))?.as_int_seconds(),
            crate::ledger::median(&t.at(&a).times),
            "median time past of {a}"
        );
        // locators
        let loc = |l: Locator| l.into_vec();
        check_eq!(
            loc(cs.get_locator_from_height(BlockHeight::new(h)).or_else(e("locator"))?),
            steps(h).iter().filter_map(|x| main.get(*x as usize).copied()).collect::<Vec<_>>(),
            "locator from height {h} of {top}"
        );
        check_eq!(
            loc(cs.get_locator_from_best_block().or_else(e("locator"))?),
            steps(top).iter().map(|x| main[*x as usize]).collect::<Vec<_>>(),
            "locator from the best block"
        );
        if a != t.root {
            check_eq!(
                loc(cs.get_locator_from_block_id(&block_id(&t, &a)).or_else(e("locator"))?),
                steps(t.at(&a).height).iter().map(|x| path[*x as usize]).collect::<Vec<_>>(),
                "locator from {a}"
            );
        }
        // headers after a locator
        let mut l: Vec<Id<GenBlock>> = match g.below(3) {
            0 => steps(t.at(&a).height).iter().map(|x| path[*x as usize]).collect(),
            1 => {
                let mut v = g.vec(0, 6, |g| *g.pick(&t.order));
                v.sort_by_key(|x| std::cmp::Reverse(t.at(x).height));
                v
            }
            _ => steps(t.at(&b).height).iter().map(|x| t.path(&b)[*x as usize]).collect(),
        };
        if g.chance(1, 3) {
            let at = g.urange(0, l.len());
            l.insert(at, r);
        }
        let limit = g.urange(0, 40);
        let from = l.iter().find(|x| main.contains(x)).map_or(0, |x| t.at(x).height as usize);
        let want: Vec<_> = main.iter().skip(from + 1).take(limit).copied().collect();
        let got = cs.get_mainchain_headers_by_locator(&Locator::new(l.clone()), limit).or_else(e("headers"))?;
        check_eq!(ids(&got), want, "headers after locator {l:?}, at most {limit}");
        // headers since the latest fork
        let v = g.vec(0, 4, |g| *g.pick(&all));
        let fork = v.iter().map(|x| t.path(x).iter().filter(|y| main.contains(y)).count() - 1).max();
        let want: Vec<_> = match fork {
            None => vec![],
            Some(f) => main.iter().skip(f + 1).take(limit).copied().collect(),
        };
        let got = cs.get_mainchain_headers_since_latest_fork_point(&v, limit).or_else(e("headers"))?;
        check_eq!(ids(&got), want, "headers since {v:?} forked off, at most {limit}");
        // headers known
        let k = g.urange(0, path.len() - 1);
        let mut hs: Vec<_> = path.iter().skip(1 + k).map(|x| header(&t, x)).collect();
        if g.bool() {
            let other = t.path(&b);
            hs.extend(other.iter().skip(1).map(|x| header(&t, x)));
        }
        let mut strangers = 0;
        if g.bool() {
            let at = g.urange(0, hs.len());
            hs.insert(at, gens::make::signed_header(g).0);
            strangers += 1;
        }
        let n = hs.iter().position(|h| !kept.contains(&h.get_id().into())).unwrap_or(hs.len());
        let (x, y) = cs.split_off_leading_known_headers(hs.clone()).or_else(e("headers"))?;
        check_eq!(x, hs[..n].to_vec(), "known headers at the front ({strangers} unknown)");
        check_eq!(y, hs[n..].to_vec(), "the other headers");
        // stretches
        let (lo, hi) = (g.range(0, top + 3), g.range(0, top + 5));
        let step = g.urange(1, 9);
        match cs.get_block_ids_as_checkpoints(BlockHeight::new(lo), BlockHeight::new(hi), NonZeroUsize::new(step).expect("some")) {
            Ok(v) => {
                check!(lo <= hi, "checkpoints backwards");
                let want: Vec<_> =
                    (lo..hi).step_by(step).filter_map(|h| main.get(h as usize).map(|x| (BlockHeight::new(h), *x))).collect();
                check_eq!(v, want, "checkpoints from {lo} to {hi} by {step}");
            }
            Err(_) => check!(lo > hi, "no checkpoints from {lo} to {hi}"),
        }
        let count = g.urange(0, 12);
        match cs.get_mainchain_blocks(BlockHeight::new(lo), count) {
            Ok(v) => {
                check!(lo > 0, "genesis among the blocks");
                let got: Vec<Id<GenBlock>> = v.iter().map(|b| b.get_id().into()).collect();
                check_eq!(got, main.iter().skip(lo as usize).take(count).copied().collect::<Vec<_>>(), "blocks from {lo}, {count}");
            }
            Err(_) => check_eq!(lo, 0, "no blocks from {lo}"),
        }
    }
    let side = all.iter().map(|x| t.path(x).iter().filter(|y| !main.contains(y)).count()).max().unwrap_or(0);
    g.tag_if(side >= 3, "branch of three or more");
    g.tag_if(side >= 15, "branch of fifteen or more");
    g.tag_if(top > 60, "over sixty blocks high");
    g.tag_if(kept.len() < all.len(), "bad blocks");
    g.nontrivial_if(side >= 3);
    let _ = (clock(&t.net), genesis_time(&t.net));
    Ok(())
}

/// Blocks written to a file and taken up by another node.
fn carry_over(g: &mut Gen) -> Res {
    let (t, node, known, _) = bushy(g, 3, 24, 3)?;
    let stale = g.bool();
    let mut file = vec![];
    node.cs
        .export_bootstrap_stream(std::io::BufWriter::new(Box::new(&mut file)), stale)
        .map_err(|e| format!("cannot write the blocks out (with other branches: {stale}): {e}"))?;
    note!(g, "{} bytes, with other branches: {stale}, {} blocks, {} bad", file.len(), known.blocks.len(), known.failed.len());
    let mut other = Node::over(&t.net, Disk::default(), false, 1)?;
    let broken = g.chance(1, 3);
    if broken {
        let mut bad = file.clone();
        match g.below(3) {
            0 => bad.truncate(g.urange(0, bad.len() - 1)),
            1 => {
                let i = g.urange(0, bad.len() - 1);
                bad[i] ^= 1 << g.below(8);
            }
            _ => {
                let i = g.urange(0, bad.len() - 1);
                let x = g.byte();
                bad.insert(i, x);
            }
        }
        let res = other.cs.import_bootstrap_stream(std::io::BufReader::new(Box::new(&bad[..])));
        note!(g, "damaged: {res:?}");
        let best = other.best()?;
        if let Some(p) = t.places.get(&best) {
            if p.state.is_some() {
                compare(&other.disk, &t, &best)?;
            }
        }
    }
    // whatever came before, the whole file brings all
    let res = other.cs.import_bootstrap_stream(std::io::BufReader::new(Box::new(&file[..])));
    let best = other.best()?;
    // a block of another branch that nobody had a reason to try yet may turn out to be bad
    let untried = stale && known.blocks.iter().any(|x| t.at(x).state.is_none() && !known.failed.contains(x));
    if let (true, Err(e)) = (untried, &res) {
        note!(g, "not all taken up: {e}");
        g.tag("a bad block among the others");
        return compare(&other.disk, &t, &best);
    }
    res.map_err(|e| format!("cannot take the blocks up (with other branches: {stale}): {e}"))?;
    check_eq!(t.places.get(&best).map(|p| p.height), Some(t.at(&known.best).height), "height of the best block taken up");
    if !stale && !broken {
        check_eq!(best, known.best, "best block taken up");
    }
    compare(&other.disk, &t, &best)?;
    let want: BTreeSet<_> = known
        .blocks
        .iter()
        .filter(|x| **x != t.root && !known.failed.contains(x) && (stale || t.path(&known.best).contains(x)))
        .copied()
        .collect();
    for x in &want {
        // on a small depth of reorganisation a branch may come too late
        if t.net.depth >= 1000 {
            check!(
                other.cs.get_block(&block_id(&t, x)).map_err(|e| e.to_string())?.is_some(),
                "block {x} is not taken up (with other branches: {stale})"
            );
        }
    }
    let main = t.path(&known.best);
    let branches = known.blocks.iter().any(|x| !main.contains(x));
    g.tag_if(stale, "with other branches");
    g.tag_if(broken, "damaged first");
    g.tag_if(!known.failed.is_empty(), "bad blocks");
    g.nontrivial_if(branches);
    Ok(())
}
