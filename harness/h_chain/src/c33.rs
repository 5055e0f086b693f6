//! The same blocks in any order lead to the same state.
use crate::world::{compare, dump, nets, open, same, Answer, Known, Node, Tree};
use common::{chain::GenBlock, primitives::Id};
use pbt::{check, check_eq, facet, note, Gen, Property, Res};
use std::collections::{BTreeMap, BTreeSet};

pub const P: Property = Property {
    id: "C33",
    rule: "Trees of up to 18 blocks full of transactions of every kind, brought to a node in a random order (children before \
           their parents and blocks for the second time among them), or taken back and forth by declaring blocks bad and good \
           again; after each step the stored tables are compared with a plain ledger and with an earlier visit of the same \
           best block, at the end with a node that only saw the best chain. Non-trivial: the best chain changed to another \
           branch, and (back and forth) came back to a block it was at before.",
    facets: &[facet("any_order", 3_500, any_order), facet("away_and_back", 3_500, away_and_back)],
    assumptions: &[
        "Consensus of the networks used asks for no proof, so that every block adds the same work.",
        "What the changes of an epoch amount to is compared, not the entries that change nothing.",
        "A node holds back at most one early child per parent here; its limit on early blocks is not reached.",
    ],
};

/// A tree of blocks, as if somebody had seen them in the order they are made.
fn tree(g: &mut Gen, lo: usize, hi: usize) -> Tree {
    let net = g.pick(nets()).clone();
    let mut t = Tree::new(&net);
    let mut known = Known::new(&t);
    for _ in 0..g.len(lo, hi) {
        let on = t.pick(g, &known.best, &known.blocks);
        let txs = g.range(0, 4);
        let id = t.grow(g, on, txs);
        known.deliver(&t, &id);
    }
    t
}

/// The state must be that of a node that only ever saw the best chain.
fn like_direct(node: &Node, t: &Tree, best: &Id<GenBlock>) -> Res {
    let mut direct = Node::new(&node.net, false)?;
    for id in t.path(best).iter().skip(1) {
        let b = t.at(id).blk.clone().expect("made");
        let (a, e) = direct.deliver(&b);
        check_eq!(a, Answer::Tip, "block of the best chain delivered alone: {e}");
    }
    check_eq!(direct.best()?, *best, "best block of the direct node");
    same(&node.dump(t, best), &direct.dump(t, best), "this node and one that saw only the best chain")
}

fn any_order(g: &mut Gen) -> Res {
    let t = tree(g, 4, 18);
    let mut node = Node::new(&t.net, g.chance(1, 6))?;
    let mut known = Known::new(&t);
    let mut left: Vec<Id<GenBlock>> = t.order[1..].to_vec();
    let mut early: BTreeMap<Id<GenBlock>, Id<GenBlock>> = BTreeMap::new(); // parent -> child
    let mut tried: BTreeSet<Id<GenBlock>> = [t.root].into();
    let mut seen: BTreeMap<Id<GenBlock>, _> = BTreeMap::new();
    let (mut reorgs, mut returns) = (0, 0);
    let again = g.chance(1, 3);
    while !left.is_empty() {
        let ready: Vec<usize> = (0..left.len()).filter(|i| tried.contains(&t.at(&left[*i]).parent.expect("not genesis"))).collect();
        // a child before its parent, sometimes: it must be taken up as soon as the parent comes
        let unborn: Vec<usize> = (0..left.len())
            .filter(|i| {
                let p = t.at(&left[*i]).parent.expect("not genesis");
                !tried.contains(&p) && !early.contains_key(&p) && !early.values().any(|c| *c == left[*i])
            })
            .collect();
        if !unborn.is_empty() && g.chance(1, 6) {
            let id = left.remove(*g.pick(&unborn));
            let before = known.best;
            let b = t.at(&id).blk.clone().expect("made");
            let (a, e) = node.deliver(&b);
            note!(g, "early {id}: {e}");
            check_eq!(a, Answer::Refused, "a block without its parent");
            check_eq!(node.best()?, before, "best block after a block without its parent");
            early.insert(t.at(&id).parent.expect("not genesis"), id);
            continue;
        }
        if again && g.chance(1, 8) {
            // one that was tried already
            let all: Vec<_> = tried.iter().filter(|x| **x != t.root).copied().collect();
            if !all.is_empty() {
                let id = *g.pick(&all);
                let before = node.dump(&t, &known.best);
                let b = t.at(&id).blk.clone().expect("made");
                if known.blocks.contains(&id) {
                    let (a, e) = node.deliver(&b);
                    check_eq!(a, Answer::Refused, "a block for the second time: {e}");
                    check_eq!(node.best()?, known.best, "best block after a block for the second time");
                    same(&before, &node.dump(&t, &known.best), "before and after a block for the second time")?;
                }
            }
        }
        let Some(i) = (!ready.is_empty()).then(|| *g.pick(&ready)) else { break };
        let id = left.remove(i);
        tried.insert(id);
        let old = known.best;
        let before = node.dump(&t, &old);
        let (want, why) = known.deliver(&t, &id);
        let mut cascade = false;
        let mut next = id;
        let mut stored = want != Answer::Refused;
        while let Some(child) = early.remove(&next) {
            tried.insert(child);
            if stored {
                cascade = true;
                stored = known.deliver(&t, &child).0 != Answer::Refused;
            }
            next = child;
        }
        let b = t.at(&id).blk.clone().expect("made");
        let (got, e) = node.deliver(&b);
        note!(g, "{id} on {:?}: {want:?} {why}", t.at(&id).parent);
        if !cascade {
            check_eq!(got, want, "block {id} ({why}): {e}");
        }
        check_eq!(node.best()?, known.best, "best block after {id} ({why}, cascade {cascade}): {e}");
        let after = node.dump(&t, &known.best);
        if known.best == old {
            same(&before, &after, "before and after a block that changed nothing")?;
        } else {
            let p = t.path(&known.best);
            reorgs += u32::from(!p.contains(&old));
            returns += u32::from(p.iter().any(|x| *x != known.best && *x != old && seen.contains_key(x) && !t.path(&old).contains(x)));
        }
        if let Some(x) = seen.insert(known.best, after.clone()) {
            same(&x, &after, "at the same best block, earlier and now")?;
        }
        compare(&node.disk, &t, &known.best)?;
    }
    // the best is a longest valid one among those it could take
    let best = t.at(&known.best).height;
    if t.net.depth >= 1000 {
        let longest = t.order.iter().filter(|x| known.blocks.contains(x) && t.at(x).state.is_some()).map(|x| t.at(x).height).max();
        check_eq!(Some(best), longest, "height of the best block");
    }
    like_direct(&node, &t, &known.best)?;
    // and still when opened again
    let again = Node { cs: open(&t.net, &node.disk, true, 1)?, net: t.net.clone(), disk: node.disk.clone(), heavy: true, attempts: 1 };
    check_eq!(again.best()?, known.best, "best block after opening again");
    same(&dump(&again.disk, &t, &known.best), &node.dump(&t, &known.best), "opened again")?;
    g.tag_if(reorgs > 0, "reorganisation");
    g.tag_if(reorgs > 1, "several reorganisations");
    g.tag_if(returns > 0, "back to an abandoned branch");
    g.nontrivial_if(reorgs > 0 && best > 2);
    Ok(())
}

fn under(t: &Tree, x: &Id<GenBlock>, root: &Id<GenBlock>) -> bool {
    t.path(x).contains(root)
}

/// Which blocks the node holds to be bad.
fn statuses(node: &Node, known: &Known) -> Result<BTreeSet<Id<GenBlock>>, String> {
    let mut bad = BTreeSet::new();
    for id in &known.blocks {
        let i = node.cs.get_gen_block_index_for_any_block(id).map_err(|e| e.to_string())?;
        match i.ok_or_else(|| format!("block {id} is lost"))? {
            chainstate::GenBlockIndex::Genesis(_) => {}
            chainstate::GenBlockIndex::Block(b) => {
                if !b.status().is_ok() {
                    bad.insert(*id);
                }
            }
        }
    }
    Ok(bad)
}

fn away_and_back(g: &mut Gen) -> Res {
    let t = tree(g, 4, 14);
    let mut node = Node::new(&t.net, g.chance(1, 6))?;
    let mut known = Known::new(&t);
    let mut todo: Vec<Id<GenBlock>> = t.order[1..].to_vec();
    let mut seen: BTreeMap<Id<GenBlock>, _> = BTreeMap::new();
    let mut explicit: BTreeSet<Id<GenBlock>> = BTreeSet::new();
    let mut stored: BTreeSet<Id<GenBlock>> = [t.root].into();
    let (mut forgotten, mut on_bad) = (0, 0);
    let mut moves = 0;
    let mut back = 0;
    let steps = g.range(4, 20);
    for _ in 0..steps {
        let old = known.best;
        let chain: Vec<_> = known.blocks.iter().filter(|x| **x != t.root).copied().collect();
        match g.weighted(&[if todo.is_empty() { 0 } else { 6 }, if chain.is_empty() { 0 } else { 2 }, if explicit.is_empty() { 0 } else { 2 }]) {
            0 => {
                let id = todo.remove(0);
                if !known.blocks.contains(&t.at(&id).parent.expect("not genesis")) {
                    continue;
                }
                let (want, why) = known.deliver(&t, &id);
                let b = t.at(&id).blk.clone().expect("made");
                let (got, e) = node.deliver(&b);
                note!(g, "{id} on {:?}: {want:?} {why}", t.at(&id).parent);
                check_eq!(got, want, "block {id} ({why}): {e}");
                if want != Answer::Refused {
                    stored.insert(id);
                }
            }
            kind => {
                let id = if kind == 1 {
                    if g.chance(1, 2) && known.best != t.root {
                        let p = t.path(&known.best);
                        p[p.len() - 1 - g.below((p.len() - 1).min(4) as u64) as usize]
                    } else {
                        *g.pick(&chain)
                    }
                } else {
                    let e: Vec<_> = explicit.iter().copied().collect();
                    *g.pick(&e)
                };
                let block_id = t.at(&id).blk.clone().expect("made").id();
                let mut base = known.best;
                if kind == 1 {
                    let main = t.path(&known.best).contains(&id);
                    let res = node.cs.invalidate_block(&block_id);
                    note!(g, "invalidate {id}: {res:?}");
                    if main && t.at(&id).height <= known.min_reorg_height(&t) {
                        check!(res.is_err(), "a block too deep was undone");
                        check_eq!(node.best()?, known.best, "best block after a refusal");
                        continue;
                    }
                    res.map_err(|e| format!("cannot invalidate {id}: {e}"))?;
                    explicit.insert(id);
                    if main {
                        base = t.at(&id).parent.expect("not genesis");
                    } else {
                        check_eq!(node.best()?, known.best, "best block after a side block was declared bad");
                    }
                    let dead: Vec<_> = known.blocks.iter().filter(|x| under(&t, x, &id)).copied().collect();
                    known.failed.extend(dead);
                } else {
                    let parent = t.at(&id).parent.expect("not genesis");
                    // on a bad block it stays bad
                    let lost = known.failed.contains(&parent);
                    node.cs.reset_block_failure_flags(&block_id).map_err(|e| format!("cannot restore {id}: {e}"))?;
                    note!(g, "restore {id}");
                    explicit.retain(|x| !under(&t, x, &id));
                    known.failed.retain(|x| !under(&t, x, &id) || lost && stored.contains(x));
                    on_bad += u32::from(lost);
                    // those never stored are forgotten, and may come again
                    let gone: Vec<_> = known.blocks.iter().filter(|x| under(&t, x, &id) && !stored.contains(x)).copied().collect();
                    for x in gone {
                        known.blocks.remove(&x);
                        todo.insert(0, x);
                        forgotten += 1;
                    }
                }
                // which blocks could be best now
                let low = known.min_reorg_height(&t);
                known.best = base;
                let could: Vec<_> = known
                    .blocks
                    .iter()
                    .filter(|x| t.at(x).state.is_some() && !known.failed.contains(x))
                    .filter(|x| t.at(x).height > t.at(&base).height && (known.fork_height(&t, x) >= low || under(&t, x, &base)))
                    .copied()
                    .collect();
                let top = could.iter().map(|x| t.at(x).height).max().unwrap_or(t.at(&base).height);
                let best = node.best()?;
                if could.is_empty() {
                    check_eq!(best, base, "best block, with nothing longer");
                } else {
                    check!(could.contains(&best), "best block {best} is not among those possible");
                    check_eq!(t.at(&best).height, top, "height of the best block");
                }
                known.best = best;
                known.min_height = known.min_height.max(top.saturating_sub(t.net.depth)).max(low);
                // bad blocks found on the way
                let bad = statuses(&node, &known)?;
                for x in &bad {
                    check!(
                        known.failed.contains(x) || t.at(x).state.is_none(),
                        "block {x} is held to be bad: {:?}",
                        t.at(x).verdict
                    );
                }
                for x in &known.failed {
                    check!(bad.contains(x), "bad block {x} is forgotten");
                }
                known.failed = bad;
            }
        }
        check_eq!(node.best()?, known.best, "best block");
        compare(&node.disk, &t, &known.best)?;
        let now = node.dump(&t, &known.best);
        moves += u32::from(!t.path(&known.best).contains(&old));
        if let Some(x) = seen.insert(known.best, now.clone()) {
            back += u32::from(old != known.best);
            same(&x, &now, "at the same best block, earlier and now")?;
        }
    }
    like_direct(&node, &t, &known.best)?;
    g.tag_if(moves > 0, "away");
    g.tag_if(back > 0, "back");
    g.tag_if(on_bad > 0, "restored on a bad block");
    g.tag_if(forgotten > 0, "a bad block comes again");
    g.nontrivial_if(moves > 0 && back > 0);
    Ok(())
}
