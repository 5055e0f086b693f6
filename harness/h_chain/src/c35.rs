//! A store that fails at any operation.
use crate::{
    disk::{Disk, Maps, Op},
    ledger::Blk,
    world::{compare, nets, open, Answer, Known, Node, Tree},
};
use common::{chain::GenBlock, primitives::Id};
use pbt::{check, check_eq, facet, note, Gen, Property, Res};
use serialization::Encode;
use std::{collections::BTreeSet, sync::Arc};

pub const P: Property = Property {
    id: "C35",
    rule: "A block is processed, declared bad or restored over a store of which one operation, or all from one on, fail; \
           the failing operation is any of those the same step makes when nothing fails. Non-trivial: the step \
           changes the best block and the failure hit while it was being carried out.",
    facets: &[
        facet("block", 1_500, block),
        facet("judgement", 1_200, judgement),
        facet("opening", 250, opening),
        facet("rough_ride", 900, rough_ride),
    ],
    assumptions: &[
        "The store applies a transaction wholly at its commit or not at all (C15 for the real one).",
        "A failing store may make the node refuse to start, by an error or a panic.",
    ],
};

fn same_maps(a: &Maps, b: &Maps) -> bool {
    a.iter().zip(b).all(|(x, y)| Arc::ptr_eq(x, y) || x == y)
}

/// Which tables differ.
fn differing(d: &Disk, a: &Maps, b: &Maps) -> Vec<String> {
    d.names().into_iter().enumerate().filter(|(i, _)| a[*i] != b[*i]).map(|x| x.1).collect()
}

/// Whether only some of the changed marks of blocks (as good or bad) are missing; a mark may change more than once,
/// and where another branch was tried instead, its bad blocks may be marked.
fn but_for_marks(t: &Tree, d: &Disk, before: &Maps, between: &[Maps], after: &Maps, now: &Maps) -> bool {
    d.names().iter().enumerate().all(|(i, n)| {
        if n != "DBBlockIndex" {
            return now[i] == after[i];
        }
        let keys: BTreeSet<_> = before[i].keys().chain(after[i].keys()).chain(now[i].keys()).collect();
        keys.into_iter().all(|k| {
            let v = now[i].get(k);
            v == before[i].get(k)
                || v == after[i].get(k)
                || between.iter().any(|m| v == m[i].get(k))
                || v.is_some() && t.order.iter().any(|id| t.at(id).state.is_none() && id.encode() == *k)
        })
    })
}

/// A chain, a node on it, and blocks still to come.
fn start(g: &mut Gen) -> Result<(Tree, Node, Known, Vec<Id<GenBlock>>), String> {
    let net = g.pick(nets()).clone();
    let mut t = Tree::new(&net);
    let mut known = Known::new(&t);
    for _ in 0..g.len(3, 14) {
        let on = t.pick(g, &known.best, &known.blocks);
        let txs = g.range(0, 4);
        let id = t.grow(g, on, txs);
        known.deliver(&t, &id);
    }
    let attempts = g.range(1, 3) as usize;
    let mut node = Node::over(&net, Disk::default(), g.chance(1, 4), attempts)?;
    let mut known = Known::new(&t);
    let mut order: Vec<_> = t.order[1..].to_vec();
    // stop at a block that changes much, if there is one
    let mut k = known.clone();
    let mut good = vec![];
    for (i, id) in order.iter().enumerate() {
        let old = k.best;
        k.deliver(&t, id);
        if k.best != old && t.at(id).parent != Some(old) {
            good.push(i);
        }
    }
    let n = if !good.is_empty() && g.chance(3, 4) { *g.pick(&good) } else { g.urange(0, order.len() - 1) };
    let rest = order.split_off(n);
    for id in &order {
        let (want, why) = known.deliver(&t, id);
        let b = t.at(id).blk.clone().expect("made");
        let (got, e) = node.deliver(&b);
        check_eq!(got, want, "block {id} ({why}): {e}");
    }
    Ok((t, node, known, rest))
}

/// What is stored is whole, and a node can go on from it.
fn sound(t: &Tree, node: &Node, what: &str) -> Result<Id<GenBlock>, String> {
    let best = node.best()?;
    compare(&node.disk, t, &best).map_err(|e| format!("{what}: {e}"))?;
    let copy = node.disk.copy();
    let again = Node { cs: open(&t.net, &copy, true, 1)?, net: t.net.clone(), disk: copy, heavy: true, attempts: 1 };
    check_eq!(again.best()?, best, "{what}: best block after opening again");
    check!(same_maps(&again.disk.maps(), &node.disk.maps()), "{what}: opening again changes the store");
    Ok(best)
}

/// A failure may end the node, which is then opened anew on what is stored.
fn survive<T>(one: &mut Node, f: impl FnOnce(&mut Node) -> T) -> Result<(Option<T>, u64), String> {
    match pbt::no_panic(|| f(one)) {
        Ok(x) => Ok((Some(x), one.disk.disarm().1)),
        Err(e) => {
            let (_, hits) = one.disk.disarm();
            check!(hits > 0, "{e}");
            *one = Node::over(&one.net, one.disk.clone(), one.heavy, one.attempts)?;
            Ok((None, hits))
        }
    }
}

/// Operations to let fail.
fn choose(g: &mut Gen, ops: &[Op], n: usize) -> Vec<(u64, u64, bool)> {
    let commits: Vec<usize> = (0..ops.len()).filter(|i| ops[*i] == Op::Commit).collect();
    let writes: Vec<usize> = (0..ops.len()).filter(|i| ops[*i] == Op::Write).collect();
    let mut v = vec![];
    for _ in 0..n {
        let at = match g.below(4) {
            0 if !commits.is_empty() => *g.pick(&commits),
            1 if !writes.is_empty() => *g.pick(&writes),
            _ => g.urange(0, ops.len() - 1),
        } as u64;
        let long = match g.below(4) {
            0 => u64::MAX,
            1 => at + 1 + g.range(1, 20),
            _ => at + 1,
        };
        v.push((at, long, g.bool()));
    }
    v
}

fn block(g: &mut Gen) -> Res {
    let (t, node, known, rest) = start(g)?;
    let id = rest[0];
    let b: Arc<Blk> = t.at(&id).blk.clone().expect("made");
    let before = node.disk.maps();
    // when nothing fails
    let mut clean = Node::over(&t.net, node.disk.copy(), node.heavy, node.attempts)?;
    clean.disk.watch();
    let (answer, error) = clean.deliver(&b);
    let (ops, commits) = clean.disk.unwatch();
    let mut then = known.clone();
    let (want, why) = then.deliver(&t, &id);
    check_eq!(answer, want, "block {id} ({why}): {error}");
    check_eq!(clean.best()?, then.best, "best block");
    let after = clean.disk.maps();
    note!(g, "{id}: {want:?} {why}, {} operations, {} commits", ops.len(), commits.len());
    let n = if g.thorough { 12 } else { 5 };
    let mut hit = false;
    for (from, until, fatal) in choose(g, &ops, n) {
        let mut one = Node::over(&t.net, node.disk.copy(), node.heavy, node.attempts)?;
        one.disk.arm(from, until, fatal);
        let (out, hits) = survive(&mut one, |n| n.deliver(&b))?;
        let op = ops[from as usize];
        let what = format!("{op:?} {from} to {until} of {} fails (fatal {fatal}, {} attempts)", ops.len(), one.attempts);
        note!(g, "{what}: {out:?}");
        let now = one.disk.maps();
        // which blocks are known to be bad is stored apart, after the refusal
        let whole = same_maps(&now, &before)
            || commits.iter().any(|c| same_maps(c, &now))
            || (want == Answer::Refused && but_for_marks(&t, &one.disk, &before, &commits, &after, &now));
        check!(
            whole,
            "{what}: neither the state before nor after: against before {:?}, against after {:?}",
            differing(&one.disk, &now, &before),
            differing(&one.disk, &now, &after)
        );
        hit |= hits > 0;
        // a short failure that may pass is passed over
        let inside = matches!(op, Op::Write | Op::Commit);
        if until == from + 1 && !fatal && inside && one.attempts > 1 {
            let (got, e) = out.expect("a failure that passes does not end the node");
            check_eq!(got, want, "{what}: answer: {e}");
            check!(same_maps(&now, &after), "{what}: the state differs from that without a failure: {:?}", differing(&one.disk, &now, &after));
        }
        let best = sound(&t, &one, &what)?;
        check!(best == known.best || best == then.best, "{what}: best block");
        // all works again
        let (got, e) = one.deliver(&b);
        if same_maps(&now, &before) {
            check_eq!(got, want, "{what}: answer once all works again: {e}");
        }
        check_eq!(one.best()?, then.best, "{what}: best block once all works again");
        // a bad block below may go unmarked until somebody builds on it again
        check!(
            same_maps(&one.disk.maps(), &after) || (want == Answer::Refused && !same_maps(&now, &before)),
            "{what}: state once all works again differs: {:?}",
            differing(&one.disk, &one.disk.maps(), &after)
        );
    }
    g.tag(why);
    g.tag_if(want == Answer::Tip && t.at(&id).parent != Some(known.best), "reorganisation");
    g.nontrivial_if(hit && then.best != known.best);
    Ok(())
}

fn judgement(g: &mut Gen) -> Res {
    let (t, mut node, known, _) = start(g)?;
    let chain: Vec<_> = known.blocks.iter().filter(|x| **x != t.root).copied().collect();
    if chain.is_empty() {
        return Ok(());
    }
    let id = if g.bool() && known.best != t.root {
        let p = t.path(&known.best);
        p[p.len() - 1 - g.below((p.len() - 1).min(4) as u64) as usize]
    } else {
        *g.pick(&chain)
    };
    let block_id = t.at(&id).blk.clone().expect("made").id();
    let restore = g.chance(1, 3);
    if restore && node.cs.invalidate_block(&block_id).is_err() {
        return Ok(());
    }
    let old = node.best()?;
    let before = node.disk.maps();
    let act = |n: &mut Node| if restore { n.cs.reset_block_failure_flags(&block_id) } else { n.cs.invalidate_block(&block_id) };
    let mut clean = Node::over(&t.net, node.disk.copy(), node.heavy, node.attempts)?;
    clean.disk.watch();
    let want = act(&mut clean);
    let (ops, commits) = clean.disk.unwatch();
    let then = clean.best()?;
    let after = clean.disk.maps();
    note!(g, "{id}: restore {restore}: {want:?}, {} operations, {} commits", ops.len(), commits.len());
    let n = if g.thorough { 12 } else { 5 };
    let mut hit = false;
    for (from, until, fatal) in choose(g, &ops, n) {
        let mut one = Node::over(&t.net, node.disk.copy(), node.heavy, node.attempts)?;
        one.disk.arm(from, until, fatal);
        let (got, hits) = survive(&mut one, act)?;
        let op = ops[from as usize];
        let what = format!("{op:?} {from} to {until} of {} fails (fatal {fatal}, {} attempts)", ops.len(), one.attempts);
        note!(g, "{what}: {got:?}");
        let now = one.disk.maps();
        hit |= hits > 0;
        let inside = matches!(op, Op::Write | Op::Commit);
        let passed = until == from + 1 && !fatal && inside && one.attempts > 1;
        // ties between branches may be broken either way, so that the state is one of several
        let best = sound(&t, &one, &what)?;
        if passed {
            check_eq!(got.as_ref().map(|x| x.is_ok()), Some(want.is_ok()), "{what}: outcome");
            check_eq!(t.at(&best).height, t.at(&then).height, "{what}: height");
        }
        if best == then && got.is_some_and(|x| x.is_ok()) && want.is_ok() {
            // a branch that could not be read is passed over, its bad blocks may go unmarked
            let read = matches!(op, Op::Read { .. });
            check!(
                same_maps(&now, &after) || read && but_for_marks(&t, &one.disk, &before, &commits, &after, &now),
                "{what}: the state differs from that without a failure: {:?}",
                differing(&one.disk, &now, &after)
            );
        }
        if best == old && old != then {
            let first = commits.iter().any(|c| same_maps(c, &now));
            let read = matches!(op, Op::Read { .. });
            let first = first || read && but_for_marks(&t, &one.disk, &before, &commits, &before, &now);
            check!(same_maps(&now, &before) || first, "{what}: not the state before: {:?}", differing(&one.disk, &now, &before));
        }
        // all works again
        if want.is_ok() {
            let there = one.cs.get_block_index_for_any_block(&block_id).map_err(|e| e.to_string())?.is_some();
            let res = act(&mut one);
            check!(res.is_ok() || !there, "{what}: once all works again: {res:?}");
            sound(&t, &one, "once all works again")?;
            let i = one.cs.get_block_index_for_any_block(&block_id).map_err(|e| e.to_string())?;
            if let Some(i) = i {
                let parent = t.at(&id).parent.expect("not genesis");
                let below = one.cs.get_gen_block_index_for_any_block(&parent).map_err(|e| e.to_string())?.ok_or("no parent")?;
                let fine = t.at(&id).state.is_some() && below.status().is_ok();
                check!(if restore { i.status().is_ok() || !fine } else { !i.status().is_ok() }, "{what}: status of the block: {}", i.status());
            }
        }
    }
    g.tag_if(restore, "restore");
    g.nontrivial_if(hit && then != old);
    Ok(())
}

fn opening(g: &mut Gen) -> Res {
    let fresh = g.bool();
    let (t, node) = if fresh {
        let net = g.pick(nets()).clone();
        let t = Tree::new(&net);
        let node = Node::new(&net, false)?;
        (t, node)
    } else {
        let (t, node, ..) = start(g)?;
        (t, node)
    };
    let base = if fresh { Disk::default() } else { node.disk.copy() };
    let best = node.best()?;
    let want = node.disk.maps();
    let clean = base.copy();
    clean.watch();
    let n = Node { cs: open(&t.net, &clean, true, 1)?, net: t.net.clone(), disk: clean, heavy: true, attempts: 1 };
    let (ops, commits) = n.disk.unwatch();
    check!(same_maps(&n.disk.maps(), &want), "opening: {:?}", differing(&n.disk, &n.disk.maps(), &want));
    check_eq!(n.best()?, best, "best block");
    let mut hit = false;
    for (from, until, fatal) in choose(g, &ops, 6) {
        let d = base.copy();
        d.arm(from, until, fatal);
        let got = pbt::no_panic(|| open(&t.net, &d, true, 1).map(|_| ()));
        let (_, hits) = d.disarm();
        hit |= hits > 0;
        let op = ops[from as usize];
        let what = format!("{op:?} {from} to {until} of {} fails at opening (fatal {fatal})", ops.len());
        note!(g, "{what}: {got:?}");
        let now = d.maps();
        let start = base.maps();
        check!(
            now.is_empty() || start.is_empty() && now.iter().all(|m| m.is_empty())
                || commits.iter().any(|c| same_maps(c, &now))
                || (!start.is_empty() && same_maps(&start, &now)),
            "{what}: neither the state before nor after"
        );
        let n = Node { cs: open(&t.net, &d, true, 1)?, net: t.net.clone(), disk: d, heavy: true, attempts: 1 };
        check_eq!(n.best()?, best, "{what}: best block after opening again");
        check!(same_maps(&n.disk.maps(), &want), "{what}: {:?}", differing(&n.disk, &n.disk.maps(), &want));
    }
    g.nontrivial_if(hit);
    Ok(())
}

/// Failures now and then over a whole history; each block is brought until it is taken or refused for good.
fn rough_ride(g: &mut Gen) -> Res {
    let (t, mut node, mut known, rest) = start(g)?;
    let (mut hits, mut tips) = (0, 0);
    for id in rest {
        let b: Arc<Blk> = t.at(&id).blk.clone().expect("made");
        let mut then = known.clone();
        let (want, why) = then.deliver(&t, &id);
        for _ in 0..g.range(0, 3) {
            let before = node.disk.maps();
            let from = g.range(0, 120);
            let long = if g.bool() { 1 } else { g.range(1, 60) };
            let fatal = g.bool();
            node.disk.arm(from, from + long, fatal);
            let (out, h) = survive(&mut node, |n| n.deliver(&b))?;
            hits += h;
            note!(g, "{id} with failures from {from}, {long} long, fatal {fatal}: {out:?}");
            if h == 0 {
                break;
            }
            let now = node.disk.maps();
            if out.map_or(true, |x| x.0 == Answer::Refused) && want != Answer::Refused && node.best()? == known.best {
                // nothing at all may have happened
                let blocks: BTreeSet<_> = node.disk.table("DBBlock").keys().cloned().collect();
                if blocks.len() == known_blocks(&before, &node.disk) {
                    check!(same_maps(&now, &before), "a refused block changed {:?}", differing(&node.disk, &now, &before));
                }
            }
        }
        let first = node.disk.maps();
        let (got, e) = node.deliver(&b);
        if first != node.disk.maps() {
            check_eq!(got, want, "block {id} ({why}): {e}");
        }
        known = then;
        tips += u32::from(want == Answer::Tip);
        check_eq!(node.best()?, known.best, "best block after {id} ({why}): {e}");
        compare(&node.disk, &t, &known.best)?;
    }
    // as if nothing had ever failed
    let mut calm = Node::new(&t.net, false)?;
    for id in &t.order[1..] {
        let b: Arc<Blk> = t.at(id).blk.clone().expect("made");
        calm.deliver(&b);
    }
    check_eq!(calm.best()?, node.best()?, "best block of a node whose store never failed");
    for n in node.disk.names() {
        let (a, b) = (calm.disk.table(&n), node.disk.table(&n));
        let keys: BTreeSet<_> = a.keys().chain(b.keys()).collect();
        for k in keys {
            // of a bad block below a refused one it may not be known that it is bad
            let bad = n == "DBBlockIndex" && t.order.iter().any(|id| id.encode() == *k && t.at(id).state.is_none());
            check!(bad || a.get(k) == b.get(k), "the state differs from that of a node whose store never failed: {n}");
        }
    }
    g.nontrivial_if(hits > 0 && tips > 1);
    Ok(())
}

fn known_blocks(m: &Maps, d: &Disk) -> usize {
    let i = d.names().iter().position(|n| n == "DBBlock").expect("table");
    m[i].len()
}
