//! Accounting deltas against maps.
use accounting::{
    combine_amount_delta, combine_data_with_delta, DataDelta, DataDeltaUndo, DeltaAmountCollection, DeltaDataCollection,
    DeltaDataUndoCollection, GetDataResult,
};
use common::primitives::{amount::SignedAmount, Amount};
use num::{BigInt, ToPrimitive};
use pbt::{check, check_eq, enumerated, facet, note, Gen, Property, Res};
use serialization::{DecodeAll, Encode};
use std::collections::BTreeMap;

pub const P: Property = Property {
    id: "C07",
    rule: "Histories of merges, undos and failing merges of record and balance changes over four keys, single and in collections, compared step by step with plain maps; the same changes folded under a random grouping; changes applied to a base through stacked layers. Non-trivial: at least two changes of one key take effect.",
    facets: &[
        facet("record_histories", 150_000*3, record_histories),
        facet("record_grouping", 150_000*3, record_grouping),
        facet("balance_histories", 200_000*3, balance_histories),
        facet("balance_grouping", 100_000*3, balance_grouping),
        facet("layers", 100_000*3, layers),
        enumerated("apply_record", 5 * 26, apply_record),
        facet("apply_balance", 300_000*3, apply_balance),
        facet("codec", 80_000*3, codec),
    ],
    assumptions: &[
        "A failed merge of a whole collection may have merged some of its elements; each single element is merged or refused without effect.",
        "A balance above 2^127-1 is refused (signed arithmetic), as the interface says.",
    ],
};

type V = Option<u8>;
type Model = BTreeMap<u8, (V, V)>;
type Coll = DeltaDataCollection<u8, u8>;

fn val(g: &mut Gen) -> V {
    let v = g.below(5) as u8;
    (v > 0).then_some(v)
}

fn delta(d: (V, V)) -> DataDelta<u8> {
    DataDelta::new(d.0, d.1)
}

fn view(c: &Coll) -> Model {
    c.data().iter().map(|(k, d)| (*k, d.clone().consume())).collect()
}

fn check_coll(c: &Coll, m: &Model) -> Res {
    check_eq!(&view(c), m, "recorded changes");
    for k in 0..5u8 {
        let want = match m.get(&k) {
            None => GetDataResult::Missing,
            Some((_, None)) => GetDataResult::Deleted,
            Some((_, Some(v))) => GetDataResult::Present(*v),
        };
        let got = match c.get_data(&k) {
            GetDataResult::Present(v) => GetDataResult::Present(*v),
            GetDataResult::Deleted => GetDataResult::Deleted,
            GetDataResult::Missing => GetDataResult::Missing,
        };
        check_eq!(got, want, "record {k}");
    }
    Ok(())
}

fn merge_model(m: &mut Model, k: u8, d: (V, V)) -> bool {
    match m.get(&k).copied() {
        Some((_, new)) if new != d.0 => false,
        Some((old, _)) => {
            m.insert(k, (old, d.1));
            true
        }
        None => {
            m.insert(k, d);
            true
        }
    }
}

/// A change that mostly follows what is recorded.
fn change(g: &mut Gen, m: &Model, k: u8) -> (V, V) {
    let old = match m.get(&k) {
        Some((_, n)) if !g.chance(1, 8) => *n,
        _ => val(g),
    };
    (old, val(g))
}

fn record_histories(g: &mut Gen) -> Res {
    let mut c = Coll::new();
    let mut m = Model::new();
    let mut undos: Vec<(u8, DataDeltaUndo<u8>, (V, V))> = vec![];
    let n = g.len(1, 24);
    let mut effective = 0;
    for _ in 0..n {
        match g.weighted(&[6, 3, 2, 2]) {
            0 => {
                let k = g.below(4) as u8;
                let d = change(g, &m, k);
                note!(g, "merge {k}: {d:?}");
                let r = c.merge_delta_data_element(k, delta(d));
                let had = m.contains_key(&k);
                let ok = merge_model(&mut m, k, d);
                check_eq!(r.is_ok(), ok, "merging {d:?} into record {k}");
                g.tag(if ok { "merged" } else { "refused" });
                if let Ok(u) = r {
                    check_eq!(u.as_delta().clone().consume(), (d.1, d.0), "undo of {d:?}");
                    undos.push((k, u, d));
                    effective += usize::from(had);
                }
            }
            1 => {
                // the whole of another collection
                let mut other = Model::new();
                for _ in 0..g.urange(0, 4) {
                    let k = g.below(4) as u8;
                    other.insert(k, change(g, &m, k));
                }
                note!(g, "merge all {other:?}");
                let oc: Coll = other.iter().map(|(k, d)| (*k, delta(*d))).collect();
                let before = view(&c);
                let mut after = m.clone();
                let ok = other.iter().all(|(k, d)| merge_model(&mut after, *k, *d));
                let r = c.merge_delta_data(oc);
                check_eq!(r.is_ok(), ok, "merging {other:?}");
                match r {
                    Ok(u) => {
                        let got: Model = u.data().iter().map(|(k, d)| (*k, d.as_delta().clone().consume())).collect();
                        let want: Model = other.iter().map(|(k, d)| (*k, (d.1, d.0))).collect();
                        check_eq!(got, want, "undo information");
                        m = after;
                        if g.bool() {
                            // undone at once: the same effect as before
                            g.tag("collection undone");
                            c.undo_merge_delta_data(u).map_err(|e| format!("undo fails: {e}"))?;
                            for (k, d) in &other {
                                let want = before.get(k).copied().unwrap_or((d.0, d.0));
                                m.insert(*k, want);
                            }
                            effective += other.len();
                        } else {
                            for (k, u) in u.consume() {
                                undos.push((k, u, other[&k]));
                            }
                        }
                    }
                    Err(_) => {
                        g.tag("collection refused");
                        let now = view(&c);
                        for k in 0..4u8 {
                            let mut one = before.clone();
                            let mut allowed = vec![before.get(&k).copied()];
                            if let Some(d) = other.get(&k) {
                                if merge_model(&mut one, k, *d) {
                                    allowed.push(one.get(&k).copied());
                                }
                            }
                            check!(
                                allowed.contains(&now.get(&k).copied()),
                                "record {k} is {:?} after a refused merge of {other:?} over {before:?}",
                                now.get(&k)
                            );
                        }
                        m = now;
                        undos.clear();
                    }
                }
            }
            2 => {
                // the latest undo of some key
                let Some((k, _, _)) = undos.last().cloned() else { continue };
                let (_, u, d) = undos.pop().unwrap();
                note!(g, "undo {k}: {d:?}");
                let before = m.get(&k).copied();
                let Some((old, now)) = before else { return Err("the record to undo is gone".into()) };
                // only when nothing was merged into it since
                if now != d.1 {
                    check!(c.undo_merge_delta_data_element(k, u).is_err(), "an undo out of order");
                } else {
                    c.undo_merge_delta_data_element(k, u).map_err(|e| format!("undo of {k} fails: {e}"))?;
                    m.insert(k, (old, d.0));
                    g.tag("undone");
                    effective += 1;
                }
            }
            _ => {
                // a foreign undo
                let k = g.below(4) as u8;
                let d = change(g, &m, k);
                let u = DataDeltaUndo::new(delta(d));
                check_eq!(u.clone().consume(), delta(d), "undo object");
                let r = if g.bool() {
                    c.undo_merge_delta_data_element(k, u)
                } else {
                    c.undo_merge_delta_data(DeltaDataUndoCollection::from_data(BTreeMap::from([(k, u)])))
                };
                let ok = merge_model(&mut m, k, d);
                check_eq!(r.is_ok(), ok, "applying the undo {d:?} to {k}");
            }
        }
        check_coll(&c, &m)?;
    }
    g.nontrivial_if(effective >= 2);
    check_eq!(c.consume().len(), m.len(), "number of records");
    // d + undo(d) + d = d, on every recorded change
    for (k, d) in &m {
        let mut c = Coll::new();
        let u = c.merge_delta_data_element(*k, delta(*d)).map_err(|e| e.to_string())?;
        c.undo_merge_delta_data_element(*k, u).map_err(|e| e.to_string())?;
        check_eq!(view(&c)[k], (d.0, d.0), "merged and undone");
        let _ = c.merge_delta_data_element(*k, delta(*d)).map_err(|e| e.to_string())?;
        check_eq!(view(&c)[k], *d, "merged, undone and merged");
        check_eq!(delta(*d).invert().consume().invert().consume(), delta(*d), "inverted twice");
    }
    Ok(())
}

/// A list of collections in which every change follows the one before.
fn chain(g: &mut Gen, state: &mut BTreeMap<u8, V>) -> Vec<Model> {
    let n = g.len(1, 8);
    (0..n)
        .map(|_| {
            let mut one = Model::new();
            for _ in 0..g.urange(0, 4) {
                let k = g.below(4) as u8;
                if one.contains_key(&k) {
                    continue;
                }
                let old = state.get(&k).copied().flatten();
                let new = val(g);
                one.insert(k, (old, new));
                state.insert(k, new);
            }
            one
        })
        .collect()
}

fn coll(m: &Model) -> Coll {
    m.iter().map(|(k, d)| (*k, delta(*d))).collect()
}

/// Folds under a random grouping.
fn fold(g: &mut Gen, xs: &[Model]) -> Result<Coll, String> {
    if xs.len() == 1 {
        return Ok(coll(&xs[0]));
    }
    let cut = 1 + g.usize(xs.len() - 1);
    let mut a = fold(g, &xs[..cut])?;
    let b = fold(g, &xs[cut..])?;
    let _ = a.merge_delta_data(b).map_err(|e| format!("merging consistent changes fails: {e}"))?;
    Ok(a)
}

fn apply(base: &BTreeMap<u8, u8>, c: &Coll) -> Result<BTreeMap<u8, u8>, String> {
    let mut out = BTreeMap::new();
    for k in 0..4u8 {
        let r = combine_data_with_delta(base.get(&k).copied(), c.data().get(&k).cloned())
            .map_err(|e| format!("applying to record {k}: {e}"))?;
        if let Some(v) = r {
            out.insert(k, v);
        }
    }
    Ok(out)
}

fn record_grouping(g: &mut Gen) -> Res {
    let mut state: BTreeMap<u8, V> = (0..4).map(|k| (k, val(g))).collect();
    let base: BTreeMap<u8, u8> = state.iter().filter_map(|(k, v)| v.map(|v| (*k, v))).collect();
    let xs = chain(g, &mut state);
    note!(g, "base {base:?}, changes {xs:?}");
    let total: usize = xs.iter().map(|m| m.len()).sum();
    let keys: std::collections::BTreeSet<u8> = xs.iter().flat_map(|m| m.keys().copied()).collect();
    g.nontrivial_if(total > keys.len());
    g.tag_if(xs.len() > 2, "three or more collections");
    let want: BTreeMap<u8, u8> = state.iter().filter_map(|(k, v)| v.map(|v| (*k, v))).collect();
    // one after another
    let mut seq = base.clone();
    for x in &xs {
        seq = apply(&seq, &coll(x))?;
    }
    check_eq!(seq, want, "applied one after another");
    let a = fold(g, &xs)?;
    let b = fold(g, &xs)?;
    check!(a == b, "two groupings differ: {:?} and {:?}", view(&a), view(&b));
    check_eq!(apply(&base, &a)?, want, "merged and then applied");
    // undo of all merges, the latest first
    let mut c = Coll::new();
    let mut undos = vec![];
    let mut snaps = vec![];
    for x in &xs {
        snaps.push(apply(&base, &c)?);
        undos.push(c.merge_delta_data(coll(x)).map_err(|e| e.to_string())?);
    }
    while let (Some(u), Some(s)) = (undos.pop(), snaps.pop()) {
        c.undo_merge_delta_data(u).map_err(|e| format!("undo: {e}"))?;
        check_eq!(apply(&base, &c)?, s, "after undoing");
    }
    Ok(())
}

type AModel = BTreeMap<u8, i128>;

fn signed(g: &mut Gen) -> i128 {
    match g.weighted(&[5, 2, 2]) {
        0 => i128::from(g.range(0, 20) as i64 - 10),
        1 => {
            let d = i128::from(g.below(4) as i64);
            *g.pick(&[i128::MAX - d, i128::MIN + d, i128::MAX / 2 + d, i128::MIN / 2 - d])
        }
        _ => g.u128() as i128,
    }
}

fn aview(c: &DeltaAmountCollection<u8>) -> AModel {
    c.data().iter().map(|(k, v)| (*k, v.into_atoms())).collect()
}

fn balance_histories(g: &mut Gen) -> Res {
    let mut c = DeltaAmountCollection::<u8>::new();
    let mut m = AModel::new();
    let n = g.len(1, 24);
    let mut eff = 0;
    // the model: sum or nothing
    fn add(m: &mut AModel, k: u8, d: Option<i128>) -> bool {
        let Some(d) = d else { return false };
        let Some(s) = m.get(&k).copied().unwrap_or(0).checked_add(d) else { return false };
        if s == 0 {
            m.remove(&k);
        } else {
            m.insert(k, s);
        }
        true
    }
    for _ in 0..n {
        let k = g.below(4) as u8;
        match g.weighted(&[4, 3, 3, 3, 3]) {
            0 => {
                let d = signed(g);
                note!(g, "merge {k}: {d}");
                let had = m.contains_key(&k);
                let r = c.merge_delta_amount_element(k, SignedAmount::from_atoms(d));
                let ok = add(&mut m, k, Some(d));
                check_eq!(r.is_ok(), ok, "merging {d} into {k}");
                eff += usize::from(had && ok);
                g.tag_if(!ok, "overflow refused");
            }
            1 | 2 => {
                let a = if g.bool() { u128::from(g.below(20)) } else { g.u128() };
                let minus = g.bool();
                note!(g, "{} {k}: {a}", if minus { "sub" } else { "add" });
                let amount = Amount::from_atoms(a);
                let r = if minus { c.sub_unsigned(k, amount) } else { c.add_unsigned(k, amount) };
                let d = i128::try_from(a).ok().map(|a| if minus { -a } else { a });
                let had = m.contains_key(&k);
                let ok = add(&mut m, k, d);
                check_eq!(r.is_ok(), ok, "{a} {} {k}", if minus { "from" } else { "to" });
                eff += usize::from(had && ok);
            }
            w => {
                let mut other = AModel::new();
                for _ in 0..g.urange(0, 4) {
                    other.insert(g.below(4) as u8, signed(g));
                }
                if w == 4 && g.bool() {
                    // what is there, or the opposite
                    other = m.iter().map(|(k, v)| (*k, *v)).collect();
                }
                note!(g, "{} all {other:?}", if w == 3 { "merge" } else { "undo" });
                let oc: DeltaAmountCollection<u8> =
                    other.iter().map(|(k, v)| (*k, SignedAmount::from_atoms(*v))).collect();
                let before = m.clone();
                let mut after = m.clone();
                let sign = |v: &i128| if w == 3 { Some(*v) } else { v.checked_neg() };
                let ok = other.iter().all(|(k, v)| add(&mut after, *k, sign(v)));
                let back = oc.clone();
                let r = if w == 3 { c.merge_delta_amounts(oc) } else { c.undo_merge_delta_amounts(oc) };
                check_eq!(r.is_ok(), ok, "merging or undoing {other:?} over {before:?}");
                if ok {
                    m = after;
                    eff += other.len();
                    if w == 3 && g.bool() && other.values().all(|v| *v != i128::MIN) {
                        // undone at once
                        c.undo_merge_delta_amounts(back).map_err(|e| format!("undo: {e}"))?;
                        m = before;
                        g.tag("undone");
                    }
                } else {
                    let now = aview(&c);
                    for k in 0..4u8 {
                        let mut one = before.clone();
                        let mut allowed = vec![before.get(&k).copied()];
                        if let Some(v) = other.get(&k) {
                            if add(&mut one, k, sign(v)) {
                                allowed.push(one.get(&k).copied());
                            }
                        }
                        check!(allowed.contains(&now.get(&k).copied()), "balance {k} after a refused merge: {:?}", now.get(&k));
                    }
                    m = now;
                    g.tag("collection refused");
                }
            }
        }
        check_eq!(aview(&c), m, "balances");
        check!(c.data().values().all(|v| *v != SignedAmount::ZERO), "a change of zero is recorded");
    }
    g.nontrivial_if(eff >= 2);
    let got: AModel = c.consume().into_iter().map(|(k, v)| (k, v.into_atoms())).collect();
    check_eq!(got, m, "consumed");
    Ok(())
}

fn balance_grouping(g: &mut Gen) -> Res {
    let n = g.len(1, 8);
    let small = |g: &mut Gen| match g.weighted(&[4, 1]) {
        0 => i128::from(g.range(0, 20) as i64 - 10),
        _ => (g.u128() as i128) / 64,
    };
    let xs: Vec<AModel> =
        (0..n).map(|_| (0..g.urange(0, 4)).map(|_| (g.below(4) as u8, small(g))).collect()).collect();
    note!(g, "{xs:?}");
    let mk = |m: &AModel| -> DeltaAmountCollection<u8> { m.iter().map(|(k, v)| (*k, SignedAmount::from_atoms(*v))).collect() };
    fn fold(
        g: &mut Gen,
        xs: &[AModel],
        mk: &dyn Fn(&AModel) -> DeltaAmountCollection<u8>,
    ) -> Result<DeltaAmountCollection<u8>, String> {
        if xs.len() == 1 {
            return Ok(mk(&xs[0]));
        }
        let cut = 1 + g.usize(xs.len() - 1);
        let mut a = fold(g, &xs[..cut], mk)?;
        let b = fold(g, &xs[cut..], mk)?;
        a.merge_delta_amounts(b).map_err(|e| format!("merging: {e}"))?;
        Ok(a)
    }
    let mut want = BTreeMap::<u8, i128>::new();
    for (k, v) in xs.iter().flatten() {
        *want.entry(*k).or_default() += v;
    }
    let a = fold(g, &xs, &mk)?;
    for k in 0..4u8 {
        let got = a.data().get(&k).map(|v| v.into_atoms()).unwrap_or(0);
        check_eq!(got, want.get(&k).copied().unwrap_or(0), "sum of balance {k}");
    }
    g.nontrivial_if(xs.iter().filter(|m| !m.is_empty()).count() >= 2);
    // applied to a base: merged first or one after another, when every step stays in range
    let base: BTreeMap<u8, u128> = (0..4u8).map(|k| (k, u128::from(g.below(100)))).collect();
    for k in 0..4u8 {
        let mut cur = Ok(Amount::from_atoms(base[&k]));
        for x in &xs {
            let d = x.get(&k).map(|v| SignedAmount::from_atoms(*v));
            cur = cur.and_then(|c| combine_amount_delta(c, d));
        }
        let at_once = combine_amount_delta(Amount::from_atoms(base[&k]), a.data().get(&k).copied());
        if let Ok(c) = cur {
            check_eq!(at_once.clone().map_err(|e| e.to_string()), Ok(c), "balance {k} applied at once");
        }
        // in a stack of layers the view is the base and all layers together
        let exact = BigInt::from(base[&k]) + BigInt::from(want.get(&k).copied().unwrap_or(0));
        check_eq!(at_once.ok().map(|a| a.into_atoms()), exact.to_u128().filter(|v| i128::try_from(*v).is_ok()), "balance {k}");
    }
    Ok(())
}

/// Layers of changes over a base: views, flushes and the final state.
fn layers(g: &mut Gen) -> Res {
    let mut base: BTreeMap<u8, u8> = (0..4).filter_map(|k| val(g).map(|v| (k, v))).collect();
    let mut model = base.clone();
    let mut stack: Vec<(Coll, DeltaAmountCollection<u8>)> = vec![(Coll::new(), DeltaAmountCollection::new())];
    let mut bal: BTreeMap<u8, u128> = BTreeMap::from([(0, 5), (1, 50)]);
    let mut bmodel = bal.clone();
    let steps = g.len(1, 24);
    let mut changed = 0;
    for _ in 0..steps {
        match g.weighted(&[6, 4, 2, 2]) {
            0 => {
                let k = g.below(4) as u8;
                let new = val(g);
                let old = model.get(&k).copied();
                note!(g, "layer {}: record {k} {old:?} -> {new:?}", stack.len());
                let _ = stack
                    .last_mut()
                    .unwrap()
                    .0
                    .merge_delta_data_element(k, DataDelta::new(old, new))
                    .map_err(|e| format!("record {k} {old:?} -> {new:?}: {e}"))?;
                match new {
                    Some(v) => model.insert(k, v),
                    None => model.remove(&k),
                };
                changed += 1;
            }
            1 => {
                let k = g.below(3) as u8;
                let cur = bmodel.get(&k).copied().unwrap_or(0);
                let v = if g.bool() { u128::from(g.below(30)) } else { cur };
                let top = &mut stack.last_mut().unwrap().1;
                if g.bool() || v > cur {
                    note!(g, "layer: balance {k} + {v}");
                    top.add_unsigned(k, Amount::from_atoms(v)).map_err(|e| e.to_string())?;
                    bmodel.insert(k, cur + v);
                } else {
                    note!(g, "layer: balance {k} - {v}");
                    top.sub_unsigned(k, Amount::from_atoms(v)).map_err(|e| e.to_string())?;
                    bmodel.insert(k, cur - v);
                }
                changed += 1;
            }
            2 if stack.len() < 4 => {
                note!(g, "new layer");
                stack.push((Coll::new(), DeltaAmountCollection::new()));
            }
            _ => {
                note!(g, "flush");
                let (top, atop) = stack.pop().unwrap();
                g.tag("flush");
                match stack.last_mut() {
                    Some((c, a)) => {
                        let _ = c.merge_delta_data(top).map_err(|e| format!("flush: {e}"))?;
                        a.merge_delta_amounts(atop).map_err(|e| format!("flush: {e}"))?;
                    }
                    None => {
                        base = apply(&base, &top)?;
                        for (k, d) in atop.consume() {
                            let b = Amount::from_atoms(bal.get(&k).copied().unwrap_or(0));
                            let r = combine_amount_delta(b, Some(d)).map_err(|e| format!("flush: {e}"))?;
                            bal.insert(k, r.into_atoms());
                        }
                        stack.push((Coll::new(), DeltaAmountCollection::new()));
                    }
                }
            }
        }
        // what is seen from the top
        for k in 0..4u8 {
            let mut seen = base.get(&k).copied();
            for (c, _) in &stack {
                match c.get_data(&k) {
                    GetDataResult::Present(v) => seen = Some(*v),
                    GetDataResult::Deleted => seen = None,
                    GetDataResult::Missing => {}
                }
            }
            check_eq!(seen, model.get(&k).copied(), "record {k} seen from the top");
            let mut b = Amount::from_atoms(bal.get(&k).copied().unwrap_or(0));
            let mut sum = Some(SignedAmount::ZERO);
            for (_, a) in &stack {
                if let Some(d) = a.data().get(&k) {
                    sum = sum.and_then(|s| s + *d);
                }
            }
            b = combine_amount_delta(b, sum).map_err(|e| e.to_string())?;
            check_eq!(b.into_atoms(), bmodel.get(&k).copied().unwrap_or(0), "balance {k} seen from the top");
        }
    }
    g.nontrivial_if(changed >= 2);
    Ok(())
}

fn apply_record(g: &mut Gen) -> Res {
    let i = g.below(5 * 26);
    let opt = |v: u64| (v > 0).then_some(v as u8);
    let lhs = opt(i / 26);
    let d = match i % 26 {
        25 => None,
        j => Some((opt(j / 5), opt(j % 5))),
    };
    note!(g, "{lhs:?} with {d:?}");
    g.nontrivial_if(d.is_some_and(|d| d.0 != d.1));
    let got = combine_data_with_delta(lhs, d.map(delta)).ok();
    let want = match d {
        None => Some(lhs),
        Some((old, new)) => (old == lhs).then_some(new),
    };
    check_eq!(got, want, "{lhs:?} with {d:?}");
    Ok(())
}

fn apply_balance(g: &mut Gen) -> Res {
    let a = g.u128();
    let d = match g.below(4) {
        0 => None,
        1 => Some((a as i128).wrapping_neg().wrapping_add(g.below(5) as i128 - 2)),
        2 => Some(i128::MAX.wrapping_sub(a as i128).wrapping_add(g.below(5) as i128 - 2)),
        _ => Some(signed(g)),
    };
    note!(g, "{a} with {d:?}");
    g.nontrivial_if(d.is_some_and(|d| d != 0) && a > 0);
    let got = combine_amount_delta(Amount::from_atoms(a), d.map(SignedAmount::from_atoms)).ok().map(|a| a.into_atoms());
    let want = match d {
        None => Some(a),
        Some(d) => i128::try_from(a).ok().and_then(|a| a.checked_add(d)).and_then(|s| u128::try_from(s).ok()),
    };
    g.tag(if want.is_some() { "applied" } else { "refused" });
    check_eq!(got, want, "{a} with {d:?}");
    Ok(())
}

fn codec(g: &mut Gen) -> Res {
    let m: Model = (0..g.urange(0, 5)).map(|_| (g.byte(), (val(g), val(g)))).collect();
    let a: AModel = (0..g.urange(0, 5)).map(|_| (g.byte(), signed(g))).collect();
    note!(g, "{m:?} {a:?}");
    g.nontrivial_if(m.len() + a.len() > 1);
    let c = coll(&m);
    let e = c.encode();
    check_eq!(e.len(), c.encoded_size(), "size");
    let mut want = vec![(m.len() as u8) << 2];
    for (k, (o, n)) in &m {
        want.push(*k);
        for v in [o, n] {
            match v {
                None => want.push(0),
                Some(x) => want.extend([1, *x]),
            }
        }
    }
    check_eq!(e, want, "encoding of {m:?}");
    check!(Coll::decode_all(&mut &e[..]).as_ref() == Ok(&c), "record changes decode differently: {m:?}");
    let u = DeltaDataUndoCollection::from_data(m.iter().map(|(k, d)| (*k, DataDeltaUndo::new(delta(*d)))).collect());
    check_eq!(u.encode(), want, "encoding of undo");
    check!(DeltaDataUndoCollection::decode_all(&mut &want[..]).as_ref() == Ok(&u), "undo decodes differently");
    let c: DeltaAmountCollection<u8> = a.iter().map(|(k, v)| (*k, SignedAmount::from_atoms(*v))).collect();
    let e = c.encode();
    check!(DeltaAmountCollection::decode_all(&mut &e[..]).as_ref() == Ok(&c), "balance changes decode differently: {a:?}");
    check_eq!(aview(&c), a, "collected balances");
    Ok(())
}
