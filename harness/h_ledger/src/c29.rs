//! Staking pools and delegations against a plain model.
use chainstate_storage::{inmemory::Store, TransactionRw, Transactional};
use chainstate_types::TipStorageTag;
use common::{
    chain::{DelegationId, Destination, PoolId},
    primitives::{Amount, H256},
};
use gens::make;
use pbt::{check, check_eq, facet, note, Gen, Property, Res};
use pos_accounting::{
    DefaultStorageTag, DelegationData, InMemoryPoSAccounting, PoSAccountingDB, PoSAccountingDelta, PoSAccountingDeltaData,
    PoSAccountingOperations, PoSAccountingStorageRead, PoSAccountingUndo, PoSAccountingView, PoolData,
};
use serialization::{DecodeAll, Encode};
use std::collections::{BTreeMap, BTreeSet};

pub const P: Property = Property {
    id: "C29",
    rule: "Histories of up to 40 staking operations (valid and invalid), flushes, new layers and undos over 5 pools and 6 delegations with amounts up to the signed limit, over up to 4 layers, with all reads compared with plain maps after every step and the base written through the node's storage as well. Non-trivial: at least 4 operations took effect, including a delegation.",
    facets: &[facet("histories", 25_000, histories), facet("undo_everything", 15_000, undo_everything)],
    assumptions: &[
        "The balance recorded for a decommissioned pool is not specified (coins may still be delegated to its old delegations).",
        "A refused operation is made in a scratch layer that is dropped, as the node does; overspending may be detected when the balance is read or flushed.",
    ],
};

const MAX: u128 = i128::MAX as u128;

type View<'a> = Box<dyn PoSAccountingView<Error = pos_accounting::Error> + 'a>;

#[derive(Clone, Default, PartialEq, Eq, Debug)]
pub(crate) struct Model {
    pub(crate) pools: BTreeMap<PoolId, (PoolData, u128, u128)>, // data at creation, pledge, rewards
    pub(crate) dels: BTreeMap<DelegationId, (PoolId, Destination, u128)>,
    pub(crate) gone: BTreeSet<PoolId>,
}

impl Model {
    fn shares(&self, p: &PoolId) -> BTreeMap<DelegationId, Amount> {
        self.dels.iter().filter(|(_, d)| d.0 == *p && d.2 > 0).map(|(k, d)| (*k, Amount::from_atoms(d.2))).collect()
    }
    pub(crate) fn balance(&self, p: &PoolId) -> Option<u128> {
        let (_, pledge, rewards) = self.pools.get(p)?;
        let mut sum = pledge.checked_add(*rewards)?;
        for d in self.dels.values().filter(|d| d.0 == *p) {
            sum = sum.checked_add(d.2)?;
        }
        Some(sum)
    }
    fn representable(&self) -> bool {
        self.dels.values().all(|d| d.2 <= MAX) && self.pools.keys().all(|p| self.balance(p).is_some_and(|b| b <= MAX))
    }
    pub(crate) fn pool_data(&self, p: &PoolId) -> Option<PoolData> {
        self.pools.get(p).map(|(d, pledge, rewards)| {
            PoolData::new(
                d.decommission_destination().clone(),
                Amount::from_atoms(*pledge),
                Amount::from_atoms(*rewards),
                d.vrf_public_key().clone(),
                d.margin_ratio_per_thousand(),
                d.cost_per_block(),
            )
        })
    }
}

struct Ids {
    pools: Vec<PoolId>,
    dels: Vec<DelegationId>,
}

fn ids(g: &mut Gen) -> Ids {
    // neighbouring and extreme identifiers: shares of a pool are read as a key range
    let mut set = BTreeSet::new();
    set.insert([0u8; 32]);
    set.insert([0xff; 32]);
    let mut base: [u8; 32] = g.array();
    base[31] = 0x7f;
    for d in 0..4u8 {
        let mut b = base;
        b[31] = 0x7e + d;
        set.insert(b);
    }
    let mut all: Vec<H256> = set.into_iter().map(H256).collect();
    g.shuffle(&mut all);
    let pools = all.iter().take(5).map(|h| PoolId::new(*h)).collect();
    g.shuffle(&mut all);
    let dels = all.iter().map(|h| DelegationId::new(*h)).collect();
    Ids { pools, dels }
}

fn view<'a>(base: &'a InMemoryPoSAccounting, layers: &'a [PoSAccountingDeltaData]) -> View<'a> {
    let mut v: View<'a> = Box::new(PoSAccountingDB::<_, DefaultStorageTag>::new(base));
    for l in layers {
        v = Box::new(PoSAccountingDelta::from_data(v, l.clone()));
    }
    v
}

fn compare<V: PoSAccountingView + ?Sized>(v: &V, m: &Model, ids: &Ids, what: &str) -> Res {
    let e = |x: V::Error| format!("{what}: reading failed: {x}");
    for p in &ids.pools {
        check_eq!(v.pool_exists(*p).map_err(e)?, m.pools.contains_key(p), "{what}: pool exists");
        check_eq!(v.get_pool_data(*p).map_err(e)?, m.pool_data(p), "{what}: pool data");
        if let (Some(d), Some((made, pledge, rewards))) = (v.get_pool_data(*p).map_err(e)?, m.pools.get(p)) {
            check_eq!((d.pledge_amount().into_atoms(), d.staker_rewards().into_atoms()), (*pledge, *rewards), "{what}: pledge, rewards");
            let own = pledge.checked_add(*rewards);
            check_eq!(d.staker_balance().ok().map(|a| a.into_atoms()), own, "{what}: staker balance");
            check_eq!(d.is_decommissioned(), own == Some(0), "{what}: decommissioned");
            check_eq!(d.decommission_destination(), made.decommission_destination(), "{what}: decommission destination");
            check_eq!((d.margin_ratio_per_thousand(), d.cost_per_block()), (made.margin_ratio_per_thousand(), made.cost_per_block()), "{what}: terms");
        }
        if m.pools.contains_key(p) || !m.gone.contains(p) {
            let want = m.balance(p).unwrap_or(0);
            check_eq!(v.get_pool_balance(*p).map_err(e)?.into_atoms(), want, "{what}: pool balance");
        }
        let got: BTreeMap<_, _> = v
            .get_pool_delegations_shares(*p)
            .map_err(e)?
            .unwrap_or_default()
            .into_iter()
            .filter(|(_, a)| *a != Amount::ZERO)
            .collect();
        check_eq!(got, m.shares(p), "{what}: shares of a pool");
        for d in &ids.dels {
            let want = m.dels.get(d).filter(|x| x.0 == *p).map_or(0, |x| x.2);
            check_eq!(v.get_pool_delegation_share(*p, *d).map_err(e)?.into_atoms(), want, "{what}: one share");
        }
    }
    for d in &ids.dels {
        let want = m.dels.get(d);
        check_eq!(v.get_delegation_balance(*d).map_err(e)?.into_atoms(), want.map_or(0, |x| x.2), "{what}: delegation balance");
        check_eq!(
            v.get_delegation_data(*d).map_err(e)?,
            want.map(|x| DelegationData::new(x.0, x.1.clone())),
            "{what}: delegation data"
        );
    }
    Ok(())
}

fn readable<V: PoSAccountingView + ?Sized>(v: &V, ids: &Ids) -> bool {
    ids.pools.iter().all(|p| {
        v.get_pool_balance(*p).is_ok()
            && v.get_pool_delegations_shares(*p).is_ok()
            && ids.dels.iter().all(|d| v.get_pool_delegation_share(*p, *d).is_ok())
    }) && ids.dels.iter().all(|d| v.get_delegation_balance(*d).is_ok())
}

fn amount(g: &mut Gen, near: u128) -> u128 {
    match g.below(8) {
        0 => 0,
        1 => near,
        2 => near.saturating_add(1),
        3 => near / 2,
        4 => g.u128() >> g.urange(0, 127),
        5 => MAX - g.below(3) as u128,
        _ => g.range(1, 100_000) as u128,
    }
}

#[derive(Clone, Debug)]
pub(crate) enum Op {
    Create(PoolId, PoolData),
    Decommission(PoolId),
    Reward(PoolId, u128),
    NewDelegation(PoolId, DelegationId, Destination),
    Delete(DelegationId),
    Delegate(DelegationId, u128),
    Spend(DelegationId, u128),
}

fn op(g: &mut Gen, m: &Model, ids: &Ids) -> Op {
    let mut p = *g.pick(&ids.pools);
    let mut d = *g.pick(&ids.dels);
    let fresh = d;
    if !m.pools.is_empty() && g.chance(3, 4) {
        let k: Vec<_> = m.pools.keys().copied().collect();
        p = *g.pick(&k);
    }
    if !m.dels.is_empty() && g.chance(3, 4) {
        let k: Vec<_> = m.dels.keys().copied().collect();
        d = *g.pick(&k);
    }
    // delegations whose pool is gone, to be emptied and deleted
    let orphans: Vec<_> = m.dels.iter().filter(|(_, x)| !m.pools.contains_key(&x.0)).map(|(k, _)| *k).collect();
    if !orphans.is_empty() && g.chance(1, 2) {
        d = *g.pick(&orphans);
    }
    let have = m.dels.get(&d).map_or(0, |x| x.2);
    match g.weighted(&[if m.pools.len() < 2 { 6 } else { 1 }, 1, 3, 4, 2, 6, 4]) {
        0 => {
            let fresh_pool = *g.pick(&ids.pools);
            let pd: PoolData = make::pool_data(g).into();
            let pledge = if g.chance(1, 4) { amount(g, MAX) } else { g.range(0, 1_000_000) as u128 };
            let rewards = 0;
            Op::Create(
                fresh_pool,
                PoolData::new(
                    pd.decommission_destination().clone(),
                    Amount::from_atoms(pledge),
                    Amount::from_atoms(rewards),
                    pd.vrf_public_key().clone(),
                    pd.margin_ratio_per_thousand(),
                    pd.cost_per_block(),
                ),
            )
        }
        1 => Op::Decommission(p),
        2 => {
            let room = MAX.saturating_sub(m.balance(&p).unwrap_or(0));
            Op::Reward(p, if g.chance(1, 5) { amount(g, room) } else { g.range(0, 50_000) as u128 })
        }
        3 => Op::NewDelegation(p, if g.chance(3, 4) { fresh } else { d }, make::destination(g)),
        4 => Op::Delete(d),
        5 => {
            let room = m.dels.get(&d).and_then(|x| m.balance(&x.0)).map_or(MAX, |b| MAX.saturating_sub(b));
            Op::Delegate(d, if g.chance(1, 4) { amount(g, room) } else { g.range(0, 50_000) as u128 })
        }
        _ => Op::Spend(d, amount(g, have)),
    }
}

pub(crate) fn step(m: &Model, op: &Op) -> Option<Model> {
    let mut n = m.clone();
    match op {
        Op::Create(p, d) => {
            if m.pools.contains_key(p) {
                return None;
            }
            n.pools.insert(*p, (d.clone(), d.pledge_amount().into_atoms(), d.staker_rewards().into_atoms()));
        }
        Op::Decommission(p) => {
            n.pools.remove(p)?;
            n.gone.insert(*p);
        }
        Op::Reward(p, a) => {
            let x = n.pools.get_mut(p)?;
            x.2 = x.2.checked_add(*a)?;
        }
        Op::NewDelegation(p, d, k) => {
            if !m.pools.contains_key(p) || m.dels.contains_key(d) {
                return None;
            }
            n.dels.insert(*d, (*p, k.clone(), 0));
        }
        Op::Delete(d) => {
            let x = m.dels.get(d)?;
            if x.2 > 0 || m.pools.contains_key(&x.0) {
                return None;
            }
            n.dels.remove(d);
        }
        Op::Delegate(d, a) => {
            let x = n.dels.get_mut(d)?;
            x.2 = x.2.checked_add(*a)?;
        }
        Op::Spend(d, a) => {
            let x = n.dels.get_mut(d)?;
            x.2 = x.2.checked_sub(*a)?;
        }
    }
    n.representable().then_some(n)
}

pub(crate) fn apply<T: PoSAccountingOperations<PoSAccountingUndo>>(t: &mut T, op: &Op) -> Result<PoSAccountingUndo, pos_accounting::Error> {
    let am = Amount::from_atoms;
    match op.clone() {
        Op::Create(p, d) => t.create_pool(p, d),
        Op::Decommission(p) => t.decommission_pool(p),
        Op::Reward(p, a) => t.increase_staker_rewards(p, am(a)),
        Op::NewDelegation(p, d, k) => t.create_delegation_id(p, d, k),
        Op::Delete(d) => t.delete_delegation_id(d),
        Op::Delegate(d, a) => t.delegate_staking(d, am(a)),
        Op::Spend(d, a) => t.spend_share_from_delegation_id(d, am(a)),
    }
}

struct World {
    base: InMemoryPoSAccounting,
    disk: Store,
    layers: Vec<PoSAccountingDeltaData>,
    m: Model,
    ids: Ids,
    undos: Vec<(PoSAccountingUndo, Model)>,
}

impl World {
    fn new(g: &mut Gen) -> Result<World, String> {
        Ok(World {
            base: InMemoryPoSAccounting::new(),
            disk: Store::new_empty().map_err(|e| e.to_string())?,
            layers: vec![Default::default()],
            m: Model::default(),
            ids: ids(g),
            undos: vec![],
        })
    }

    fn check(&self, what: &str) -> Res {
        compare(&view(&self.base, &self.layers), &self.m, &self.ids, what)
    }

    /// Runs something in a scratch layer and keeps it if wanted.
    fn scratch<R>(
        &mut self,
        direct: bool,
        f: impl FnOnce(&mut PoSAccountingDelta<View<'_>>) -> Result<R, pos_accounting::Error>,
        keep: impl FnOnce(&PoSAccountingDelta<View<'_>>) -> bool,
    ) -> Result<Option<R>, String> {
        let (below, top) = self.layers.split_at(self.layers.len() - 1);
        let (mut d, merge) = if direct {
            (PoSAccountingDelta::from_data(view(&self.base, below), top[0].clone()), false)
        } else {
            (PoSAccountingDelta::new(view(&self.base, &self.layers)), true)
        };
        let r = f(&mut d);
        let Ok(r) = r else { return Ok(None) };
        if !keep(&d) {
            return Ok(None);
        }
        let data = d.consume();
        let n = self.layers.len() - 1;
        if merge {
            let bytes = data.encode();
            let data = PoSAccountingDeltaData::decode_all(&mut bytes.as_slice()).map_err(|e| e.to_string())?;
            let before = self.layers[n].clone();
            let undo = self.layers[n].merge_with_delta(data.clone()).map_err(|e| format!("merging a valid layer failed: {e}"))?;
            // the merge itself can be undone
            let mut back = self.layers[n].clone();
            back.undo_delta_merge(undo).map_err(|e| format!("undoing a merge failed: {e}"))?;
            let mut tmp = std::mem::replace(&mut self.layers[n], back);
            let was = snapshot(&view(&self.base, &self.layers), &self.ids);
            self.layers[n] = before;
            check_eq!(was, snapshot(&view(&self.base, &self.layers), &self.ids), "undoing the merge of a layer");
            std::mem::swap(&mut self.layers[n], &mut tmp);
        } else {
            self.layers[n] = data;
        }
        Ok(Some(r))
    }

    fn flush(&mut self) -> Res {
        let Some(top) = self.layers.pop() else { return Ok(()) };
        if let Some(n) = self.layers.last_mut() {
            n.merge_with_delta(top).map_err(|e| format!("flushing into a layer failed: {e}"))?;
        } else {
            let before = self.base.clone();
            let undo = PoSAccountingDB::<_, DefaultStorageTag>::new(&mut self.base)
                .merge_with_delta(top.clone())
                .map_err(|e| format!("flushing into the base failed: {e}"))?;
            let mut back = self.base.clone();
            PoSAccountingDB::<_, DefaultStorageTag>::new(&mut back)
                .undo_merge_with_delta(undo)
                .map_err(|e| format!("undoing a flush failed: {e}"))?;
            check_eq!(back, before, "undoing the flush into the base");
            let mut tx = self.disk.transaction_rw(None).map_err(|e| e.to_string())?;
            PoSAccountingDB::<_, TipStorageTag>::new(&mut tx)
                .merge_with_delta(top)
                .map_err(|e| format!("flushing into storage failed: {e}"))?;
            tx.commit().map_err(|e| e.to_string())?;
            self.layers.push(Default::default());
        }
        Ok(())
    }

    fn undo(&mut self, g: &mut Gen) -> Result<bool, String> {
        let Some((u, before)) = self.undos.pop() else { return Ok(false) };
        let u = PoSAccountingUndo::decode_all(&mut u.encode().as_slice()).map_err(|e| format!("stored undo data: {e}"))?;
        let direct = g.bool();
        note!(g, "undo {u:?} (direct {direct})");
        let mut err = None;
        let r = self.scratch(
            direct,
            |d| {
                d.undo(u).inspect_err(|e| err = Some(e.clone()))
            },
            |_| true,
        )?;
        check!(r.is_some(), "undoing the last operation failed: {err:?}");
        self.m = before;
        Ok(true)
    }

    fn finish(&mut self) -> Res {
        while self.layers.len() > 1 || self.layers.iter().any(|l| *l != Default::default()) {
            self.flush()?;
        }
        self.check("after flushing everything")?;
        let tx = self.disk.transaction_ro().map_err(|e| e.to_string())?;
        let disk = PoSAccountingDB::<_, TipStorageTag>::new(&tx);
        compare(&disk, &self.m, &self.ids, "in storage")?;
        // nothing but live balances is stored
        for d in self.base.all_delegation_balances() {
            check!(*d.1 > Amount::ZERO, "a zero balance is stored");
            check!(self.m.dels.contains_key(d.0), "a balance of a deleted delegation is stored");
        }
        for p in &self.ids.pools {
            let s: &InMemoryPoSAccounting = &self.base;
            let m = PoSAccountingStorageRead::<DefaultStorageTag>::get_pool_delegations_shares(&s, *p).map_err(|e| e.to_string())?;
            check!(m.iter().flatten().all(|x| *x.1 > Amount::ZERO), "a zero share is stored");
        }
        Ok(())
    }
}

type Snap = (Vec<(Option<PoolData>, Result<Amount, String>, BTreeMap<DelegationId, Amount>)>, Vec<(Option<DelegationData>, Result<Amount, String>)>);

/// Everything visible, as far as it can be read.
fn snapshot<V: PoSAccountingView + ?Sized>(v: &V, ids: &Ids) -> Snap {
    (
        ids.pools
            .iter()
            .map(|p| {
                (
                    v.get_pool_data(*p).ok().flatten(),
                    v.get_pool_balance(*p).map_err(|e| e.to_string()),
                    v.get_pool_delegations_shares(*p).ok().flatten().unwrap_or_default().into_iter().filter(|x| x.1 != Amount::ZERO).collect(),
                )
            })
            .collect(),
        ids.dels
            .iter()
            .map(|d| (v.get_delegation_data(*d).ok().flatten(), v.get_delegation_balance(*d).map_err(|e| e.to_string())))
            .collect(),
    )
}

fn one(g: &mut Gen, w: &mut World, done: &mut [usize; 2]) -> Res {
    let o = op(g, &w.m, &w.ids);
    let direct = g.bool();
    let next = step(&w.m, &o);
    note!(g, "{:?} (direct {direct}) allowed: {}", o, next.is_some());
    // coins sent to the delegations of a dead pool, or a pool created again under an old identifier
    let loose = match &o {
        Op::Delegate(d, _) => w.m.dels.get(d).is_some_and(|x| !w.m.pools.contains_key(&x.0)),
        Op::Create(p, _) => w.m.gone.contains(p),
        _ => false,
    };
    if loose {
        g.tag("dead pool");
        if matches!(o, Op::Create(..)) {
            return Ok(());
        }
    }
    let before = snapshot(&view(&w.base, &w.layers), &w.ids);
    let id_list = Ids { pools: w.ids.pools.clone(), dels: w.ids.dels.clone() };
    let mut err = None;
    let unknown = match &o {
        Op::Create(..) | Op::Delete(_) | Op::NewDelegation(..) | Op::Decommission(_) => next.is_none() && {
            // refused before anything is recorded
            !matches!(&o, Op::Create(p, _) if !w.m.pools.contains_key(p))
        },
        Op::Reward(p, _) => !w.m.pools.contains_key(p),
        Op::Delegate(d, _) | Op::Spend(d, _) => !w.m.dels.contains_key(d),
    };
    if unknown && direct {
        // refused and without any effect even on the layer itself
        let (below, top) = w.layers.split_at(w.layers.len() - 1);
        let mut d = PoSAccountingDelta::from_data(view(&w.base, below), top[0].clone());
        check!(apply(&mut d, &o).is_err(), "{o:?} must be refused");
        check_eq!(&d.consume(), &top[0], "a refused operation changed the layer");
        done[1] += 1;
        return Ok(());
    }
    let r = w.scratch(
        direct,
        |d| apply(d, &o).inspect_err(|e| err = Some(e.clone())),
        |d| readable(d, &id_list) ,
    )?;
    match (r, next) {
        (Some(u), Some(n)) => {
            g.tag(match &o {
                Op::Create(..) => "create pool",
                Op::Decommission(_) => "decommission",
                Op::Reward(..) => "reward",
                Op::NewDelegation(..) => "create delegation",
                Op::Delete(_) => "delete delegation",
                Op::Delegate(..) => "delegate",
                Op::Spend(..) => "spend",
            });
            done[0] += 1;
            let old = std::mem::replace(&mut w.m, n);
            w.undos.push((u, old));
        }
        (Some(_), None) => return Err(format!("{o:?} was accepted although the rules forbid it")),
        (None, Some(_)) if loose => {}
        (None, Some(_)) => return Err(format!("{o:?} was refused although the rules allow it: {err:?}")),
        (None, None) => {
            g.tag("refused");
            done[1] += 1;
            check_eq!(snapshot(&view(&w.base, &w.layers), &w.ids), before, "a refused operation has an effect");
        }
    }
    Ok(())
}

fn histories(g: &mut Gen) -> Res {
    let mut w = World::new(g)?;
    let mut done = [0usize; 2];
    let n = g.urange(8, 40);
    for _ in 0..n {
        match g.weighted(&[16, 2, 2, 3]) {
            0 => one(g, &mut w, &mut done)?,
            1 => {
                if w.layers.len() < 4 {
                    w.layers.push(Default::default());
                }
            }
            2 => {
                note!(g, "flush");
                w.flush()?;
                g.tag("flush");
            }
            _ => {
                if w.undo(g)? {
                    g.tag("undo");
                }
            }
        }
        w.check("after a step")?;
    }
    w.finish()?;
    g.nontrivial_if(done[0] >= 4 && !w.m.dels.is_empty());
    Ok(())
}

/// A whole history is undone operation by operation, with flushes in between.
fn undo_everything(g: &mut Gen) -> Res {
    let mut w = World::new(g)?;
    let mut done = [0usize; 2];
    for _ in 0..g.urange(5, 30) {
        one(g, &mut w, &mut done)?;
        if g.chance(1, 5) {
            w.flush()?;
        }
    }
    w.finish()?;
    w.check("before undoing")?;
    while w.undo(g)? {
        w.check("after undoing")?;
        if g.chance(1, 5) {
            w.flush()?;
        }
    }
    w.finish()?;
    check_eq!(w.m, Model::default(), "the model is empty again");
    check_eq!(w.base, InMemoryPoSAccounting::new(), "undoing the whole history leaves an empty base");
    g.nontrivial_if(done[0] >= 4);
    Ok(())
}
