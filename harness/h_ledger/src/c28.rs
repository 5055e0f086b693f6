//! Unspent outputs against a plain map.
use chainstate_storage::{inmemory::Store, TransactionRw, Transactional};
use common::{
    chain::{
        block::{BlockReward, BlockRewardTransactable},
        config::{ChainConfig, ChainType},
        AccountNonce, AccountOutPoint, AccountSpending, DelegationId, GenBlock, OutPointSourceId, Transaction, TxInput, TxOutput, UtxoOutPoint,
    },
    primitives::{Amount, BlockHeight, Id, Idable, H256},
};
use gens::make;
use pbt::{check, check_eq, facet, note, Gen, Property, Res};
use serialization::{DecodeAll, Encode};
use std::collections::{BTreeMap, BTreeSet};
use utxo::{
    flush_to_base, ConsumedUtxoCache, Error, FlushableUtxoView, Utxo, UtxoSource, UtxosBlockRewardUndo, UtxosBlockUndo, UtxosBlockUndoError,
    UtxosCache, UtxosDB, UtxosDBInMemoryImpl, UtxosStorageRead, UtxosTxUndo, UtxosTxUndoWithSources, UtxosView,
};

pub const P: Property = Property {
    id: "C28",
    rule: "Histories of up to 60 steps (adding, spending and overwriting outputs, connecting and disconnecting transactions and block rewards in any order the outputs allow, dropping cached reads) on a shared set of outpoints over up to 4 caches with flushes and dropped caches; every outpoint ever used is read back after every step and the base is written through the node's storage as well. Undo data goes through its stored encoding. Non-trivial: an output spent after it was created in another cache, or a disconnected transaction.",
    facets: &[
        facet("histories", 30_000, histories),
        facet("undo_in_any_order", 15_000, undo_in_any_order),
        facet("block_undo", 20_000, block_undo),
        facet("genesis", 1_500, genesis),
        facet("values", 15_000, values),
    ],
    assumptions: &[
        "An output is only added without allowing an overwrite when it is not there, or the same cache can tell that it is.",
        "The caller drops the cache in which connecting or disconnecting was refused.",
    ],
};

type Model = BTreeMap<UtxoOutPoint, Utxo>;
type View<'a> = Box<dyn UtxosView<Error = chainstate_types::storage_result::Error> + 'a>;
type Cache<'a> = UtxosCache<View<'a>>;

fn spendable(o: &TxOutput) -> bool {
    match o {
        TxOutput::Transfer(..)
        | TxOutput::LockThenTransfer(..)
        | TxOutput::CreateStakePool(..)
        | TxOutput::ProduceBlockFromStake(..)
        | TxOutput::IssueNft(..)
        | TxOutput::Htlc(..) => true,
        TxOutput::Burn(..)
        | TxOutput::CreateDelegationId(..)
        | TxOutput::DelegateStaking(..)
        | TxOutput::IssueFungibleToken(..)
        | TxOutput::DataDeposit(..)
        | TxOutput::CreateOrder(..) => false,
    }
}

struct Base<'a, T>(&'a T);

impl<T: UtxosStorageRead<Error = chainstate_types::storage_result::Error>> UtxosView for Base<'_, T> {
    type Error = chainstate_types::storage_result::Error;
    fn utxo(&self, o: &UtxoOutPoint) -> Result<Option<Utxo>, Self::Error> {
        UtxosDB::new(self.0).utxo(o)
    }
    fn has_utxo(&self, o: &UtxoOutPoint) -> Result<bool, Self::Error> {
        UtxosDB::new(self.0).has_utxo(o)
    }
    fn best_block_hash(&self) -> Result<Id<GenBlock>, Self::Error> {
        UtxosDB::new(self.0).best_block_hash()
    }
    fn estimated_size(&self) -> Option<usize> {
        None
    }
}

fn view<'a>(base: &'a UtxosDBInMemoryImpl, layers: &[ConsumedUtxoCache]) -> Result<View<'a>, String> {
    let mut v: View<'a> = Box::new(Base(base));
    for l in layers {
        v = Box::new(UtxosCache::from_data(v, l.clone()).map_err(|e| e.to_string())?);
    }
    Ok(v)
}

fn compare<V: UtxosView + ?Sized>(v: &V, m: &Model, best: Option<&Id<GenBlock>>, known: &BTreeSet<UtxoOutPoint>, what: &str) -> Res {
    for o in known {
        let got = v.utxo(o).map_err(|e| format!("{what}: reading failed: {e}"))?;
        check_eq!(got.as_ref(), m.get(o), "{what}: output {o:?}");
        check_eq!(v.has_utxo(o).map_err(|e| e.to_string())?, m.contains_key(o), "{what}: presence of {o:?}");
    }
    if let Some(b) = best {
        check_eq!(&v.best_block_hash().map_err(|e| e.to_string())?, b, "{what}: best block");
    }
    Ok(())
}

#[derive(Clone)]
enum Connected {
    Tx(Transaction, UtxosTxUndo),
    Reward(Option<Vec<TxInput>>, Option<Vec<TxOutput>>, Id<GenBlock>, Option<UtxosBlockRewardUndo>),
}

/// A connected transaction or reward, with what it created and what it spent.
#[derive(Clone)]
struct Done {
    what: Connected,
    made: Vec<UtxoOutPoint>,
    spent: Vec<(UtxoOutPoint, Utxo)>,
}

struct World {
    base: UtxosDBInMemoryImpl,
    disk: Store,
    layers: Vec<ConsumedUtxoCache>,
    /// What is visible at the base, and through each layer.
    models: Vec<(Model, Id<GenBlock>, Vec<Done>)>,
    known: BTreeSet<UtxoOutPoint>,
    /// Give every reward a block of its own.
    unique: bool,
}

fn source(g: &mut Gen) -> UtxoSource {
    if g.chance(1, 4) {
        UtxoSource::Mempool
    } else {
        UtxoSource::Blockchain(BlockHeight::new(g.uint(64) as u64))
    }
}

fn output(g: &mut Gen) -> TxOutput {
    let k = g.below(12);
    let k = if g.chance(1, 2) { 0 } else { k };
    make::output_of(g, k)
}

fn new_layer(w: &World) -> Result<ConsumedUtxoCache, String> {
    Ok(UtxosCache::new(view(&w.base, &w.layers)?).map_err(|e| e.to_string())?.consume())
}

impl World {
    fn new(g: &mut Gen) -> Result<World, String> {
        let best = make::id(g);
        let mut known = BTreeSet::new();
        let mut m = Model::new();
        let disk = Store::new_empty().map_err(|e| e.to_string())?;
        {
            let mut tx = disk.transaction_rw(None).map_err(|e| e.to_string())?;
            for _ in 0..g.urange(2, 6) {
                let o = make::outpoint(g);
                known.insert(o.clone());
                if g.bool() {
                    let u = Utxo::new(output(g), source(g));
                    utxo::UtxosStorageWrite::set_utxo(&mut tx, &o, u.clone()).map_err(|e| e.to_string())?;
                    m.insert(o, u);
                }
            }
            utxo::UtxosStorageWrite::set_best_block_for_utxos(&mut tx, &best).map_err(|e| e.to_string())?;
            tx.commit().map_err(|e| e.to_string())?;
        }
        let mut w = World {
            base: UtxosDBInMemoryImpl::new(best, m.clone()),
            disk,
            layers: vec![],
            models: vec![(m.clone(), best, vec![]), (m, best, vec![])],
            known,
            unique: false,
        };
        w.layers.push(new_layer(&w)?);
        Ok(w)
    }

    fn m(&self) -> &Model {
        &self.models.last().expect("there").0
    }

    fn top(&self) -> Result<Cache<'_>, String> {
        let n = self.layers.len() - 1;
        UtxosCache::from_data(view(&self.base, &self.layers[..n])?, self.layers[n].clone()).map_err(|e| e.to_string())
    }

    fn set(&mut self, data: ConsumedUtxoCache) {
        *self.layers.last_mut().expect("there") = data;
    }

    fn check(&self, what: &str) -> Res {
        let (m, best, _) = self.models.last().expect("there");
        compare(&self.top()?, m, Some(best), &self.known, what)
    }

    fn any(&mut self, g: &mut Gen) -> UtxoOutPoint {
        if g.chance(1, 12) || self.known.is_empty() {
            let o = make::outpoint(g);
            self.known.insert(o.clone());
            return o;
        }
        let want = g.chance(3, 4);
        let c: Vec<_> = self.known.iter().filter(|o| !want || self.m().contains_key(o)).cloned().collect();
        if c.is_empty() {
            self.known.iter().next().expect("not empty").clone()
        } else {
            g.pick(&c).clone()
        }
    }

    fn single(&mut self, g: &mut Gen) -> Res {
        let o = self.any(g);
        let mut next = self.m().clone();
        let there = next.contains_key(&o);
        let mut c = self.top()?;
        match g.below(4) {
            0 => {
                let u = Utxo::new(output(g), source(g));
                let overwrite = g.bool();
                note!(g, "add {o:?} {u:?} overwrite {overwrite}");
                if !overwrite && there && !c.has_utxo_in_cache(&o) {
                    return Ok(()); // outside the contract
                }
                let r = c.add_utxo(&o, u.clone(), overwrite);
                if there && !overwrite {
                    check_eq!(r, Err(Error::OverwritingUtxo), "adding an output that the cache already has");
                    g.tag("add_refused");
                } else {
                    r.map_err(|e| format!("adding an output failed: {e}"))?;
                    next.insert(o, u);
                    g.tag("add");
                }
            }
            1 | 2 => {
                note!(g, "spend {o:?}");
                let in_cache = c.has_utxo_in_cache(&o);
                let r = c.spend_utxo(&o);
                match (r, next.remove(&o)) {
                    (Ok(u), Some(want)) => {
                        check_eq!(u, want, "the output that was spent");
                        g.tag("spend");
                        g.nontrivial_if(!in_cache && self.layers.len() > 1);
                    }
                    (Err(Error::NoUtxoFound | Error::UtxoAlreadySpent(_)), None) => {
                        compare(&c, self.m(), None, &self.known, "after a refused spend")?;
                        g.tag("spend_refused");
                    }
                    (Ok(u), None) => return Err(format!("spending a missing or spent output succeeded with {u:?}")),
                    (Err(e), w) => return Err(format!("spending gave {e}, the output was there: {}", w.is_some())),
                }
            }
            _ => {
                note!(g, "read and uncache {o:?}");
                let got = c.get_mut_utxo(&o).map_err(|e| e.to_string())?.cloned();
                check_eq!(got.as_ref(), next.get(&o), "output read for a change");
                if g.bool() {
                    let _ = c.uncache(&o);
                    g.tag("uncache");
                }
                if g.bool() {
                    let b = make::id(g);
                    c.set_best_block(b);
                    check_eq!(c.best_block_hash().map_err(|e| e.to_string())?, b, "best block");
                    let d = c.consume();
                    self.set(d);
                    self.models.last_mut().expect("there").1 = b;
                    return Ok(());
                }
            }
        }
        let d = c.consume();
        self.set(d);
        self.models.last_mut().expect("there").0 = next;
        Ok(())
    }

    /// Whether `outs` can be added without breaking the contract; `Some(true)` if adding must be refused.
    fn adding(&self, c: &Cache, next: &Model, outs: &[UtxoOutPoint]) -> Option<bool> {
        let present: Vec<_> = outs.iter().filter(|o| next.contains_key(o)).collect();
        if present.is_empty() {
            Some(false)
        } else if present.iter().all(|o| c.has_utxo_in_cache(o)) {
            Some(true)
        } else {
            None
        }
    }

    fn inputs(&mut self, g: &mut Gen) -> Vec<TxInput> {
        g.vec(0, 4, |g| match g.below(8) {
            0 => make::input(g),
            1 => TxInput::Account(AccountOutPoint::new(
                AccountNonce::new(g.u64()),
                AccountSpending::DelegationBalance(DelegationId::new(H256(g.array())), Amount::from_atoms(g.u128())),
            )),
            _ => TxInput::Utxo(self.any(g)),
        })
    }

    /// Spends the inputs in the model; what was spent, or `None` if something cannot be spent.
    fn spend(&mut self, inputs: &[TxInput], next: &mut Model) -> Option<Vec<(UtxoOutPoint, Utxo)>> {
        let mut spent = vec![];
        for i in inputs {
            if let TxInput::Utxo(o) = i {
                self.known.insert(o.clone());
                spent.push((o.clone(), next.remove(o)?));
            }
        }
        Some(spent)
    }

    fn connect_tx(&mut self, g: &mut Gen) -> Res {
        let inputs = self.inputs(g);
        let outputs = g.vec(0, 4, output);
        let tx = Transaction::new(g.u128(), inputs.clone(), outputs.clone()).map_err(|e| e.to_string())?;
        self.tx(g, tx)
    }

    fn tx(&mut self, g: &mut Gen, tx: Transaction) -> Res {
        let (inputs, outputs) = (tx.inputs().to_vec(), tx.outputs().to_vec());
        let src = source(g);
        note!(g, "connect {tx:?} {src:?}");
        let id: OutPointSourceId = tx.get_id().into();
        let made: Vec<(UtxoOutPoint, &TxOutput)> =
            outputs.iter().enumerate().map(|(i, o)| (UtxoOutPoint::new(id.clone(), i as u32), o)).collect();
        self.known.extend(made.iter().map(|x| x.0.clone()));
        let mut next = self.m().clone();
        let spent = self.spend(&inputs, &mut next);
        let outs: Vec<_> = made.iter().filter(|x| spendable(x.1)).map(|x| x.0.clone()).collect();
        let mut c = self.top()?;
        let refused = match (&spent, self.adding(&c, &next, &outs)) {
            (None, _) => true,
            (Some(_), Some(r)) => r,
            (Some(_), None) => return Ok(()),
        };
        match c.connect_transaction(&tx, src.clone()) {
            Ok(_) if refused => return Err("a transaction was connected although it cannot be".into()),
            Err(e) if !refused => return Err(format!("connecting a transaction failed: {e}")),
            Err(_) => {
                g.tag("connect_refused");
                return Ok(());
            }
            Ok(undo) => {
                let spent = spent.expect("not refused");
                for (o, out) in made {
                    if spendable(out) {
                        next.insert(o, Utxo::new(out.clone(), src.clone()));
                    }
                }
                let mut it = spent.iter();
                let want: Vec<Option<Utxo>> =
                    inputs.iter().map(|i| matches!(i, TxInput::Utxo(_)).then(|| it.next().expect("one per input").1.clone())).collect();
                check_eq!(undo.utxos(), &want[..], "undo data of a transaction");
                let (undo, sources) = undo.consume();
                let want: Vec<_> = spent.iter().map(|x| x.0.source_id()).collect();
                check_eq!(sources, want, "sources recorded with the undo data");
                g.tag("connect");
                let d = c.consume();
                self.set(d);
                let t = self.models.last_mut().expect("there");
                t.0 = next;
                t.2.push(Done { what: Connected::Tx(tx, undo), made: outs, spent });
            }
        }
        Ok(())
    }

    fn connect_reward(&mut self, g: &mut Gen) -> Res {
        let inputs = g.chance(2, 3).then(|| self.inputs(g)).map(|mut v| {
            // rewards spend outputs only
            v.retain(|i| matches!(i, TxInput::Utxo(_)));
            v
        });
        // a reward that spends has something to spend
        let inputs = inputs.filter(|i| !i.is_empty());
        let outputs = g.chance(5, 6).then(|| g.vec(0, 3, output));
        let block: Id<GenBlock> = if self.unique { Id::new(H256::from_low_u64_be(0x1234_5678_0000 + self.known.len() as u64)) } else { make::id(g) };
        let height = BlockHeight::new(g.uint(64) as u64);
        note!(g, "connect reward {inputs:?} {outputs:?} of {block:?} at {height}");
        let made: Vec<UtxoOutPoint> =
            outputs.iter().flatten().enumerate().map(|(i, _)| UtxoOutPoint::new(block.into(), i as u32)).collect();
        self.known.extend(made.iter().cloned());
        let mut next = self.m().clone();
        let spent = self.spend(inputs.as_deref().unwrap_or(&[]), &mut next);
        let mut c = self.top()?;
        let Some(present) = self.adding(&c, &next, &made) else { return Ok(()) };
        let refused = spent.is_none() || present || outputs.iter().flatten().any(|o| !spendable(o));
        let t = BlockRewardTransactable::new(inputs.as_deref(), outputs.as_deref(), None);
        match c.connect_block_transactable(&t, &block, height) {
            Ok(_) if refused => return Err("a block reward was connected although it cannot be".into()),
            Err(e) if !refused => return Err(format!("connecting a block reward failed: {e}")),
            Err(_) => {
                g.tag("reward_refused");
                return Ok(());
            }
            Ok(undo) => {
                let spent = spent.expect("not refused");
                let want: Vec<Utxo> = spent.iter().map(|x| x.1.clone()).collect();
                check_eq!(undo.as_ref().map_or(&[][..], |u| u.inner()), &want[..], "undo data of a reward");
                check_eq!(undo.is_some(), !want.is_empty(), "presence of undo data of a reward");
                for (o, out) in made.iter().zip(outputs.iter().flatten()) {
                    next.insert(o.clone(), Utxo::new_for_blockchain(out.clone(), height));
                }
                g.tag("reward");
                let d = c.consume();
                self.set(d);
                let t = self.models.last_mut().expect("there");
                t.0 = next;
                t.2.push(Done { what: Connected::Reward(inputs, outputs, block, undo), made, spent });
            }
        }
        Ok(())
    }

    /// Disconnects something whose outputs are all unspent; `false` if there is nothing to try.
    fn disconnect(&mut self, g: &mut Gen) -> Result<bool, String> {
        let m = self.m();
        let done = &self.models.last().expect("there").2;
        let can: Vec<usize> = (0..done.len())
            .filter(|i| done[*i].made.iter().all(|o| m.contains_key(o)) && done[*i].spent.iter().all(|o| !m.contains_key(&o.0)))
            .collect();
        let blocked: Vec<usize> = (0..done.len()).filter(|i| done[*i].made.iter().any(|o| !m.contains_key(o))).collect();
        if !blocked.is_empty() && g.chance(1, 6) {
            let d = done[*g.pick(&blocked)].clone();
            let mut c = self.top()?;
            check!(Self::undo(&mut c, &d)?.is_err(), "something was disconnected although its outputs were spent");
            g.tag("disconnect_refused");
            return Ok(true);
        }
        if can.is_empty() {
            return Ok(false);
        }
        let i = *g.pick(&can);
        let d = self.models.last_mut().expect("there").2.remove(i);
        note!(g, "disconnect what made {:?} and spent {:?}", d.made, d.spent);
        let mut next = self.m().clone();
        for o in &d.made {
            next.remove(o);
        }
        next.extend(d.spent.iter().cloned());
        let mut c = self.top()?;
        Self::undo(&mut c, &d)?.map_err(|e| format!("disconnecting failed: {e}"))?;
        let data = c.consume();
        self.set(data);
        self.models.last_mut().expect("there").0 = next;
        g.tag("disconnect");
        g.nontrivial();
        Ok(true)
    }

    fn undo(c: &mut Cache, d: &Done) -> Result<Result<(), Error>, String> {
        Ok(match &d.what {
            Connected::Tx(tx, u) => {
                let u = UtxosTxUndo::decode_all(&mut u.encode().as_slice()).map_err(|e| format!("stored undo data: {e}"))?;
                c.disconnect_transaction(tx, u)
            }
            Connected::Reward(i, o, b, u) => {
                let u = match u {
                    Some(u) => Some(UtxosBlockRewardUndo::decode_all(&mut u.encode().as_slice()).map_err(|e| format!("stored undo data: {e}"))?),
                    None => None,
                };
                c.disconnect_block_transactable(&BlockRewardTransactable::new(i.as_deref(), o.as_deref(), None), b, u)
            }
        })
    }

    fn adders(&mut self, g: &mut Gen) -> Res {
        let mut next = self.m().clone();
        let mut c = self.top()?;
        let mut seen = vec![];
        let src = source(g);
        let overwrite = g.bool();
        if g.bool() {
            let tx = Transaction::new(g.u128() & 7, vec![], g.vec(1, 3, |g| {
                let k = *g.pick(&[0, 2, 3, 5]);
                make::output_of(g, k)
            })).map_err(|e| e.to_string())?;
            note!(g, "add outputs of {tx:?} {src:?} overwrite {overwrite}");
            let made: Vec<_> = tx
                .outputs()
                .iter()
                .enumerate()
                .filter(|x| spendable(x.1))
                .map(|(i, o)| (UtxoOutPoint::new(tx.get_id().into(), i as u32), o.clone()))
                .collect();
            seen.extend((0..tx.outputs().len()).map(|i| UtxoOutPoint::new(tx.get_id().into(), i as u32)));
            let outs: Vec<_> = made.iter().map(|x| x.0.clone()).collect();
            let Some(present) = self.adding(&c, &next, &outs).or(overwrite.then_some(false)) else { return Ok(()) };
            match c.add_utxos_from_tx(&tx, src.clone(), overwrite) {
                Ok(()) => check!(overwrite || !present, "existing outputs were overwritten"),
                Err(e) => {
                    check!(!overwrite && present, "adding outputs of a transaction failed: {e}");
                    return Ok(());
                }
            }
            next.extend(made.into_iter().map(|(p, o)| (p, Utxo::new(o, src.clone()))));
        } else {
            let block: Id<GenBlock> = if g.bool() { Id::new(H256([g.byte() & 1; 32])) } else { make::id(g) };
            let outputs = g.vec(0, 3, |g| make::output_of(g, 0));
            note!(g, "add reward {outputs:?} of {block:?} {src:?} {overwrite}");
            c.add_utxos_from_block_reward(&BlockReward::new(outputs.clone()), src.clone(), &block, overwrite)
                .map_err(|e| format!("adding reward outputs failed: {e}"))?;
            for (i, o) in outputs.into_iter().enumerate() {
                let p = UtxoOutPoint::new(block.into(), i as u32);
                seen.push(p.clone());
                next.insert(p, Utxo::new(o, src.clone()));
            }
        }
        g.tag("adders");
        let d = c.consume();
        self.known.extend(seen);
        self.set(d);
        self.models.last_mut().expect("there").0 = next;
        Ok(())
    }

    fn flush(&mut self) -> Res {
        let top = self.layers.pop().expect("there");
        let m = self.models.pop().expect("there");
        *self.models.last_mut().expect("there") = m.clone();
        if self.layers.is_empty() {
            let mut tx = self.disk.transaction_rw(None).map_err(|e| e.to_string())?;
            UtxosDB::new(&mut tx).batch_write(top.clone()).map_err(|e| format!("flushing into storage failed: {e}"))?;
            tx.commit().map_err(|e| e.to_string())?;
            let empty = UtxosDBInMemoryImpl::new(m.1, Default::default());
            let c = UtxosCache::from_data(UtxosDB::new(&empty), top).map_err(|e| e.to_string())?;
            flush_to_base(c, &mut UtxosDB::new(&mut self.base)).map_err(|e| format!("flushing into the base failed: {e}"))?;
            self.layers.push(new_layer(self)?);
            self.models.push(m);
        } else {
            let mut c = self.top()?;
            c.batch_write(top).map_err(|e| format!("flushing into a cache failed: {e}"))?;
            let d = c.consume();
            self.set(d);
        }
        Ok(())
    }

    fn finish(&mut self) -> Res {
        while self.layers.len() > 1 {
            self.flush()?;
        }
        self.flush()?;
        self.check("after flushing everything")?;
        let (m, best, _) = self.models.last().expect("there");
        check_eq!(self.base.utxos(), m, "outputs in the base");
        check_eq!(&UtxosStorageRead::get_best_block_for_utxos(&self.base).map_err(|e| e.to_string())?, best, "best block of the base");
        let tx = self.disk.transaction_ro().map_err(|e| e.to_string())?;
        compare(&Base(&&tx), m, Some(best), &self.known, "in storage")
    }

    fn push(&mut self) -> Res {
        if self.layers.len() < 4 {
            let l = new_layer(self)?;
            self.layers.push(l);
            let m = self.models.last().expect("there").clone();
            self.models.push(m);
        }
        Ok(())
    }
}

fn histories(g: &mut Gen) -> Res {
    let mut w = World::new(g)?;
    for _ in 0..g.urange(10, 60) {
        match g.weighted(&[10, 6, 3, 6, 2, 3, 3, 1]) {
            0 => w.single(g)?,
            1 => w.connect_tx(g)?,
            2 => w.connect_reward(g)?,
            3 => {
                w.disconnect(g)?;
            }
            4 => w.adders(g)?,
            5 => w.push()?,
            6 => {
                note!(g, "flush");
                w.flush()?;
                g.tag("flush");
            }
            _ => {
                if w.layers.len() > 1 {
                    note!(g, "drop a cache");
                    w.layers.pop();
                    w.models.pop();
                    g.tag("drop");
                }
            }
        }
        w.check("after a step")?;
    }
    w.finish()
}

/// Connected transactions are undone in random order, as far as the outputs allow; in the end the first state is back.
fn undo_in_any_order(g: &mut Gen) -> Res {
    let mut w = World::new(g)?;
    w.unique = true;
    let start = w.m().clone();
    for _ in 0..g.urange(3, 20) {
        if g.chance(1, 5) {
            w.connect_reward(g)?;
        } else {
            let inputs = {
                // each transaction spends something, so that all are different
                let have: Vec<_> = w.m().keys().cloned().collect();
                if have.is_empty() {
                    break;
                }
                let mut v = vec![TxInput::Utxo(g.pick(&have).clone())];
                let o = g.pick(&have).clone();
                if v[0] != TxInput::Utxo(o.clone()) {
                    v.push(TxInput::Utxo(o));
                }
                v
            };
            let outputs = g.vec(1, 3, output);
            let tx = Transaction::new(0, inputs, outputs).map_err(|e| e.to_string())?;
            w.tx(g, tx)?;
        }
        if g.chance(1, 5) {
            w.push()?;
        }
        if g.chance(1, 6) {
            w.flush()?;
        }
    }
    w.check("after connecting")?;
    let total = w.models.last().expect("there").2.len();
    let mut n = 0;
    while w.disconnect(g)? {
        n += 1;
        if n > 10 * total + 100 {
            break;
        }
        w.check("after disconnecting")?;
        if g.chance(1, 6) {
            w.flush()?;
        }
    }
    if w.models.last().expect("there").2.is_empty() {
        check_eq!(w.m(), &start, "everything undone");
        g.tag("all_undone");
    }
    w.finish()
}

/// Undo data of a block: one entry per transaction, with both directions of its dependencies.
fn block_undo(g: &mut Gen) -> Res {
    let ids: Vec<Id<Transaction>> = (0..g.urange(1, 6)).map(|_| make::id(g)).collect();
    let reward = g.bool().then(|| UtxosBlockRewardUndo::new(g.vec(0, 3, |g| Utxo::new(output(g), source(g)))));
    let mut u = if reward.is_none() { UtxosBlockUndo::default() } else { UtxosBlockUndo::new(reward.clone(), Default::default()).map_err(|e| e.to_string())? };
    let mut want: BTreeMap<Id<Transaction>, UtxosTxUndoWithSources> = BTreeMap::new();
    let mut pairs = BTreeSet::new();
    for _ in 0..g.urange(1, 8) {
        let id = *g.pick(&ids);
        let utxos = g.vec(0, 3, |g| g.chance(3, 4).then(|| Utxo::new(output(g), source(g))));
        let sources = g.vec(0, 4, |g| match g.below(3) {
            0 => OutPointSourceId::BlockReward(Id::new(*g.pick(&ids).as_hash())),
            1 => OutPointSourceId::Transaction(*g.pick(&ids)),
            _ => make::source_id(g),
        });
        let t = UtxosTxUndoWithSources::new(utxos.clone(), sources.clone());
        check_eq!(t.utxos(), &utxos[..], "undo data of a transaction");
        note!(g, "insert {id:?} with {sources:?}");
        let r = u.insert_tx_undo(id, t.clone());
        if want.contains_key(&id) {
            check_eq!(r, Err(UtxosBlockUndoError::UndoAlreadyExists(id)), "a second undo entry for a transaction");
        } else {
            check_eq!(r, Ok(()), "a new undo entry");
            pairs.extend(sources.iter().filter_map(|s| match s {
                OutPointSourceId::Transaction(s) => Some((id, *s)),
                OutPointSourceId::BlockReward(_) => None,
            }));
            want.insert(id, t);
        }
    }
    g.nontrivial_if(want.len() > 1 && !pairs.is_empty());
    let txs: BTreeMap<_, _> = want.iter().map(|(k, v)| (*k, v.clone().consume().0)).collect();
    check_eq!(u.tx_undos(), &txs, "undo entries of a block");
    check_eq!(UtxosBlockUndo::new(reward.clone(), want).as_ref(), Ok(&u), "undo data built at once");
    let back = UtxosBlockUndo::decode_all(&mut u.encode().as_slice()).map_err(|e| e.to_string())?;
    check_eq!(back, u, "stored undo data");
    let c = u.clone().consume();
    check_eq!(c.reward_undo, reward, "reward undo");
    check_eq!(c.tx_undos, txs, "undo entries");
    check_eq!(c.child_parent_dependencies, pairs, "dependencies");
    check_eq!(c.parent_child_dependencies, pairs.iter().map(|(a, b)| (*b, *a)).collect::<BTreeSet<_>>(), "reverse dependencies");
    let again = UtxosBlockUndo::from_data(c.reward_undo, c.tx_undos, c.child_parent_dependencies, c.parent_child_dependencies);
    check_eq!(again, u, "undo data put back together");
    Ok(())
}

/// A fresh database holds exactly the genesis outputs.
fn genesis(g: &mut Gen) -> Res {
    let gen = make::genesis(g);
    let config: ChainConfig = common::chain::config::Builder::new(ChainType::Regtest).genesis_custom(gen.clone()).build();
    let id: Id<GenBlock> = config.genesis_block_id();
    let mut mem = UtxosDBInMemoryImpl::new(make::id(g), Default::default());
    UtxosDB::initialize_db(&mut mem, &config);
    let want: Model = gen
        .utxos()
        .iter()
        .enumerate()
        .map(|(i, o)| (UtxoOutPoint::new(OutPointSourceId::BlockReward(id), i as u32), Utxo::new(o.clone(), UtxoSource::Blockchain(BlockHeight::new(0)))))
        .collect();
    check_eq!(mem.utxos(), &want, "outputs after initialization");
    check_eq!(UtxosView::best_block_hash(&mem), Ok(id), "best block after initialization");
    g.nontrivial_if(want.len() > 1);
    let store = Store::new_empty().map_err(|e| e.to_string())?;
    let mut tx = store.transaction_rw(None).map_err(|e| e.to_string())?;
    UtxosDB::initialize_db(&mut tx, &config);
    tx.commit().map_err(|e| e.to_string())?;
    let tx = store.transaction_ro().map_err(|e| e.to_string())?;
    let mut known: BTreeSet<_> = want.keys().cloned().collect();
    known.insert(UtxoOutPoint::new(id.into(), want.len() as u32));
    compare(&Base(&&tx), &want, Some(&id), &known, "storage after initialization")
}

fn values(g: &mut Gen) -> Res {
    let (o, s) = (output(g), source(g));
    let h = BlockHeight::new(g.uint(64) as u64);
    let mut u = Utxo::new(o.clone(), s.clone());
    check_eq!((u.output(), u.source(), u.clone().take_output()), (&o, &s, o.clone()), "parts of an output record");
    let back = Utxo::decode_all(&mut u.encode().as_slice()).map_err(|e| e.to_string())?;
    check_eq!(back, u, "stored output record");
    let mut bytes = o.encode();
    match &s {
        UtxoSource::Blockchain(h) => {
            bytes.push(0);
            bytes.extend(gens::enc::enc(h));
        }
        UtxoSource::Mempool => bytes.push(1),
    }
    check_eq!(u.encode(), bytes, "encoding of an output record");
    check_eq!(s.is_mempool(), s == UtxoSource::Mempool, "mempool source");
    match &s {
        UtxoSource::Blockchain(h) => check_eq!(s.blockchain_height(), Ok(*h), "height"),
        UtxoSource::Mempool => check_eq!(s.blockchain_height(), Err(Error::NoBlockchainHeightFound), "height of a mempool output"),
    }
    check_eq!(Utxo::new_for_blockchain(o.clone(), h), Utxo::new(o.clone(), UtxoSource::Blockchain(h)), "output in a block");
    check_eq!(Utxo::new_for_mempool(o.clone()), Utxo::new(o.clone(), UtxoSource::Mempool), "output in the mempool");
    u.set_height(UtxoSource::Blockchain(h));
    check_eq!(u, Utxo::new_for_blockchain(o, h), "changed height");
    g.nontrivial();
    Ok(())
}
