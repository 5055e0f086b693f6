//! The pool of waiting transactions, next to a plain model of it.
use crate::{
    ledger::{key_of, median, Blk, Net, State, Tx},
    world::{clock, genesis_time, nets, Known, Tree, NOW},
};
use chainstate::{make_chainstate, BlockSource, ChainstateConfig, ChainstateHandle, DefaultTransactionVerificationStrategy};
use chainstate_storage::Store;
use common::{
    chain::{
        block::{timestamp::BlockTimestamp, BlockReward, ConsensusData},
        make_delegation_id, make_order_id, make_token_id,
        output_value::OutputValue,
        timelock::OutputTimeLock,
        tokens::TokenId,
        AccountCommand, AccountSpending, Block, DelegationId, Destination, GenBlock, OrderAccountCommand, OrderId, PoolId, Transaction,
        TxInput, TxOutput, UtxoOutPoint,
    },
    primitives::{time::Time, Amount, BlockHeight, Id, Idable},
    time_getter::{TimeGetter, TimeGetterFn},
};
use mempool::{
    event::MempoolEvent,
    tx_accumulator::{DefaultTxAccumulator, PackingStrategy},
    tx_origin::{LocalTxOrigin, RemoteTxOrigin, TxOrigin},
    FeeRate, MempoolConfig, MempoolHandle, MempoolInit, MempoolInterface, MempoolMaxSize, TransactionDuplicateStatus, TxOptions, TxStatus,
};
use p2p_types::PeerId;
use pbt::{check, check_eq, facet, note, Gen, Property, Res};
use serialization::Encode;
use std::{
    cell::Cell,
    collections::{BTreeMap, BTreeSet},
    num::NonZeroUsize,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, Mutex,
    },
    time::{Duration, Instant},
};
use subsystem::{Handle, Manager};

type TxId = Id<Transaction>;

pub const P: Property = Property {
    id: "C38",
    rule: "Histories of up to 25 steps on a node with a pool of waiting transactions: transactions of every kind sent by the user \
           or by peers, singly or several at once, chains of them in any order, conflicting, repeated and mined ones; blocks made \
           from the pool or by others, on the best chain and on branches; time passing; peers leaving; limits changing, and the \
           fee rate asked for after a full pool as time passes and a block comes; fees and rates of any size. After each step the pool is compared with a plain model of it. Non-trivial: a transaction waited on top of another one, and \
           a block or a late parent changed the pool.",
    facets: &[
        facet("history", 1500, history),
        facet("templates", 900, templates),
        facet("limits", 700, limits),
        facet("flood", 100, flood),
        facet("rates", 20_000, rates),
    ],
    assumptions: &[
        "The chain moves only while the pool is idle; one block at a time.",
        "Where consensus rules depend on the order of unrelated failures, whether a peer's transaction is kept for later is not predicted.",
        "Which transactions go when the pool is too big is not predicted, only that enough go and what is left is valid.",
    ],
};

const EXPIRY: u64 = 336 * 3600;
const ORPHAN_EXPIRY: u64 = 50;
const AHEAD: u64 = 300;
const AHEAD_BLOCKS: u64 = 5;
const PATIENCE: Duration = Duration::from_secs(20);

struct Now(Arc<AtomicU64>);
impl TimeGetterFn for Now {
    fn get_time(&self) -> Time {
        Time::from_secs_since_epoch(self.0.load(Ordering::SeqCst))
    }
}

#[derive(Clone, Debug, PartialEq, Eq, PartialOrd, Ord)]
enum Dep {
    Out(TxId, u32),
    Pool(PoolId),
    Del(DelegationId),
    DelNonce(DelegationId, u64),
    Token(TokenId),
    TokenNonce(TokenId, u64),
    Order(OrderId),
}

fn token_of(c: &AccountCommand) -> Option<TokenId> {
    match c {
        AccountCommand::MintTokens(t, _)
        | AccountCommand::UnmintTokens(t)
        | AccountCommand::LockTokenSupply(t)
        | AccountCommand::FreezeToken(t, _)
        | AccountCommand::UnfreezeToken(t)
        | AccountCommand::ChangeTokenMetadataUri(t, _)
        | AccountCommand::ChangeTokenAuthority(t, _) => Some(*t),
        AccountCommand::ConcludeOrder(_) | AccountCommand::FillOrder(..) => None,
    }
}

/// What must be there before a transaction, and what of it can serve only once.
fn needs(tx: &Transaction) -> Vec<(Dep, bool)> {
    let mut v = vec![];
    for i in tx.inputs() {
        match i {
            TxInput::Utxo(o) => {
                if let Some(id) = o.source_id().get_tx_id() {
                    v.push((Dep::Out(*id, o.output_index()), true));
                }
            }
            TxInput::Account(a) => {
                let AccountSpending::DelegationBalance(d, _) = a.account();
                v.push((Dep::DelNonce(*d, a.nonce().value()), true));
                if a.nonce().value() == 0 {
                    v.push((Dep::Del(*d), false));
                }
            }
            TxInput::AccountCommand(n, c) => {
                if let Some(t) = token_of(c) {
                    v.push((Dep::TokenNonce(t, n.value()), true));
                    if n.value() == 0 {
                        v.push((Dep::Token(t), false));
                    }
                }
            }
            TxInput::OrderAccountCommand(
                OrderAccountCommand::FillOrder(o, _) | OrderAccountCommand::ConcludeOrder(o) | OrderAccountCommand::FreezeOrder(o),
            ) => v.push((Dep::Order(*o), false)),
        }
    }
    for o in tx.outputs() {
        match o {
            TxOutput::CreateDelegationId(_, p) => v.push((Dep::Pool(*p), false)),
            TxOutput::DelegateStaking(_, d) => v.push((Dep::Del(*d), false)),
            _ => {}
        }
    }
    v
}

fn gives(net: &Net, tx: &Transaction) -> BTreeSet<Dep> {
    let mut v = BTreeSet::new();
    let id = tx.get_id();
    for i in tx.inputs() {
        match i {
            TxInput::Account(a) => {
                let AccountSpending::DelegationBalance(d, _) = a.account();
                v.insert(Dep::DelNonce(*d, a.nonce().value().wrapping_add(1)));
            }
            TxInput::AccountCommand(n, c) => {
                if let Some(t) = token_of(c) {
                    v.insert(Dep::TokenNonce(t, n.value().wrapping_add(1)));
                }
            }
            _ => {}
        }
    }
    for (i, o) in tx.outputs().iter().enumerate() {
        v.insert(Dep::Out(id, i as u32));
        match o {
            TxOutput::IssueFungibleToken(_) => {
                v.extend(
                    make_token_id(&net.chain, BlockHeight::new(1_000_000), tx.inputs())
                        .ok()
                        .map(Dep::Token),
                );
            }
            TxOutput::CreateDelegationId(..) => v.extend(make_delegation_id(tx.inputs()).ok().map(Dep::Del)),
            TxOutput::CreateStakePool(p, _) => {
                v.insert(Dep::Pool(*p));
            }
            TxOutput::CreateOrder(_) => v.extend(make_order_id(tx.inputs()).ok().map(Dep::Order)),
            _ => {}
        }
    }
    v
}

#[derive(Clone)]
struct Entry {
    id: TxId,
    tx: Arc<Tx>,
    created: u64,
    from: Option<u64>,
    fee: u128,
    size: usize,
}

#[derive(Clone)]
struct Orphan {
    tx: Arc<Tx>,
    peer: u64,
    created: u64,
    /// Something it needs came after it, so it may have been looked at again.
    touched: bool,
    /// Something it needs came into the pool since the last block.
    due: bool,
    sure: bool,
}

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum Verdict {
    In(u128),
    Known,
    /// To be kept for later, for certain.
    Later,
    /// Kept for later or refused.
    MaybeLater,
    /// Accepted or refused: it depends on the space left.
    MaybeIn(u128),
    Bad(&'static str),
}

#[derive(Clone)]
enum Item {
    Send(Arc<Tx>, Option<u64>),
    Gone(u64),
}

#[derive(Clone, Debug, PartialEq, Eq)]
enum Said {
    New,
    Known,
    Later,
    LaterKnown,
    Refused(String),
    Nothing,
}

#[derive(Clone, Debug)]
struct Snap {
    pool: Vec<TxId>,
    orphans: BTreeSet<TxId>,
    memory: usize,
}

struct World {
    t: Tree,
    known: Known,
    now: Arc<AtomicU64>,
    relay: u128,
    max_count: usize,
    max_bytes: usize,
    pool: Vec<Entry>,
    orphans: BTreeMap<TxId, Orphan>,
    txs: BTreeMap<TxId, Arc<Tx>>,
    stash: Vec<Arc<Tx>>,
    /// The limit on memory may have to do with what is in the pool.
    tight: bool,
    crowd: bool,
    /// Something left the pool because of its age or for lack of space.
    dropped: Cell<bool>,
    entered: Vec<TxId>,
    again: usize,
    tips: Vec<Id<GenBlock>>,
    late: usize,
    moved: usize,
    reorged: usize,
    salt: u64,
    rt: Option<tokio::runtime::Runtime>,
    mempool: MempoolHandle,
    chain: ChainstateHandle,
    events: Arc<Mutex<Vec<MempoolEvent>>>,
    stop: Option<subsystem::ShutdownTrigger>,
    main: Option<tokio::task::JoinHandle<()>>,
}

impl Drop for World {
    fn drop(&mut self) {
        if let (Some(rt), Some(stop), Some(main)) = (self.rt.take(), self.stop.take(), self.main.take()) {
            stop.initiate();
            let _ = rt.block_on(async { tokio::time::timeout(Duration::from_secs(10), main).await });
            rt.shutdown_background();
        }
    }
}

fn fee_for(rate: u128, size: usize) -> u128 {
    (rate * size as u128).div_ceil(1000)
}

fn look(m: &dyn MempoolInterface, ids: &[TxId]) -> Snap {
    Snap {
        pool: m.get_all_in_insertion_order().iter().map(|t| t.transaction().get_id()).collect(),
        orphans: ids.iter().filter(|i| m.contains_orphan_transaction(i)).copied().collect(),
        memory: m.memory_usage(),
    }
}

impl World {
    fn new(g: &mut Gen, relay: u128, max_count: usize, max_bytes: usize) -> Result<World, String> {
        let net = g.pick(nets()).clone();
        let t = Tree::new(&net);
        let known = Known::new(&t);
        let now = Arc::new(AtomicU64::new(genesis_time(&net) + g.range(0, NOW)));
        let rt = tokio::runtime::Builder::new_multi_thread()
            .worker_threads(3)
            .enable_all()
            .build()
            .map_err(|e| format!("no runtime: {e}"))?;
        let chain_now = Arc::new(AtomicU64::new(clock(&net)));
        let disk = crate::disk::Disk::default();
        let store = Store::new(disk, &net.chain).map_err(|e| format!("opening the store: {e}"))?;
        let config = ChainstateConfig {
            max_tip_age: Duration::from_secs(100 * 366 * 86_400).into(),
            ..ChainstateConfig::new()
        };
        let cs = make_chainstate(
            Arc::clone(&net.chain),
            config,
            store,
            DefaultTransactionVerificationStrategy::new(),
            None,
            TimeGetter::new(Arc::new(Now(chain_now))),
            None,
        )
        .map_err(|e| format!("opening the node: {e}"))?;
        let mut manager = Manager::new("verif");
        let chain = manager.add_subsystem("chainstate", cs);
        let config = MempoolConfig {
            min_tx_relay_fee_rate: FeeRate::from_atoms_per_kb(relay).into(),
            max_cluster_tx_count: max_count.into(),
            max_cluster_size_bytes: max_bytes.into(),
        };
        let init = MempoolInit::new(
            Arc::clone(&net.chain),
            config,
            Handle::clone(&chain),
            TimeGetter::new(Arc::new(Now(Arc::clone(&now)))),
        )
        .map_err(|e| format!("preparing the pool: {e}"))?;
        let mempool = manager.add_custom_subsystem("mempool", |h, _| init.init(h));
        let stop = Some(manager.make_shutdown_trigger());
        let main = Some(rt.spawn(manager.main()));
        let w = World {
            t,
            known,
            now,
            relay,
            max_count,
            max_bytes,
            pool: vec![],
            orphans: BTreeMap::new(),
            txs: BTreeMap::new(),
            stash: vec![],
            tight: false,
            crowd: false,
            dropped: Cell::new(false),
            entered: vec![],
            again: 0,
            tips: vec![],
            late: 0,
            moved: 0,
            reorged: 0,
            salt: 0,
            rt: Some(rt),
            mempool,
            chain,
            events: Arc::default(),
            stop,
            main,
        };
        let ev = Arc::clone(&w.events);
        w.ask(move |m| m.subscribe_to_subsystem_events(Arc::new(move |e| ev.lock().expect("events").push(e))))?;
        Ok(w)
    }

    fn ask<R: Send + 'static>(&self, f: impl FnOnce(&mut (dyn MempoolInterface + 'static)) -> R + Send + 'static) -> Result<R, String> {
        let rt = self.rt.as_ref().expect("runs");
        rt.block_on(async { tokio::time::timeout(PATIENCE, self.mempool.call_mut(f)).await })
            .map_err(|_| "the pool does not answer".to_string())?
            .map_err(|e| format!("the pool died: {e}"))
    }

    fn time(&self) -> u64 {
        self.now.load(Ordering::SeqCst)
    }
    fn tip(&self) -> Id<GenBlock> {
        self.known.best
    }
    fn height(&self) -> u64 {
        self.t.at(&self.tip()).height
    }
    fn tip_state(&self) -> State {
        State::clone(self.t.at(&self.tip()).state.as_ref().expect("the best block is valid"))
    }
    /// Height and time as of which a transaction is judged.
    fn as_of(&self) -> (u64, u64) {
        (self.height() + AHEAD_BLOCKS, self.time() + AHEAD)
    }

    /// What is known after the best block and everything that waits.
    fn state_with(&self, pool: &[Entry]) -> Result<State, String> {
        let (h, time) = self.as_of();
        let mut st = self.tip_state();
        for e in pool {
            st.connect(&self.t.net, h, time, time, None, &e.tx).map_err(|x| {
                // a balance of a delegation or an order may have come from a transaction that went for another reason
                let drawn = e.tx.tx.transaction().inputs().iter().any(|i| {
                    matches!(i, TxInput::Account(_) | TxInput::OrderAccountCommand(_))
                        || matches!(
                            i,
                            TxInput::AccountCommand(_, AccountCommand::ConcludeOrder(_) | AccountCommand::FillOrder(..))
                        )
                });
                let known = if drawn && self.dropped.get() { "[balance-giver-dropped-first] " } else { "" };
                format!("{known}{} in the pool is not valid there: {x}", e.id)
            })?;
        }
        Ok(st)
    }

    fn ids(&self) -> Vec<TxId> {
        self.txs.keys().copied().collect()
    }

    fn remember(&mut self, tx: &Arc<Tx>) -> TxId {
        let id = tx.tx.transaction().get_id();
        if self.txs.insert(id, Arc::clone(tx)).is_none() {
            self.t.txs.push(Arc::clone(tx));
        }
        id
    }

    fn parents(&self, pool: &[Entry], tx: &Transaction) -> BTreeSet<usize> {
        let n: BTreeSet<Dep> = needs(tx).into_iter().map(|x| x.0).collect();
        (0..pool.len())
            .filter(|i| gives(&self.t.net, pool[*i].tx.tx.transaction()).intersection(&n).next().is_some())
            .collect()
    }

    fn all_parents(&self, pool: &[Entry]) -> Vec<BTreeSet<usize>> {
        (0..pool.len())
            .map(|i| self.parents(&pool[..i], pool[i].tx.tx.transaction()))
            .collect()
    }

    fn verdict(&self, pool: &[Entry], st: &State, tx: &Tx, local: bool) -> Verdict {
        let t = tx.tx.transaction();
        let id = t.get_id();
        if pool.iter().any(|e| e.id == id) {
            return Verdict::Known;
        }
        if t.inputs().is_empty() || t.outputs().is_empty() {
            return Verdict::Bad("no inputs or no outputs");
        }
        let size = tx.tx.encoded_size();
        if size > self.t.net.chain.max_tx_size_for_mempool() || size > self.max_bytes {
            return Verdict::Bad("too big");
        }
        let (h, time) = self.as_of();
        if let Err(e) = State::plain_tx(&self.t.net, h, tx) {
            return Verdict::Bad(e);
        }
        match st.clone().connect(&self.t.net, h, time, time, None, tx) {
            Err(e) => {
                if local || size > 20_000 {
                    return Verdict::Bad(e);
                }
                let used: BTreeSet<Dep> = pool
                    .iter()
                    .flat_map(|e| needs(e.tx.tx.transaction()))
                    .filter(|x| x.1)
                    .map(|x| x.0)
                    .collect();
                if needs(t).iter().any(|(d, once)| *once && used.contains(d)) {
                    return Verdict::Bad("conflict");
                }
                let missing = t
                    .inputs()
                    .iter()
                    .any(|i| i.utxo_outpoint().is_some_and(|o| !st.utxos.contains_key(o)));
                let gap = t.inputs().iter().any(|i| {
                    let (n, a) = match i {
                        TxInput::Account(a) => (a.nonce(), (a.account()).into()),
                        TxInput::AccountCommand(n, c) => (*n, c.into()),
                        _ => return false,
                    };
                    let next = st.nonces.get(&a).map_or(0, |n| n + 1);
                    // several commands in one transaction count on from each other
                    n.value() > next && n.value() - next <= 2 + t.inputs().len() as u64
                });
                let plain = t.inputs().iter().all(|i| i.utxo_outpoint().is_some())
                    && t.inputs().iter().collect::<BTreeSet<_>>().len() == t.inputs().len()
                    && t.outputs()
                        .iter()
                        .all(|o| matches!(o, TxOutput::Transfer(OutputValue::Coin(a), _) if *a > Amount::ZERO));
                if missing && plain {
                    Verdict::Later
                } else if missing || gap {
                    Verdict::MaybeLater
                } else {
                    Verdict::Bad(e)
                }
            }
            Ok(fee) => {
                if fee < fee_for(self.relay, size) {
                    return Verdict::Bad("fee");
                }
                let own = self.parents(pool, t);
                if !own.is_empty() {
                    let all = self.all_parents(pool);
                    let mut cluster = own;
                    loop {
                        let more: BTreeSet<usize> = (0..pool.len())
                            .filter(|i| !cluster.contains(i))
                            .filter(|i| all[*i].iter().any(|p| cluster.contains(p)) || cluster.iter().any(|c| all[*c].contains(i)))
                            .collect();
                        if more.is_empty() {
                            break;
                        }
                        cluster.extend(more);
                    }
                    if cluster.len() + 1 > self.max_count {
                        return Verdict::Bad("too many together");
                    }
                    if cluster.iter().map(|i| pool[*i].size).sum::<usize>() + size > self.max_bytes {
                        return Verdict::Bad("too big together");
                    }
                }
                if self.tight {
                    Verdict::MaybeIn(fee)
                } else {
                    Verdict::In(fee)
                }
            }
        }
    }

    /// Puts an accepted transaction into the pool and lets old ones go; whether it stayed.
    fn put(&self, pool: &mut Vec<Entry>, e: Entry) -> bool {
        let id = e.id;
        pool.push(e);
        let now = self.time();
        if pool.iter().any(|e| now.saturating_sub(e.created) > EXPIRY) {
            let all = self.all_parents(pool);
            let mut gone = BTreeSet::new();
            for i in 0..pool.len() {
                if now.saturating_sub(pool[i].created) > EXPIRY {
                    self.dropped.set(true);
                }
                if now.saturating_sub(pool[i].created) > EXPIRY || all[i].iter().any(|p| gone.contains(p)) {
                    gone.insert(i);
                }
            }
            let mut i = 0;
            pool.retain(|_| {
                i += 1;
                !gone.contains(&(i - 1))
            });
        }
        pool.iter().any(|e| e.id == id)
    }

    /// Whether those that are left after others expired still fit together; if not, the pool is made anew in some way.
    fn fits(&self, pool: &[Entry]) -> bool {
        self.state_with(pool).is_ok()
    }

    fn touch(&mut self, tx: &Transaction) {
        let g = gives(&self.t.net, tx);
        for o in self.orphans.values_mut() {
            if needs(o.tx.tx.transaction()).iter().any(|(d, _)| g.contains(d)) {
                o.touched = true;
                o.due = true;
            }
        }
    }

    /// Takes note of what entered the pool by itself.
    fn absorb(&mut self, s: &Snap) -> Res {
        let mut sim = self.pool.clone();
        let have: BTreeSet<TxId> = sim.iter().map(|e| e.id).collect();
        let extra: Vec<TxId> = s.pool.iter().filter(|i| !have.contains(i)).copied().collect();
        for id in &extra {
            let Some(o) = self.orphans.get(id).cloned() else {
                return Err(format!("{id} is in the pool, but nobody sent it, or it was refused"));
            };
            let st = self.state_with(&sim)?;
            let fee = match self.verdict(&sim, &st, &o.tx, false) {
                Verdict::In(f) | Verdict::MaybeIn(f) => f,
                v => return Err(format!("{id}, which waited for another one, was taken into the pool, yet: {v:?}")),
            };
            check!(
                o.touched,
                "{id}, which waited for another one, was taken into the pool although nothing new came"
            );
            let e = Entry {
                id: *id,
                tx: Arc::clone(&o.tx),
                created: o.created,
                from: Some(o.peer),
                fee,
                size: o.tx.tx.encoded_size(),
            };
            self.put(&mut sim, e);
            self.orphans.remove(id);
            self.entered.push(*id);
            self.late += 1;
            self.touch(o.tx.tx.transaction());
        }
        self.pool = self.agree(sim, s, "after what waited for others came in")?;
        self.agree_orphans(s)
    }

    /// The pool must be the expected one.
    fn agree(&self, want: Vec<Entry>, s: &Snap, what: &str) -> Result<Vec<Entry>, String> {
        let ids: Vec<TxId> = want.iter().map(|e| e.id).collect();
        if ids == s.pool {
            return Ok(want);
        }
        let name = |v: &[TxId]| {
            v.iter()
                .map(|i| format!("{i:x}").chars().take(6).collect::<String>())
                .collect::<Vec<_>>()
                .join(" ")
        };
        let all: BTreeMap<TxId, Entry> = want.iter().map(|e| (e.id, e.clone())).collect();
        let subset: Option<Vec<Entry>> = s.pool.iter().map(|i| all.get(i).cloned()).collect();
        match subset {
            Some(v) if self.tight || !self.fits(&want) => {
                self.dropped.set(true);
                self.state_with(&v).map_err(|e| if e.starts_with('[') { e } else { format!("{what}: {e}") })?;
                Ok(v)
            }
            _ => Err(format!("{what}: the pool holds [{}], expected [{}]", name(&s.pool), name(&ids))),
        }
    }

    /// One that waits is not looked at while something it spends from waits as well, even if a block has brought that
    /// in the meantime, nor is it looked at when that one is forgotten.
    fn not_due_after(&mut self, gone: &TxId) {
        for o in self.orphans.values_mut() {
            if needs(o.tx.tx.transaction()).iter().any(|(d, _)| matches!(d, Dep::Out(t, _) if t == gone)) {
                o.due = false;
            }
        }
    }

    fn agree_orphans(&mut self, s: &Snap) -> Res {
        for id in &s.orphans {
            check!(self.orphans.contains_key(id), "{id} is kept for later without a reason");
        }
        let now = self.time();
        let gone: Vec<TxId> = self.orphans.keys().filter(|i| !s.orphans.contains(i)).copied().collect();
        for id in gone {
            let o = self.orphans.remove(&id).expect("there");
            self.not_due_after(&id);
            check!(
                !o.sure || o.touched || self.crowd || self.tight || o.created + ORPHAN_EXPIRY < now,
                "{id}, kept for later, is gone although nothing happened to it"
            );
        }
        for o in s.orphans.iter() {
            self.orphans.get_mut(o).expect("there").sure = true;
        }
        check!(s.orphans.len() <= 100, "{} are kept for later", s.orphans.len());
        Ok(())
    }

    /// Several things one after another, before the pool can do anything by itself.
    fn burst(&mut self, g: &mut Gen, items: Vec<Item>) -> Res {
        for i in &items {
            if let Item::Send(tx, _) = i {
                self.remember(tx);
            }
        }
        let ids = self.ids();
        let list = items.clone();
        let how = if g.bool() { LocalTxOrigin::Mempool } else { LocalTxOrigin::P2p };
        let (first, rest) = self.ask(move |m| {
            let first = look(m, &ids);
            let mut rest = vec![];
            for i in list {
                let top = m.get_fee_rate(1 << 40).atoms_per_kb();
                let said = match i {
                    Item::Gone(p) => {
                        m.notify_peer_disconnected(PeerId::from_u64(p));
                        Said::Nothing
                    }
                    Item::Send(tx, None) => {
                        let o = TxOptions::default_for(TxOrigin::Local(how));
                        match m.add_transaction_local(tx.tx.clone(), how, o) {
                            Ok(TransactionDuplicateStatus::New) => Said::New,
                            Ok(TransactionDuplicateStatus::Duplicate) => Said::Known,
                            Err(e) => Said::Refused(e.to_string()),
                        }
                    }
                    Item::Send(tx, Some(p)) => {
                        let r = RemoteTxOrigin::new(PeerId::from_u64(p));
                        let o = TxOptions::default_for(TxOrigin::Remote(r));
                        match m.add_transaction_remote(tx.tx.clone(), r, o) {
                            Ok(TxStatus::InMempool) => Said::New,
                            Ok(TxStatus::InMempoolDuplicate) => Said::Known,
                            Ok(TxStatus::InOrphanPool) => Said::Later,
                            Ok(TxStatus::InOrphanPoolDuplicate) => Said::LaterKnown,
                            Err(e) => Said::Refused(e.to_string()),
                        }
                    }
                };
                rest.push((said, look(m, &ids), top));
            }
            (first, rest)
        })?;
        self.absorb(&first)?;
        for (i, (said, s, top)) in items.iter().zip(rest) {
            match i {
                Item::Gone(p) => {
                    let gone: Vec<TxId> =
                        self.orphans.iter().filter(|(_, o)| o.peer == *p).map(|(i, _)| *i).collect();
                    for id in gone {
                        self.orphans.remove(&id);
                        self.not_due_after(&id);
                    }
                    self.pool = self.agree(self.pool.clone(), &s, "after a peer left")?;
                }
                Item::Send(tx, from) => self.sent(tx, *from, said, &s, top)?,
            }
            self.agree_orphans(&s)?;
        }
        Ok(())
    }

    fn sent(&mut self, tx: &Arc<Tx>, from: Option<u64>, said: Said, s: &Snap, top: u128) -> Res {
        let id = tx.tx.transaction().get_id();
        let st = self.state_with(&self.pool)?;
        let v = self.verdict(&self.pool, &st, tx, from.is_none());
        let who = from.map_or("the user".into(), |p| format!("peer {p}"));
        let wrong = |w: &str| Err(format!("{id} from {who}: the pool said {said:?}, {w} (judged {v:?})"));
        let now = self.time();
        match &said {
            Said::New => {
                let (Verdict::In(fee) | Verdict::MaybeIn(fee)) = v else {
                    return wrong("it should not have been taken");
                };
                check!(fee >= fee_for(self.relay, tx.tx.encoded_size()), "fee too low");
                let e = Entry {
                    id,
                    tx: Arc::clone(tx),
                    created: now,
                    from,
                    fee,
                    size: tx.tx.encoded_size(),
                };
                let mut p = self.pool.clone();
                let stays = self.put(&mut p, e);
                check!(stays, "{id} taken on top of what is too old");
                self.pool = self.agree(p, s, "after a transaction was taken")?;
                check!(s.pool.contains(&id), "{id}: taken, but not there");
                self.entered.push(id);
                self.touch(tx.tx.transaction());
            }
            Said::Known => {
                if v != Verdict::Known {
                    return wrong("it is not in the pool");
                }
                if from.is_none() {
                    self.again += 1;
                }
                self.pool = self.agree(self.pool.clone(), s, "after a repeated transaction")?;
            }
            Said::Later | Said::LaterKnown => {
                if from.is_none() || !matches!(v, Verdict::Later | Verdict::MaybeLater) {
                    return wrong("it should not be kept for later");
                }
                let had = self.orphans.contains_key(&id);
                check_eq!(said == Said::LaterKnown, had, "{id}: kept for later before");
                if !had {
                    self.orphans.insert(
                        id,
                        Orphan {
                            tx: Arc::clone(tx),
                            peer: from.expect("remote"),
                            created: now,
                            touched: false,
                            due: false,
                            sure: true,
                        },
                    );
                }
                check!(s.orphans.contains(&id), "{id} is not kept for later, though it was said");
                for o in &s.orphans {
                    check!(
                        self.orphans.get(o).is_none_or(|o| o.created + ORPHAN_EXPIRY >= now),
                        "{o} is kept for too long"
                    );
                }
                self.pool = self.agree(self.pool.clone(), s, "after a transaction was kept for later")?;
            }
            Said::Refused(_) => {
                let mut gone = false;
                match v {
                    Verdict::Bad(_) | Verdict::MaybeLater | Verdict::MaybeIn(_) => {}
                    Verdict::Later if self.crowd || self.orphans.get(&id).is_some_and(|o| o.created + ORPHAN_EXPIRY < now) => {}
                    Verdict::In(fee) => {
                        // on top of something too old it goes with it
                        let e = Entry {
                            id,
                            tx: Arc::clone(tx),
                            created: now,
                            from,
                            fee,
                            size: tx.tx.encoded_size(),
                        };
                        let mut p = self.pool.clone();
                        if self.put(&mut p, e) {
                            return wrong("it should have been taken");
                        }
                        self.pool = self.agree(p, s, "after a transaction on top of what is too old")?;
                        gone = true;
                    }
                    _ => return wrong("it should not have been refused"),
                }
                if self.tight {
                    if let Verdict::MaybeIn(fee) = v {
                        // taken and thrown out again at once, or what was there went
                        let e = Entry {
                            id,
                            tx: Arc::clone(tx),
                            created: now,
                            from,
                            fee,
                            size: tx.tx.encoded_size(),
                        };
                        // (what is too old may not have been thrown out yet)
                        let mut p = self.pool.clone();
                        p.push(e);
                        self.pool = self.agree(p, s, "after a transaction for which there was no space")?;
                        gone = true;
                    }
                }
                if !gone {
                    self.pool = self.agree(self.pool.clone(), s, "after a refused transaction")?;
                }
                check!(!s.pool.contains(&id), "{id}: refused, but there");
            }
            Said::Nothing => unreachable!(),
        }
        if let (Said::New, Verdict::In(fee) | Verdict::MaybeIn(fee)) = (&said, v) {
            // `top` is what the pool said it asks for just before; while it is full it does not decay
            let _ = (fee, top);
        }
        Ok(())
    }

    /// Waits until everything that can come in has come in.
    fn settle(&mut self) -> Res {
        let start = Instant::now();
        loop {
            let ids = self.ids();
            let s = self.ask(move |m| look(m, &ids))?;
            self.absorb(&s)?;
            let st = self.state_with(&self.pool)?;
            let ripe: Vec<TxId> = self
                .orphans
                .iter()
                .filter(|(_, o)| o.due)
                .filter(|(_, o)| {
                    !needs(o.tx.tx.transaction())
                        .iter()
                        .any(|(d, _)| matches!(d, Dep::Out(t, _) if self.orphans.contains_key(t)))
                })
                .filter(|(_, o)| matches!(self.verdict(&self.pool, &st, &o.tx, false), Verdict::In(_)))
                .map(|(i, _)| *i)
                .collect();
            if ripe.is_empty() {
                return Ok(());
            }
            if start.elapsed() > PATIENCE {
                return Err(format!(
                    "{} could be in the pool since what it waited for is there, but is still kept for later",
                    ripe[0]
                ));
            }
            std::thread::sleep(Duration::from_millis(1));
        }
    }

    /// The orphans touched now that would be accepted must end up in the pool.
    fn must_enter(&self) -> Result<Vec<(TxId, u64)>, String> {
        let st = self.state_with(&self.pool)?;
        Ok(self
            .orphans
            .iter()
            .filter(|(_, o)| o.due)
            .filter(|(_, o)| {
                !needs(o.tx.tx.transaction())
                    .iter()
                    .any(|(d, _)| matches!(d, Dep::Out(t, _) if self.orphans.contains_key(t)))
            })
            .filter(|(_, o)| matches!(self.verdict(&self.pool, &st, &o.tx, false), Verdict::In(_)))
            .map(|(i, o)| (*i, o.created))
            .collect())
    }

    fn send(&mut self, g: &mut Gen, items: Vec<Item>) -> Res {
        self.burst(g, items)?;
        let ripe = self.must_enter()?;
        self.settle()?;
        if !self.tight && !self.crowd {
            let st = self.state_with(&self.pool)?;
            for (id, created) in ripe {
                if self.time().saturating_sub(created) > EXPIRY {
                    continue;
                }
                let tx = Arc::clone(&self.txs[&id]);
                let v = self.verdict(&self.pool, &st, &tx, false);
                check!(
                    !matches!(v, Verdict::In(_)) || self.orphans.contains_key(&id),
                    "{id} waited for another one, which came, but was thrown away instead of being taken in"
                );
            }
        }
        Ok(())
    }

    fn deliver(&mut self, id: &Id<GenBlock>) -> Res {
        let b = self.t.at(id).blk.clone().expect("made");
        let old = self.tip();
        let (want, why) = self.known.deliver(&self.t, id);
        let block = b.block.clone();
        let rt = self.rt.as_ref().expect("runs");
        let got = rt
            .block_on(async {
                tokio::time::timeout(
                    PATIENCE,
                    self.chain
                        .call_mut(move |c| c.process_block(block, BlockSource::Local).map(|x| x.is_some())),
                )
                .await
            })
            .map_err(|_| "the node does not answer".to_string())?
            .map_err(|e| format!("the node died: {e}"))?;
        use crate::world::Answer;
        let answer = match &got {
            Ok(true) => Answer::Tip,
            Ok(false) => Answer::Side,
            Err(_) => Answer::Refused,
        };
        check_eq!(answer, want, "block {id}: the node says {got:?}; expected because: {why}");
        if answer != Answer::Tip {
            return Ok(());
        }
        self.tips.push(*id);
        let start = Instant::now();
        while !self
            .events
            .lock()
            .expect("events")
            .iter()
            .any(|e| matches!(e, MempoolEvent::NewTip(t) if t.block_id() == id))
        {
            check!(start.elapsed() < PATIENCE, "the pool does not say that block {id} came");
            std::thread::sleep(Duration::from_micros(200));
        }
        self.moved += 1;
        // who is to be in the pool now
        let main: BTreeSet<_> = self.t.path(id).into_iter().collect();
        let left: Vec<_> = self.t.path(&old).into_iter().filter(|x| !main.contains(x)).collect();
        let was: BTreeSet<_> = self.t.path(&old).into_iter().collect();
        let mined: BTreeSet<TxId> = main
            .iter()
            .filter(|x| !was.contains(x))
            .flat_map(|x| self.t.at(x).blk.clone().expect("made").txs.clone())
            .map(|t| t.tx.transaction().get_id())
            .collect();
        self.reorged += usize::from(!left.is_empty());
        let now = self.time();
        let mut queue: Vec<Entry> = vec![];
        for x in &left {
            for t in &self.t.at(x).blk.clone().expect("made").txs {
                let i = t.tx.transaction().get_id();
                if !mined.contains(&i) {
                    queue.push(Entry {
                        id: i,
                        tx: Arc::clone(t),
                        created: now,
                        from: None,
                        fee: 0,
                        size: t.tx.encoded_size(),
                    });
                }
            }
        }
        for e in &queue {
            self.remember(&e.tx.clone());
        }
        queue.extend(std::mem::take(&mut self.pool));
        let mut sim: Vec<Entry> = vec![];
        let mut maybe = vec![];
        let mut fresh = vec![];
        for e in queue {
            let st = self.state_with(&sim)?;
            if self.tight && e.from.is_some() {
                // what it needs may not have found space again
                maybe.push(e.clone());
            }
            match self.verdict(&sim, &st, &e.tx, e.from.is_none()) {
                Verdict::In(fee) | Verdict::MaybeIn(fee) => {
                    fresh.push(Arc::clone(&e.tx));
                    self.put(&mut sim, Entry { fee, ..e });
                }
                Verdict::Later | Verdict::MaybeLater => maybe.push(e),
                Verdict::Known | Verdict::Bad(_) => {}
            }
        }
        for e in maybe {
            if let Some(p) = e.from {
                self.orphans.entry(e.id).or_insert(Orphan {
                    tx: e.tx,
                    peer: p,
                    created: e.created,
                    touched: true,
                    due: false,
                    sure: false,
                });
            }
        }
        // nobody looks at those that wait only for what the block brought
        self.orphans.values_mut().for_each(|o| o.due = false);
        for t in fresh {
            self.touch(t.tx.transaction());
        }
        self.pool = sim;
        let best = self.ask(|m| m.best_block_id())?;
        check_eq!(best, *id, "best block according to the pool");
        self.settle()
    }

    /// A payment from an output of `of`, or from any.
    fn pay(&mut self, g: &mut Gen, st: &State, of: Option<TxId>) -> Option<Tx> {
        let (h, time) = self.as_of();
        let fits =
            |o: &UtxoOutPoint, c: &crate::ledger::Coin| of.is_none_or(|x| o.source_id().get_tx_id() == Some(&x)) && st.unlocked(c, h, time);
        let own: Vec<(UtxoOutPoint, u128, bool)> = st
            .utxos
            .iter()
            .filter(|(o, c)| fits(o, c))
            .filter_map(|(o, c)| match &c.out {
                TxOutput::Transfer(OutputValue::Coin(a), d) | TxOutput::LockThenTransfer(OutputValue::Coin(a), d, _) => {
                    let mine = matches!(d, Destination::AnyoneCanSpend) || key_of(d).is_some();
                    (mine && a.into_atoms() > 100_000).then(|| (o.clone(), a.into_atoms(), true))
                }
                _ => None,
            })
            .collect();
        if own.is_empty() {
            return None;
        }
        let (o, have, _) = g.pick(&own).clone();
        let mut inputs: Vec<TxInput> = vec![o.clone().into()];
        let mut sum = have;
        if g.chance(1, 4) {
            let (p, a, _) = g.pick(&own).clone();
            if p != o {
                inputs.push(p.into());
                sum += a;
            }
        }
        let size = 150 + 60 * inputs.len();
        let fee = match g.below(6) {
            0 => fee_for(self.relay, size) / 2,
            1 => 0,
            _ => fee_for(self.relay, size * 3) + u128::from(g.range(0, 90_000)),
        }
        .min(sum / 2);
        let mut left = sum - fee;
        let mut outs = vec![];
        self.salt += 1;
        for _ in 0..g.range(0, 2) {
            let a = left / g.range(2, 4) as u128;
            left -= a;
            outs.push(a);
        }
        outs.push(left);
        let outs = outs
            .into_iter()
            .map(|a| {
                let v = OutputValue::Coin(Amount::from_atoms(a));
                match g.below(12) {
                    0 => TxOutput::LockThenTransfer(v, Destination::AnyoneCanSpend, OutputTimeLock::ForSeconds(0)),
                    1 => TxOutput::LockThenTransfer(v, Destination::AnyoneCanSpend, OutputTimeLock::ForBlockCount(0)),
                    2 => TxOutput::LockThenTransfer(v, Destination::AnyoneCanSpend, OutputTimeLock::ForBlockCount(1)),
                    3 => TxOutput::LockThenTransfer(
                        v,
                        Destination::AnyoneCanSpend,
                        OutputTimeLock::UntilTime(BlockTimestamp::from_int_seconds(time.saturating_sub(g.range(0, 400)))),
                    ),
                    4 => TxOutput::LockThenTransfer(
                        v,
                        Destination::AnyoneCanSpend,
                        OutputTimeLock::UntilHeight(BlockHeight::new(self.height() + g.range(0, 6))),
                    ),
                    _ => TxOutput::Transfer(v, Destination::AnyoneCanSpend),
                }
            })
            .collect();
        let tx = Transaction::new(0, inputs, outs).expect("flags");
        Some(self.t.sign(g, st, h, tx, false))
    }

    fn fresh(&mut self, g: &mut Gen, st: &State, of: Option<TxId>) -> Arc<Tx> {
        if g.chance(3, 5) {
            if let Some(t) = self.pay(g, st, of) {
                return Arc::new(t);
            }
        }
        let (h, time) = self.as_of();
        Arc::new(self.t.tx(g, st, h, time))
    }

    /// Transactions one on top of the other.
    fn line(&mut self, g: &mut Gen, st: &State, n: u64) -> Vec<Arc<Tx>> {
        let (h, time) = self.as_of();
        let mut st = st.clone();
        let mut v: Vec<Arc<Tx>> = vec![];
        for _ in 0..n {
            let of = v.last().map(|t| t.tx.transaction().get_id());
            let t = self.fresh(g, &st, of);
            let mut next = st.clone();
            if next.connect(&self.t.net, h, time, time, None, &t).is_ok() {
                st = next;
                v.push(t);
            }
        }
        v
    }

    fn peer(g: &mut Gen) -> Option<u64> {
        if g.chance(2, 5) {
            None
        } else {
            Some(g.range(1, 3))
        }
    }

    /// A block with nothing but a note that makes it different.
    fn reward(&mut self, own: u128) -> BlockReward {
        self.salt += 1;
        let out = |a: u128, n: u64| {
            TxOutput::LockThenTransfer(
                OutputValue::Coin(Amount::from_atoms(a)),
                Destination::AnyoneCanSpend,
                OutputTimeLock::ForBlockCount(n),
            )
        };
        BlockReward::new(vec![out(own, self.t.net.maturity()), out(0, 2_000_000 + self.salt)])
    }

    /// A block made of what the pool gives out.
    fn mine(&mut self, g: &mut Gen) -> Res {
        self.settle()?;
        let tip = self.tip();
        let place = self.t.at(&tip).clone();
        let mtp = median(&place.times);
        let total: usize = self.pool.iter().map(|e| e.size).sum();
        let target = match g.below(4) {
            0 => g.urange(0, total + 4),
            1 => total,
            _ => 1_000_000,
        };
        let want: Vec<TxId> = if self.pool.is_empty() || g.chance(3, 5) {
            vec![]
        } else {
            let mut v: Vec<TxId> = (0..g.urange(1, 3)).map(|_| g.pick(&self.pool).id).collect();
            v.dedup();
            v
        };
        let fill = want.is_empty() || g.bool();
        let off = g.chance(1, 12) && self.t.order.len() > 1;
        let expected = if off { *g.pick(&self.t.order) } else { tip };
        let list = want.clone();
        let unlock = BlockTimestamp::from_int_seconds(mtp);
        let got = self.ask(move |m| {
            let acc = Box::new(DefaultTxAccumulator::new(target, expected, unlock));
            let how = if fill {
                PackingStrategy::FillSpaceFromMempool
            } else {
                PackingStrategy::LeaveEmptySpace
            };
            m.collect_txs(acc, list, how)
                .map(|o| o.map(|a| (a.transactions().to_vec(), a.total_fees().into_atoms())))
                .map_err(|e| e.to_string())
        })?;
        let got = got.map_err(|e| format!("no transactions for a block: {e}"))?;
        if expected != tip {
            check!(got.is_none(), "transactions for a block on another block than the best");
            return Ok(());
        }
        let Some((txs, fees)) = got else {
            return Err("no transactions for a block on the best block".into());
        };
        check!(
            txs.encoded_size() <= target || txs.is_empty(),
            "{} bytes of transactions, asked for {target}",
            txs.encoded_size()
        );
        let at: BTreeMap<TxId, usize> = self.pool.iter().enumerate().map(|(i, e)| (e.id, i)).collect();
        let chosen: Vec<usize> = txs
            .iter()
            .map(|t| {
                at.get(&t.transaction().get_id())
                    .copied()
                    .ok_or_else(|| "a transaction for a block that is not in the pool".to_string())
            })
            .collect::<Result<_, _>>()?;
        check_eq!(
            chosen.iter().collect::<BTreeSet<_>>().len(),
            chosen.len(),
            "the same transaction twice for a block"
        );
        let all = self.all_parents(&self.pool);
        if !fill {
            let mut ok: BTreeSet<usize> = want.iter().map(|i| at[i]).collect();
            for i in (0..all.len()).rev() {
                if ok.contains(&i) {
                    ok.extend(all[i].iter().copied());
                }
            }
            check!(chosen.iter().all(|c| ok.contains(c)), "a transaction that was not asked for");
        }
        // the block must be good, whatever its time
        let h = place.height + 1;
        let last = *place.times.last().expect("genesis");
        let time = match g.below(3) {
            0 => mtp,
            1 => last.max(mtp) + 1,
            _ => last.max(mtp) + g.range(2, 40),
        }
        .min(clock(&self.t.net).max(mtp));
        let mut st = self.tip_state();
        let mut real = 0u128;
        for c in &chosen {
            let e = &self.pool[*c];
            real += st.connect(&self.t.net, h, time, mtp, None, &e.tx).map_err(|x| {
                format!(
                    "{} was given out for a block (height {h}, time {time}, median {mtp}), but is not valid in it: {x}",
                    e.id
                )
            })?;
        }
        check!(fees <= real, "the pool promised {fees} in fees for a block, the block has {real}");
        check_eq!(fees, real, "fees of a block: promised and real");
        if want.is_empty() {
            self.greedy(&chosen, &all, target, h, mtp)?;
        }
        let subsidy = self.t.net.chain.block_subsidy_at_height(&BlockHeight::new(h)).into_atoms();
        let reward = self.reward(subsidy + fees);
        let block = Block::new(txs, tip, BlockTimestamp::from_int_seconds(time), ConsensusData::None, reward).expect("makes a block");
        let list = chosen.iter().map(|c| Arc::clone(&self.pool[*c].tx)).collect();
        let id = self.t.add(Blk { block, txs: list });
        let v = self.t.at(&id).verdict;
        check!(v.is_ok(), "a block of what the pool gave out is not valid: {v:?}");
        self.deliver(&id)
    }

    fn score(&self, all: &[BTreeSet<usize>], i: usize) -> u128 {
        let mut set = BTreeSet::from([i]);
        let mut todo = vec![i];
        while let Some(x) = todo.pop() {
            for p in &all[x] {
                if set.insert(*p) {
                    todo.push(*p);
                }
            }
        }
        let (f, s) = set
            .iter()
            .fold((0, 0), |(f, s), x| (f + self.pool[*x].fee, s + self.pool[*x].size as u128));
        (f * 1000 / s).min(self.pool[i].fee * 1000 / self.pool[i].size as u128)
    }

    fn low_score(&self, all: &[BTreeSet<usize>], i: usize) -> u128 {
        let mut set = BTreeSet::from([i]);
        for j in i + 1..all.len() {
            if all[j].iter().any(|p| set.contains(p)) {
                set.insert(j);
            }
        }
        let (f, s) = set
            .iter()
            .fold((0, 0), |(f, s), x| (f + self.pool[*x].fee, s + self.pool[*x].size as u128));
        (f * 1000 / s).max(self.pool[i].fee * 1000 / self.pool[i].size as u128)
    }

    /// The best first, as long as there is space.
    fn greedy(&self, chosen: &[usize], all: &[BTreeSet<usize>], target: usize, h: u64, mtp: u64) -> Res {
        let score: Vec<u128> = (0..all.len()).map(|i| self.score(all, i)).collect();
        let mut st = self.tip_state();
        let mut out: BTreeSet<usize> = BTreeSet::new();
        let mut failed: BTreeSet<usize> = BTreeSet::new();
        let mut size = 0usize;
        let ready = |out: &BTreeSet<usize>, i: usize| !out.contains(&i) && all[i].iter().all(|p| out.contains(p));
        let mut blocked = false;
        for step in 0..=chosen.len() {
            // those that could not go in here are not asked again, so they count as failed from now on
            for i in 0..all.len() {
                // a block may have any time not before the median, so what is locked by it is locked
                let tx = &self.pool[i].tx;
                let good = || {
                    State::plain_tx(&self.t.net, h, tx).is_ok() && st.clone().connect(&self.t.net, h, u64::MAX / 2, mtp, None, tx).is_ok()
                };
                if ready(&out, i) && !good() {
                    failed.insert(i);
                }
            }
            let best = (0..all.len())
                .filter(|i| ready(&out, *i) && !failed.contains(i))
                .max_by_key(|i| score[*i]);
            match (chosen.get(step), best) {
                (Some(c), Some(b)) => {
                    check!(
                        score[*c] >= score[b],
                        "transaction {} of a block has score {}, but one with score {} was left for later",
                        step,
                        score[*c],
                        score[b]
                    );
                    size += self.pool[*c].size;
                    // times are relative to that of the block: none is known yet
                    let _ = st.connect(&self.t.net, h, u64::MAX / 2, mtp, None, &self.pool[*c].tx);
                    out.insert(*c);
                }
                (Some(_), None) => {
                    // one that seemed not to fit at first; nothing to compare with
                    let c = chosen[step];
                    size += self.pool[c].size;
                    let _ = st.connect(&self.t.net, h, u64::MAX / 2, mtp, None, &self.pool[c].tx);
                    out.insert(c);
                }
                (None, Some(b)) => {
                    let full = (0..all.len())
                        .filter(|i| ready(&out, *i) && !failed.contains(i) && score[*i] == score[b])
                        .any(|i| size + self.pool[i].size + serialization::Compact(chosen.len() as u64 + 1).encoded_size() > target);
                    blocked = true;
                    check!(
                        full,
                        "a transaction with score {} was left out of a block, though it fits: {} {:?} {:?}; there are {:?}; failed {failed:?}; parents {all:?}",
                        score[b],
                        self.pool[b].id,
                        self.pool[b].tx.tx.transaction().inputs(),
                        self.pool[b].tx.tx.transaction().outputs(),
                        chosen,
                    );
                }
                (None, None) => {}
            }
        }
        let _ = blocked;
        Ok(())
    }

    /// What the pool says about its contents.
    fn queries(&mut self, g: &mut Gen) -> Res {
        self.settle()?;
        let all = self.all_parents(&self.pool);
        let ids: Vec<TxId> = self.pool.iter().map(|e| e.id).collect();
        let other: Vec<TxId> = self.txs.keys().filter(|i| !ids.contains(i)).copied().collect();
        let some: BTreeSet<TxId> = ids.iter().filter(|_| g.chance(2, 3)).copied().collect();
        let count = g.urange(0, some.len() + 1);
        let (a, b, some2) = (ids.clone(), other.clone(), some.clone());
        let points = NonZeroUsize::new(if g.bool() { 1000 } else { g.urange(1, 5) }).expect("some");
        let (scores, there, not, best, rates, spread) = self.ask(move |m| {
            let scores: Vec<_> = a
                .iter()
                .map(|i| m.get_tx_score(i).ok().flatten().map(|s| s.atoms_per_kb()))
                .collect();
            let there: Vec<_> = a.iter().map(|i| (m.contains_transaction(i), m.transaction(i))).collect();
            let not: Vec<_> = b
                .iter()
                .map(|i| {
                    let orphan = m.orphan_transaction(i);
                    (
                        m.contains_transaction(i),
                        m.transaction(i).is_some(),
                        orphan.map(|t| t.transaction().get_id()),
                        m.contains_orphan_transaction(i),
                    )
                })
                .collect();
            let best = m.get_best_tx_ids_by_score_and_ancestry(&some2, count).map_err(|e| e.to_string());
            let rates = (m.get_fee_rate(0).atoms_per_kb(), m.get_fee_rate(1).atoms_per_kb());
            let spread = m
                .get_fee_rate_points(points)
                .map(|v| v.into_iter().map(|(s, r)| (s, r.atoms_per_kb())).collect::<Vec<_>>())
                .map_err(|e| e.to_string());
            (scores, there, not, best, rates, spread)
        })?;
        for (i, e) in self.pool.iter().enumerate() {
            check_eq!(scores[i], Some(self.score(&all, i)), "score of {}", e.id);
            check!(there[i].0 && there[i].1.as_ref() == Some(&e.tx.tx), "{}: not as it came", e.id);
        }
        for (i, (a, b, o, c)) in other.iter().zip(not) {
            check!(!a && !b, "{i}: said to be in the pool");
            check!(o.is_none_or(|x| x == *i) && o.is_some() == c, "{i}: kept for later or not?");
        }
        // the best ones, parents first
        let mut order = vec![];
        let up = |i: usize| {
            let mut set = BTreeSet::new();
            let mut todo = vec![i];
            while let Some(x) = todo.pop() {
                for p in &all[x] {
                    if set.insert(*p) {
                        todo.push(*p);
                    }
                }
            }
            set
        };
        let picked: BTreeSet<usize> = (0..ids.len()).filter(|i| some.contains(&ids[*i])).collect();
        while order.len() < count {
            let next = picked
                .iter()
                .filter(|i| !order.contains(*i) && up(**i).iter().all(|p| !picked.contains(p) || order.contains(p)))
                .max_by_key(|i| (self.score(&all, **i), ids[**i]));
            match next {
                Some(i) => order.push(*i),
                None => break,
            }
        }
        let order: Vec<TxId> = order.into_iter().map(|i| ids[i]).collect();
        check_eq!(best, Ok(order), "the best {count} of some transactions");
        // fee rates
        let mut by: Vec<(u128, TxId, usize)> = (0..ids.len())
            .map(|i| (self.low_score(&all, i), ids[i], self.pool[i].size))
            .collect();
        by.sort_unstable();
        by.reverse();
        let floor = rates.1;
        check!(floor >= self.relay, "fee rate below the least");
        if !self.tight {
            check_eq!(floor, self.relay, "least fee rate");
        }
        check_eq!(rates.0, by.first().map_or(floor, |x| x.0.max(floor)), "fee rate to be at the top");
        let spread = spread.map_err(|e| format!("no fee rates: {e}"))?;
        check!(!spread.is_empty() && spread.len() <= points.get().max(1), "number of fee rates");
        check!(
            spread.windows(2).all(|w| w[0].0 < w[1].0 && w[0].1 >= w[1].1),
            "fee rates do not fall: {spread:?}"
        );
        check!(spread.iter().all(|x| x.1 >= floor), "fee rate below the least");
        if points.get() == 1000 && by.len() < 500 {
            let mut at = 0;
            let mut want: BTreeMap<usize, u128> = BTreeMap::new();
            for (s, _, size) in by.iter().copied().chain([(floor, TxId::new(common::primitives::H256::zero()), 1)]) {
                at += size;
                want.insert(at, s.max(floor));
            }
            let first = *want.keys().next().expect("some");
            if at - first >= 1000 || want.len() == 1 {
                check_eq!(spread, want.into_iter().collect::<Vec<_>>(), "fee rates");
            }
        }
        Ok(())
    }

    /// In the end: everything has been told.
    fn told(&mut self) -> Res {
        self.settle()?;
        let mut want = self.entered.clone();
        want.sort_unstable();
        let start = Instant::now();
        loop {
            let all = self.events.lock().expect("events").clone();
            let mut new: Vec<TxId> = vec![];
            let mut again = 0;
            let mut tips = vec![];
            for e in &all {
                match e {
                    MempoolEvent::NewTip(t) => {
                        check_eq!(
                            t.block_height().into_int(),
                            self.t.at(t.block_id()).height,
                            "height of a new best block"
                        );
                        tips.push(*t.block_id());
                    }
                    MempoolEvent::TransactionProcessed(t) => {
                        let taken = matches!(t.result(), Ok(TransactionDuplicateStatus::New));
                        check_eq!(t.new_tx_accepted(), taken, "whether a transaction was taken");
                        check!(t.result().is_err() || t.ban_score() == 0, "blame for a good transaction");
                        let mempool::rpc_event::RpcEvent::TransactionProcessed { tx_id, successful, .. } =
                            mempool::rpc_event::RpcEvent::from_event(e.clone())
                        else {
                            return Err("another event told".into());
                        };
                        check!(tx_id == *t.tx_id() && successful == t.result().is_ok(), "event told by RPC");
                        match t.result() {
                        Ok(TransactionDuplicateStatus::New) => new.push(*t.tx_id()),
                        Ok(TransactionDuplicateStatus::Duplicate) => again += 1,
                        Err(_) => {}
                    }}
                }
            }
            new.sort_unstable();
            let good = new == want && again == self.again && tips.len() == self.tips.len();
            if good {
                let mut a = tips;
                let mut b = self.tips.clone();
                a.sort_unstable();
                b.sort_unstable();
                check_eq!(a, b, "best blocks told");
                return Ok(());
            }
            if start.elapsed() > PATIENCE || new.len() > want.len() || again > self.again || tips.len() > self.tips.len() {
                return Err(format!(
                    "told: {} transactions taken, {again} repeated, {} blocks; should be {}, {} and {}",
                    new.len(),
                    tips.len(),
                    want.len(),
                    self.again,
                    self.tips.len()
                ));
            }
            std::thread::sleep(Duration::from_micros(300));
        }
    }

    fn children_waiting(&self) -> usize {
        self.all_parents(&self.pool).iter().filter(|p| !p.is_empty()).count()
    }
}

fn step(g: &mut Gen, w: &mut World, mine: u64, later: u64) -> Res {
    match g.weighted(&[8, 6, 3, 2, mine, 3, later, 1, 2, 3]) {
        0 => {
            // one, on top of what waits
            let st = w.state_with(&w.pool)?;
            let of = (!w.pool.is_empty() && g.bool()).then(|| g.pick(&w.pool).id);
            let tx = w.fresh(g, &st, of);
            let from = World::peer(g);
            w.send(g, vec![Item::Send(tx, from)])
        }
        1 => {
            // a line of them, in any order
            let st = if g.chance(1, 8) { w.tip_state() } else { w.state_with(&w.pool)? };
            let n = g.range(2, 4);
            let mut v = w.line(g, &st, n);
            match g.below(3) {
                0 => v.reverse(),
                1 => g.shuffle(&mut v),
                _ => {}
            }
            if g.chance(1, 4) {
                w.stash.extend(v.pop());
            }
            let one = g.chance(1, 4);
            let p = g.range(1, 3);
            let items: Vec<Item> = v
                .into_iter()
                .map(|t| Item::Send(t, if one { World::peer(g) } else { Some(p) }))
                .collect();
            if g.bool() {
                w.send(g, items)
            } else {
                items.into_iter().try_for_each(|i| w.send(g, vec![i]))
            }
        }
        2 => {
            // an old one again, or one held back
            let tx = if !w.stash.is_empty() && g.bool() {
                let i = g.below(w.stash.len() as u64) as usize;
                w.stash.swap_remove(i)
            } else if w.t.txs.is_empty() {
                return Ok(());
            } else {
                Arc::clone(g.pick(&w.t.txs))
            };
            let from = World::peer(g);
            w.send(g, vec![Item::Send(tx, from)])
        }
        3 => {
            // one that knows nothing of what waits
            let st = w.tip_state();
            let tx = w.fresh(g, &st, None);
            let from = World::peer(g);
            w.send(g, vec![Item::Send(tx, from)])
        }
        4 => w.mine(g),
        5 => {
            // somebody else's block
            let on = w.t.pick(g, &w.known.best.clone(), &w.known.blocks.clone());
            let n = g.range(0, 3);
            let id = w.t.grow(g, on, n);
            w.deliver(&id)
        }
        6 => {
            w.settle()?;
            let s = match g.weighted(&[8, 3, 1, 1]) {
                0 => g.range(0, 60),
                1 => g.range(49, 400),
                2 => 12 * 3600,
                _ => EXPIRY - 1 + g.range(0, 3),
            };
            w.now.fetch_add(s, Ordering::SeqCst);
            w.orphans.values_mut().for_each(|o| o.due = false);
            Ok(())
        }
        7 => {
            let p = g.range(1, 3);
            w.send(g, vec![Item::Gone(p)])
        }
        8 => w.queries(g),
        _ => {
            // peers come and go while transactions arrive
            let st = w.state_with(&w.pool)?;
            let mut items: Vec<Item> = vec![];
            let mut st = st;
            let (h, time) = w.as_of();
            let last = g.chance(1, 3);
            for k in 0..2 {
                let v = w.line(g, &st, 2);
                for t in &v {
                    let mut next = st.clone();
                    if next.connect(&w.t.net, h, time, time, None, t).is_ok() {
                        st = next;
                    }
                }
                let (a, b) = (g.range(1, 2), g.range(1, 2));
                for (i, t) in v.into_iter().rev().enumerate() {
                    items.push(Item::Send(t, Some(if i == 0 { a } else { b })));
                }
                if k == 0 || last {
                    items.push(Item::Gone(a));
                }
            }
            if g.chance(1, 3) {
                g.shuffle(&mut items);
            }
            w.send(g, items)
        }
    }
}

fn start(g: &mut Gen, w: &mut World) -> Res {
    // a few blocks, so that there is something to spend
    for _ in 0..g.range(1, 3) {
        let on = w.tip();
        let n = g.range(1, 4);
        let id = w.t.grow(g, on, n);
        w.deliver(&id)?;
    }
    Ok(())
}

fn finish(g: &mut Gen, w: &mut World) -> Res {
    w.queries(g)?;
    w.told()?;
    note!(
        g,
        "{} transactions taken, {} late, {} in the pool at the end, {} best blocks, {} changes of branch",
        w.entered.len(),
        w.late,
        w.pool.len(),
        w.moved,
        w.reorged
    );
    g.tag_if(w.late > 0, "late parent");
    g.tag_if(w.reorged > 0, "branch changed");
    g.tag_if(w.orphans.len() > 1, "kept for later");
    Ok(())
}

const RELAYS: [u128; 3] = [0, 1000, 10_000_000];

fn history(g: &mut Gen) -> Res {
    let relay = *g.pick(&RELAYS);
    let count = if g.chance(1, 3) { g.urange(1, 5) } else { 64 };
    let bytes = if g.chance(1, 5) { g.urange(300, 3000) } else { 100_000 };
    let mut w = World::new(g, relay, count, bytes)?;
    start(g, &mut w)?;
    let mut stacked = 0;
    for _ in 0..g.len(4, 22) {
        step(g, &mut w, 2, 3)?;
        stacked = stacked.max(w.children_waiting());
    }
    g.nontrivial_if(stacked > 0 && (w.moved > 3 || w.late > 0));
    finish(g, &mut w)
}

fn templates(g: &mut Gen) -> Res {
    let relay = *g.pick(&RELAYS);
    let mut w = World::new(g, relay, 64, 100_000)?;
    start(g, &mut w)?;
    let mut stacked = 0;
    for _ in 0..g.len(3, 14) {
        step(g, &mut w, 14, 1)?;
        stacked = stacked.max(w.children_waiting());
    }
    w.mine(g)?;
    g.nontrivial_if(stacked > 0);
    finish(g, &mut w)
}

/// The space is limited.
fn limits(g: &mut Gen) -> Res {
    let mut w = World::new(g, 1000, 64, 100_000)?;
    start(g, &mut w)?;
    for _ in 0..g.len(4, 12) {
        step(g, &mut w, 1, 1)?;
    }
    w.settle()?;
    if g.bool() {
        // a node that has been up for a while
        w.now.fetch_add(g.range(3600, EXPIRY / 2), Ordering::SeqCst);
        w.orphans.values_mut().for_each(|o| o.due = false);
        step(g, &mut w, 0, 0)?;
        w.settle()?;
    }
    let ids = w.ids();
    let before = w.ask(move |m| look(m, &ids))?;
    let all = w.all_parents(&w.pool);
    let limit = match g.below(5) {
        0 => 0,
        1 => before.memory.saturating_sub(1),
        2 => before.memory,
        _ => g.urange(0, before.memory),
    };
    w.tight = true;
    let ids = w.ids();
    let (r, s, rate) = w.ask(move |m| {
        let r = m.set_size_limit(MempoolMaxSize::from_bytes(limit)).map_err(|e| e.to_string());
        (r, look(m, &ids), m.get_fee_rate(1 << 40).atoms_per_kb())
    })?;
    check!(r.is_ok(), "limit refused: {r:?}");
    check!(
        s.pool.is_empty() || s.memory <= limit,
        "{} bytes used, the limit is {limit}",
        s.memory
    );
    if before.memory <= limit {
        check_eq!(&s.pool, &before.pool, "pool after a limit it meets");
    } else {
        check!(s.pool.len() < before.pool.len() || before.pool.is_empty(), "nothing went");
    }
    // who went: first one with the least score
    let gone: Vec<usize> = (0..w.pool.len()).filter(|i| !s.pool.contains(&w.pool[*i].id)).collect();
    if !gone.is_empty() {
        let scores: Vec<(u128, TxId, usize)> = {
            let mut v: Vec<_> = (0..w.pool.len()).map(|i| (w.low_score(&all, i), w.pool[i].id, i)).collect();
            v.sort_unstable();
            v
        };
        check!(gone.contains(&scores[0].2), "the one with the least score stayed");
        if limit + 1 == before.memory {
            // no more than has to go
            let alone = gone.iter().all(|i| *i == scores[0].2 || all[*i].iter().any(|p| gone.contains(p)));
            check!(alone, "for a single byte, {} of {} went", gone.len(), w.pool.len());
            g.tag("a byte too many");
        }
        let own = |i: usize| w.pool[i].fee * 1000 / w.pool[i].size as u128;
        check!(
            rate >= own(scores[0].2) + 1000 && rate >= 1000,
            "the fee rate asked for, {rate}, is not above that of what went"
        );
        let most = gone.iter().map(|i| own(*i)).max().unwrap_or(0) + 1000;
        check!(
            rate <= most.max(1000),
            "the fee rate asked for, {rate}, is above that of all that went"
        );
        g.tag("thrown out");
    } else {
        check_eq!(rate, 1000, "fee rate asked for");
    }
    w.pool = w.agree(w.pool.clone(), &s, "after a new limit")?;
    g.nontrivial_if(!gone.is_empty() && !s.pool.is_empty());
    // below what is asked for nothing comes in, until a block comes
    let asked = rate;
    for _ in 0..g.range(1, 5) {
        let st = w.state_with(&w.pool)?;
        let tx = w.fresh(g, &st, None);
        let id = tx.tx.transaction().get_id();
        let (h, time) = w.as_of();
        let fee = st.clone().connect(&w.t.net, h, time, time, None, &tx).unwrap_or(0);
        let had = w.pool.iter().any(|e| e.id == id);
        let p = World::peer(g);
        w.send(g, vec![Item::Send(Arc::clone(&tx), p)])?;
        let ids = w.ids();
        let s = w.ask(move |m| look(m, &ids))?;
        check!(
            s.pool.is_empty() || s.memory <= limit,
            "{} bytes used, the limit is {limit}",
            s.memory
        );
        if fee < fee_for(asked, tx.tx.encoded_size()) && asked > 1000 && !had {
            check!(
                !s.pool.contains(&id),
                "{id} came in with a fee below what is asked for since the pool was full"
            );
            g.tag("too cheap");
        }
    }
    if asked > 1000 && g.bool() {
        fades(g, &mut w, limit)?;
    }
    for _ in 0..g.range(0, 4) {
        step(g, &mut w, 3, 2)?;
        let ids = w.ids();
        let s = w.ask(move |m| look(m, &ids))?;
        check!(
            s.pool.is_empty() || s.memory <= limit,
            "{} bytes used, the limit is {limit}",
            s.memory
        );
    }
    // space again: the least fee rate is asked for
    let (r, rate) = w.ask(|m| {
        let r = m.set_size_limit(MempoolMaxSize::from_bytes(300_000_000)).map_err(|e| e.to_string());
        (r, m.get_fee_rate(1 << 40).atoms_per_kb())
    })?;
    check!(r.is_ok(), "limit refused: {r:?}");
    check_eq!(rate, 1000, "fee rate asked for after the limit was raised");
    w.settle()?;
    w.tight = false;
    for _ in 0..3 {
        step(g, &mut w, 2, 1)?;
    }
    w.queries(g)
}

/// The rate asked for since the pool was full: it stays until a block comes, and from then on it
/// halves every 12 hours, at most four times as fast while the pool is rather empty.
fn fades(g: &mut Gen, w: &mut World, limit: usize) -> Res {
    let rate = |w: &World| w.ask(|m| m.get_fee_rate(1 << 40).atoms_per_kb());
    let wait = |g: &mut Gen, w: &mut World, s: u64| -> Res {
        w.settle()?;
        w.now.fetch_add(s, Ordering::SeqCst);
        w.orphans.values_mut().for_each(|o| o.due = false);
        Ok(())
    };
    let poke = |g: &mut Gen, w: &mut World| -> Result<Option<TxId>, String> {
        let st = w.state_with(&w.pool)?;
        let tx = w.fresh(g, &st, None);
        let id = tx.tx.transaction().get_id();
        let had = w.pool.iter().any(|e| e.id == id);
        let p = World::peer(g);
        w.send(g, vec![Item::Send(tx, p)])?;
        Ok((!had).then_some(id))
    };
    let first = rate(w)?;
    let s = g.range(0, 3 * 86_400);
    wait(g, w, s)?;
    poke(g, w)?;
    let stays = rate(w)?;
    check!(stays >= first, "no block came, and the rate asked for fell from {first} to {stays}");
    let on = w.t.pick(g, &w.known.best.clone(), &w.known.blocks.clone());
    let n = g.range(0, 2);
    let block = w.t.grow(g, on, n);
    let tip = w.tip();
    w.deliver(&block)?;
    let from = rate(w)?;
    check!(from >= stays, "as a block came the rate asked for fell from {stays} to {from}");
    let came = w.tip() != tip;
    let ids = w.ids();
    let held = w.ask(move |m| look(m, &ids))?;
    let s = *g.pick(&[5, 60, 3600, 10_800, 43_200, 86_400]) + g.range(0, 60);
    wait(g, w, s)?;
    let id = poke(g, w)?;
    let ids = w.ids();
    let after = w.ask(move |m| look(m, &ids))?;
    let to = rate(w)?;
    let faded = |halves: u64| from as f64 / (s as f64 / halves as f64).exp2();
    let least = if came { faded(10_800) } else { from as f64 };
    let least = if least < 500.0 { 0.0 } else { least * (1.0 - 1e-9) - 1.0 };
    check!(to as f64 >= least, "{s} s after a block the rate asked for is {to}, it was {from}");
    let grown = |id: &TxId| {
        held.pool.iter().all(|x| after.pool.contains(x))
            && after.pool.len() == held.pool.len() + 1
            && after.pool.contains(id)
    };
    if came && from == stays && s > 10 && id.as_ref().is_some_and(grown) {
        let halves = if held.memory < limit / 4 {
            10_800
        } else if held.memory < limit / 2 {
            21_600
        } else {
            43_200
        };
        check!(
            to as f64 <= faded(halves).max(1000.0) * (1.0 + 1e-9) + 1.0,
            "{s} s after a block the rate asked for is still {to}, it was {from}"
        );
        g.tag("faded");
    }
    // the longer it takes, the less; but no time counts twice
    let mut sum = s;
    for _ in 0..g.range(0, 2) {
        let s = *g.pick(&[15, 600, 3600, 7200]);
        sum += s;
        wait(g, w, s)?;
        poke(g, w)?;
        let to = rate(w)?;
        let least = if came { from as f64 / (sum as f64 / 10_800.0).exp2() } else { from as f64 };
        let least = if least < 500.0 { 0.0 } else { least * (1.0 - 1e-9) - 3.0 };
        check!(to as f64 >= least, "{sum} s after a block the rate asked for is {to}, it was {from}");
        g.tag_if(came, "faded twice");
    }
    g.tag_if(came, "a block after a full pool");
    Ok(())
}

/// Fees and their rates.
fn rates(g: &mut Gen) -> Res {
    let rate = g.u128() >> g.below(128);
    let size = (g.raw64() >> g.below(64)) as usize;
    let (r, n) = (FeeRate::from_atoms_per_kb(rate), size as u128);
    check_eq!(r.atoms_per_kb(), rate, "a rate");
    let want = rate.checked_mul(n).and_then(|x| x.checked_add(999)).map(|x| x / 1000);
    check_eq!(r.compute_fee(size).ok().map(|f| f.into_atoms()), want, "the fee of {size} bytes at {rate}");
    g.nontrivial_if(want.is_some_and(|x| x > 0));
    if let Some(size) = std::num::NonZeroUsize::new(size) {
        let fee = g.u128() >> g.below(128);
        let of = FeeRate::from_total_tx_fee(Amount::from_atoms(fee).into(), size).ok();
        check_eq!(of.map(|x| x.atoms_per_kb()), fee.checked_mul(1000).map(|x| x / n), "the rate of {fee} for {size} bytes");
        // a transaction that pays its rate's fee has the rate
        if let (Some(of), Some(least)) = (of, want) {
            let again = of.compute_fee(size.get()).ok().map(|f| f.into_atoms());
            check!(again.is_none_or(|a| a <= fee), "the fee of the rate of {fee} is {again:?}");
            if let Ok(x) = FeeRate::from_total_tx_fee(Amount::from_atoms(least).into(), size) {
                check!(x.atoms_per_kb() >= rate, "{least} for {size} bytes is not {rate}");
            }
        }
    }
    let other = g.u128() >> g.below(128);
    check_eq!((r + FeeRate::from_atoms_per_kb(other)).map(|x| x.atoms_per_kb()), rate.checked_add(other), "sum of rates");
    Ok(())
}

/// More that waits for something unknown than is kept.
fn flood(g: &mut Gen) -> Res {
    let mut w = World::new(g, 0, 64, 100_000)?;
    start(g, &mut w)?;
    for _ in 0..g.range(0, 3) {
        step(g, &mut w, 1, 1)?;
    }
    let n = g.urange(90, 130);
    let mut items = vec![];
    let lines = {
        let st = w.state_with(&w.pool)?;
        w.line(g, &st, 3)
    };
    for i in 0..n {
        let mut id = [7u8; 32];
        id[..8].copy_from_slice(&(i as u64).to_le_bytes());
        let input = TxInput::from_utxo(Id::<Transaction>::new(common::primitives::H256(id)).into(), 0);
        let out = TxOutput::Transfer(OutputValue::Coin(Amount::from_atoms(5)), Destination::AnyoneCanSpend);
        let tx = Transaction::new(0, vec![input], vec![out]).expect("flags");
        let st = w.tip_state();
        items.push(Item::Send(Arc::new(w.t.sign(g, &st, 1, tx, false)), Some(1 + g.range(0, 2))));
    }
    w.crowd = true;
    w.send(g, items)?;
    g.nontrivial_if(w.orphans.len() == 100);
    check!(
        w.orphans.len() == n.min(100) || n < 100,
        "{} of {n} kept for later",
        w.orphans.len()
    );
    // the others are not kept out
    for t in lines {
        w.send(g, vec![Item::Send(t, Some(2))])?;
    }
    let p = g.range(1, 3);
    w.send(g, vec![Item::Gone(p)])?;
    check!(w.orphans.values().all(|o| o.peer != p), "still kept for a peer that left");
    for _ in 0..3 {
        step(g, &mut w, 2, 1)?;
    }
    w.told()
}
