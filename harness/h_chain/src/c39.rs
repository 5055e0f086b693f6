//! The wallet against a plain reading of the chain.
use crate::{
    c30,
    ledger::{median, Blk, Coin, Net, State, Tx},
    world::{nets, set_owners, Tree},
};
use common::{
    chain::{
        make_delegation_id, make_order_id, make_token_id,
        output_value::OutputValue,
        block::timestamp::BlockTimestamp,
        tokens::{RPCFungibleTokenInfo, RPCIsTokenFrozen, RPCTokenTotalSupply, TokenId, TokenIssuance, TokenTotalSupply},
        AccountCommand, AccountType, Block, ChainConfig, Currency, DelegationId, Destination, GenBlock, OrderId, PoolId, TxInput, TxOutput, UtxoOutPoint,
    },
    primitives::{Amount, BlockHeight, Id, Idable},
};
use crypto::key::{
    extended::ExtendedPublicKey,
    hdkd::{child_number::ChildNumber, derivable::Derivable, u31::U31},
};
use common::address::pubkeyhash::PublicKeyHash;
use gens::make;
use pbt::{check, check_eq, facet, note, Gen, Property, Res};
use std::{
    collections::{BTreeMap, BTreeSet},
    future::Future,
    sync::{
        atomic::{AtomicU64, Ordering},
        Arc, OnceLock,
    },
};
use wallet::{
    account::UnconfirmedTokenInfo,
    signer::software_signer::SoftwareSignerProvider,
    wallet::{Wallet, WalletPoolsFilter},
    wallet_events::WalletEventsNoOp,
    DefaultWallet,
};
use wallet_storage::{DefaultBackend, Store};
use wallet_types::{
    seed_phrase::StoreSeedPhrase,
    utxo_types::{UtxoState, UtxoStates, UtxoTypes},
    wallet_type::{WalletControllerMode, WalletType},
    with_locked::WithLocked,
};

pub const P: Property = Property {
    id: "C39",
    rule: "scan: chains of random valid blocks with outputs of every kind to destinations of the wallet and others, grown in up to 12 \
           steps with reorganisations, scanned in pieces and again, with reloads and fresh starts. pending: up to 24 steps of \
           unconfirmed transactions of its own or from the mempool, of which some get confirmed, outdone or abandoned, with reloads. \
           After each step everything the wallet shows is compared with a plain reading of the chain. Non-trivial: a \
           reorganisation happened and the wallet owns something; several transactions were pending at once.",
    facets: &[facet("scan", 900, scan), facet("pending", 600, pending)],
    assumptions: &[
        "No reorganisation while transactions are pending; no conflicts but by nonces.",
        "A mempool never holds a transaction without those it depends on.",
        "Signatures are not checked by the reference here (the wallet does not check them).",
    ],
};

const WORDS: &str =
    "abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon abandon about";

pub(crate) fn now<T>(f: impl Future<Output = T>) -> T {
    tokio::runtime::Builder::new_current_thread().build().expect("runtime").block_on(f)
}

/// A database that lives as long as this is kept, and opens again under the same name.
pub(crate) struct Shelf(String, #[allow(dead_code)] Store<DefaultBackend>);

pub(crate) fn shelf() -> Shelf {
    static N: AtomicU64 = AtomicU64::new(0);
    let name = format!("c39-{}-{}", std::process::id(), N.fetch_add(1, Ordering::Relaxed));
    let keep = Store::new(DefaultBackend::new_named_in_memory(&name)).expect("opens");
    Shelf(name, keep)
}

impl Shelf {
    fn store(&self) -> Store<DefaultBackend> {
        Store::new(DefaultBackend::new_named_in_memory(&self.0)).expect("opens")
    }
    pub(crate) fn create(&self, chain: &Arc<ChainConfig>) -> DefaultWallet {
        let c = Arc::clone(chain);
        now(Wallet::create_new_wallet(
            Arc::clone(chain),
            Default::default(),
            self.store(),
            (BlockHeight::new(0), chain.genesis_block_id()),
            WalletType::Hot,
            async |db_tx| {
                SoftwareSignerProvider::new_from_mnemonic(c, db_tx, WORDS, None, StoreSeedPhrase::DoNotStore).map_err(Into::into)
            },
        ))
        .expect("creates a wallet")
        .wallet()
        .expect("a wallet")
    }
    pub(crate) fn load(&self, chain: &Arc<ChainConfig>) -> DefaultWallet {
        let c = Arc::clone(chain);
        now(Wallet::load_wallet(
            Arc::clone(chain),
            Default::default(),
            self.store(),
            None,
            |_| Ok(()),
            WalletControllerMode::Hot,
            false,
            async |db_tx| SoftwareSignerProvider::load_from_database(c, &db_tx),
        ))
        .expect("loads the wallet")
        .wallet()
        .expect("a wallet")
    }
}

pub(crate) const ACC: U31 = U31::ZERO;

/// What belongs to the wallet: keys of its first account, and one key it was given.
struct Purse {
    mine: BTreeSet<Destination>,
    list: Vec<Destination>,
}

fn purse() -> &'static Purse {
    static P: OnceLock<Purse> = OnceLock::new();
    P.get_or_init(|| {
        let s = shelf();
        let w = s.create(&nets()[0].chain);
        let top: ExtendedPublicKey = w.account_extended_public_key(ACC).expect("has an account").clone();
        let child = |n: u32| ChildNumber::from_normal(U31::from_u32(n).expect("small"));
        let mut mine = vec![];
        let mut all = vec![];
        for purpose in [0, 1] {
            for i in 0..100 {
                let k = top.clone().derive_child(child(purpose)).and_then(|k| k.derive_child(child(i))).expect("derives").into_public_key();
                all.push(Destination::PublicKeyHash(PublicKeyHash::from(&k)));
                all.push(Destination::PublicKey(k.clone()));
                if i < 7 {
                    mine.push(Destination::PublicKeyHash(PublicKeyHash::from(&k)));
                }
                if i < 2 {
                    mine.push(Destination::PublicKey(k));
                }
            }
        }
        let key = |i: usize| make::pool().keys[i].1.clone();
        mine.push(Destination::PublicKey(key(0)));
        mine.push(Destination::PublicKeyHash(PublicKeyHash::from(&key(0))));
        all.extend(mine.clone());
        let mut list = mine;
        for i in 1..4 {
            list.push(Destination::PublicKey(key(i)));
            list.push(Destination::PublicKeyHash(PublicKeyHash::from(&key(i))));
        }
        list.push(Destination::ScriptHash(Id::new(common::primitives::H256::repeat_byte(7))));
        list.push(Destination::ClassicMultisig(PublicKeyHash::from(&key(9))));
        Purse { mine: all.into_iter().collect(), list }
    })
}

pub(crate) fn mine(d: &Destination) -> bool {
    purse().mine.contains(d)
}

/// Who may get at an output.
fn owners(o: &TxOutput) -> Vec<&Destination> {
    match o {
        TxOutput::Transfer(_, d) | TxOutput::LockThenTransfer(_, d, _) | TxOutput::IssueNft(_, _, d) => vec![d],
        TxOutput::CreateStakePool(_, d) => vec![d.decommission_key(), d.staker()],
        TxOutput::Htlc(_, h) => vec![&h.spend_key, &h.refund_key],
        _ => vec![],
    }
}

type Coins = BTreeMap<UtxoOutPoint, TxOutput>;

fn lower(x: Vec<(UtxoOutPoint, TxOutput)>) -> Result<Coins, String> {
    let n = x.len();
    let m: Coins = x.into_iter().collect();
    check!(m.len() == n, "an output is listed twice");
    Ok(m)
}

fn differ<K: Ord + std::fmt::Debug, V: PartialEq + std::fmt::Debug>(what: &str, got: &BTreeMap<K, V>, want: &BTreeMap<K, V>) -> Res {
    for (k, v) in want {
        match got.get(k) {
            None => return Err(format!("{what}: missing {k:?} = {v:?}")),
            Some(g) if g != v => return Err(format!("{what}: {k:?} is {g:?}, not {v:?}")),
            _ => {}
        }
    }
    match got.iter().find(|(k, _)| !want.contains_key(k)) {
        Some((k, v)) => Err(format!("{what}: unexpected {k:?} = {v:?}")),
        None => Ok(()),
    }
}

fn totals<'a>(coins: impl Iterator<Item = &'a TxOutput>) -> BTreeMap<Currency, Amount> {
    let mut t: BTreeMap<Currency, Amount> = BTreeMap::new();
    for o in coins {
        let (c, a) = match o {
            TxOutput::Transfer(v, _) | TxOutput::LockThenTransfer(v, _, _) => match v {
                OutputValue::Coin(a) => (Currency::Coin, *a),
                OutputValue::TokenV1(id, a) => (Currency::Token(*id), *a),
                OutputValue::TokenV0(_) => continue,
            },
            TxOutput::IssueNft(id, _, _) => (Currency::Token(*id), Amount::from_atoms(1)),
            _ => continue,
        };
        if a == Amount::ZERO {
            continue;
        }
        let e = t.entry(c).or_insert(Amount::ZERO);
        *e = (*e + a).expect("fits");
    }
    t
}

fn view(w: &DefaultWallet, states: UtxoStates, lock: WithLocked) -> Result<Coins, String> {
    lower(w.get_utxos(ACC, UtxoTypes::ALL, states, lock).map_err(|e| format!("cannot list outputs: {e}"))?)
}

/// Unspent outputs and balances in the given states.
fn coins_agree(
    w: &DefaultWallet,
    states: UtxoStates,
    coins: &BTreeMap<UtxoOutPoint, (Coin, bool)>,
    open: impl Fn(&Coin) -> bool,
    what: &str,
) -> Res {
    let all: Vec<(UtxoOutPoint, TxOutput, bool)> = coins
        .iter()
        .filter(|(_, (c, _))| owners(&c.out).iter().any(|d| mine(d)))
        .map(|(o, (c, sure))| {
            let free = if matches!(c.out, TxOutput::LockThenTransfer(..)) { *sure && open(c) } else { true };
            (o.clone(), c.out.clone(), free)
        })
        .collect();
    for (lock, name) in [(WithLocked::Any, "all"), (WithLocked::Unlocked, "unlocked"), (WithLocked::Locked, "locked")] {
        let want: Coins = all
            .iter()
            .filter(|(_, _, free)| match lock {
                WithLocked::Any => true,
                WithLocked::Unlocked => *free,
                WithLocked::Locked => !*free,
            })
            .map(|(o, t, _)| (o.clone(), t.clone()))
            .collect();
        differ(&format!("{what}, {name} outputs"), &view(w, states, lock)?, &want)?;
        let mut have = w.get_balance(ACC, states, lock).map_err(|e| format!("no balance: {e}"))?;
        have.retain(|_, a| *a > Amount::ZERO);
        differ(&format!("{what}, {name} balance"), &have, &totals(want.values()))?;
        let by: BTreeMap<Destination, Amount> =
            w.get_address_coin_balances(ACC, states, lock).map_err(|e| format!("no balances: {e}"))?;
        let mut expect: BTreeMap<Destination, Amount> = BTreeMap::new();
        for o in want.values() {
            if let TxOutput::Transfer(OutputValue::Coin(a), d) | TxOutput::LockThenTransfer(OutputValue::Coin(a), d, _) = o {
                let e = expect.entry(d.clone()).or_insert(Amount::ZERO);
                *e = (*e + *a).expect("fits");
            }
        }
        differ(&format!("{what}, {name} balance by address"), &by, &expect)?;
    }
    Ok(())
}

/// What a chain says beyond its last state.
#[derive(Default)]
struct Story {
    dels: BTreeMap<DelegationId, (PoolId, Destination)>,
    orders: BTreeMap<OrderId, (Destination, OutputValue, OutputValue, u64)>,
    /// Delegations to which somebody staked.
    staked: BTreeSet<DelegationId>,
    /// Transactions, and whether they are surely of interest.
    txs: BTreeMap<Id<common::chain::Transaction>, (u64, u64, bool)>,
}

fn story(t: &Tree, tip: &Id<GenBlock>) -> Story {
    let mut s = Story::default();
    let mut outs: Coins = BTreeMap::new();
    for id in t.path(tip) {
        let p = t.at(&id);
        let Some(b) = &p.blk else { continue };
        for (i, o) in b.block.block_reward().outputs().iter().enumerate() {
            outs.insert(UtxoOutPoint::new(id.into(), i as u32), o.clone());
        }
        for x in &b.txs {
            let tx = x.tx.transaction();
            let mut touched = false;
            for i in tx.inputs() {
                if let TxInput::Utxo(o) = i {
                    touched |= outs.get(o).is_some_and(|o| owners(o).iter().any(|d| mine(d)));
                }
            }
            for (i, o) in tx.outputs().iter().enumerate() {
                touched |= owners(o).iter().any(|d| mine(d));
                outs.insert(UtxoOutPoint::new(tx.get_id().into(), i as u32), o.clone());
                match o {
                    TxOutput::CreateDelegationId(d, p) => {
                        s.dels.insert(make_delegation_id(tx.inputs()).expect("valid"), (*p, d.clone()));
                        touched |= mine(d);
                    }
                    TxOutput::DelegateStaking(_, d) => {
                        s.staked.insert(*d);
                    }
                    TxOutput::CreateOrder(d) => {
                        let v = (d.conclude_key().clone(), d.ask().clone(), d.give().clone(), b.time());
                        s.orders.insert(make_order_id(tx.inputs()).expect("valid"), v);
                        touched |= mine(d.conclude_key());
                    }
                    _ => {}
                }
            }
            s.txs.insert(tx.get_id(), (p.height, b.time(), touched));
        }
    }
    s
}

pub(crate) fn token_info(id: TokenId, t: &c30::Token) -> RPCFungibleTokenInfo {
    RPCFungibleTokenInfo::new(
        id,
        t.ticker.clone(),
        t.decimals,
        t.uri.clone(),
        Amount::from_atoms(t.supply),
        match t.total {
            TokenTotalSupply::Fixed(amount) => RPCTokenTotalSupply::Fixed { amount },
            TokenTotalSupply::Lockable => RPCTokenTotalSupply::Lockable,
            TokenTotalSupply::Unlimited => RPCTokenTotalSupply::Unlimited,
        },
        t.locked,
        match t.frozen {
            c30::Frozen::Never => RPCIsTokenFrozen::NotFrozen { freezable: false },
            c30::Frozen::Can => RPCIsTokenFrozen::NotFrozen { freezable: true },
            c30::Frozen::ForNow => RPCIsTokenFrozen::Frozen { unfreezable: true },
            c30::Frozen::Forever => RPCIsTokenFrozen::Frozen { unfreezable: false },
        },
        t.authority.clone(),
    )
}

/// Everything the wallet knows about the confirmed chain.
pub(crate) fn agrees(w: &DefaultWallet, t: &Tree, tip: &Id<GenBlock>, what: &str) -> Res {
    let place = t.at(tip);
    let st = place.state.as_ref().expect("valid");
    let (id, h) = w.get_best_block_for_account(ACC).map_err(|e| e.to_string())?;
    check_eq!((id, h.into_int()), (*tip, place.height), "{what}: the best block");
    let m = median(&place.times);
    let coins = st.utxos.iter().map(|(o, c)| (o.clone(), (c.clone(), true))).collect();
    coins_agree(w, UtxoState::Confirmed.into(), &coins, |c| st.unlocked(c, place.height, m), what)?;

    let s = story(t, tip);
    let nonce = |a: AccountType| st.nonces.get(&a).copied();
    let got: BTreeMap<_, _> = w
        .get_delegations(ACC)
        .map_err(|e| e.to_string())?
        .map(|(i, d)| (*i, (d.pool_id, d.destination.clone(), d.last_nonce.map(|n| n.value()))))
        .collect();
    let want: BTreeMap<_, _> = s
        .dels
        .iter()
        .filter(|(_, (_, d))| mine(d))
        .map(|(i, (p, d))| (*i, (*p, d.clone(), nonce(AccountType::Delegation(*i)))))
        .collect();
    differ(&format!("{what}, delegations"), &got, &want)?;
    // nothing was staked to those of which it says so
    for (i, d) in w.get_delegations(ACC).map_err(|e| e.to_string())? {
        check!(!d.not_staked_yet || !s.staked.contains(i), "{what}: somebody staked to {i:?}, the wallet says nobody did");
    }

    let got: BTreeMap<_, _> = w
        .get_orders(ACC)
        .map_err(|e| e.to_string())?
        .map(|(i, o)| {
            let n = o.last_nonce.map(|n| n.value());
            (*i, (o.conclude_key.clone(), o.creation_timestamp.map(|t| t.as_int_seconds()), n, o.is_concluded, !o.is_concluded && o.is_frozen))
        })
        .collect();
    let want: BTreeMap<_, _> = s
        .orders
        .iter()
        .filter(|(_, o)| mine(&o.0))
        .map(|(i, o)| {
            let now = st.books.orders.get(i);
            (*i, (o.0.clone(), Some(o.3), nonce(AccountType::Order(*i)), now.is_none(), now.is_some_and(|o| o.frozen)))
        })
        .collect();
    differ(&format!("{what}, orders"), &got, &want)?;

    for (filter, name) in [(WalletPoolsFilter::Decommission, "to decommission"), (WalletPoolsFilter::Stake, "to stake with")] {
        let staker = matches!(filter, WalletPoolsFilter::Stake);
        let got: BTreeMap<PoolId, UtxoOutPoint> =
            w.get_pools(ACC, filter).map_err(|e| e.to_string())?.into_iter().map(|(i, p)| (i, p.utxo_outpoint)).collect();
        let want = st
            .utxos
            .iter()
            .filter_map(|(o, c)| match &c.out {
                TxOutput::CreateStakePool(i, d) if mine(if staker { d.staker() } else { d.decommission_key() }) => Some((*i, o.clone())),
                _ => None,
            })
            .collect();
        differ(&format!("{what}, pools {name}"), &got, &want)?;
    }

    for (i, tok) in &st.books.tokens {
        let info = w.get_token_unconfirmed_info(ACC, token_info(*i, tok)).map_err(|e| format!("{what}: token {i:?}: {e}"))?;
        let own = matches!(info, UnconfirmedTokenInfo::OwnFungibleToken(..));
        check_eq!(own, mine(&tok.authority), "{what}: whether the token {i:?} is ours");
        if own {
            let next = nonce(AccountType::Token(*i)).map_or(0, |n| n + 1);
            check_eq!(info.get_next_nonce().map(|n| n.value()).ok(), Some(next), "{what}: the next nonce of {i:?}");
            check_eq!(info.authority().ok(), Some(&tok.authority), "{what}: who decides about {i:?}");
        }
    }

    let listed = w.mainchain_transactions(ACC, None, 100_000).map_err(|e| e.to_string())?;
    let mut seen = BTreeSet::new();
    for x in &listed {
        let known = s.txs.get(&x.id);
        check_eq!(Some((x.height.into_int(), x.timestamp.as_int_seconds())), known.map(|k| (k.0, k.1)), "{what}: where {:?} is", x.id);
        check!(seen.insert(x.id), "{what}: {:?} is listed twice", x.id);
    }
    for (i, (_, _, touched)) in &s.txs {
        check!(!touched || seen.contains(i), "{what}: {i:?} is not listed");
    }
    Ok(())
}

fn blocks(t: &Tree, ids: &[Id<GenBlock>]) -> Vec<Block> {
    ids.iter().map(|i| t.at(i).blk.as_ref().expect("not genesis").block.clone()).collect()
}

/// Follows the chain from a common block up to `tip`, in pieces.
pub(crate) fn follow(g: &mut Gen, w: &mut DefaultWallet, t: &Tree, tip: &Id<GenBlock>, back: bool) -> Res {
    let have: BTreeSet<Id<GenBlock>> = t.path(&w.get_best_block_for_account(ACC).map_err(|e| e.to_string())?.0).into_iter().collect();
    let path = t.path(tip);
    let mut common = path.iter().filter(|x| have.contains(x)).count() - 1;
    if back && g.chance(1, 12) {
        common = common.saturating_sub(g.usize(3));
    }
    if common + 1 == path.len() {
        return Ok(());
    }
    let m = median(&t.at(tip).times);
    w.set_median_time(BlockTimestamp::from_int_seconds(m)).map_err(|e| e.to_string())?;
    while common + 1 < path.len() {
        let n = g.urange(1, path.len() - common - 1);
        let piece = blocks(t, &path[common + 1..common + 1 + n]);
        w.scan_new_blocks(ACC, BlockHeight::new(common as u64), piece, &WalletEventsNoOp)
            .map_err(|e| format!("cannot scan {n} blocks from height {common}: {e}"))?;
        common += n;
    }
    Ok(())
}

pub(crate) fn start(t: &mut Tree) {
    set_owners(purse().list.clone());
    let root = t.root;
    let p = t.places.get_mut(&root).expect("genesis");
    let mut s = State::clone(p.state.as_ref().expect("valid"));
    s.trusting = true;
    p.state = Some(Arc::new(s));
}

pub(crate) fn give_key(w: &mut DefaultWallet) -> Res {
    w.add_standalone_private_key(ACC, make::pool().keys[0].0.clone(), None).map_err(|e| e.to_string())
}

/// Random chains with reorganisations.
fn scan(g: &mut Gen) -> Res {
    let net = Arc::clone(g.pick(nets()));
    let mut t = Tree::new(&net);
    start(&mut t);
    let shelf = shelf();
    let mut w = shelf.create(&net.chain);
    give_key(&mut w)?;
    let mut tip = t.root;
    let mut reorgs = 0;
    let steps = g.urange(2, 12);
    for _ in 0..steps {
        // some blocks, on the tip or below
        let mut on = tip;
        if g.chance(1, 4) {
            let path = t.path(&tip);
            on = path[path.len() - 1 - g.usize(path.len().min(4))];
        }
        let forked = on != tip;
        let old = t.at(&tip).height;
        let mut n = g.urange(1, 3);
        let mut tries = 0;
        while n > 0 && tries < 8 {
            tries += 1;
            let txs = g.range(0, 4);
            let id = t.grow(g, on, txs);
            if t.at(&id).verdict.is_ok() {
                on = id;
                n -= 1;
                for k in Tree::kinds(t.at(&id).blk.as_ref().expect("made")) {
                    g.tag(k);
                }
            }
        }
        if t.path(&tip).contains(&on) || (t.at(&on).height < old && !g.chance(1, 5)) {
            continue;
        }
        reorgs += u64::from(forked);
        follow(g, &mut w, &t, &on, true)?;
        tip = on;
        note!(g, "tip {} at {}", tip, t.at(&tip).height);
        agrees(&w, &t, &tip, "after scanning")?;
        if g.chance(1, 6) {
            w = shelf.load(&net.chain);
            g.tag("reload");
            agrees(&w, &t, &tip, "after loading")?;
        }
        if g.chance(1, 20) {
            w.reset_wallet_to_genesis().map_err(|e| e.to_string())?;
            g.tag("reset");
            follow(g, &mut w, &t, &tip, true)?;
            agrees(&w, &t, &tip, "after starting over")?;
        }
    }
    g.tag_if(reorgs > 0, "reorganisation");
    g.nontrivial_if(reorgs > 0 && t.at(&tip).state.as_ref().expect("valid").utxos.values().any(|c| owners(&c.out).iter().any(|d| mine(d))));
    Ok(())
}

/// Unconfirmed transactions, in an order in which they are valid.
#[derive(Default)]
pub(crate) struct Queue {
    pub(crate) txs: Vec<Arc<Tx>>,
    /// Those that only this wallet knows.
    pub(crate) idle: BTreeSet<Id<common::chain::Transaction>>,
    /// Delegations spent from, and tokens changed, before they were ours in a confirmed block; the wallet follows
    /// them only from then on.
    early: BTreeSet<AccountType>,
    /// Those that cannot become valid any more.
    lost: BTreeSet<Id<common::chain::Transaction>>,
}

pub(crate) fn tx_id(t: &Tx) -> Id<common::chain::Transaction> {
    t.tx.transaction().get_id()
}

pub(crate) fn connect(t: &Tree, tip: &Id<GenBlock>, st: &State, txs: &[Arc<Tx>]) -> Option<State> {
    let p = t.at(tip);
    let m = median(&p.times);
    let mut s = st.clone();
    let h = p.height + 1;
    for x in txs {
        State::plain_tx(&t.net, h, x).ok()?;
        s.connect(&t.net, h, *p.times.last().expect("genesis"), m, None, x).ok()?;
    }
    Some(s)
}

pub(crate) fn pending_agrees(w: &DefaultWallet, t: &Tree, tip: &Id<GenBlock>, q: &Queue, what: &str) -> Res {
    let place = t.at(tip);
    let base = place.state.as_ref().expect("valid");
    let st = connect(t, tip, base, &q.txs).expect("valid");
    let m = median(&place.times);
    let fresh: BTreeSet<_> = q.txs.iter().map(|x| common::chain::OutPointSourceId::from(tx_id(x))).collect();
    let coins = st.utxos.iter().map(|(o, c)| (o.clone(), (c.clone(), !fresh.contains(&o.source_id())))).collect();
    let states = UtxoState::Confirmed | UtxoState::InMempool | UtxoState::Inactive;
    coins_agree(w, states, &coins, |c| base.unlocked(c, place.height, m), what)?;
    let coins = base.utxos.iter().map(|(o, c)| (o.clone(), (c.clone(), true))).collect();
    coins_agree(w, UtxoState::Confirmed.into(), &coins, |c| base.unlocked(c, place.height, m), &format!("{what}, confirmed alone"))?;
    // the next numbers to use
    for (i, tok) in &st.books.tokens {
        let Some(before) = base.books.tokens.get(i) else { continue };
        // one that is being given to us only counts once it is confirmed
        if q.early.contains(&AccountType::Token(*i)) || (mine(&tok.authority) && !mine(&before.authority)) {
            continue;
        }
        let info = w.get_token_unconfirmed_info(ACC, token_info(*i, before)).map_err(|e| format!("{what}: token {i:?}: {e}"))?;
        let own = matches!(info, UnconfirmedTokenInfo::OwnFungibleToken(..));
        check_eq!(own, mine(&tok.authority), "{what}: whether the token {i:?} is ours");
        if own {
            let next = st.nonces.get(&AccountType::Token(*i)).map_or(0, |n| n + 1);
            check_eq!(info.get_next_nonce().map(|n| n.value()).ok(), Some(next), "{what}: the next nonce of {i:?}");
            check_eq!(info.check_can_be_used().is_err(), tok.is_frozen(), "{what}: whether {i:?} is frozen");
            let left = match tok.total {
                _ if tok.locked => None,
                TokenTotalSupply::Fixed(l) => Some(l.into_atoms() - tok.supply),
                _ => Some(i128::MAX as u128),
            };
            check_eq!(info.check_can_mint(Amount::from_atoms(1)).is_ok(), left.is_some_and(|l| l > 0), "{what}: whether {i:?} can be minted");
            if let Some(l) = left {
                check!(info.check_can_mint(Amount::from_atoms(l)).is_ok(), "{what}: {l} of {i:?} can be minted");
            }
            let burns = !tok.locked;
            check_eq!(info.check_can_unmint(Amount::from_atoms(tok.supply)).is_ok(), burns, "{what}: whether all of {i:?} can go");
            check!(info.check_can_unmint(Amount::from_atoms(tok.supply + 1)).is_err(), "{what}: more of {i:?} than there is");
            check_eq!(info.check_can_lock().is_ok(), !tok.locked && matches!(tok.total, TokenTotalSupply::Lockable), "{what}: locking {i:?}");
        }
    }
    for (i, d) in w.get_delegations(ACC).map_err(|e| e.to_string())? {
        if q.early.contains(&AccountType::Delegation(*i)) {
            continue;
        }
        let n = st.nonces.get(&AccountType::Delegation(*i)).copied();
        check_eq!(d.last_nonce.map(|n| n.value()), n, "{what}: the last nonce of {i:?}");
    }
    let got: BTreeMap<_, _> = w
        .get_orders(ACC)
        .map_err(|e| e.to_string())?
        .map(|(i, o)| {
            let n = o.last_nonce.map(|n| n.value());
            (*i, (o.conclude_key.clone(), n, o.is_concluded, !o.is_concluded && o.is_frozen))
        })
        .collect();
    let mut made = BTreeMap::new();
    for (i, o) in story(t, tip).orders {
        made.insert(i, o.0);
    }
    for x in &q.txs {
        for o in x.tx.transaction().outputs() {
            if let TxOutput::CreateOrder(d) = o {
                made.insert(make_order_id(x.tx.transaction().inputs()).expect("valid"), d.conclude_key().clone());
            }
        }
    }
    let want: BTreeMap<_, _> = made
        .into_iter()
        .filter(|(_, d)| mine(d))
        .map(|(i, d)| {
            let now = st.books.orders.get(&i);
            (i, (d, st.nonces.get(&AccountType::Order(i)).copied(), now.is_none(), now.is_some_and(|o| o.frozen)))
        })
        .collect();
    differ(&format!("{what}, orders"), &got, &want)?;
    // those listed are among the pending ones
    let all: BTreeSet<_> = q.txs.iter().map(|x| tx_id(x)).collect();
    for x in w.pending_transactions(ACC).map_err(|e| e.to_string())? {
        check!(all.contains(&x.get_id()) || q.lost.contains(&x.get_id()), "{what}: {:?} is not pending", x.get_id());
    }
    Ok(())
}

/// Transactions that are not confirmed yet, in the mempool or only here; some get confirmed, some given up.
fn pending(g: &mut Gen) -> Res {
    // the rules do not change with the height here
    let plain: Vec<_> = nets().iter().filter(|n| n.rules.v1_from == 0).cloned().collect();
    let net = Arc::clone(g.pick(&plain[..]));
    let mut t = Tree::new(&net);
    start(&mut t);
    let shelf = shelf();
    let mut w = shelf.create(&net.chain);
    give_key(&mut w)?;
    let mut tip = t.root;
    let mut q = Queue::default();
    let mut most = 0;
    let steps = g.urange(3, 24);
    for _ in 0..steps {
        let place = t.at(&tip).clone();
        let base = place.state.clone().expect("valid");
        let h = place.height + 1;
        let m = median(&place.times);
        let op = g.weighted(&[8, 6, 1, 1, 1, 4]);
        match op {
            // a new one
            0 => {
                let mut new = vec![];
                for _ in 0..g.range(1, 3) {
                    let over = connect(&t, &tip, &base, &q.txs).expect("valid");
                    let x = Arc::new(t.tx(g, &over, h, m));
                    // taking nothing away from a locked supply is allowed, but no wallet does it
                    if x.tx.transaction().inputs().iter().any(|i| {
                        matches!(i, TxInput::AccountCommand(_, AccountCommand::UnmintTokens(t)) if over.books.tokens.get(t).is_some_and(|t| t.locked))
                    }) {
                        continue;
                    }
                    let mut with = q.txs.clone();
                    with.push(Arc::clone(&x));
                    if q.txs.iter().any(|y| tx_id(y) == tx_id(&x)) || connect(&t, &tip, &base, &with).is_none() {
                        continue;
                    }
                    q.txs = with;
                    t.txs.push(Arc::clone(&x));
                    q.early.extend(accounts(&x).into_iter().filter(|a| match a {
                        AccountType::Delegation(d) => !base.books.pos.dels.contains_key(d),
                        AccountType::Token(i) => match base.books.tokens.get(i) {
                            Some(x) => !mine(&x.authority),
                            None => !q.txs.iter().any(|x| issues_ours(&net, h, x, i)),
                        },
                        AccountType::Order(_) => false,
                    }));
                    new.push(x);
                }
                if new.is_empty() {
                    continue;
                }
                if g.bool() {
                    g.tag("mempool");
                    // a mempool never has a transaction without those it needs
                    let all: Vec<_> = if !q.idle.is_empty() || g.bool() { q.txs.clone() } else { new };
                    let list: Vec<_> = all.iter().map(|x| x.tx.clone()).collect();
                    for x in &list {
                        q.idle.remove(&x.transaction().get_id());
                    }
                    w.add_mempool_transactions(&list, &WalletEventsNoOp).map_err(|e| format!("from the mempool: {e}"))?;
                } else {
                    g.tag("own");
                    for x in new {
                        q.idle.insert(tx_id(&x));
                        w.add_unconfirmed_tx(x.tx.clone(), &WalletEventsNoOp).map_err(|e| format!("own: {e}"))?;
                    }
                }
                most = most.max(q.txs.len());
            }
            // a block with some of them
            1 => {
                let mut list: Vec<Arc<Tx>> = q.txs.iter().filter(|_| g.chance(2, 3)).cloned().collect();
                if g.bool() {
                    if let Some(over) = connect(&t, &tip, &base, &q.txs) {
                        let x = Arc::new(t.tx(g, &over, h, m));
                        list.push(x);
                    }
                }
                let time = place.times.last().expect("genesis") + g.range(0, 40);
                let mut done = None;
                for list in [list.clone(), list.into_iter().filter(|x| q.txs.iter().any(|y| Arc::ptr_eq(x, y))).collect(), vec![]] {
                    let block = Block::new(
                        list.iter().map(|t| t.tx.clone()).collect(),
                        tip,
                        BlockTimestamp::from_int_seconds(time),
                        common::chain::block::ConsensusData::None,
                        common::chain::block::BlockReward::new(vec![]),
                    )
                    .expect("makes a block");
                    let on = t.add(Blk { block, txs: list.clone() });
                    if t.at(&on).verdict.is_err() {
                        continue;
                    }
                    // whoever freezes and unfreezes at once is left alone
                    let does = |x: &Arc<Tx>, f: fn(&AccountCommand) -> bool| {
                        x.tx.transaction().inputs().iter().any(|i| matches!(i, TxInput::AccountCommand(_, c) if f(c)))
                    };
                    if list.iter().any(|x| does(x, |c| matches!(c, AccountCommand::FreezeToken(..))))
                        && q.txs.iter().any(|x| does(x, |c| matches!(c, AccountCommand::UnfreezeToken(..))))
                    {
                        continue;
                    }
                    let rest: Vec<Arc<Tx>> = q.txs.iter().filter(|x| !list.iter().any(|y| Arc::ptr_eq(x, y))).cloned().collect();
                    let st = t.at(&on).state.clone().expect("valid");
                    if connect(&t, &on, &st, &rest).is_some() {
                        done = Some((on, rest));
                        break;
                    }
                }
                let Some((on, rest)) = done else { continue };
                g.tag_if(rest.len() < q.txs.len(), "confirmed");
                g.tag_if(rest.len() < q.txs.len() && !rest.is_empty(), "some confirmed");
                q.txs = rest;
                follow(g, &mut w, &t, &on, false)?;
                tip = on;
            }
            2 => {
                g.tag("reload");
                w = shelf.load(&net.chain);
                // nothing is in the mempool until it says so
                q.idle.extend(q.txs.iter().map(|x| tx_id(x)));
            }
            3 => {
                g.tag("reset");
                w.reset_inmempool_txs_to_inactive(Some(&WalletEventsNoOp)).map_err(|e| e.to_string())?;
                q.idle.extend(q.txs.iter().map(|x| tx_id(x)));
            }
            // another transaction gets confirmed instead of one
            5 => {
                let known: BTreeSet<_> = w.pending_transactions(ACC).map_err(|e| e.to_string())?.iter().map(|x| x.get_id()).collect();
                let taken: BTreeSet<_> = q.txs.iter().flat_map(|x| numbers(x)).collect();
                if taken.is_empty() {
                    continue;
                }
                let mut found = None;
                for _ in 0..12 {
                    let x = Arc::new(t.tx(g, &base, h, m));
                    if numbers(&x).iter().any(|n| taken.contains(n)) && !q.txs.iter().any(|y| tx_id(y) == tx_id(&x)) {
                        found = Some(x);
                        break;
                    }
                }
                let Some(x) = found else { continue };
                let over = connect(&t, &tip, &base, &q.txs).expect("valid");
                let mut gone = BTreeSet::new();
                let mut clear = true;
                for (i, y) in q.txs.iter().enumerate() {
                    if !known.contains(&tx_id(y)) {
                        continue;
                    }
                    if numbers(y).iter().any(|n| numbers(&x).contains(n)) {
                        gone.insert(i);
                        continue;
                    }
                    match needs(&q.txs, &gone, i, &base, &over) {
                        Some(true) => {
                            gone.insert(i);
                        }
                        Some(false) => clear &= spent(y).is_disjoint(&spent(&x)),
                        None => clear = false,
                    }
                }
                // nothing is created again under the same name
                let first = |t: &Tx| t.tx.transaction().inputs().iter().find_map(|i| i.utxo_outpoint().cloned());
                clear &= gone.iter().all(|i| first(&q.txs[*i]) != first(&x));
                let rest: Vec<_> = q.txs.iter().enumerate().filter(|(i, _)| !gone.contains(i)).map(|x| Arc::clone(x.1)).collect();
                let block = Block::new(
                    vec![x.tx.clone()],
                    tip,
                    BlockTimestamp::from_int_seconds(place.times.last().expect("genesis") + g.range(0, 40)),
                    common::chain::block::ConsensusData::None,
                    common::chain::block::BlockReward::new(vec![]),
                )
                .expect("makes a block");
                let on = t.add(Blk { block, txs: vec![Arc::clone(&x)] });
                if !clear || t.at(&on).verdict.is_err() {
                    continue;
                }
                let st = t.at(&on).state.clone().expect("valid");
                if connect(&t, &on, &st, &rest).is_none() {
                    continue;
                }
                g.tag("outdone");
                g.tag_if(gone.len() > 1, "several outdone");
                q.lost.extend(gone.iter().map(|i| tx_id(&q.txs[*i])));
                q.txs = rest;
                follow(g, &mut w, &t, &on, false)?;
                tip = on;
            }
            // give one up, if all that need it can be given up too
            _ => {
                if q.txs.is_empty() {
                    continue;
                }
                let at = g.usize(q.txs.len());
                let id = tx_id(&q.txs[at]);
                let known: BTreeSet<_> = w.pending_transactions(ACC).map_err(|e| e.to_string())?.iter().map(|x| x.get_id()).collect();
                let over = connect(&t, &tip, &base, &q.txs).expect("valid");
                let mut gone = BTreeSet::from([at]);
                let mut clear = true;
                for i in at + 1..q.txs.len() {
                    if known.contains(&tx_id(&q.txs[i])) {
                        match needs(&q.txs, &gone, i, &base, &over) {
                            Some(true) => {
                                gone.insert(i);
                            }
                            Some(false) => {}
                            None => clear = false,
                        }
                    }
                }
                if !clear {
                    continue;
                }
                let rest: Vec<_> = q.txs.iter().enumerate().filter(|(i, _)| !gone.contains(i)).map(|x| Arc::clone(x.1)).collect();
                if !known.contains(&id)
                    || !gone.iter().all(|i| q.idle.contains(&tx_id(&q.txs[*i])))
                    || connect(&t, &tip, &base, &rest).is_none()
                {
                    continue;
                }
                w.abandon_transaction(ACC, id).map_err(|e| format!("giving up: {e}"))?;
                g.tag("given up");
                g.tag_if(gone.len() > 1, "several given up");
                q.txs = rest;
            }
        }
        note!(g, "tip {} at {}, {} pending", tip, t.at(&tip).height, q.txs.len());
        pending_agrees(&w, &t, &tip, &q, "pending")?;
    }
    g.nontrivial_if(most > 1);
    Ok(())
}

/// Whether a transaction issues a token, and that to us.
fn issues_ours(net: &Net, height: u64, t: &Tx, id: &TokenId) -> bool {
    let x = t.tx.transaction();
    x.outputs().iter().any(|o| match o {
        TxOutput::IssueFungibleToken(i) => {
            let TokenIssuance::V1(i) = i.as_ref();
            make_token_id(&net.chain, BlockHeight::new(height), x.inputs()).ok() == Some(*id) && mine(&i.authority)
        }
        _ => false,
    })
}

fn spent(t: &Tx) -> BTreeSet<UtxoOutPoint> {
    t.tx.transaction().inputs().iter().filter_map(|i| i.utxo_outpoint().cloned()).collect()
}

/// The numbers a transaction uses up.
fn numbers(t: &Tx) -> BTreeSet<(AccountType, u64)> {
    t.tx.transaction()
        .inputs()
        .iter()
        .filter_map(|i| match i {
            TxInput::Utxo(_) | TxInput::OrderAccountCommand(_) => None,
            TxInput::Account(a) => Some((a.account().into(), a.nonce().value())),
            TxInput::AccountCommand(n, c) => Some((c.into(), n.value())),
        })
        .collect()
}

/// The accounts a transaction changes.
fn accounts(t: &Tx) -> BTreeSet<AccountType> {
    t.tx.transaction()
        .inputs()
        .iter()
        .filter_map(|i| match i {
            TxInput::Utxo(_) => None,
            TxInput::Account(a) => Some(a.account().into()),
            TxInput::AccountCommand(_, c) => Some(c.into()),
            TxInput::OrderAccountCommand(c) => Some(AccountType::Order(*c.order_id())),
        })
        .collect()
}

/// Whether an account is ours both now and after all that is pending.
fn ours(a: &AccountType, base: &State, over: &State) -> bool {
    [base, over].iter().all(|s| match a {
        AccountType::Delegation(d) => s.books.pos.dels.get(d).is_some_and(|x| mine(&x.1)),
        AccountType::Token(t) => s.books.tokens.get(t).is_some_and(|x| mine(&x.authority)),
        AccountType::Order(_) => false,
    })
}

/// Whether a transaction needs one of some earlier ones; not known if it depends on what the wallet follows.
fn needs(txs: &[Arc<Tx>], gone: &BTreeSet<usize>, i: usize, base: &State, over: &State) -> Option<bool> {
    let spends = |k: &usize| {
        let id: common::chain::OutPointSourceId = tx_id(&txs[*k]).into();
        txs[i].tx.transaction().inputs().iter().any(|x| x.utxo_outpoint().is_some_and(|o| o.source_id() == id))
    };
    if gone.iter().any(spends) {
        return Some(true);
    }
    let own = accounts(&txs[i]);
    let mut shared = gone.iter().flat_map(|k| accounts(&txs[*k])).filter(|a| own.contains(a)).peekable();
    if shared.peek().is_none() {
        return Some(false);
    }
    shared.any(|a| ours(&a, base, over)).then_some(true)
}
