//! Value conservation against exact sums.
use crate::{c29, c30, c31};
use common::{
    chain::{
        config::{Builder, ChainType},
        output_value::OutputValue,
        timelock::OutputTimeLock,
        tokens::{IsTokenUnfreezable, NftIssuance, NftIssuanceV0, TokenId, TokenTotalSupply},
        AccountCommand, AccountOutPoint, AccountSpending, ChainConfig, ChainstateUpgradeBuilder, ConsensusUpgrade, DataDepositFeeVersion,
        DelegationId, NetUpgrades, OrderAccountCommand, OrderData, OrderId, OrdersVersion, PoSChainConfigBuilder, PoolId, TokensFeeVersion,
        TxInput, TxOutput,
    },
    primitives::{Amount, BlockCount, BlockHeight, Compact, Fee, Subsidy, H256},
};
use constraints_value_accumulator::{AccumulatedFee, ConstrainedValueAccumulator, Error};
use gens::make;
use orders_accounting::{InMemoryOrdersAccounting, OrdersAccountingCache};
use pbt::{check, check_eq, facet, note, Gen, Property, Res};
use pos_accounting::{DefaultStorageTag, InMemoryPoSAccounting, PoSAccountingDB, PoSAccountingDelta, PoolData};
use std::{collections::BTreeMap, sync::OnceLock};
use tokens_accounting::{InMemoryTokensAccounting, TokensAccountingCache};

pub const P: Property = Property {
    id: "C32",
    rule: "Random ledgers (pools, delegations, tokens, orders) and transactions of up to 6 inputs and 8 outputs of every kind, built to spend exactly what they have and then changed by one atom, one lock or one command; 12 network configurations with fee, order and maturity rules changing at a height, heights around it. Verdict, fee of each transaction, fees of a block of up to 5 and the reward limit compared with exact sums. Non-trivial: accepted with at least two kinds of value, or refused by one atom or one block of lock.",
    facets: &[
        facet("transactions", 400_000, transactions),
        facet("block_fees", 60_000, block_fees),
        facet("block_reward", 80_000, block_reward),
    ],
    assumptions: &["Old-style token outputs carry no value and are refused elsewhere (C27)."],
};

pub(crate) const COIN: u128 = 100_000_000_000;
const CHANGE_AT: u64 = 1000;

pub(crate) struct Net {
    pub(crate) config: ChainConfig,
    pub(crate) maturity: [u64; 2],
    pub(crate) v1_from: u64,
}

fn nets() -> &'static Vec<Net> {
    static N: OnceLock<Vec<Net>> = OnceLock::new();
    N.get_or_init(|| {
        let mut all = vec![];
        for (i, (empty, staked)) in [(0, 7), (5, 0), (0, 0), (3, 12), (12, 3), (1, 1)].into_iter().enumerate() {
            for first in [false, true] {
                let pos = |n| ConsensusUpgrade::PoS {
                    initial_difficulty: Some(Compact(0x2100ffff)),
                    config: PoSChainConfigBuilder::new_for_unit_test().staking_pool_spend_maturity_block_count(BlockCount::new(n)).build(),
                };
                let at = |h| BlockHeight::new(h);
                let other = if i % 2 == 0 { ConsensusUpgrade::IgnoreConsensus } else { ConsensusUpgrade::PoW { initial_difficulty: Compact(0x2100ffff) } };
                let (upgrades, maturity) = if first {
                    (vec![(at(0), pos(staked)), (at(CHANGE_AT), pos(empty + 2))], [staked, empty + 2])
                } else {
                    (vec![(at(0), other), (at(CHANGE_AT), pos(staked))], [empty, staked])
                };
                let old = ChainstateUpgradeBuilder::latest()
                    .tokens_fee_version(TokensFeeVersion::V0)
                    .data_deposit_fee_version(DataDepositFeeVersion::V0)
                    .orders_version(OrdersVersion::V0)
                    .build();
                let new = ChainstateUpgradeBuilder::latest().build();
                let v1_from = CHANGE_AT - 1 + (i as u64 % 3);
                let config = Builder::new(ChainType::Regtest)
                    .consensus_upgrades(NetUpgrades::initialize(upgrades).expect("upgrades"))
                    .chainstate_upgrades(NetUpgrades::initialize(vec![(at(0), old), (at(v1_from), new)]).expect("upgrades"))
                    .empty_consensus_reward_maturity_block_count(BlockCount::new(empty))
                    .build();
                all.push(Net { config, maturity, v1_from });
            }
        }
        all
    })
}

impl Net {
    pub(crate) fn maturity(&self, h: u64) -> u64 {
        self.maturity[usize::from(h >= CHANGE_AT)]
    }
    fn coins(&self, h: u64, before: u128, after: u128) -> u128 {
        COIN * if h >= self.v1_from { after } else { before }
    }
    pub(crate) fn supply_fee(&self, h: u64) -> u128 {
        self.coins(h, 100, 50)
    }
    pub(crate) fn freeze_fee(&self, h: u64) -> u128 {
        self.coins(h, 100, 50)
    }
    pub(crate) fn authority_fee(&self, h: u64) -> u128 {
        self.coins(h, 100, 20)
    }
    pub(crate) fn uri_fee(&self) -> u128 {
        COIN * 20
    }
    pub(crate) fn nft_fee(&self, h: u64) -> u128 {
        self.coins(h, 100, 5)
    }
    pub(crate) fn deposit_fee(&self, h: u64) -> u128 {
        self.coins(h, 100, 20)
    }
    pub(crate) fn issue_fee(&self) -> u128 {
        COIN * 100
    }
    pub(crate) fn orders(&self, h: u64) -> OrdersVersion {
        if h >= self.v1_from {
            OrdersVersion::V1
        } else {
            OrdersVersion::V0
        }
    }
}

pub(crate) type Cur = Option<TokenId>;

/// The ledger a transaction is judged against.
#[derive(Clone, Default)]
pub(crate) struct Ledger {
    pub(crate) pos: c29::Model,
    pub(crate) tokens: c30::Model,
    pub(crate) orders: c31::Model,
    pub(crate) currencies: Vec<Cur>,
}

fn small(g: &mut Gen) -> u128 {
    match g.below(10) {
        0 => g.below(3) as u128,
        1 => g.u128() >> g.urange(1, 100),
        2 => g.range(1, 1000) as u128,
        _ => COIN * g.range(1, 400) as u128 + g.below(3) as u128,
    }
}

/// Amounts a ledger can hold.
fn held(g: &mut Gen) -> u128 {
    small(g).min(i128::MAX as u128 / 8)
}

fn ledger(g: &mut Gen) -> Ledger {
    let mut l = Ledger { currencies: vec![None], ..Ledger::default() };
    let h = |k: u8, i: u8| {
        let mut x = [k; 32];
        x[31] = i;
        H256(x)
    };
    for i in 0..3u8 {
        l.currencies.push(Some(TokenId::new(h(1, i))));
    }
    for i in 0..g.range(0, 3) as u8 {
        let pd: PoolData = make::pool_data(g).into();
        let (a, b) = (held(g), if g.bool() { held(g) } else { 0 });
        l.pos.pools.insert(PoolId::new(h(2, i)), (pd, a, b));
        if g.bool() {
            let (k, a) = (make::destination(g), held(g));
            l.pos.dels.insert(DelegationId::new(h(3, i)), (PoolId::new(h(2, i)), k, a));
        }
    }
    for i in 0..g.range(0, 3) as u8 {
        let supply = held(g);
        let total = match g.below(3) {
            0 => TokenTotalSupply::Fixed(Amount::from_atoms(supply + held(g))),
            1 => TokenTotalSupply::Lockable,
            _ => TokenTotalSupply::Unlimited,
        };
        let t = c30::Token {
            ticker: b"T".to_vec(),
            decimals: 1,
            uri: vec![],
            total,
            locked: total == TokenTotalSupply::Lockable && g.chance(1, 4),
            frozen: if g.chance(1, 8) { c30::Frozen::ForNow } else { c30::Frozen::Can },
            authority: make::destination(g),
            supply,
        };
        l.tokens.insert(TokenId::new(h(1, i)), t);
    }
    for i in 0..g.range(0, 3) as u8 {
        let (a, b) = (*g.pick(&l.currencies), *g.pick(&l.currencies));
        let (x, y) = (held(g).max(1), held(g).max(1));
        let filled = if g.bool() { 0 } else { (g.u128() >> 1) % x };
        let o = c31::Order {
            key: make::destination(g),
            ask: (a, x),
            give: (b, y),
            frozen: g.chance(1, 8),
            ask_left: x - filled,
            give_left: y - c31::mul_div(y, filled, x).unwrap_or(0),
        };
        l.orders.insert(OrderId::new(h(4, i)), o);
    }
    l
}

/// The same ledger as the code keeps it.
struct Real {
    pos: InMemoryPoSAccounting,
    tokens: InMemoryTokensAccounting,
    orders: InMemoryOrdersAccounting,
}

impl Ledger {
    fn real(&self) -> Real {
        let am = Amount::from_atoms;
        let pools = self.pos.pools.keys().map(|p| (*p, self.pos.pool_data(p).expect("there"))).collect();
        let balances = self.pos.pools.keys().map(|p| (*p, am(self.pos.balance(p).expect("fits")))).collect();
        let shares = self.pos.dels.iter().filter(|(_, x)| x.2 > 0).map(|(d, x)| ((x.0, *d), am(x.2))).collect();
        let del_balances = self.pos.dels.iter().filter(|(_, x)| x.2 > 0).map(|(d, x)| (*d, am(x.2))).collect();
        let dels = self.pos.dels.iter().map(|(d, x)| (*d, pos_accounting::DelegationData::new(x.0, x.1.clone()))).collect();
        let tokens = self.tokens.iter().map(|(t, x)| (*t, x.data())).collect();
        let supplies = self.tokens.iter().filter(|(_, x)| x.supply > 0).map(|(t, x)| (*t, am(x.supply))).collect();
        let orders = self.orders.iter().map(|(o, x)| (*o, x.data())).collect();
        let asks = self.orders.iter().filter(|(_, x)| x.ask_left > 0).map(|(o, x)| (*o, am(x.ask_left))).collect();
        let gives = self.orders.iter().filter(|(_, x)| x.give_left > 0).map(|(o, x)| (*o, am(x.give_left))).collect();
        Real {
            pos: InMemoryPoSAccounting::from_values(pools, balances, shares, del_balances, dels),
            tokens: InMemoryTokensAccounting::from_values(tokens, supplies),
            orders: InMemoryOrdersAccounting::from_values(orders, asks, gives),
        }
    }
}

/// What the inputs provide: free amounts, and coins that must stay locked for `lock` blocks.
#[derive(Clone, Debug, Default)]
pub(crate) struct Funds {
    pub(crate) free: BTreeMap<Cur, u128>,
    pub(crate) bound: u128,
    pub(crate) lock: u64,
}

impl Funds {
    fn add(&mut self, c: Cur, a: u128) -> Option<()> {
        let x = self.free.entry(c).or_default();
        *x = x.checked_add(a)?;
        Some(())
    }
    fn add_bound(&mut self, a: u128) -> Option<()> {
        if self.lock == 0 {
            return self.add(None, a);
        }
        self.bound = self.bound.checked_add(a)?;
        Some(())
    }
    fn take(&mut self, c: Cur, a: u128) -> Option<()> {
        if a > 0 {
            let x = self.free.get_mut(&c)?;
            *x = x.checked_sub(a)?;
        }
        Some(())
    }
}

pub(crate) fn value(v: &OutputValue) -> Option<(Cur, u128)> {
    match v {
        OutputValue::Coin(a) => Some((None, a.into_atoms())),
        OutputValue::TokenV1(t, a) => Some((Some(*t), a.into_atoms())),
        OutputValue::TokenV0(_) => None,
    }
}

pub(crate) fn inputs_model(net: &Net, h: u64, l: &Ledger, inputs: &[(TxInput, Option<TxOutput>)]) -> Option<Funds> {
    let mut f = Funds { lock: net.maturity(h), ..Funds::default() };
    let mut due: BTreeMap<Cur, u128> = BTreeMap::new();
    let mut owe = |c: Cur, a: u128| {
        let x = due.entry(c).or_default();
        *x = x.checked_add(a)?;
        Some(())
    };
    let (mut pos, mut tokens, mut orders) = (l.pos.clone(), l.tokens.clone(), l.orders.clone());
    let conclude = |f: &mut Funds, orders: &mut c31::Model, id: &OrderId| {
        let o = orders.remove(id)?;
        f.add(o.ask.0, o.ask.1 - o.ask_left)?;
        f.add(o.give.0, o.give_left)
    };
    let fill = |f: &mut Funds, orders: &mut c31::Model, id: &OrderId, a: u128| {
        let next = c31::step(orders, &c31::Op::Fill(*id, a, net.orders(h)))?;
        let (old, new) = (&orders[id], &next[id]);
        let (ask, give) = (old.ask.0, old.give.0);
        f.add(give, old.give_left - new.give_left)?;
        *orders = next;
        Some((ask, a))
    };
    for (i, spent) in inputs {
        match i {
            TxInput::Utxo(_) => match spent.as_ref()? {
                TxOutput::Transfer(v, _) | TxOutput::LockThenTransfer(v, _, _) | TxOutput::Htlc(v, _) => {
                    if let Some((c, a)) = value(v) {
                        f.add(c, a)?;
                    }
                }
                TxOutput::IssueNft(t, _, _) => f.add(Some(*t), 1)?,
                TxOutput::DelegateStaking(a, _) => f.add(None, a.into_atoms())?,
                TxOutput::CreateStakePool(p, _) | TxOutput::ProduceBlockFromStake(_, p) => {
                    let (_, pledge, rewards) = l.pos.pools.get(p)?;
                    f.add_bound(pledge.checked_add(*rewards)?)?;
                }
                TxOutput::CreateDelegationId(..)
                | TxOutput::IssueFungibleToken(..)
                | TxOutput::Burn(..)
                | TxOutput::DataDeposit(..)
                | TxOutput::CreateOrder(..) => return None,
            },
            TxInput::Account(o) => {
                let AccountSpending::DelegationBalance(d, a) = o.account();
                pos = c29::step(&pos, &c29::Op::Spend(*d, a.into_atoms()))?;
                f.add_bound(a.into_atoms())?;
            }
            TxInput::AccountCommand(_, c) => match c {
                AccountCommand::MintTokens(t, a) => {
                    tokens = c30::step(&tokens, &c30::Op::Mint(*t, a.into_atoms()))?;
                    f.add(Some(*t), a.into_atoms())?;
                    owe(None, net.supply_fee(h))?;
                }
                AccountCommand::UnmintTokens(_) | AccountCommand::LockTokenSupply(_) => owe(None, net.supply_fee(h))?,
                AccountCommand::FreezeToken(..) | AccountCommand::UnfreezeToken(_) => owe(None, net.freeze_fee(h))?,
                AccountCommand::ChangeTokenAuthority(..) => owe(None, net.authority_fee(h))?,
                AccountCommand::ChangeTokenMetadataUri(..) => owe(None, net.uri_fee())?,
                AccountCommand::ConcludeOrder(id) => conclude(&mut f, &mut orders, id)?,
                AccountCommand::FillOrder(id, a, _) => {
                    let (c, a) = fill(&mut f, &mut orders, id, a.into_atoms())?;
                    owe(c, a)?;
                }
            },
            TxInput::OrderAccountCommand(c) => match c {
                OrderAccountCommand::FillOrder(id, a) => {
                    let (c, a) = fill(&mut f, &mut orders, id, a.into_atoms())?;
                    owe(c, a)?;
                }
                OrderAccountCommand::ConcludeOrder(id) => conclude(&mut f, &mut orders, id)?,
                OrderAccountCommand::FreezeOrder(_) => {}
            },
        }
    }
    for (c, a) in due {
        f.take(c, a)?;
    }
    Some(f)
}

/// What the outputs consume: free amounts and coins locked for a number of blocks.
pub(crate) fn outputs_model(net: &Net, h: u64, outputs: &[TxOutput]) -> Option<(BTreeMap<Cur, u128>, BTreeMap<u64, u128>)> {
    let mut f = Funds::default();
    let mut locked: BTreeMap<u64, u128> = BTreeMap::new();
    for o in outputs {
        match o {
            TxOutput::Transfer(v, _) | TxOutput::Burn(v) | TxOutput::Htlc(v, _) => {
                if let Some((c, a)) = value(v) {
                    f.add(c, a)?;
                }
            }
            TxOutput::LockThenTransfer(v, _, lock) => match (value(v), lock) {
                (Some((None, a)), OutputTimeLock::ForBlockCount(n)) if *n > 0 => {
                    let x = locked.entry(*n).or_default();
                    *x = x.checked_add(a)?;
                }
                (Some((c, a)), _) => f.add(c, a)?,
                (None, _) => {}
            },
            TxOutput::CreateStakePool(_, d) => f.add(None, d.pledge().into_atoms())?,
            TxOutput::DelegateStaking(a, _) => f.add(None, a.into_atoms())?,
            TxOutput::ProduceBlockFromStake(..) | TxOutput::CreateDelegationId(..) => {}
            TxOutput::IssueFungibleToken(_) => f.add(None, net.issue_fee())?,
            TxOutput::IssueNft(..) => f.add(None, net.nft_fee(h))?,
            TxOutput::DataDeposit(_) => f.add(None, net.deposit_fee(h))?,
            TxOutput::CreateOrder(d) => {
                let (c, a) = value(d.give())?;
                f.add(c, a)?;
            }
        }
    }
    Some((f.free, locked))
}

/// What is left over, if the outputs can be paid.
pub(crate) fn settle(mut f: Funds, outs: &(BTreeMap<Cur, u128>, BTreeMap<u64, u128>)) -> Option<Funds> {
    for (c, a) in &outs.0 {
        f.take(*c, *a)?;
    }
    // locked outputs: short locks only from free coins, long ones from bound coins first
    for (n, a) in &outs.1 {
        let from_bound = if *n >= f.lock { f.bound.min(*a) } else { 0 };
        f.bound -= from_bound;
        f.take(None, a - from_bound)?;
    }
    Some(f)
}

pub(crate) fn fee(f: &Funds, maturity: u64) -> Option<u128> {
    let free = f.free.get(&None).copied().unwrap_or(0);
    free.checked_add(if f.lock <= maturity { f.bound } else { 0 })
}

fn any_amount(g: &mut Gen, near: u128) -> u128 {
    match g.below(6) {
        0 => near,
        1 => near.saturating_add(1),
        2 => near.saturating_sub(1),
        3 => near / 2,
        4 => g.range(0, 5) as u128,
        _ => small(g),
    }
}

pub(crate) fn coin_or_token(c: Cur, a: u128) -> OutputValue {
    match c {
        None => OutputValue::Coin(Amount::from_atoms(a)),
        Some(t) => OutputValue::TokenV1(t, Amount::from_atoms(a)),
    }
}

fn make_inputs(g: &mut Gen, l: &Ledger) -> Vec<(TxInput, Option<TxOutput>)> {
    let mut v = vec![];
    let mut pools: Vec<PoolId> = l.pos.pools.keys().copied().collect();
    let hostile = g.chance(1, 5);
    let am = Amount::from_atoms;
    for _ in 0..g.range(1, 6) {
        let spend = |g: &mut Gen, o: TxOutput| (TxInput::Utxo(make::outpoint(g)), Some(o));
        let kind = g.weighted(&[8, 2, 3, 3, 3, 1, 4, u64::from(hostile)]);
        match kind {
            0 => {
                let c = if g.bool() { None } else { *g.pick(&l.currencies) };
                let a = if hostile && g.chance(1, 3) { u128::MAX - small(g) } else { small(g) };
                let v_ = coin_or_token(c, a);
                let o = match g.below(4) {
                    0 => TxOutput::LockThenTransfer(v_, make::destination(g), make::timelock(g)),
                    1 => TxOutput::Htlc(v_, Box::new(make::htlc(g))),
                    _ => TxOutput::Transfer(v_, make::destination(g)),
                };
                v.push(spend(g, o));
            }
            1 => {
                let o = match g.below(2) {
                    0 => {
                        let t = (*g.pick(&l.currencies)).unwrap_or(TokenId::new(H256([9; 32])));
                        TxOutput::IssueNft(t, Box::new(NftIssuance::V0(NftIssuanceV0 { metadata: make::metadata(g) })), make::destination(g))
                    }
                    _ => TxOutput::DelegateStaking(am(small(g)), make::id(g)),
                };
                v.push(spend(g, o));
            }
            2 => {
                if let Some(p) = pools.pop() {
                    let o = if g.bool() {
                        TxOutput::CreateStakePool(p, Box::new(make::pool_data(g)))
                    } else {
                        TxOutput::ProduceBlockFromStake(make::destination(g), p)
                    };
                    v.push(spend(g, o));
                } else if hostile {
                    let o = TxOutput::ProduceBlockFromStake(make::destination(g), make::id(g));
                    v.push(spend(g, o));
                }
            }
            3 => {
                let k: Vec<_> = l.pos.dels.keys().copied().collect();
                if !k.is_empty() {
                    let d = *g.pick(&k);
                    let have = l.pos.dels[&d].2;
                    let a = if g.bool() { have / g.range(1, 3) as u128 } else { any_amount(g, have) };
                    v.push((TxInput::Account(AccountOutPoint::new(make::nonce(g), AccountSpending::DelegationBalance(d, am(a)))), None));
                }
            }
            4 | 5 => {
                let k: Vec<_> = l.tokens.keys().copied().collect();
                let t = if k.is_empty() || kind == 5 { make::id(g) } else { *g.pick(&k) };
                let c = match g.weighted(&[6, 1, 1, 1, 1, 1, 1]) {
                    0 => {
                        let room = l.tokens.get(&t).map_or(5, |x| match x.total {
                            TokenTotalSupply::Fixed(m) => m.into_atoms() - x.supply,
                            _ => i128::MAX as u128 - x.supply,
                        });
                        let a = if g.bool() { small(g) } else { any_amount(g, room) };
                        AccountCommand::MintTokens(t, am(a))
                    }
                    1 => AccountCommand::UnmintTokens(t),
                    2 => AccountCommand::LockTokenSupply(t),
                    3 => AccountCommand::FreezeToken(t, IsTokenUnfreezable::Yes),
                    4 => AccountCommand::UnfreezeToken(t),
                    5 => AccountCommand::ChangeTokenAuthority(t, make::destination(g)),
                    _ => AccountCommand::ChangeTokenMetadataUri(t, g.bytes(0, 4)),
                };
                if kind == 4 || hostile || !matches!(c, AccountCommand::MintTokens(..)) {
                    v.push((TxInput::AccountCommand(make::nonce(g), c), None));
                }
            }
            6 => {
                let k: Vec<_> = l.orders.keys().copied().collect();
                if !k.is_empty() {
                    let o = *g.pick(&k);
                    let left = l.orders[&o].ask_left;
                    let a = if g.chance(2, 3) { left / g.range(1, 5) as u128 } else { any_amount(g, left) };
                    let i = match g.below(6) {
                        0 => TxInput::OrderAccountCommand(OrderAccountCommand::FreezeOrder(o)),
                        1 => TxInput::OrderAccountCommand(OrderAccountCommand::ConcludeOrder(o)),
                        2 => TxInput::AccountCommand(make::nonce(g), AccountCommand::ConcludeOrder(o)),
                        3 => TxInput::AccountCommand(make::nonce(g), AccountCommand::FillOrder(o, am(a), make::destination(g))),
                        _ => TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(o, am(a))),
                    };
                    v.push((i, None));
                    // most fills come with the means to pay for them
                    if g.chance(3, 4) {
                        let c = l.orders[&o].ask.0;
                        let pay = TxOutput::Transfer(coin_or_token(c, a), make::destination(g));
                        v.push(spend(g, pay));
                    }
                }
            }
            _ => match g.below(3) {
                0 => {
                    v.push((TxInput::Utxo(make::outpoint(g)), None));
                }
                1 => {
                    let k = *g.pick(&[2u64, 5, 7, 9, 11]);
                    let o = make::output_of(g, k);
                    v.push(spend(g, o));
                }
                _ => {
                    let o = TxOutput::Transfer(OutputValue::TokenV0(Box::new(make::token_data(g))), make::destination(g));
                    v.push(spend(g, o));
                }
            },
        }
    }
    // commands cost coins: most transactions bring some
    if g.chance(3, 4) {
        let o = TxOutput::Transfer(coin_or_token(None, COIN * g.range(100, 1000) as u128), make::destination(g));
        v.push((TxInput::Utxo(make::outpoint(g)), Some(o)));
    }
    g.shuffle(&mut v);
    v
}

fn spend_output(g: &mut Gen, c: Cur, a: u128) -> TxOutput {
    let v = coin_or_token(c, a);
    match g.below(8) {
        0 => TxOutput::Burn(v),
        1 => TxOutput::Htlc(v, Box::new(make::htlc(g))),
        2 => {
            let ask = make::output_value(g);
            TxOutput::CreateOrder(Box::new(OrderData::new(make::destination(g), ask, v)))
        }
        3 if c.is_none() => TxOutput::DelegateStaking(Amount::from_atoms(a), make::id(g)),
        4 if c.is_none() => {
            let d = make::pool_data(g);
            let d = common::chain::stakelock::StakePoolData::new(
                Amount::from_atoms(a),
                d.staker().clone(),
                d.vrf_public_key().clone(),
                d.decommission_key().clone(),
                d.margin_ratio_per_thousand(),
                d.cost_per_block(),
            );
            TxOutput::CreateStakePool(make::id(g), Box::new(d))
        }
        5 => {
            let lock = match g.below(5) {
                0 => OutputTimeLock::ForBlockCount(0),
                1 => OutputTimeLock::ForBlockCount(g.range(1, 14)),
                2 => OutputTimeLock::UntilHeight(BlockHeight::new(g.u64())),
                3 => OutputTimeLock::ForSeconds(g.u64()),
                _ => make::timelock(g),
            };
            TxOutput::LockThenTransfer(v, make::destination(g), lock)
        }
        _ => TxOutput::Transfer(v, make::destination(g)),
    }
}

/// Outputs that use up some or all of what there is, in random pieces.
fn make_outputs(g: &mut Gen, net: &Net, h: u64, f: &Funds) -> Vec<TxOutput> {
    let mut v = vec![];
    let mut f = f.clone();
    for _ in 0..g.range(0, 2) {
        let (o, cost) = match g.below(5) {
            0 => (TxOutput::IssueFungibleToken(Box::new(make::token_issuance(g))), net.issue_fee()),
            1 => (
                TxOutput::IssueNft(make::id(g), Box::new(NftIssuance::V0(NftIssuanceV0 { metadata: make::metadata(g) })), make::destination(g)),
                net.nft_fee(h),
            ),
            2 => (TxOutput::DataDeposit(g.bytes(0, 5)), net.deposit_fee(h)),
            3 => (TxOutput::ProduceBlockFromStake(make::destination(g), make::id(g)), 0),
            _ => (TxOutput::CreateDelegationId(make::destination(g), make::id(g)), 0),
        };
        if f.take(None, cost).is_some() || g.chance(1, 20) {
            v.push(o);
        }
    }
    // coins for locks, sometimes from the free ones as well
    let mut bound = f.bound;
    while bound > 0 && v.len() < 6 && g.chance(4, 5) {
        let part = if g.bool() { bound } else { bound / 2 + 1 };
        let mut a = part;
        if g.chance(1, 4) {
            let extra = f.free.get(&None).copied().unwrap_or(0) / g.range(1, 3) as u128;
            if let (Some(s), Some(())) = (a.checked_add(extra), f.take(None, extra)) {
                a = s;
            }
        }
        let n = match g.below(12) {
            0 => f.lock - 1,
            1 | 2 => f.lock + g.range(1, 5),
            3 => u64::MAX,
            _ => f.lock,
        };
        v.push(TxOutput::LockThenTransfer(coin_or_token(None, a), make::destination(g), OutputTimeLock::ForBlockCount(n)));
        bound -= part;
    }
    let all = g.chance(2, 3);
    for (c, have) in f.free.clone() {
        let mut left = have;
        for _ in 0..g.range(1, 3) {
            let part = if all && g.bool() { left } else { left / g.range(1, 4) as u128 };
            if part > 0 || g.chance(1, 10) {
                v.push(spend_output(g, c, part));
            }
            left -= part;
        }
        if all && left > 0 {
            v.push(spend_output(g, c, left));
        }
    }
    if g.chance(1, 12) {
        v.push(match g.below(3) {
            0 => TxOutput::Transfer(OutputValue::TokenV0(Box::new(make::token_data(g))), make::destination(g)),
            1 => {
                let c = *g.pick(&[None, Some(TokenId::new(H256([7; 32])))]);
                let a = if g.bool() { u128::MAX } else { small(g) };
                spend_output(g, c, a)
            }
            _ => TxOutput::CreateOrder(Box::new(OrderData::new(
                make::destination(g),
                coin_or_token(None, 5),
                OutputValue::TokenV0(Box::new(make::token_data(g))),
            ))),
        });
    }
    g.shuffle(&mut v);
    v
}

/// Changes one amount by one atom, or one lock by one block.
fn nudge(g: &mut Gen, o: &mut TxOutput) {
    let up = g.bool();
    let m = |a: Amount| Amount::from_atoms(if up { a.into_atoms().saturating_add(1) } else { a.into_atoms().saturating_sub(1) });
    let mv = |v: &mut OutputValue| {
        *v = match &*v {
            OutputValue::Coin(a) => OutputValue::Coin(m(*a)),
            OutputValue::TokenV1(t, a) => OutputValue::TokenV1(*t, m(*a)),
            x => x.clone(),
        }
    };
    match o {
        TxOutput::LockThenTransfer(_, _, OutputTimeLock::ForBlockCount(n)) if g.bool() => {
            *n = if up { n.saturating_add(1) } else { n.saturating_sub(1) };
        }
        TxOutput::Transfer(v, _) | TxOutput::Burn(v) | TxOutput::Htlc(v, _) | TxOutput::LockThenTransfer(v, _, _) => mv(v),
        TxOutput::DelegateStaking(a, _) => *a = m(*a),
        _ => {}
    }
}

fn height(g: &mut Gen) -> u64 {
    match g.below(4) {
        0 => g.range(0, 3),
        1 => g.range(CHANGE_AT + 2, u64::MAX >> 1),
        _ => CHANGE_AT - 3 + g.below(7),
    }
}

fn run_inputs(net: &Net, h: u64, r: &Real, inputs: &[(TxInput, Option<TxOutput>)]) -> Result<ConstrainedValueAccumulator, Error> {
    let (i, u): (Vec<TxInput>, Vec<Option<TxOutput>>) = inputs.iter().cloned().unzip();
    let pos_db = PoSAccountingDB::<_, DefaultStorageTag>::new(&r.pos);
    let pos = PoSAccountingDelta::new(pos_db);
    let tokens = TokensAccountingCache::new(c30::Base(&r.tokens));
    let orders = OrdersAccountingCache::new(c31::Base(&r.orders));
    ConstrainedValueAccumulator::from_inputs(&net.config, BlockHeight::new(h), &orders, &pos, &tokens, &i, &u)
}

struct Outcome {
    real: Result<AccumulatedFee, Error>,
    model: Option<Funds>,
}

fn one(g: &mut Gen, net: &Net, h: u64) -> Result<Outcome, String> {
    let l = ledger(g);
    let mut inputs = make_inputs(g, &l);
    let mut funds = inputs_model(net, h, &l, &inputs);
    // take out what makes the inputs impossible, most of the time
    if funds.is_none() && g.chance(7, 8) {
        for k in (0..inputs.len()).rev() {
            let mut fewer = inputs.clone();
            fewer.remove(k);
            if funds.is_none() {
                funds = inputs_model(net, h, &l, &fewer);
                inputs = fewer;
            }
        }
    }
    let mut outputs = make_outputs(g, net, h, funds.as_ref().unwrap_or(&Funds { lock: 1, ..Funds::default() }));
    let mut changed = false;
    if !outputs.is_empty() && g.bool() {
        let k = g.usize(outputs.len());
        nudge(g, &mut outputs[k]);
        changed = true;
    }
    note!(g, "height {h}, maturity {}, pools {:?}", net.maturity(h), l.pos.pools.iter().map(|(k, v)| (k, v.1, v.2)).collect::<Vec<_>>());
    note!(g, "delegations {:?} orders {:?} tokens {:?}", l.pos.dels, l.orders, l.tokens);
    note!(g, "inputs {inputs:?}");
    note!(g, "outputs {outputs:?}");
    let outs = outputs_model(net, h, &outputs);
    let model = match (&funds, &outs) {
        (Some(f), Some(o)) => settle(f.clone(), o),
        _ => None,
    };
    let r = l.real();
    let real_in = run_inputs(net, h, &r, &inputs);
    check_eq!(real_in.is_ok(), funds.is_some(), "inputs acceptable ({:?})", real_in.as_ref().err());
    let real_out = ConstrainedValueAccumulator::from_outputs(&net.config, BlockHeight::new(h), &outputs);
    check_eq!(real_out.is_ok(), outs.is_some(), "outputs acceptable ({:?})", real_out.as_ref().err());
    let real = match (real_in, real_out) {
        (Ok(i), Ok(o)) => i.satisfy_with(o),
        (Err(e), _) | (_, Err(e)) => Err(e),
    };
    check_eq!(real.is_ok(), model.is_some(), "outputs covered by inputs ({:?}; funds {funds:?}, needs {outs:?})", real.as_ref().err());
    let kinds = funds.as_ref().map_or(0, |f| f.free.values().filter(|x| **x > 0).count() + usize::from(f.bound > 0));
    g.nontrivial_if((model.is_some() && kinds >= 2) || (model.is_none() && funds.is_some() && changed));
    g.tag(match (&model, &funds, &outs) {
        (Some(f), ..) if f.bound > 0 || f.free.values().any(|x| *x > 0) => "accepted with a rest",
        (Some(_), ..) => "accepted exactly",
        (None, None, _) => "inputs refused",
        (None, _, None) => "outputs refused",
        _ => "not covered",
    });
    g.tag_if(funds.as_ref().is_some_and(|f| f.bound > 0), "with bound coins");
    Ok(Outcome { real, model })
}

fn transactions(g: &mut Gen) -> Res {
    let net = g.pick(nets());
    let h = height(g);
    let o = one(g, net, h)?;
    if let (Ok(real), Some(model)) = (o.real, o.model) {
        // the fee, at this height and at one with other rules
        for at in [h, height(g)] {
            let got = real.clone().map_into_block_fees(&net.config, BlockHeight::new(at)).ok().map(|f| f.0.into_atoms());
            check_eq!(got, fee(&model, net.maturity(at)), "the fee at height {at}");
        }
    }
    Ok(())
}

fn block_fees(g: &mut Gen) -> Res {
    let net = g.pick(nets());
    let h = height(g);
    let mut all = AccumulatedFee::new();
    let (mut free, mut bound) = (Some(BTreeMap::<Cur, u128>::new()), Some(0u128));
    let mut n = 0;
    for _ in 0..g.range(1, 5) {
        let o = one(g, net, h)?;
        let (Ok(real), Some(model)) = (o.real, o.model) else { continue };
        n += 1;
        for (c, a) in &model.free {
            free = free.and_then(|mut f| {
                let x = f.entry(*c).or_default();
                *x = x.checked_add(*a)?;
                Some(f)
            });
        }
        bound = bound.and_then(|b| b.checked_add(model.bound));
        // in either order
        let r = if g.bool() { all.clone().combine(real) } else { real.combine(all.clone()) };
        match (r, &free, bound) {
            (Ok(r), Some(_), Some(_)) => all = r,
            (Err(_), Some(_), Some(_)) => return Err("fees that can be added were refused".into()),
            (Ok(_), ..) => return Err("an overflow of fees went unnoticed".into()),
            (Err(_), ..) => {
                g.tag("overflow");
                return Ok(());
            }
        }
    }
    g.nontrivial_if(n >= 2);
    let lock = net.maturity(h);
    let sum = Funds { free: free.unwrap_or_default(), bound: bound.unwrap_or(0), lock };
    let got = all.map_into_block_fees(&net.config, BlockHeight::new(h)).ok().map(|f| f.0.into_atoms());
    check_eq!(got, fee(&sum, lock), "the fees of the block");
    Ok(())
}

fn block_reward(g: &mut Gen) -> Res {
    let net = g.pick(nets());
    let h = height(g);
    let am = Amount::from_atoms;
    let (fees, subsidy) = if g.chance(1, 5) {
        let a = g.u128();
        (a, (u128::MAX - a).saturating_add(g.below(3) as u128).saturating_sub(1))
    } else {
        (small(g), small(g))
    };
    let total = fees.checked_add(subsidy);
    let acc = ConstrainedValueAccumulator::from_block_reward(Fee(am(fees)), Subsidy(am(subsidy)));
    check_eq!(acc.is_some(), total.is_some(), "fees plus subsidy");
    let (Some(total), Some(acc)) = (total, acc) else {
        g.tag("overflow");
        return Ok(());
    };
    let f = Funds { free: [(None, total)].into(), bound: 0, lock: net.maturity(h) };
    let mut outputs = match g.below(4) {
        0 => vec![TxOutput::ProduceBlockFromStake(make::destination(g), make::id(g))],
        1 => vec![TxOutput::LockThenTransfer(coin_or_token(None, total), make::destination(g), OutputTimeLock::ForBlockCount(net.maturity(h)))],
        _ => make_outputs(g, net, h, &f),
    };
    if !outputs.is_empty() && g.bool() {
        let k = g.usize(outputs.len());
        nudge(g, &mut outputs[k]);
        g.nontrivial();
    }
    note!(g, "fees {fees} subsidy {subsidy} outputs {outputs:?}");
    let outs = outputs_model(net, h, &outputs);
    let model = outs.as_ref().and_then(|o| settle(f, o));
    let real = ConstrainedValueAccumulator::from_outputs(&net.config, BlockHeight::new(h), &outputs).and_then(|o| acc.satisfy_with(o));
    check_eq!(real.is_ok(), model.is_some(), "a reward within the limit ({:?})", real.as_ref().err());
    if let (Ok(r), Some(m)) = (real, model) {
        let got = r.map_into_block_fees(&net.config, BlockHeight::new(h)).map_err(|e| e.to_string())?.0.into_atoms();
        check_eq!(Some(got), fee(&m, net.maturity(h)), "what is left of the reward");
        check!(got <= total, "more is left than there was");
    }
    Ok(())
}
