//! Networks, blocks and transactions to try, the node, and what it should look like.
use crate::{
    c29, c30, c32,
    disk::Disk,
    ledger::{key_of, median, Bad, Blk, Net, State, Tx},
};
use chainstate::{make_chainstate, BlockSource, ChainstateConfig, ChainstateSubsystem, DefaultTransactionVerificationStrategy};
use chainstate_storage::Store;
use common::{
    chain::{
        block::{timestamp::BlockTimestamp, BlockReward, ConsensusData},
        config::{Builder, ChainType},
        make_delegation_id, make_order_id, make_pool_id, make_token_id,
        output_value::OutputValue,
        signature::{
            inputsig::{standard_signature::StandardInputSignature, InputWitness},
            sighash::sighashtype::SigHashType,
        },
        stakelock::StakePoolData,
        timelock::OutputTimeLock,
        tokens::{
            IsTokenFreezable, IsTokenUnfreezable, Metadata, NftIssuance, NftIssuanceV0, TokenId, TokenIssuance, TokenIssuanceV1,
            TokenTotalSupply,
        },
        AccountCommand, AccountNonce, AccountSpending, AccountType, Block, ChainstateUpgradeBuilder, Destination, GenBlock, NetUpgrades,
        OrderAccountCommand, OrderData, OrdersVersion, SignedTransaction, Transaction, TxInput, TxOutput, UtxoOutPoint,
    },
    primitives::{per_thousand::PerThousand, time::Time, Amount, BlockCount, BlockDistance, BlockHeight, Id, Idable},
    time_getter::TimeGetter,
};
use gens::make;
use pbt::{check, check_eq, Gen, Res};
use serialization::{DecodeAll, Encode};
use std::{
    collections::{BTreeMap, BTreeSet},
    num::NonZeroU64,
    sync::{Arc, OnceLock},
};
use test_utils::random::{Seed, TestRng};

pub const COIN: u128 = c32::COIN;
/// Seconds after genesis at which the clock of every node stands.
pub const NOW: u64 = 100_000;

/// Networks without proof of anything: the longest chain is the best.
pub fn nets() -> &'static Vec<Arc<Net>> {
    static N: OnceLock<Vec<Arc<Net>>> = OnceLock::new();
    N.get_or_init(|| {
        let mut all = vec![];
        // (change of rules, maturity, epoch, seal, depth)
        for (v1, maturity, epoch, seal, depth) in
            [(0u64, 2u64, 3u64, 1u64, 1000i64), (0, 0, 2, 0, 1000), (6, 1, 4, 2, 1000), (0, 3, 5, 1, 5), (4, 2, 1, 2, 1000), (0, 0, 100, 2, 7)]
        {
            // the chain configuration cannot be copied: one for the node, one for the rules
            let build = || {
                let at = |h| BlockHeight::new(h);
                let new = ChainstateUpgradeBuilder::latest().build();
                let upgrades = if v1 == 0 {
                    vec![(at(0), new)]
                } else {
                    use common::chain::{DataDepositFeeVersion, TokensFeeVersion};
                    let old = ChainstateUpgradeBuilder::latest()
                        .tokens_fee_version(TokensFeeVersion::V0)
                        .data_deposit_fee_version(DataDepositFeeVersion::V0)
                        .orders_version(OrdersVersion::V0)
                        .build();
                    vec![(at(0), old), (at(v1), new)]
                };
                Builder::new(ChainType::Regtest)
                    .consensus_upgrades(NetUpgrades::unit_tests())
                    .chainstate_upgrades(NetUpgrades::initialize(upgrades).expect("upgrades"))
                    .empty_consensus_reward_maturity_block_count(BlockCount::new(maturity))
                    .epoch_length(NonZeroU64::new(epoch).expect("some"))
                    .sealed_epoch_distance_from_tip(seal as usize)
                    .max_depth_for_reorg(BlockDistance::new(depth))
                    .min_stake_pool_pledge(Amount::from_atoms(1000 * COIN))
                    .max_future_block_time_offset(Some(std::time::Duration::from_secs(3600)))
                    .genesis_unittest(Destination::AnyoneCanSpend)
                    .build()
            };
            all.push(Arc::new(Net {
                chain: Arc::new(build()),
                rules: c32::Net { config: build(), maturity: [maturity; 2], v1_from: v1 },
                epoch,
                seal,
                depth: depth as u64,
            }));
        }
        all
    })
}

pub fn genesis_time(net: &Net) -> u64 {
    net.chain.genesis_block().timestamp().as_int_seconds()
}

pub fn clock(net: &Net) -> u64 {
    genesis_time(net) + NOW
}

#[derive(Clone)]
pub struct Place {
    pub parent: Option<Id<GenBlock>>,
    pub height: u64,
    /// Timestamps from genesis to this block.
    pub times: Arc<Vec<u64>>,
    /// What is known after this block, if it and all below it are valid.
    pub state: Option<Arc<State>>,
    pub blk: Option<Arc<Blk>>,
    pub verdict: Result<(), Bad>,
}

/// All blocks ever made, with what each leads to.
pub struct Tree {
    pub net: Arc<Net>,
    pub root: Id<GenBlock>,
    pub places: BTreeMap<Id<GenBlock>, Place>,
    pub order: Vec<Id<GenBlock>>,
    /// Outputs that existed somewhere.
    pub outpoints: Vec<UtxoOutPoint>,
    /// Transactions made so far.
    pub txs: Vec<Arc<Tx>>,
    salt: u64,
}

fn am(a: u128) -> Amount {
    Amount::from_atoms(a)
}

thread_local! {
    /// Who else may own things, if not just anyone and a few keys.
    static OWNERS: std::cell::RefCell<Vec<Destination>> = const { std::cell::RefCell::new(vec![]) };
}

/// Draws owners from a list from now on (in this thread); from none with an empty list.
pub fn set_owners(all: Vec<Destination>) {
    OWNERS.with(|o| *o.borrow_mut() = all);
}

pub fn key(g: &mut Gen) -> Destination {
    let n = OWNERS.with(|o| o.borrow().len());
    if n > 0 {
        return if g.chance(1, 3) { Destination::AnyoneCanSpend } else { OWNERS.with(|o| g.pick(&o.borrow()).clone()) };
    }
    if g.chance(1, 5) {
        Destination::PublicKey(make::pool().keys[g.urange(0, 2)].1.clone())
    } else {
        Destination::AnyoneCanSpend
    }
}

fn lock(g: &mut Gen, h: u64, mtp: u64) -> OutputTimeLock {
    match g.below(4) {
        0 => OutputTimeLock::UntilHeight(BlockHeight::new(h + g.range(0, 3))),
        1 => OutputTimeLock::UntilTime(BlockTimestamp::from_int_seconds(mtp + g.range(0, 60))),
        2 => OutputTimeLock::ForBlockCount(g.range(0, 3)),
        _ => OutputTimeLock::ForSeconds(g.range(0, 60)),
    }
}

impl Tree {
    pub fn new(net: &Arc<Net>) -> Tree {
        let root = net.chain.genesis_block_id();
        let state = State::genesis(net);
        let outpoints = state.utxos.keys().cloned().collect();
        let place = Place {
            parent: None,
            height: 0,
            times: Arc::new(vec![genesis_time(net)]),
            state: Some(Arc::new(state)),
            blk: None,
            verdict: Ok(()),
        };
        Tree { net: Arc::clone(net), root, places: [(root, place)].into(), order: vec![root], outpoints, txs: vec![], salt: 0 }
    }

    pub fn at(&self, id: &Id<GenBlock>) -> &Place {
        &self.places[id]
    }

    pub fn path(&self, id: &Id<GenBlock>) -> Vec<Id<GenBlock>> {
        let mut v = vec![*id];
        while let Some(p) = self.places[v.last().expect("some")].parent {
            v.push(p);
        }
        v.reverse();
        v
    }

    pub fn sign(&self, g: &mut Gen, st: &State, h: u64, tx: Transaction, careless: bool) -> Tx {
        let commitments = st.commitments(&self.net, h, &tx).unwrap_or_default();
        let mut signers = vec![];
        let mut witnesses = vec![];
        for (i, input) in tx.inputs().iter().enumerate() {
            let owner = st.owner(input).ok().flatten();
            let mut k = owner.as_ref().and_then(key_of);
            if careless && g.chance(1, 2) {
                k = match g.below(3) {
                    0 => None,
                    _ => Some(g.urange(0, 3)),
                };
            }
            if commitments.len() != tx.inputs().len() {
                k = None;
            }
            match k {
                None => witnesses.push(InputWitness::NoSignature(None)),
                Some(k) => {
                    let (private, public) = &make::pool().keys[k];
                    let s = StandardInputSignature::produce_uniparty_signature_for_input(
                        private,
                        SigHashType::all(),
                        Destination::PublicKey(public.clone()),
                        &tx,
                        &commitments,
                        i,
                        &mut TestRng::new(Seed::from_u64(g.seed())),
                    )
                    .expect("signs");
                    witnesses.push(InputWitness::Standard(s));
                }
            }
            signers.push(k);
        }
        Tx { tx: SignedTransaction::new(tx, witnesses).expect("as many witnesses as inputs"), signers, commitments }
    }

    fn account_input(&self, g: &mut Gen, st: &State, h: u64) -> Option<TxInput> {
        let v0 = self.net.orders(h) == OrdersVersion::V0;
        let next = |a: AccountType| AccountNonce::new(st.nonces.get(&a).map_or(0, |n| n + 1));
        let b = &st.books;
        let part = |g: &mut Gen, x: u128| match g.below(4) {
            0 => x,
            1 => x / 2,
            2 => x.saturating_add(u128::from(g.chance(1, 3))),
            _ => x / g.range(1, 9) as u128,
        };
        match g.weighted(&[2, 5, 5]) {
            0 => {
                let k: Vec<_> = b.pos.dels.iter().filter(|x| x.1 .2 > 0 || g.chance(1, 10)).collect();
                let (d, x) = (!k.is_empty()).then(|| *g.pick(&k))?;
                let spending = AccountSpending::DelegationBalance(*d, am(part(g, x.2)));
                let n = next((&spending).into());
                Some(TxInput::from_account(n, spending))
            }
            1 => {
                let k: Vec<_> = b.tokens.iter().collect();
                let (t, x) = (!k.is_empty()).then(|| *g.pick(&k))?;
                let frozen = matches!(x.frozen, c30::Frozen::ForNow);
                let c = match g.weighted(&[10, 5, 1, u64::from(!frozen), if frozen { 6 } else { 1 }, 1, 1]) {
                    0 => {
                        let room = match x.total {
                            TokenTotalSupply::Fixed(l) => l.into_atoms() - x.supply.min(l.into_atoms()),
                            _ => 100_000,
                        };
                        AccountCommand::MintTokens(*t, am(part(g, room)))
                    }
                    1 => AccountCommand::UnmintTokens(*t),
                    2 => AccountCommand::LockTokenSupply(*t),
                    3 => AccountCommand::FreezeToken(*t, if g.chance(4, 5) { IsTokenUnfreezable::Yes } else { IsTokenUnfreezable::No }),
                    4 => AccountCommand::UnfreezeToken(*t),
                    5 => AccountCommand::ChangeTokenAuthority(*t, key(g)),
                    _ => AccountCommand::ChangeTokenMetadataUri(*t, format!("https://x.com/{}", g.range(0, 99)).into_bytes()),
                };
                let n = next((&c).into());
                Some(TxInput::AccountCommand(n, c))
            }
            _ => {
                let k: Vec<_> = b.orders.iter().collect();
                let (o, x) = (!k.is_empty()).then(|| *g.pick(&k))?;
                let a = am(part(g, x.ask_left).max(1));
                let kind = g.weighted(&[8, 2, 1]);
                if v0 != g.chance(1, 40) {
                    let c = if kind == 0 { AccountCommand::FillOrder(*o, a, key(g)) } else { AccountCommand::ConcludeOrder(*o) };
                    let n = next((&c).into());
                    Some(TxInput::AccountCommand(n, c))
                } else {
                    Some(TxInput::OrderAccountCommand(match kind {
                        0 => OrderAccountCommand::FillOrder(*o, a),
                        1 => OrderAccountCommand::ConcludeOrder(*o),
                        _ => OrderAccountCommand::FreezeOrder(*o),
                    }))
                }
            }
        }
    }

    /// A transaction that is valid on the given state, most of the time.
    pub fn tx(&mut self, g: &mut Gen, st: &State, h: u64, mtp: u64) -> Tx {
        let net = Arc::clone(&self.net);
        let rules = &net.rules;
        let wrong = g.chance(1, 14);
        let careless = wrong && g.chance(1, 4);
        // inputs
        let mut inputs: Vec<TxInput> = vec![];
        let hasty = wrong && g.chance(1, 4);
        let ready: Vec<&UtxoOutPoint> = st
            .utxos
            .iter()
            .filter(|(_, c)| !matches!(c.out, TxOutput::Htlc(..)) && (hasty || st.unlocked(c, h, mtp)))
            .filter(|(_, c)| !matches!(c.out, TxOutput::CreateStakePool(..)) || g.chance(1, 8))
            .map(|x| x.0)
            .collect();
        let worth = |o: &UtxoOutPoint| match &st.utxos[o].out {
            TxOutput::Transfer(OutputValue::Coin(a), _) => a.into_atoms(),
            _ => 0,
        };
        if g.chance(5, 6) {
            if let Some(o) = ready.iter().max_by_key(|o| worth(o)) {
                inputs.push((*o).clone().into());
            }
        }
        if !ready.is_empty() {
            for _ in 0..g.range(0, 3) {
                let i: TxInput = (*g.pick(&ready)).clone().into();
                if !inputs.contains(&i) {
                    inputs.push(i);
                }
            }
        }
        if g.chance(3, 5) {
            if let Some(i) = self.account_input(g, st, h) {
                let at = g.urange(0, inputs.len());
                inputs.insert(at, i);
            }
        }
        if inputs.is_empty() {
            match ready.first() {
                Some(o) => inputs.push((*o).clone().into()),
                None => inputs.push(self.outpoints[0].clone().into()),
            }
        }
        // tokens to burn for an unmint
        if let Some(TxInput::AccountCommand(_, AccountCommand::UnmintTokens(t))) =
            inputs.iter().find(|i| matches!(i, TxInput::AccountCommand(_, AccountCommand::UnmintTokens(_))))
        {
            let t = *t;
            let own = ready.iter().find(|o| matches!(&st.utxos[**o].out, TxOutput::Transfer(OutputValue::TokenV1(x, _), _) if *x == t));
            if let Some(o) = own {
                let i: TxInput = (*o).clone().into();
                if !inputs.contains(&i) {
                    inputs.push(i);
                }
            }
        }
        let resolved: Vec<_> =
            inputs.iter().map(|i| (i.clone(), i.utxo_outpoint().and_then(|o| st.utxos.get(o)).map(|c| c.out.clone()))).collect();
        let funds = c32::inputs_model(rules, h, &st.books, &resolved).unwrap_or_default();
        let mut coins = funds.free.get(&None).copied().unwrap_or(0);
        let mut outs: Vec<TxOutput> = vec![];
        // what to buy
        let mut issued = false;
        for _ in 0..g.weighted(&[3, 5, 2]) {
            let height = BlockHeight::new(h);
            let kind = g.weighted(&[4, 3, 5, 5, 1, 1, 4, 1, 1]);
            let (price, out) = match kind {
                0 => {
                    let pledge = 1000 * COIN + g.range(0, 2) as u128 - u128::from(wrong && g.chance(1, 3));
                    let Ok(mut id) = make_pool_id(&inputs) else { continue };
                    if wrong && g.chance(1, 3) {
                        id = common::chain::PoolId::new(make::hash(g));
                    }
                    let vrf = make::pool().vrf[g.urange(0, 5)].1.clone();
                    let d = StakePoolData::new(
                        am(pledge),
                        key(g),
                        vrf,
                        key(g),
                        PerThousand::new(g.range(0, 1000) as u16).expect("in range"),
                        am(g.range(0, 5) as u128),
                    );
                    (pledge, TxOutput::CreateStakePool(id, Box::new(d)))
                }
                1 => {
                    let k: Vec<_> = st.books.pos.pools.keys().collect();
                    if k.is_empty() {
                        continue;
                    }
                    (0, TxOutput::CreateDelegationId(key(g), **g.pick(&k)))
                }
                2 => {
                    let k: Vec<_> = st.books.pos.dels.keys().collect();
                    if k.is_empty() {
                        continue;
                    }
                    let a = COIN * g.range(1, 50) as u128 + g.range(0, 3) as u128;
                    (a, TxOutput::DelegateStaking(am(a), **g.pick(&k)))
                }
                3 if !issued => {
                    issued = true;
                    let total = match g.below(3) {
                        0 => TokenTotalSupply::Fixed(am(g.range(1, 50_000) as u128)),
                        1 => TokenTotalSupply::Lockable,
                        _ => TokenTotalSupply::Unlimited,
                    };
                    let i = TokenIssuanceV1 {
                        token_ticker: g.string(&['A', 'B', 'c', '1'], 3, 5).into_bytes(),
                        number_of_decimals: g.range(1, 5) as u8,
                        metadata_uri: b"https://example.com/token".to_vec(),
                        total_supply: total,
                        authority: key(g),
                        is_freezable: if g.chance(3, 4) { IsTokenFreezable::Yes } else { IsTokenFreezable::No },
                    };
                    (rules.issue_fee(), TxOutput::IssueFungibleToken(Box::new(TokenIssuance::V1(i))))
                }
                4 if !issued => {
                    issued = true;
                    let Ok(mut id) = make_token_id(&net.chain, height, &inputs) else { continue };
                    if wrong && g.chance(1, 3) {
                        id = TokenId::new(make::hash(g));
                    }
                    let metadata = Metadata {
                        creator: None,
                        name: b"Name".to_vec(),
                        description: b"Description".to_vec(),
                        ticker: b"NFT".to_vec(),
                        icon_uri: None::<Vec<u8>>.into(),
                        additional_metadata_uri: None::<Vec<u8>>.into(),
                        media_uri: None::<Vec<u8>>.into(),
                        media_hash: vec![g.byte(); 32],
                    };
                    let nft = NftIssuance::V0(NftIssuanceV0 { metadata });
                    (rules.nft_fee(h), TxOutput::IssueNft(id, Box::new(nft), key(g)))
                }
                5 => (rules.deposit_fee(h), TxOutput::DataDeposit(g.bytes(0, 8))),
                6 => {
                    if make_order_id(&inputs).is_err() {
                        continue;
                    }
                    let mut k: Vec<Option<TokenId>> = funds.free.iter().filter(|x| *x.1 > 0).map(|x| *x.0).collect();
                    k.push(None);
                    let give = *g.pick(&k);
                    let mut asks: Vec<Option<TokenId>> = st.books.tokens.keys().map(|t| Some(*t)).collect();
                    asks.push(None);
                    let ask = *g.pick(&asks);
                    if ask == give && !wrong {
                        continue;
                    }
                    let a = g.range(1, 5_000) as u128;
                    let have = if give.is_none() { 5 * COIN } else { funds.free[&give] };
                    let mut b = match g.below(3) {
                        0 => have,
                        1 => have / 2,
                        _ => g.range(1, 5_000) as u128,
                    }
                    .min(have)
                    .max(1);
                    if wrong && g.chance(1, 4) {
                        b = 0;
                    }
                    let d = OrderData::new(key(g), c32::coin_or_token(ask, a), c32::coin_or_token(give, b));
                    if give.is_some() {
                        outs.push(TxOutput::CreateOrder(Box::new(d)));
                        continue;
                    }
                    (b, TxOutput::CreateOrder(Box::new(d)))
                }
                7 => {
                    let a = g.range(0, 9) as u128;
                    let mut h = make::htlc(g);
                    if OWNERS.with(|o| !o.borrow().is_empty()) {
                        h.spend_key = key(g);
                        h.refund_key = key(g);
                    }
                    (a, TxOutput::Htlc(OutputValue::Coin(am(a)), Box::new(h)))
                }
                _ => {
                    if make_delegation_id(&inputs).is_err() {
                        continue;
                    }
                    let a = COIN / 1000 * g.range(0, 9) as u128;
                    (a, TxOutput::LockThenTransfer(OutputValue::Coin(am(a)), key(g), lock(g, h, mtp)))
                }
            };
            if price <= coins {
                coins -= price;
                outs.push(out);
            }
        }
        // fee and change
        let fee = match g.below(3) {
            0 => 0,
            1 => g.range(0, 3) as u128,
            _ => COIN / 100 * g.range(0, 9) as u128,
        }
        .min(coins);
        coins -= fee;
        if coins > 0 && g.chance(1, 10) {
            let a = coins.min(g.range(0, 9) as u128);
            coins -= a;
            outs.push(TxOutput::Burn(OutputValue::Coin(am(a))));
        }
        while coins > 0 {
            let a = if coins > 20_000 * COIN && g.chance(3, 4) {
                coins / g.range(2, 5) as u128
            } else if g.chance(1, 4) {
                (coins / 3).max(1)
            } else {
                coins
            };
            coins -= a;
            outs.push(TxOutput::Transfer(OutputValue::Coin(am(a)), key(g)));
            if outs.len() > 9 {
                break;
            }
        }
        if funds.bound > 0 {
            let n = if wrong && g.chance(1, 3) { funds.lock.saturating_sub(1) } else { funds.lock + g.range(0, 2) };
            outs.push(TxOutput::LockThenTransfer(OutputValue::Coin(am(funds.bound)), key(g), OutputTimeLock::ForBlockCount(n)));
        }
        let unmint = inputs.iter().find_map(|i| match i {
            TxInput::AccountCommand(_, AccountCommand::UnmintTokens(t)) => Some(*t),
            _ => None,
        });
        for (c, have) in funds.free.iter() {
            let Some(t) = c else { continue };
            let given: u128 = outs
                .iter()
                .filter_map(|o| match o {
                    TxOutput::CreateOrder(d) => c32::value(d.give()).filter(|x| x.0 == *c).map(|x| x.1),
                    _ => None,
                })
                .sum();
            let mut left = have.saturating_sub(given);
            while left > 0 {
                let a = if g.chance(1, 2) { left } else { (left / 3).max(1) };
                left -= a;
                let v = OutputValue::TokenV1(*t, am(a));
                outs.push(if unmint == Some(*t) && g.chance(2, 3) || g.chance(1, 12) {
                    TxOutput::Burn(v)
                } else if g.chance(1, 10) {
                    TxOutput::LockThenTransfer(v, key(g), lock(g, h, mtp))
                } else {
                    TxOutput::Transfer(v, key(g))
                });
                if outs.len() > 14 {
                    break;
                }
            }
        }
        if wrong {
            self.spoil(g, st, &mut inputs, &mut outs);
        }
        g.shuffle(&mut outs);
        let tx = Transaction::new(0, inputs, outs).expect("flags");
        self.sign(g, st, h, tx, careless)
    }

    /// Changes one thing.
    fn spoil(&mut self, g: &mut Gen, st: &State, inputs: &mut Vec<TxInput>, outs: &mut Vec<TxOutput>) {
        let one = Amount::from_atoms(1);
        match g.below(7) {
            0 => {
                // an output that is gone, or on another branch, or never was
                let gone: Vec<_> = self.outpoints.iter().filter(|o| !st.utxos.contains_key(o)).cloned().collect();
                let o = if gone.is_empty() || g.chance(1, 6) { make::outpoint(g) } else { g.pick(&gone).clone() };
                if g.bool() || inputs.is_empty() {
                    inputs.push(o.into());
                } else {
                    let i = g.below(inputs.len() as u64) as usize;
                    inputs[i] = o.into();
                }
            }
            1 => {
                for i in inputs.iter_mut() {
                    let bump = |g: &mut Gen, n: AccountNonce| match g.below(3) {
                        0 => AccountNonce::new(n.value().wrapping_add(1)),
                        1 => AccountNonce::new(n.value().saturating_sub(1)),
                        _ => AccountNonce::new(0),
                    };
                    match i {
                        TxInput::AccountCommand(n, _) => *n = bump(g, *n),
                        TxInput::Account(a) => *i = TxInput::from_account(bump(g, a.nonce()), a.account().clone()),
                        _ => {}
                    }
                }
            }
            2 => {
                for o in outs.iter_mut() {
                    if let TxOutput::Transfer(v, _) | TxOutput::LockThenTransfer(v, _, _) | TxOutput::Burn(v) = o {
                        *v = match &*v {
                            OutputValue::Coin(a) => OutputValue::Coin((*a + one).unwrap_or(*a)),
                            OutputValue::TokenV1(t, a) => OutputValue::TokenV1(*t, if g.bool() { Amount::ZERO } else { (*a + one).unwrap_or(*a) }),
                            v => v.clone(),
                        };
                        if g.bool() {
                            break;
                        }
                    }
                }
            }
            3 => {
                if let Some(i) = inputs.first().cloned() {
                    inputs.push(i);
                }
            }
            4 => {
                let spare: Vec<_> = outs.iter().filter(|o| !matches!(o, TxOutput::Transfer(..))).cloned().collect();
                if !spare.is_empty() {
                    outs.push(g.pick(&spare).clone());
                }
            }
            5 => {
                // one more command
                if let Some(i) = self.account_input(g, st, st.height + 1) {
                    inputs.push(i);
                }
            }
            _ => {
                let t: Vec<TokenId> = st.books.tokens.keys().copied().collect();
                if !t.is_empty() {
                    outs.push(TxOutput::Transfer(OutputValue::TokenV1(*g.pick(&t), one), Destination::AnyoneCanSpend));
                }
            }
        }
    }

    /// Where the next block goes: mostly on the best one or on the one before, so that branches compete.
    pub fn pick(&self, g: &mut Gen, best: &Id<GenBlock>, known: &BTreeSet<Id<GenBlock>>) -> Id<GenBlock> {
        let last = self.order.last().expect("genesis");
        let p = match g.weighted(&[6, 8, 2, 2]) {
            0 => *best,
            1 => *last,
            2 => {
                let path = self.path(best);
                path[path.len() - 1 - g.below(path.len().min(3) as u64) as usize]
            }
            _ => *g.pick(&self.order),
        };
        if known.contains(&p) {
            p
        } else {
            *best
        }
    }

    /// What a block is made of, for the statistics.
    pub fn kinds(b: &Blk) -> BTreeSet<&'static str> {
        let mut k = BTreeSet::new();
        for t in &b.txs {
            let tx = t.tx.transaction();
            for i in tx.inputs() {
                k.insert(match i {
                    TxInput::Utxo(_) => "spend",
                    TxInput::Account(_) => "withdraw",
                    TxInput::AccountCommand(_, c) => match c {
                        AccountCommand::MintTokens(..) => "mint",
                        AccountCommand::UnmintTokens(_) => "unmint",
                        AccountCommand::LockTokenSupply(_) => "lock supply",
                        AccountCommand::FreezeToken(..) => "freeze",
                        AccountCommand::UnfreezeToken(_) => "unfreeze",
                        AccountCommand::ChangeTokenAuthority(..) => "authority",
                        AccountCommand::ChangeTokenMetadataUri(..) => "uri",
                        AccountCommand::ConcludeOrder(_) => "conclude (old)",
                        AccountCommand::FillOrder(..) => "fill (old)",
                    },
                    TxInput::OrderAccountCommand(c) => match c {
                        OrderAccountCommand::FillOrder(..) => "fill",
                        OrderAccountCommand::ConcludeOrder(_) => "conclude",
                        OrderAccountCommand::FreezeOrder(_) => "freeze order",
                    },
                });
            }
            for o in tx.outputs() {
                k.insert(match o {
                    TxOutput::Transfer(..) => "transfer",
                    TxOutput::LockThenTransfer(..) => "locked",
                    TxOutput::Burn(_) => "burn",
                    TxOutput::CreateStakePool(..) => "pool",
                    TxOutput::ProduceBlockFromStake(..) => "stake",
                    TxOutput::CreateDelegationId(..) => "delegation",
                    TxOutput::DelegateStaking(..) => "delegate",
                    TxOutput::IssueFungibleToken(_) => "issue",
                    TxOutput::IssueNft(..) => "nft",
                    TxOutput::DataDeposit(_) => "deposit",
                    TxOutput::Htlc(..) => "htlc",
                    TxOutput::CreateOrder(_) => "order",
                });
            }
            if t.signers.iter().any(|s| s.is_some()) {
                k.insert("signed");
            }
        }
        k
    }

    /// A block on top of another; mostly a valid one.
    pub fn grow(&mut self, g: &mut Gen, on: Id<GenBlock>, txs: u64) -> Id<GenBlock> {
        let net = Arc::clone(&self.net);
        let place = self.at(&on).clone();
        let h = place.height + 1;
        let m = median(&place.times);
        let last = *place.times.last().expect("genesis");
        let now = clock(&net);
        let time = match g.weighted(&[40, 4, 2, 1, 1]) {
            0 => last + g.range(0, 40),
            1 => m + g.range(0, 20),
            2 => m,
            3 => m.saturating_sub(u64::from(g.chance(1, 4))),
            _ => now + 3600 + u64::from(g.chance(1, 4)),
        };
        let mut list: Vec<Arc<Tx>> = vec![];
        if let Some(st) = &place.state {
            let mut st = State::clone(st);
            for _ in 0..txs {
                let t = if !self.txs.is_empty() && g.chance(1, 7) {
                    // as on another branch, or again
                    Arc::clone(g.pick(&self.txs))
                } else {
                    Arc::new(self.tx(g, &st, h, m))
                };
                let mut next = st.clone();
                let good = next.connect(&net, h, time, m, None, &t).is_ok()
                    && !t.tx.inputs().iter().any(|i| {
                        list.iter().any(|o| {
                            o.tx.inputs().contains(i) && !matches!(i, TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(..)))
                        })
                    });
                // bad ones only now and then, or hardly any block would be valid
                if good {
                    st = next;
                } else if !g.chance(1, 5) {
                    continue;
                }
                self.txs.push(Arc::clone(&t));
                list.push(t);
                if !good {
                    break;
                }
            }
            if list.len() > 1 && g.chance(1, 40) {
                let n = list.len();
                list.swap(0, n - 1);
            }
        }
        let mut reward = vec![];
        if g.chance(1, 3) {
            let fees: u128 = match &place.state {
                Some(st) => {
                    let mut s = State::clone(st);
                    list.iter().map(|t| s.connect(&net, h, time, m, None, t).unwrap_or(0)).sum()
                }
                None => 0,
            };
            let allowed = net.chain.block_subsidy_at_height(&BlockHeight::new(h)).into_atoms() + fees;
            let odd = g.chance(1, 20);
            let mut a = if g.chance(1, 3) { allowed } else { g.range(0, 1000) as u128 };
            let mut n = net.maturity() + g.range(0, 2);
            if odd {
                match g.below(2) {
                    0 => a = allowed + 1,
                    _ => n = net.maturity().saturating_sub(1),
                }
            }
            let split = if g.bool() { a / 2 } else { a };
            for x in [split, a - split] {
                reward.push(TxOutput::LockThenTransfer(OutputValue::Coin(am(x)), key(g), OutputTimeLock::ForBlockCount(n)));
            }
        }
        // equal blocks on one parent would be one block
        self.salt += 1;
        reward.push(TxOutput::LockThenTransfer(
            OutputValue::Coin(Amount::ZERO),
            Destination::AnyoneCanSpend,
            OutputTimeLock::ForBlockCount(1_000_000 + self.salt),
        ));
        let block = Block::new(
            list.iter().map(|t| t.tx.clone()).collect(),
            on,
            BlockTimestamp::from_int_seconds(time),
            ConsensusData::None,
            BlockReward::new(reward),
        )
        .expect("makes a block");
        self.add(Blk { block, txs: list })
    }

    pub fn add(&mut self, b: Blk) -> Id<GenBlock> {
        let id = b.gid();
        let on = b.block.prev_block_id();
        let place = self.at(&on);
        let plain = State::plain(&self.net, place.height + 1, &place.times, clock(&self.net), &b);
        let (state, verdict) = match (plain, &place.state) {
            (Err(e), _) => (None, Err(Bad::Plain(e))),
            (Ok(()), None) => (None, Err(Bad::Late("on an invalid block"))),
            (Ok(()), Some(st)) => match st.extend(&self.net, &place.times, &b) {
                Ok(s) => (Some(Arc::new(s)), Ok(())),
                Err(e) => (None, Err(Bad::Late(e))),
            },
        };
        let mut times = place.times.to_vec();
        times.push(b.time());
        let height = place.height + 1;
        if let Some(s) = &state {
            for (o, c) in &s.utxos {
                if c.height == height && !matches!(c.out, TxOutput::Htlc(..)) {
                    self.outpoints.push(o.clone());
                }
            }
        }
        self.places.insert(id, Place { parent: Some(on), height, times: Arc::new(times), state, blk: Some(Arc::new(b)), verdict });
        self.order.push(id);
        id
    }
}

/// What a node should answer.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Answer {
    Tip,
    Side,
    Refused,
}

/// What a node should know.
#[derive(Clone)]
pub struct Known {
    pub best: Id<GenBlock>,
    pub blocks: BTreeSet<Id<GenBlock>>,
    pub failed: BTreeSet<Id<GenBlock>>,
    pub min_height: u64,
}

impl Known {
    pub fn new(t: &Tree) -> Known {
        Known { best: t.root, blocks: [t.root].into(), failed: BTreeSet::new(), min_height: 0 }
    }

    pub fn min_reorg_height(&self, t: &Tree) -> u64 {
        self.min_height.max(t.at(&self.best).height.saturating_sub(t.net.depth))
    }

    pub fn fork_height(&self, t: &Tree, id: &Id<GenBlock>) -> u64 {
        let main: BTreeSet<_> = t.path(&self.best).into_iter().collect();
        t.path(id).iter().filter(|x| main.contains(x)).count() as u64 - 1
    }

    /// Block `id` arrives, its parent known.
    pub fn deliver(&mut self, t: &Tree, id: &Id<GenBlock>) -> (Answer, &'static str) {
        let p = t.at(id);
        let parent = p.parent.expect("not genesis");
        if self.blocks.contains(id) {
            return (Answer::Refused, "known already");
        }
        if !self.blocks.contains(&parent) {
            return (Answer::Refused, "no parent");
        }
        if self.failed.contains(&parent) {
            return (Answer::Refused, "on a failed block");
        }
        if let Err(Bad::Plain(e)) = p.verdict {
            return (Answer::Refused, e);
        }
        if self.fork_height(t, id) < self.min_reorg_height(t) {
            return (Answer::Refused, "forks off too deep");
        }
        self.blocks.insert(*id);
        if p.height <= t.at(&self.best).height {
            return (Answer::Side, "not longer");
        }
        match p.verdict {
            Ok(()) => {
                self.best = *id;
                self.min_height = self.min_height.max(p.height.saturating_sub(t.net.depth));
                (Answer::Tip, "longer")
            }
            Err(Bad::Plain(e) | Bad::Late(e)) => {
                // the lowest bad block and all above it are known to be bad now
                let path = t.path(id);
                let first = *path.iter().find(|x| t.at(x).verdict.is_err()).expect("bad somewhere");
                let all: Vec<_> = self.blocks.iter().filter(|b| t.path(b).contains(&first)).copied().collect();
                self.failed.extend(all);
                (Answer::Refused, e)
            }
        }
    }
}

/// A node under test.
pub struct Node {
    pub net: Arc<Net>,
    pub disk: Disk,
    pub cs: ChainstateSubsystem,
    pub heavy: bool,
    pub attempts: usize,
}

pub fn open(net: &Arc<Net>, disk: &Disk, heavy: bool, attempts: usize) -> Result<ChainstateSubsystem, String> {
    let now = Time::from_secs_since_epoch(clock(net));
    let store = Store::new(disk.clone(), &net.chain).map_err(|e| format!("opening the store: {e}"))?;
    make_chainstate(
        Arc::clone(&net.chain),
        ChainstateConfig::new().with_heavy_checks_enabled(heavy).with_max_db_commit_attempts(attempts),
        store,
        DefaultTransactionVerificationStrategy::new(),
        None,
        TimeGetter::new(Arc::new(FixedTime(now))),
        None,
    )
    .map_err(|e| format!("opening the node: {e}"))
}

struct FixedTime(Time);

impl common::time_getter::TimeGetterFn for FixedTime {
    fn get_time(&self) -> Time {
        self.0
    }
}

impl Node {
    pub fn new(net: &Arc<Net>, heavy: bool) -> Result<Node, String> {
        Node::over(net, Disk::default(), heavy, 3)
    }
    pub fn over(net: &Arc<Net>, disk: Disk, heavy: bool, attempts: usize) -> Result<Node, String> {
        let cs = open(net, &disk, heavy, attempts)?;
        Ok(Node { net: Arc::clone(net), disk, cs, heavy, attempts })
    }
    /// Everything stored about the best chain, in raw form.
    pub fn dump(&self, t: &Tree, best: &Id<GenBlock>) -> BTreeMap<String, Arc<BTreeMap<Vec<u8>, Vec<u8>>>> {
        dump(&self.disk, t, best)
    }
    pub fn best(&self) -> Result<Id<GenBlock>, String> {
        self.cs.get_best_block_id().map_err(|e| format!("no best block: {e}"))
    }
    pub fn deliver(&mut self, b: &Blk) -> (Answer, String) {
        match self.cs.process_block(b.block.clone(), BlockSource::Local) {
            Ok(Some(i)) if *i.block_id() == b.id() => (Answer::Tip, String::new()),
            Ok(Some(_)) => (Answer::Tip, "another block".into()),
            Ok(None) => (Answer::Side, String::new()),
            Err(e) => (Answer::Refused, e.to_string()),
        }
    }
}

/// Tables that describe the best chain; of the rest, the records of its blocks.
pub fn dump(d: &Disk, t: &Tree, best: &Id<GenBlock>) -> BTreeMap<String, Arc<BTreeMap<Vec<u8>, Vec<u8>>>> {
    let mut all = BTreeMap::new();
    for n in d.names() {
        let table = d.table(&n);
        match n.as_str() {
            // the height below which there is no way back may differ
            "DBValue" => {}
            "DBBlock" | "DBBlockIndex" => {
                let of_path: BTreeMap<_, _> = t
                    .path(best)
                    .iter()
                    .filter_map(|id| {
                        let k = id.encode();
                        let v = table.get(&k)?.clone();
                        Some((k, v))
                    })
                    .collect();
                all.insert(n, Arc::new(of_path));
            }
            "DBAccountingEpochDelta" | "DBAccountingEpochDeltaUndo" => {
                let of = n == "DBAccountingEpochDelta";
                all.insert(n, Arc::new(table.iter().filter_map(|(k, v)| Some((k.clone(), effect(of, v)?))).collect()));
            }
            _ => {
                all.insert(n, table);
            }
        }
    }
    all
}

type Changes<K, V> = BTreeMap<K, (Option<V>, Option<V>)>;

/// The changes of an epoch without those that change nothing, which disconnected blocks leave behind.
fn effect(delta: bool, raw: &[u8]) -> Option<Vec<u8>> {
    use common::{
        chain::{DelegationId, PoolId},
        primitives::amount::SignedAmount,
    };
    type Sums<K> = BTreeMap<K, SignedAmount>;
    type Pools = Changes<PoolId, pos_accounting::PoolData>;
    type Dels = Changes<DelegationId, pos_accounting::DelegationData>;
    type A = (Pools, Sums<PoolId>, Sums<(PoolId, DelegationId)>, Sums<DelegationId>, Dels);
    type B = (Pools, Dels, Sums<PoolId>, Sums<(PoolId, DelegationId)>, Sums<DelegationId>);
    fn real<K: Ord, V: PartialEq>(c: Changes<K, V>) -> Changes<K, V> {
        c.into_iter().filter(|(_, (a, b))| a != b).collect()
    }
    if delta {
        let (p, a, b, c, d) = A::decode_all(&mut &raw[..]).expect("changes of an epoch");
        let (p, d) = (real(p), real(d));
        let any = !(p.is_empty() && a.is_empty() && b.is_empty() && c.is_empty() && d.is_empty());
        any.then(|| (p, a, b, c, d).encode())
    } else {
        let (p, d, a, b, c) = B::decode_all(&mut &raw[..]).expect("how to undo the changes of an epoch");
        let (p, d) = (real(p), real(d));
        let any = !(p.is_empty() && a.is_empty() && b.is_empty() && c.is_empty() && d.is_empty());
        any.then(|| (p, d, a, b, c).encode())
    }
}

pub fn same(a: &BTreeMap<String, Arc<BTreeMap<Vec<u8>, Vec<u8>>>>, b: &BTreeMap<String, Arc<BTreeMap<Vec<u8>, Vec<u8>>>>, what: &str) -> Res {
    for (n, x) in a {
        if x != &b[n] {
            let hex = |v: Option<&Vec<u8>>| v.map(|v| v.iter().map(|b| format!("{b:02x}")).collect::<String>());
            let keys: BTreeSet<_> = x.keys().chain(b[n].keys()).collect();
            let k = keys.into_iter().find(|k| x.get(*k) != b[n].get(*k)).expect("differ");
            return Err(format!("{what}: table {n} differs at {:?}: {:?} or {:?}", hex(Some(k)), hex(x.get(k)), hex(b[n].get(k))));
        }
    }
    Ok(())
}

fn decode<T: DecodeAll>(what: &str, b: &[u8]) -> Result<T, String> {
    T::decode_all(&mut &b[..]).map_err(|e| format!("{what}: unreadable: {e}"))
}

fn table<K: DecodeAll + Ord, V: DecodeAll>(d: &Disk, name: &str) -> Result<BTreeMap<K, V>, String> {
    let t = d.table(name);
    let all: BTreeMap<K, V> = t.iter().map(|(k, v)| Ok((decode(name, k)?, decode(name, v)?))).collect::<Result<_, String>>()?;
    check_eq!(all.len(), t.len(), "{name}: entries");
    Ok(all)
}

fn nonzero<K: Ord + Clone>(m: impl IntoIterator<Item = (K, u128)>) -> BTreeMap<K, u128> {
    m.into_iter().filter(|x| x.1 != 0).collect()
}

fn staking(d: &Disk, m: &c29::Model, kind: &str) -> Res {
    use common::chain::{DelegationId, PoolId};
    let n = |x: &str| format!("DBAccounting{x}{kind}");
    let pools: BTreeMap<PoolId, pos_accounting::PoolData> = table(d, &n("PoolData"))?;
    let want: BTreeMap<_, _> = m.pools.keys().map(|p| (*p, m.pool_data(p).expect("there"))).collect();
    check_eq!(pools, want, "pools ({kind})");
    let balances: BTreeMap<PoolId, Amount> = table(d, &n("PoolBalances"))?;
    for p in m.pools.keys() {
        check_eq!(balances.get(p).map(|a| a.into_atoms()), m.balance(p), "balance of a pool ({kind})");
    }
    check!(
        balances.keys().all(|p| m.pools.contains_key(p) || m.gone.contains(p)),
        "balance of a pool that never was ({kind})"
    );
    let dels: BTreeMap<DelegationId, pos_accounting::DelegationData> = table(d, &n("DelegationData"))?;
    let want: BTreeMap<_, _> = m.dels.iter().map(|(d, x)| (*d, pos_accounting::DelegationData::new(x.0, x.1.clone()))).collect();
    check_eq!(dels, want, "delegations ({kind})");
    let b: BTreeMap<DelegationId, Amount> = table(d, &n("DelegationBalances"))?;
    check_eq!(
        nonzero(b.into_iter().map(|(k, a)| (k, a.into_atoms()))),
        nonzero(m.dels.iter().map(|(k, x)| (*k, x.2))),
        "balances of delegations ({kind})"
    );
    let b: BTreeMap<(PoolId, DelegationId), Amount> = table(d, &n("PoolDelegationShares"))?;
    check_eq!(
        nonzero(b.into_iter().map(|(k, a)| (k, a.into_atoms()))),
        nonzero(m.dels.iter().map(|(k, x)| ((x.0, *k), x.2))),
        "shares ({kind})"
    );
    Ok(())
}

/// Everything the node stores about the best chain, against the plain ledger.
pub fn compare(d: &Disk, t: &Tree, best: &Id<GenBlock>) -> Res {
    let st = t.at(best).state.as_ref().expect("the best block is valid");
    // heights
    let heights: BTreeMap<Vec<u8>, Id<GenBlock>> =
        d.table("DBBlockByHeight").iter().map(|(k, v)| Ok((k.clone(), decode("heights", v)?))).collect::<Result<_, String>>()?;
    let path = t.path(best);
    let want: BTreeMap<Vec<u8>, Id<GenBlock>> =
        path.iter().enumerate().map(|(h, id)| (BlockHeight::new(h as u64).encode(), *id)).collect();
    check_eq!(heights, want, "blocks by height");
    // outputs
    let utxos: BTreeMap<UtxoOutPoint, utxo::Utxo> = table(d, "DBUtxo")?;
    for (o, u) in &utxos {
        let c = st.utxos.get(o).ok_or_else(|| format!("output {o:?} should not exist"))?;
        check_eq!(*u.output(), c.out, "output {o:?}");
        match u.source() {
            utxo::UtxoSource::Blockchain(h) => check_eq!(h.into_int(), c.height, "height of output {o:?}"),
            utxo::UtxoSource::Mempool => return Err(format!("output {o:?} of an unconfirmed transaction")),
        }
    }
    for o in st.utxos.keys() {
        check!(utxos.contains_key(o), "output {o:?} is missing");
    }
    // nonces
    let nonces: BTreeMap<AccountType, AccountNonce> = table(d, "DBAccountNonceCount")?;
    let nonces: BTreeMap<_, _> = nonces.into_iter().map(|(k, v)| (k, v.value())).collect();
    check_eq!(nonces, st.nonces, "nonces");
    // tokens
    let tokens: BTreeMap<TokenId, tokens_accounting::TokenData> = table(d, "DBTokensData")?;
    check_eq!(tokens, st.books.tokens.iter().map(|(k, v)| (*k, v.data())).collect::<BTreeMap<_, _>>(), "tokens");
    let supply: BTreeMap<TokenId, Amount> = table(d, "DBTokensCirculatingSupply")?;
    check_eq!(
        nonzero(supply.into_iter().map(|(k, a)| (k, a.into_atoms()))),
        nonzero(st.books.tokens.iter().map(|(k, v)| (*k, v.supply))),
        "supplies"
    );
    let aux: BTreeMap<TokenId, common::chain::tokens::TokenAuxiliaryData> = table(d, "DBTokensAuxData")?;
    let want: BTreeMap<_, _> =
        st.nfts.iter().map(|(k, (tx, b))| (*k, common::chain::tokens::TokenAuxiliaryData::new(tx.clone(), *b))).collect();
    check!(aux == want, "issuances of tokens: {aux:?} instead of {want:?}");
    let by_tx: BTreeMap<Id<Transaction>, TokenId> = table(d, "DBIssuanceTxVsTokenId")?;
    check_eq!(by_tx, st.nfts.iter().map(|(k, (tx, _))| (tx.get_id(), *k)).collect::<BTreeMap<_, _>>(), "tokens by transaction");
    // orders
    let orders: BTreeMap<common::chain::OrderId, orders_accounting::OrderData> = table(d, "DBOrdersData")?;
    check_eq!(orders, st.books.orders.iter().map(|(k, v)| (*k, v.data())).collect::<BTreeMap<_, _>>(), "orders");
    for (name, left) in [("DBOrdersAskBalances", 0), ("DBOrdersGiveBalances", 1)] {
        let b: BTreeMap<common::chain::OrderId, Amount> = table(d, name)?;
        check_eq!(
            nonzero(b.into_iter().map(|(k, a)| (k, a.into_atoms()))),
            nonzero(st.books.orders.iter().map(|(k, o)| (*k, if left == 0 { o.ask_left } else { o.give_left }))),
            "{name}"
        );
    }
    staking(d, &st.books.pos, "Tip")?;
    staking(d, &st.sealed, "Sealed")
}
