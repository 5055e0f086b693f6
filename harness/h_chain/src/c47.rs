//! Transactions that the wallet makes.
use crate::{
    c30, c31, c32,
    c39::{connect, follow, give_key, mine, now, pending_agrees, shelf, start, token_info, tx_id, Queue, ACC},
    ledger::{median, Blk, Coin, State, Tx},
    world::{nets, Tree},
};
use common::{
    address::Address,
    chain::{
        block::timestamp::BlockTimestamp,
        htlc::{HashedTimelockContract, HtlcSecret},
        output_value::{OutputValue, RpcOutputValue},
        partially_signed_transaction::{OrderAdditionalInfo, PoolAdditionalInfo},
        signature::{
            inputsig::{authorize_hashed_timelock_contract_spend::AuthorizedHashedTimelockContractSpend, InputWitness},
        },
        timelock::OutputTimeLock,
        tokens::{IsTokenFreezable, IsTokenUnfreezable, Metadata, TokenId, TokenIssuance, TokenIssuanceV1, TokenTotalSupply},
        AccountNonce, AccountType, Block, Currency, Destination, OrderId, OrdersVersion, RpcOrderInfo, TxInput, TxOutput, UtxoOutPoint,
    },
    primitives::{per_thousand::PerThousand, Amount, Idable},
};
use gens::make;
use mempool::FeeRate;
use pbt::{check, check_eq, facet, note, Gen, Property, Res};
use serialization::Encode;
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
};
use wallet::{
    send_request::{SelectedInputs, StakePoolCreationArguments},
    wallet_events::WalletEventsNoOp,
    DefaultWallet, WalletResult,
};
use wallet_types::{
    partially_signed_transaction::TxAdditionalInfo,
    SignedTxWithFees,
};

pub const P: Property = Property {
    id: "C47",
    rule: "Random chains on six networks (two changing rules on the way) with outputs, delegations, pools, tokens and orders of the wallet's and of others; after every growth the wallet is asked for up to 3 transactions: payments of up to 3 outputs of any kind, sweeps, delegation withdrawals, token commands, issues, pools, orders, contracts, single outputs; amounts from 1 atom to all there is, fee rates from 0 to high. Each is judged by a ledger model (validity, effects, fee), by the node's signature check and against the request; some stay pending and then get into a block, after which the wallet must agree with the chain. Non-trivial: more than 2 were made.",
    facets: &[facet("make", 1_000, make_txs)],
    assumptions: &[
        "As the wallet's callers do, frozen tokens are not offered and commands for frozen tokens not asked for.",
        "A pool is decommissioned only after its creation was scanned in a block.",
        "Up to about 100 bytes' fee more than reported is right when change is not worth its own output.",
    ],
};

fn am(a: u128) -> Amount {
    Amount::from_atoms(a)
}

fn value(c: Option<TokenId>, a: u128) -> OutputValue {
    c32::coin_or_token(c, a)
}

fn secrets() -> [HtlcSecret; 3] {
    [1, 2, 3].map(|k| HtlcSecret::new([k; 32]))
}

/// What one may choose from.
struct Scene<'a> {
    t: &'a Tree,
    h: u64,
    m: u64,
    base: &'a State,
    over: &'a State,
    /// Own outputs that can be spent now.
    free: Vec<(UtxoOutPoint, TxOutput)>,
    rate: FeeRate,
}

/// A request, and what its transaction has to look like.
struct Asked {
    name: &'static str,
    result: WalletResult<SignedTxWithFees>,
    /// Outputs it must have, exactly.
    outs: Vec<TxOutput>,
    /// Where the rest may go, besides own change.
    rest: Option<Destination>,
    /// Outputs it may spend, if not all.
    from: Option<BTreeSet<UtxoOutPoint>>,
    /// What it costs beyond `outs`.
    price: u128,
    /// What it brings.
    gains: Vec<(Option<TokenId>, u128)>,
    /// What it takes beyond `outs`.
    pays: Vec<(Option<TokenId>, u128)>,
    /// It may be refused even when there is plenty of everything.
    optional: bool,
    contract: Option<UtxoOutPoint>,
    token: Option<c30::Op>,
    order: Option<c31::Op>,
}

impl Scene<'_> {
    fn fee(&self, size: usize) -> u128 {
        self.rate.compute_fee(size).expect("small").into_atoms()
    }
    fn any(&self, g: &mut Gen) -> Destination {
        crate::world::key(g)
    }
    fn address(&self, g: &mut Gen) -> (Destination, Address<Destination>) {
        let d = self.any(g);
        (d.clone(), Address::new(&self.t.net.chain, d).expect("an address"))
    }
    fn contract(&self, g: &mut Gen) -> HashedTimelockContract {
        let mut h = make::htlc(g);
        h.spend_key = self.any(g);
        h.refund_key = self.any(g);
        h.secret_hash = secrets()[g.urange(0, 2)].hash();
        if g.chance(3, 4) {
            h.refund_timelock = OutputTimeLock::ForBlockCount(g.range(0, 4));
        }
        h
    }
    /// Contracts that can be spent, and whether with the secret.
    fn contracts(&self) -> Vec<(UtxoOutPoint, TxOutput, Option<HtlcSecret>)> {
        let mut all = vec![];
        for (o, c) in &self.over.utxos {
            let TxOutput::Htlc(v, h) = &c.out else { continue };
            if self.frozen(&c32::value(v).expect("not old").0) {
                continue;
            }
            if mine(&h.spend_key) {
                all.extend(secrets().into_iter().filter(|s| s.hash() == h.secret_hash).map(|s| (o.clone(), c.out.clone(), Some(s))));
            }
            let lock = Coin { out: TxOutput::LockThenTransfer(v.clone(), h.refund_key.clone(), h.refund_timelock), ..c.clone() };
            if mine(&h.refund_key) && self.base.utxos.contains_key(o) && self.base.unlocked(&lock, self.h - 1, self.m) {
                all.push((o.clone(), c.out.clone(), None));
            }
        }
        all
    }
    fn frozen(&self, c: &Option<TokenId>) -> bool {
        c.is_some_and(|t| self.over.books.tokens.get(&t).is_some_and(|t| t.is_frozen()))
    }
    fn coin_or_token(&self, o: &TxOutput) -> Option<(Option<TokenId>, u128)> {
        match o {
            TxOutput::Transfer(v, _) | TxOutput::LockThenTransfer(v, _, _) => c32::value(v),
            TxOutput::IssueNft(i, _, _) => Some((Some(*i), 1)),
            _ => None,
        }
    }
    /// What the wallet can spend of everything.
    fn funds(&self, of: &[(UtxoOutPoint, TxOutput)]) -> BTreeMap<Option<TokenId>, u128> {
        let mut m = BTreeMap::new();
        for (_, o) in of {
            if let Some((c, a)) = self.coin_or_token(o) {
                // not worth its own fee
                if c.is_none() && a <= self.fee(300) {
                    continue;
                }
                *m.entry(c).or_insert(0) += a;
            }
        }
        m
    }
    fn amount(&self, g: &mut Gen, have: u128) -> u128 {
        match g.weighted(&[6, 3, 1, 1]) {
            0 => have / g.range(2, 40) as u128 + g.range(0, 3) as u128,
            1 => g.range(0, 5_000) as u128,
            2 => have.saturating_sub(self.fee(g.urange(100, 3_000))),
            _ => have + g.range(0, 5) as u128,
        }
    }
    fn order_info(&self, id: &OrderId, o: &c31::Order) -> RpcOrderInfo {
        let v = |x: &(Option<TokenId>, u128)| RpcOutputValue::from_output_value(&value(x.0, x.1)).expect("no old token");
        RpcOrderInfo {
            conclude_key: o.key.clone(),
            initially_asked: v(&o.ask),
            initially_given: v(&o.give),
            ask_balance: am(o.ask_left),
            give_balance: am(o.give_left),
            nonce: self.over.nonces.get(&AccountType::Order(*id)).map(|n| AccountNonce::new(*n)),
            is_frozen: o.frozen,
        }
    }
    fn info(&self) -> TxAdditionalInfo {
        let mut i = TxAdditionalInfo::new();
        for (id, o) in &self.over.books.orders {
            i = i.with_order_info(
                *id,
                OrderAdditionalInfo {
                    initially_asked: value(o.ask.0, o.ask.1),
                    initially_given: value(o.give.0, o.give.1),
                    ask_balance: am(o.ask_left),
                    give_balance: am(o.give_left),
                },
            );
        }
        for (id, (_, pledge, rewards)) in &self.over.books.pos.pools {
            i = i.with_pool_info(*id, PoolAdditionalInfo { staker_balance: am(pledge + rewards) });
        }
        i
    }

    /// Asks the wallet for a transaction.
    fn ask(&self, g: &mut Gen, w: &mut DefaultWallet) -> Option<Asked> {
        let rules = &self.t.net.rules;
        let (rate, later) = (self.rate, FeeRate::from_atoms_per_kb(1 << g.range(0, 50)));
        let none = || SelectedInputs::Utxos(vec![]);
        let funds = self.funds(&self.free);
        let coins = funds.get(&None).copied().unwrap_or(0);
        let mut a = Asked { name: "", result: Err(wallet::WalletError::NoUtxos), outs: vec![], rest: None, from: None, price: 0, gains: vec![], pays: vec![], optional: false, contract: None, token: None, order: None };
        match g.weighted(&[10, 3, 6, 4, 10, 2, 2, 2, 2, 2, 5, 10, 3, 6]) {
            // outputs of any kind
            0 => {
                a.name = "send";
                let mut kinds: Vec<Option<TokenId>> = funds.keys().copied().filter(|c| !self.frozen(c)).collect();
                kinds.push(None);
                for _ in 0..g.range(1, 4) {
                    let c = *g.pick(&kinds);
                    let n = self.amount(g, funds.get(&c).copied().unwrap_or(0)).max(1);
                    let v = value(c, n);
                    let d = self.any(g);
                    a.outs.push(match g.weighted(&[8, 3, 1, 1, 1, 1]) {
                        0 => TxOutput::Transfer(v, d),
                        1 => TxOutput::LockThenTransfer(v, d, OutputTimeLock::ForBlockCount(g.range(0, 4))),
                        2 => TxOutput::Burn(v),
                        3 => {
                            a.price += rules.deposit_fee(self.h);
                            TxOutput::DataDeposit(g.bytes(0, 20))
                        }
                        4 if !self.over.books.pos.dels.is_empty() => {
                            let ids: Vec<_> = self.over.books.pos.dels.keys().collect();
                            TxOutput::DelegateStaking(am(n), **g.pick(&ids))
                        }
                        _ => {
                            TxOutput::Htlc(v, Box::new(self.contract(g)))
                        }
                    });
                }
                let inputs = if g.chance(1, 4) && !self.free.is_empty() {
                    let some: Vec<UtxoOutPoint> = self
                        .free
                        .iter()
                        .filter(|(_, o)| self.coin_or_token(o).is_some_and(|x| !self.frozen(&x.0)) && g.chance(2, 3))
                        .map(|x| x.0.clone())
                        .collect();
                    if !some.is_empty() {
                        a.from = Some(some.iter().cloned().collect());
                    }
                    SelectedInputs::Utxos(some)
                } else {
                    none()
                };
                let mut change = BTreeMap::new();
                if g.chance(1, 4) {
                    let (d, to) = self.address(g);
                    a.rest = Some(d);
                    for c in &kinds {
                        change.insert(c.map_or(Currency::Coin, Currency::Token), to.clone());
                    }
                }
                a.result = now(w.create_transaction_to_addresses(ACC, a.outs.clone(), inputs, change, rate, later, self.info()));
            }
            1 => {
                a.name = "sweep";
                let some: Vec<(UtxoOutPoint, TxOutput)> = self
                    .free
                    .iter()
                    .filter(|(_, o)| self.coin_or_token(o).is_some_and(|x| !self.frozen(&x.0)) && g.chance(2, 3))
                    .cloned()
                    .collect();
                let to = self.any(g);
                for (c, n) in self.funds_exact(&some) {
                    if c.is_some() {
                        a.outs.push(TxOutput::Transfer(value(c, n), to.clone()));
                    }
                }
                a.rest = Some(to.clone());
                a.from = Some(some.iter().map(|x| x.0.clone()).collect());
                a.result = now(w.create_sweep_transaction(ACC, to, some, rate, self.info()));
            }
            2 | 3 => {
                let ids: Vec<_> = self.over.books.pos.dels.iter().filter(|(i, x)| mine(&x.1) && self.base.books.pos.dels.contains_key(i)).collect();
                if ids.is_empty() {
                    return None;
                }
                let (id, (_, _, left)) = *g.pick(&ids);
                let (d, to) = self.address(g);
                a.from = Some(BTreeSet::new());
                a.gains.push((None, *left));
                if g.chance(2, 3) {
                    a.name = "from a delegation";
                    let n = self.amount(g, *left);
                    a.outs.push(TxOutput::LockThenTransfer(OutputValue::Coin(am(n)), d, OutputTimeLock::ForBlockCount(rules.maturity[0])));
                    a.result = now(w.create_transaction_to_addresses_from_delegation(ACC, to, am(n), *id, am(*left), rate));
                } else {
                    a.name = "all of a delegation";
                    a.rest = Some(d);
                    a.result = now(w.create_sweep_from_delegation_transaction(ACC, to, *id, am(*left), rate));
                }
            }
            4 => {
                let ids: Vec<_> = self
                    .over
                    .books
                    .tokens
                    .iter()
                    .filter(|(i, x)| mine(&x.authority) && self.base.books.tokens.get(i).is_some_and(|y| mine(&y.authority)))
                    .collect();
                if ids.is_empty() {
                    return None;
                }
                let (id, tok) = *g.pick(&ids);
                let info = w.get_token_unconfirmed_info(ACC, token_info(*id, &self.base.books.tokens[id])).expect("known");
                let n = match g.below(3) {
                    0 => g.range(1, 1000) as u128,
                    1 => tok.supply.max(1),
                    _ => (tok.supply / 2).max(1),
                };
                let (d, to) = self.address(g);
                let what = g.below(7);
                // refused before the wallet is asked
                if !matches!(what, 3 | 4) && info.check_can_be_used().is_err() {
                    return None;
                }
                match what {
                    0 => {
                        a.name = "mint";
                        a.price = rules.supply_fee(self.h);
                        a.token = Some(c30::Op::Mint(*id, n));
                        a.gains.push((Some(*id), n));
                        a.outs.push(TxOutput::Transfer(value(Some(*id), n), d));
                        a.result = now(w.mint_tokens(ACC, &info, am(n), to, rate, later));
                    }
                    1 => {
                        a.name = "unmint";
                        a.price = rules.supply_fee(self.h);
                        a.token = Some(c30::Op::Unmint(*id, n));
                        a.outs.push(TxOutput::Burn(value(Some(*id), n)));
                        a.result = now(w.unmint_tokens(ACC, &info, am(n), rate, later));
                    }
                    2 => {
                        a.name = "lock";
                        a.price = rules.supply_fee(self.h);
                        a.token = Some(c30::Op::Lock(*id));
                        a.result = now(w.lock_token_supply(ACC, &info, rate, later));
                    }
                    3 => {
                        a.name = "freeze";
                        let u = *g.pick(&[IsTokenUnfreezable::Yes, IsTokenUnfreezable::No]);
                        a.price = rules.freeze_fee(self.h);
                        a.token = Some(c30::Op::Freeze(*id, u));
                        a.result = now(w.freeze_token(ACC, &info, u, rate, later));
                    }
                    4 => {
                        a.name = "unfreeze";
                        a.price = rules.freeze_fee(self.h);
                        a.token = Some(c30::Op::Unfreeze(*id));
                        a.result = now(w.unfreeze_token(ACC, &info, rate, later));
                    }
                    5 => {
                        a.name = "new authority";
                        a.price = rules.authority_fee(self.h);
                        a.token = Some(c30::Op::Authority(*id, d));
                        a.result = now(w.change_token_authority(ACC, &info, to, rate, later));
                    }
                    _ => {
                        a.name = "new uri";
                        a.price = rules.uri_fee();
                        let uri = b"https://example.com/other".to_vec();
                        a.token = Some(c30::Op::Uri(*id, uri.clone()));
                        a.result = now(w.change_token_metadata_uri(ACC, &info, uri, rate, later));
                    }
                }
            }
            5 => {
                let ids: Vec<_> = self.over.books.pos.pools.keys().collect();
                if ids.is_empty() {
                    return None;
                }
                a.name = "new delegation";
                a.outs.push(TxOutput::CreateDelegationId(self.any(g), **g.pick(&ids)));
                a.result = now(w.create_delegation(ACC, a.outs.clone(), rate, later)).map(|x| x.1);
            }
            6 => {
                a.name = "new token";
                a.price = rules.issue_fee();
                let i = TokenIssuance::V1(TokenIssuanceV1 {
                    token_ticker: b"ABC".to_vec(),
                    number_of_decimals: g.range(0, 5) as u8,
                    metadata_uri: b"https://example.com/token".to_vec(),
                    total_supply: TokenTotalSupply::Lockable,
                    authority: self.any(g),
                    is_freezable: *g.pick(&[IsTokenFreezable::Yes, IsTokenFreezable::No]),
                });
                a.outs.push(TxOutput::IssueFungibleToken(Box::new(i.clone())));
                a.result = now(w.issue_new_token(ACC, i, rate, later)).map(|x| x.1);
            }
            7 => {
                a.name = "new nft";
                a.price = rules.nft_fee(self.h);
                let (d, to) = self.address(g);
                let metadata = Metadata {
                    creator: None,
                    name: b"Name".to_vec(),
                    description: b"Description".to_vec(),
                    ticker: b"NFT".to_vec(),
                    icon_uri: None::<Vec<u8>>.into(),
                    additional_metadata_uri: None::<Vec<u8>>.into(),
                    media_uri: None::<Vec<u8>>.into(),
                    media_hash: vec![g.byte(); 32],
                };
                let done = now(w.issue_new_nft(ACC, to, metadata.clone(), rate, later));
                if let Ok((id, _)) = &done {
                    let i = common::chain::tokens::NftIssuance::V0(common::chain::tokens::NftIssuanceV0 { metadata });
                    a.outs.push(TxOutput::IssueNft(*id, Box::new(i), d));
                }
                a.result = done.map(|x| x.1);
            }
            8 => {
                a.name = "new pool";
                let n = 1000 * crate::world::COIN + g.range(0, 2) as u128;
                let (amount, margin, cost) = (am(n), PerThousand::new(g.range(0, 1000) as u16).expect("in range"), am(g.range(0, 5) as u128));
                let decommission = self.any(g);
                let staker = g.bool().then(|| self.any(g));
                a.optional = !matches!(staker, None | Some(Destination::PublicKey(_)));
                a.pays.push((None, n));
                let vrf = make::pool().vrf[g.urange(0, 5)].1.clone();
                let args = StakePoolCreationArguments {
                    amount,
                    margin_ratio_per_thousand: margin,
                    cost_per_block: cost,
                    decommission_key: decommission.clone(),
                    staker_key: staker.clone(),
                    vrf_public_key: Some(vrf.clone()),
                };
                a.result = now(w.create_stake_pool_with_vrf_key(ACC, rate, later, args));
                if let Ok(x) = &a.result {
                    for o in x.transaction().outputs() {
                        if let TxOutput::CreateStakePool(_, d) = o {
                            let good = d.pledge() == amount
                                && d.margin_ratio_per_thousand() == margin
                                && d.cost_per_block() == cost
                                && *d.decommission_key() == decommission
                                && staker.as_ref().map_or(mine(d.staker()), |k| k == d.staker())
                                && *d.vrf_public_key() == vrf;
                            if good {
                                a.outs.push(o.clone());
                            }
                        }
                    }
                    if a.outs.is_empty() {
                        a.outs.push(TxOutput::Burn(OutputValue::Coin(am(n))));
                    }
                }
            }
            9 => {
                let ids: Vec<_> = self
                    .over
                    .books
                    .pos
                    .pools
                    .iter()
                    .filter(|(i, _)| {
                        // those just made have to be in a block first
                        self.over.utxos.iter().any(|(o, c)| {
                            matches!(&c.out, TxOutput::CreateStakePool(x, d) if x == *i && mine(d.decommission_key()))
                                && self.base.utxos.contains_key(o)
                        })
                    })
                    .collect();
                if ids.is_empty() {
                    return None;
                }
                a.name = "end of a pool";
                let (id, (_, pledge, rewards)) = *g.pick(&ids);
                a.optional = *pledge < self.fee(600);
                let to = g.bool().then(|| self.any(g));
                a.rest = to.clone();
                a.result = now(w.decommission_stake_pool(ACC, *id, am(pledge + rewards), to, rate));
            }
            10 => {
                let mut kinds: Vec<Option<TokenId>> = funds.keys().copied().filter(|c| !self.frozen(c)).collect();
                kinds.push(None);
                let mut asks: Vec<Option<TokenId>> = self.over.books.tokens.keys().map(|t| Some(*t)).filter(|c| !self.frozen(c)).collect();
                asks.push(None);
                let (give, ask) = (*g.pick(&kinds), *g.pick(&asks));
                if give == ask {
                    return None;
                }
                a.name = "new order";
                let n = self.amount(g, funds.get(&give).copied().unwrap_or(0)).max(1);
                let (d, to) = self.address(g);
                let (ask, give) = (value(ask, g.range(1, 5_000) as u128), value(give, n));
                a.outs.push(TxOutput::CreateOrder(Box::new(common::chain::OrderData::new(d, ask.clone(), give.clone()))));
                a.result = now(w.create_order_tx(ACC, ask, give, to, rate, later, self.info())).map(|x| x.1);
            }
            11 => {
                let ids: Vec<_> =
                    self.over.books.orders.iter().filter(|(_, o)| !o.frozen && !self.frozen(&o.ask.0) && !self.frozen(&o.give.0)).collect();
                if ids.is_empty() {
                    return None;
                }
                let (id, o) = *g.pick(&ids);
                let info = self.order_info(id, o);
                let to = g.bool().then(|| self.any(g));
                a.rest = to.clone();
                match g.below(3) {
                    0 => {
                        if o.ask_left == 0 {
                            return None;
                        }
                        a.name = "filled order";
                        let v = if self.h < rules.v1_from { OrdersVersion::V0 } else { OrdersVersion::V1 };
                        let n = (g.range(0, o.ask_left.min(1 << 60) as u64) as u128).max(1);
                        let (of, out) = if self.h < rules.v1_from { (o.give_left, o.ask_left) } else { (o.give.1, o.ask.1) };
                        let got = c31::mul_div(of, n, out).unwrap_or(0);
                        if got == 0 {
                            return None;
                        }
                        a.order = Some(c31::Op::Fill(*id, n, v));
                        if o.give.0.is_some() {
                            a.gains.push((o.give.0, got));
                        }
                        // paid by burning
                        a.pays.push((o.ask.0, n));
                        if let Some(d) = &to {
                            a.outs.push(TxOutput::Transfer(value(o.give.0, got), d.clone()));
                        }
                        a.result = now(w.create_fill_order_tx(ACC, *id, info, am(n), to, rate, later, self.info()));
                    }
                    1 if mine(&o.key) => {
                        a.name = "concluded order";
                        a.order = Some(c31::Op::Conclude(*id));
                        a.result = now(w.create_conclude_order_tx(ACC, *id, info, to, rate, later, self.info()));
                    }
                    2 if mine(&o.key) && self.h >= rules.v1_from => {
                        a.name = "frozen order";
                        a.order = Some(c31::Op::Freeze(*id));
                        a.result = now(w.create_freeze_order_tx(ACC, *id, info, rate, later, self.info()));
                    }
                    _ => return None,
                }
            }
            12 => {
                a.name = "htlc";
                let h = self.contract(g);
                let v = OutputValue::Coin(am(self.amount(g, coins)));
                a.outs.push(TxOutput::Htlc(v.clone(), Box::new(h.clone())));
                a.result = now(w.create_htlc_tx(ACC, v, h, rate, later, self.info()));
            }
            _ => {
                let mut some: Vec<_> = self
                    .free
                    .iter()
                    .filter(|(_, o)| self.coin_or_token(o).is_some_and(|x| !self.frozen(&x.0)))
                    .map(|(o, out)| (o.clone(), out.clone(), None))
                    .collect();
                let contracts = self.contracts();
                if !contracts.is_empty() && g.chance(2, 3) {
                    some = contracts;
                }
                if some.is_empty() {
                    return None;
                }
                let (o, out, secret) = g.pick(&some).clone();
                let contract = matches!(out, TxOutput::Htlc(..));
                a.name = match (contract, &secret) {
                    (false, _) => "one output",
                    (true, None) => "refund",
                    (true, Some(_)) => "secret told",
                };
                let to = self.any(g);
                let (c, n) = match &out {
                    TxOutput::Htlc(v, _) => c32::value(v)?,
                    _ => self.coin_or_token(&out)?,
                };
                if c.is_some() {
                    a.outs.push(TxOutput::Transfer(value(c, n), to.clone()));
                    if contract {
                        a.gains.push((c, n));
                    }
                } else {
                    a.rest = Some(to.clone());
                    a.from = Some(BTreeSet::from([o.clone()]));
                    a.optional = contract && n <= self.fee(800);
                    if contract {
                        a.gains.push((c, n));
                    }
                }
                if contract {
                    a.contract = Some(o.clone());
                }
                a.result = now(w.create_spend_utxo_tx(ACC, o, to, secret, rate, later, self.info()));
            }
        }
        Some(a)
    }

    fn funds_exact(&self, of: &[(UtxoOutPoint, TxOutput)]) -> BTreeMap<Option<TokenId>, u128> {
        let mut m = BTreeMap::new();
        for (c, a) in of.iter().filter_map(|(_, o)| self.coin_or_token(o)) {
            *m.entry(c).or_insert(0) += a;
        }
        m
    }

    /// Whether there is plenty for a request, so that it may not be refused.
    fn plenty(&self, a: &Asked) -> bool {
        let of: Vec<_> =
            self.free.iter().filter(|x| a.from.as_ref().is_none_or(|f| f.contains(&x.0))).cloned().collect();
        let mut have = self.funds(&of);
        for (c, n) in &a.gains {
            *have.entry(*c).or_insert(0) += n;
        }
        let fees = self.fee(1_000 + 300 * of.len() + 300 * a.outs.len() + a.outs.encoded_size());
        let mut need: BTreeMap<Option<TokenId>, u128> = BTreeMap::from([(None, a.price + fees)]);
        for o in &a.outs {
            let v = match o {
                TxOutput::Transfer(v, _) | TxOutput::LockThenTransfer(v, _, _) | TxOutput::Burn(v) | TxOutput::Htlc(v, _) => c32::value(v),
                TxOutput::DelegateStaking(a, _) => Some((None, a.into_atoms())),
                TxOutput::CreateOrder(d) => c32::value(d.give()),
                _ => None,
            };
            if let Some((c, n)) = v {
                *need.entry(c).or_insert(0) += n;
            }
        }
        for (c, n) in &a.pays {
            *need.entry(*c).or_insert(0) += n;
        }
        let mut then = self.over.clone();
        let may = !a.optional
            && a.token.iter().all(|o| then.tokens(o.clone()).is_ok())
            && a.order.iter().all(|o| then.orders(o.clone()).is_ok());
        may && need.values().any(|n| *n > 0) && need.into_iter().all(|(c, n)| *have.entry(c).or_insert(0) >= n)
    }

    /// What a transaction has to be like.
    fn judge(&self, a: &Asked, x: &SignedTxWithFees, next: u64, time: u64, m: u64) -> Result<Tx, String> {
        let net = &self.t.net;
        let tx = x.transaction();
        let name = a.name;
        let t = Tx { tx: x.tx.clone(), signers: vec![None; tx.inputs().len()], commitments: vec![] };
        State::plain_tx(net, next, &t).map_err(|e| format!("{name}: not valid: {e}: {tx:?}"))?;
        let mut st = self.over.clone();
        let fee = st.connect(net, next, time, m, None, &t).map_err(|e| format!("{name}: not valid: {e}: {tx:?}"))?;
        // it does what it should and nothing else
        let mut then = self.over.clone();
        for o in &a.token {
            then.tokens(o.clone()).map_err(|e| format!("{name}: {e}"))?;
        }
        for o in &a.order {
            then.orders(o.clone()).map_err(|e| format!("{name}: {e}"))?;
        }
        match a.name {
            "new token" => check_eq!(st.books.tokens.len(), then.books.tokens.len() + 1, "{name}"),
            _ => check!(st.books.tokens == then.books.tokens, "{name}: tokens become {:?}", st.books.tokens),
        }
        match a.name {
            "new order" => check_eq!(st.books.orders.len(), then.books.orders.len() + 1, "{name}"),
            _ => check!(st.books.orders == then.books.orders, "{name}: orders become {:?}", st.books.orders),
        }
        match a.name {
            "new pool" => check_eq!(st.books.pos.pools.len(), then.books.pos.pools.len() + 1, "{name}"),
            "end of a pool" => check_eq!(st.books.pos.pools.len() + 1, then.books.pos.pools.len(), "{name}"),
            _ => check!(st.books.pos.pools == then.books.pos.pools, "{name}: pools become {:?}", st.books.pos.pools),
        }
        check!(
            name == "send" || name.contains("delegation") || st.books.pos.dels == then.books.pos.dels,
            "{name}: delegations become {:?}",
            st.books.pos.dels
        );
        // signed by those who own it
        let commitments = self.over.commitments(net, next, tx).ok_or("no commitments")?;
        for (i, input) in tx.inputs().iter().enumerate() {
            if let TxInput::Utxo(o) = input {
                let own = a.contract.as_ref() == Some(o)
                    || self.free.iter().any(|f| f.0 == *o)
                    || matches!(self.over.utxos[o].out, TxOutput::CreateStakePool(..));
                check!(own, "{name}: spends {o:?}, which the wallet cannot have");
                check!(a.from.as_ref().is_none_or(|f| f.contains(o)), "{name}: spends {o:?}, which was not offered");
            }
            let contract = input.utxo_outpoint().and_then(|o| match &self.over.utxos[o].out {
                TxOutput::Htlc(_, h) => Some(h),
                _ => None,
            });
            let owner = if let Some(h) = contract {
                let InputWitness::Standard(sig) = &x.tx.signatures()[i] else { return Err(format!("{name}: not signed")) };
                let how = AuthorizedHashedTimelockContractSpend::from_data(sig.raw_signature()).map_err(|e| format!("{name}: {e}"))?;
                match how {
                    AuthorizedHashedTimelockContractSpend::Spend(s, _) => {
                        check!(name == "secret told" && s.hash() == h.secret_hash, "{name}: told {s:?}");
                        h.spend_key.clone()
                    }
                    AuthorizedHashedTimelockContractSpend::Refund(_) => {
                        check_eq!(name, "refund", "signed for a refund");
                        h.refund_key.clone()
                    }
                }
            } else {
                let Some(owner) = self.over.owner(input).map_err(|e| format!("{name}: {e}"))? else { continue };
                owner
            };
            let utxo = input.utxo_outpoint().map(|o| self.over.utxos[o].out.clone());
            tx_verifier::input_check::signature_only_check::verify_tx_signature(&net.chain, &owner, &x.tx, &commitments, i, utxo)
                .map_err(|e| format!("{name}: signature {i}: {e:?}"))?;
        }
        // it has what it should
        let mut rest: Vec<TxOutput> = tx.outputs().to_vec();
        for o in &a.outs {
            let at = rest.iter().position(|r| r == o);
            check!(at.is_some(), "{name}: there is no {o:?} in {tx:?}");
            rest.remove(at.expect("some"));
        }
        let mut change = BTreeSet::new();
        for o in &rest {
            let (TxOutput::Transfer(v, d) | TxOutput::LockThenTransfer(v, d, _)) = o else {
                return Err(format!("{name}: unexpected {o:?} in {tx:?}"));
            };
            check!(mine(d) || a.rest.as_ref() == Some(d), "{name}: {o:?} goes to somebody else");
            change.insert(c32::value(v).map(|x| x.0));
        }
        check!(change.len() + usize::from(a.name.contains("order")) * 2 >= rest.len(), "{name}: needless outputs in {tx:?}");
        // and pays what it should
        let size = x.tx.encoded_size();
        let least = self.fee(size);
        check!(fee >= least, "{name}: pays {fee} for {size} bytes at {least}");
        let said = x.fees.get(&Currency::Coin).map_or(0, |a| a.into_atoms());
        check!(x.fees.keys().all(|c| *c == Currency::Coin), "{name}: fees in tokens: {:?}", x.fees);
        // an estimated signature or change may be left out
        let more = self.fee(size + 80 * (change.len() + 1) + 100 + a.outs.len()) + 10;
        check!(fee <= more, "{name}: pays {fee} for {size} bytes at {least}");
        check!(said <= fee && fee - said <= self.fee(100) + 10, "{name}: pays {fee} but says {said}");
        Ok(t)
    }
}

fn make_txs(g: &mut Gen) -> Res {
    randomness::repeatable::start(g.raw64());
    let net = Arc::clone(g.pick(nets()));
    let plain = net.rules.v1_from == 0;
    let mut t = Tree::new(&net);
    start(&mut t);
    let shelf = shelf();
    let mut w = shelf.create(&net.chain);
    give_key(&mut w)?;
    let mut tip = t.root;
    let mut q = Queue::default();
    let mut made = 0;
    for _ in 0..g.urange(2, 7) {
        // blocks by others
        for _ in 0..g.urange(0, 3) {
            let txs = g.range(1, 4);
            let id = t.grow(g, tip, txs);
            if t.at(&id).verdict.is_ok() {
                tip = id;
            }
        }
        follow(g, &mut w, &t, &tip, false)?;
        let place = t.at(&tip).clone();
        let base = place.state.clone().expect("valid");
        let h = place.height + 1;
        let m = median(&place.times);
        let time = *place.times.last().expect("genesis");
        let rate = FeeRate::from_atoms_per_kb(match g.below(4) {
            0 => 0,
            1 => g.range(1, 1_000_000) as u128,
            _ => 100_000_000_000,
        });
        for _ in 0..g.urange(1, 4) {
            let over = connect(&t, &tip, &base, &q.txs).ok_or("cannot connect what is pending")?;
            let fresh: BTreeSet<_> = q.txs.iter().map(|x| common::chain::OutPointSourceId::from(tx_id(x))).collect();
            let free = over
                .utxos
                .iter()
                .filter(|(o, c)| {
                    let open = if matches!(c.out, TxOutput::LockThenTransfer(..)) {
                        !fresh.contains(&o.source_id()) && base.unlocked(c, place.height, m)
                    } else {
                        true
                    };
                    open && match &c.out {
                        TxOutput::Transfer(_, d) | TxOutput::LockThenTransfer(_, d, _) | TxOutput::IssueNft(_, _, d) => mine(d),
                        _ => false,
                    }
                })
                .map(|(o, c)| (o.clone(), c.out.clone()))
                .collect();
            let scene = Scene { t: &t, h, m, base: &base, over: &over, free, rate };
            let Some(a) = scene.ask(g, &mut w) else { continue };
            match &a.result {
                Ok(x) => {
                    g.tag(a.name);
                    let tx = scene.judge(&a, x, h, time, m)?;
                    note!(g, "{} at {}: {:?}", a.name, h, x.transaction().get_id());
                    made += 1;
                    if g.chance(2, 3) {
                        w.add_unconfirmed_tx(x.tx.clone(), &WalletEventsNoOp).map_err(|e| format!("own: {e}"))?;
                        q.idle.insert(x.transaction().get_id());
                        q.txs.push(Arc::new(tx));
                        if plain {
                            pending_agrees(&w, &t, &tip, &q, "pending")?;
                        }
                    }
                }
                Err(e) => {
                    g.tag("refused");
                    check!(!scene.plenty(&a), "{}: refused: {e}", a.name);
                }
            }
        }
        // all that is pending gets into a block
        if !q.txs.is_empty() {
            let block = Block::new(
                q.txs.iter().map(|t| t.tx.clone()).collect(),
                tip,
                BlockTimestamp::from_int_seconds((time + g.range(0, 40)).min(crate::world::clock(&net) + 3600)),
                common::chain::block::ConsensusData::None,
                common::chain::block::BlockReward::new(vec![]),
            )
            .expect("makes a block");
            let on = t.add(Blk { block, txs: q.txs.clone() });
            check!(t.at(&on).verdict.is_ok(), "a block of its transactions is refused: {:?}", t.at(&on).verdict);
            q = Queue::default();
            tip = on;
            follow(g, &mut w, &t, &tip, false)?;
            crate::c39::agrees(&w, &t, &tip, "after a block")?;
        }
    }
    g.nontrivial_if(made > 2);
    Ok(())
}
