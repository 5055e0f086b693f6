//! What a chain of blocks does, worked out plainly: no caches, no undo, one full state per block.
use crate::{c29, c30, c31, c32};
use common::{
    chain::{
        make_delegation_id, make_order_id, make_pool_id, make_token_id,
        output_value::OutputValue,
        signature::sighash::input_commitments::{
            make_sighash_input_commitments_for_transaction_inputs_at_height, OrderInfo, PoolInfo, SighashInputCommitment,
            TrivialUtxoProvider,
        },
        timelock::OutputTimeLock,
        tokens::{IsTokenFreezable, NftIssuance, TokenId, TokenIssuance},
        AccountCommand, AccountSpending, AccountType, Block, ChainConfig, Destination, GenBlock, OrderAccountCommand, OrderId,
        OrdersVersion, PoolId, SignedTransaction, Transaction, TxInput, TxOutput, UtxoOutPoint,
    },
    primitives::{Amount, BlockHeight, Id, Idable},
};
use gens::make;
use std::{
    collections::{BTreeMap, BTreeSet},
    sync::Arc,
};

pub struct Net {
    pub chain: Arc<ChainConfig>,
    pub rules: c32::Net,
    pub epoch: u64,
    pub seal: u64,
    pub depth: u64,
}

impl Net {
    pub fn maturity(&self) -> u64 {
        self.rules.maturity(0)
    }
    pub fn orders(&self, h: u64) -> OrdersVersion {
        self.rules.orders(h)
    }
}

/// A transaction and who signed what about it.
#[derive(Debug)]
pub struct Tx {
    pub tx: SignedTransaction,
    /// For each input the number of the key that signed it.
    pub signers: Vec<Option<usize>>,
    pub commitments: Vec<SighashInputCommitment<'static>>,
}

#[derive(Debug)]
pub struct Blk {
    pub block: Block,
    pub txs: Vec<Arc<Tx>>,
}

impl Blk {
    pub fn id(&self) -> Id<Block> {
        self.block.get_id()
    }
    pub fn gid(&self) -> Id<GenBlock> {
        self.id().into()
    }
    pub fn time(&self) -> u64 {
        self.block.timestamp().as_int_seconds()
    }
}

#[derive(Clone, Debug)]
pub struct Coin {
    pub out: TxOutput,
    pub height: u64,
    pub time: u64,
}

/// Everything known after a block.
#[derive(Clone, Default)]
pub struct State {
    pub height: u64,
    pub utxos: BTreeMap<UtxoOutPoint, Coin>,
    pub nonces: BTreeMap<AccountType, u64>,
    pub books: c32::Ledger,
    pub nfts: BTreeMap<TokenId, (Transaction, Id<Block>)>,
    /// Staking at the end of each epoch.
    pub ends: Vec<Arc<c29::Model>>,
    pub sealed: Arc<c29::Model>,
    /// Signatures are not looked at.
    pub trusting: bool,
}

/// Why a block is refused: at once, or only when it is to become part of the best chain.
#[derive(Clone, Copy, Debug, PartialEq, Eq)]
pub enum Bad {
    Plain(&'static str),
    Late(&'static str),
}

pub fn key_of(d: &Destination) -> Option<usize> {
    make::pool()
        .keys
        .iter()
        .position(|(_, k)| matches!(d, Destination::PublicKey(p) if p == k))
}

/// The timestamp in the middle of the last eleven.
pub fn median(times: &[u64]) -> u64 {
    let mut last: Vec<u64> = times.iter().rev().take(11).copied().collect();
    last.sort_unstable();
    last[last.len() / 2]
}

fn checked_sum<'a>(v: impl IntoIterator<Item = &'a u128>) -> Option<u128> {
    v.into_iter().try_fold(0u128, |a, b| a.checked_add(*b))
}

impl State {
    pub fn genesis(net: &Net) -> State {
        let g = net.chain.genesis_block();
        let time = g.timestamp().as_int_seconds();
        let id: Id<GenBlock> = net.chain.genesis_block_id();
        let mut s = State::default();
        s.books.currencies = vec![None];
        if net.epoch == 1 {
            s.ends.push(Arc::default());
        }
        for (i, o) in g.utxos().iter().enumerate() {
            s.utxos.insert(
                UtxoOutPoint::new(id.into(), i as u32),
                Coin {
                    out: o.clone(),
                    height: 0,
                    time,
                },
            );
        }
        s
    }

    pub fn unlocked(&self, c: &Coin, h: u64, mtp: u64) -> bool {
        match &c.out {
            TxOutput::LockThenTransfer(_, _, l) => match l {
                OutputTimeLock::UntilHeight(x) => h >= x.into_int(),
                OutputTimeLock::UntilTime(t) => mtp >= t.as_int_seconds(),
                OutputTimeLock::ForBlockCount(n) => c.height.checked_add(*n).is_some_and(|x| x <= h),
                OutputTimeLock::ForSeconds(n) => c.time.checked_add(*n).is_some_and(|x| x <= mtp),
            },
            _ => true,
        }
    }

    /// Who may use an input; `Err` if it does not exist.
    pub fn owner(&self, input: &TxInput) -> Result<Option<Destination>, &'static str> {
        let token = |id: &TokenId| self.books.tokens.get(id).map(|t| Some(t.authority.clone())).ok_or("no such token");
        let order = |id: &OrderId| self.books.orders.get(id).map(|o| Some(o.key.clone())).ok_or("no such order");
        match input {
            TxInput::Utxo(o) => match &self.utxos.get(o).ok_or("no such output")?.out {
                TxOutput::Transfer(_, d) | TxOutput::LockThenTransfer(_, d, _) | TxOutput::IssueNft(_, _, d) => Ok(Some(d.clone())),
                TxOutput::CreateStakePool(_, d) => Ok(Some(d.decommission_key().clone())),
                // the witness tells who
                TxOutput::Htlc(..) if self.trusting => Ok(None),
                _ => Err("cannot be spent"),
            },
            TxInput::Account(a) => {
                let AccountSpending::DelegationBalance(d, _) = a.account();
                self.books.pos.dels.get(d).map(|x| Some(x.1.clone())).ok_or("no such delegation")
            }
            TxInput::AccountCommand(_, c) => match c {
                AccountCommand::MintTokens(t, _)
                | AccountCommand::UnmintTokens(t)
                | AccountCommand::LockTokenSupply(t)
                | AccountCommand::FreezeToken(t, _)
                | AccountCommand::UnfreezeToken(t)
                | AccountCommand::ChangeTokenAuthority(t, _)
                | AccountCommand::ChangeTokenMetadataUri(t, _) => token(t),
                AccountCommand::ConcludeOrder(o) => order(o),
                AccountCommand::FillOrder(..) => Ok(None),
            },
            TxInput::OrderAccountCommand(c) => match c {
                OrderAccountCommand::FillOrder(..) => Ok(Some(Destination::AnyoneCanSpend)),
                OrderAccountCommand::FreezeOrder(o) | OrderAccountCommand::ConcludeOrder(o) => order(o),
            },
        }
    }

    /// What signatures of a transaction commit to.
    pub fn commitments(&self, net: &Net, h: u64, tx: &Transaction) -> Option<Vec<SighashInputCommitment<'static>>> {
        let spent: Vec<Option<TxOutput>> = tx
            .inputs()
            .iter()
            .map(|i| i.utxo_outpoint().and_then(|o| self.utxos.get(o)).map(|c| c.out.clone()))
            .collect();
        let pools: BTreeMap<PoolId, PoolInfo> = self
            .books
            .pos
            .pools
            .iter()
            .map(|(p, (_, pledge, rewards))| {
                (
                    *p,
                    PoolInfo {
                        staker_balance: Amount::from_atoms(pledge + rewards),
                    },
                )
            })
            .collect();
        let am = Amount::from_atoms;
        let orders: BTreeMap<OrderId, OrderInfo> = self
            .books
            .orders
            .iter()
            .map(|(id, o)| {
                (
                    *id,
                    OrderInfo {
                        initially_asked: c32::coin_or_token(o.ask.0, o.ask.1),
                        initially_given: c32::coin_or_token(o.give.0, o.give.1),
                        ask_balance: am(o.ask_left),
                        give_balance: am(o.give_left),
                    },
                )
            })
            .collect();
        let v = make_sighash_input_commitments_for_transaction_inputs_at_height(
            tx.inputs(),
            &TrivialUtxoProvider(&spent),
            &pools,
            &orders,
            &net.chain,
            BlockHeight::new(h),
        )
        .ok()?;
        Some(v.iter().map(|c| c.deep_clone()).collect())
    }

    fn not_frozen(&self, t: &TokenId) -> Result<(), &'static str> {
        match self.books.tokens.get(t) {
            Some(t) if t.is_frozen() => Err("frozen token"),
            _ => Ok(()),
        }
    }

    fn output_not_frozen(&self, o: &TxOutput) -> Result<(), &'static str> {
        let value = |v: &OutputValue| v.token_v1_id().map_or(Ok(()), |t| self.not_frozen(t));
        match o {
            TxOutput::Transfer(v, _) | TxOutput::Burn(v) | TxOutput::LockThenTransfer(v, _, _) | TxOutput::Htlc(v, _) => value(v),
            TxOutput::CreateOrder(d) => value(d.ask()).and(value(d.give())),
            _ => Ok(()),
        }
    }

    fn order_not_frozen(&self, id: &OrderId) -> Result<(), &'static str> {
        let o = self.books.orders.get(id).ok_or("no such order")?;
        [o.ask.0, o.give.0].iter().flatten().try_for_each(|t| self.not_frozen(t))
    }

    fn use_nonce(&mut self, account: AccountType, nonce: u64) -> Result<(), &'static str> {
        let next = match self.nonces.get(&account) {
            None => 0,
            Some(n) => n.checked_add(1).ok_or("out of nonces")?,
        };
        if nonce != next {
            return Err("wrong nonce");
        }
        self.nonces.insert(account, nonce);
        Ok(())
    }

    fn pos(&mut self, op: c29::Op) -> Result<(), &'static str> {
        self.books.pos = c29::step(&self.books.pos, &op).ok_or("staking refused")?;
        Ok(())
    }

    pub(crate) fn tokens(&mut self, op: c30::Op) -> Result<(), &'static str> {
        self.books.tokens = c30::step(&self.books.tokens, &op).ok_or("token operation refused")?;
        Ok(())
    }

    pub(crate) fn orders(&mut self, op: c31::Op) -> Result<(), &'static str> {
        self.books.orders = c31::step(&self.books.orders, &op).ok_or("order operation refused")?;
        Ok(())
    }

    /// Applies one transaction and tells the fee it pays.
    pub fn connect(&mut self, net: &Net, h: u64, time: u64, mtp: u64, block: Option<Id<Block>>, t: &Tx) -> Result<u128, &'static str> {
        let tx = t.tx.transaction();
        // who and when
        let commitments = self.commitments(net, h, tx);
        for (i, input) in tx.inputs().iter().enumerate() {
            let owner = self.owner(input)?;
            let ok = match (&owner, t.signers[i]) {
                _ if self.trusting => true,
                (None, _) => true,
                (Some(Destination::AnyoneCanSpend), None) => true,
                (Some(Destination::PublicKey(_)), Some(k)) => {
                    owner.as_ref().and_then(key_of) == Some(k) && commitments.as_ref() == Some(&t.commitments)
                }
                _ => false,
            };
            if !ok {
                return Err("not signed by its owner");
            }
            if let TxInput::Utxo(o) = input {
                if !self.unlocked(&self.utxos[o], h, mtp) {
                    return Err("locked");
                }
            }
        }
        // what may be combined
        let commands = tx
            .inputs()
            .iter()
            .filter(|i| matches!(i, TxInput::AccountCommand(..) | TxInput::OrderAccountCommand(_)))
            .count();
        let count = |f: fn(&TxOutput) -> bool| tx.outputs().iter().filter(|o| f(o)).count();
        if commands > 1
            || count(|o| matches!(o, TxOutput::CreateStakePool(..))) > 1
            || count(|o| matches!(o, TxOutput::CreateDelegationId(..))) > 1
            || count(|o| matches!(o, TxOutput::CreateOrder(_))) > 1
            || count(|o| matches!(o, TxOutput::ProduceBlockFromStake(..))) > 0
        {
            return Err("such inputs or outputs cannot be combined");
        }
        // what it costs
        let inputs: Vec<(TxInput, Option<TxOutput>)> = tx
            .inputs()
            .iter()
            .map(|i| (i.clone(), i.utxo_outpoint().map(|o| self.utxos[o].out.clone())))
            .collect();
        let funds = c32::inputs_model(&net.rules, h, &self.books, &inputs).ok_or("cannot add up the inputs")?;
        let outs = c32::outputs_model(&net.rules, h, tx.outputs()).ok_or("cannot add up the outputs")?;
        let left = c32::settle(funds, &outs).ok_or("spends more than it has")?;
        let fee = c32::fee(&left, net.maturity()).ok_or("fee too large")?;
        for o in tx.outputs() {
            if let TxOutput::Transfer(v, _) | TxOutput::LockThenTransfer(v, _, _) | TxOutput::Burn(v) | TxOutput::Htlc(v, _) = o {
                if matches!(v, OutputValue::TokenV1(_, a) if *a == Amount::ZERO) {
                    return Err("zero tokens");
                }
            }
        }
        // token identifiers
        let new_token = make_token_id(&net.chain, BlockHeight::new(h), tx.inputs());
        for o in tx.outputs() {
            if let TxOutput::IssueNft(id, _, _) = o {
                if new_token.as_ref().ok() != Some(id) || self.nfts.contains_key(id) {
                    return Err("wrong identifier of the new token");
                }
                self.nfts.insert(
                    *id,
                    (tx.clone(), block.unwrap_or_else(|| Id::new(common::primitives::H256::zero()))),
                );
            }
        }
        // staking
        for i in tx.inputs() {
            match i {
                TxInput::Utxo(o) => {
                    if let TxOutput::CreateStakePool(p, _) | TxOutput::ProduceBlockFromStake(_, p) = self.utxos[o].out.clone() {
                        self.pos(c29::Op::Decommission(p))?;
                    }
                }
                TxInput::Account(a) => {
                    let AccountSpending::DelegationBalance(d, x) = *a.account();
                    self.use_nonce(a.account().into(), a.nonce().value())?;
                    self.pos(c29::Op::Spend(d, x.into_atoms()))?;
                }
                TxInput::AccountCommand(..) | TxInput::OrderAccountCommand(_) => {}
            }
        }
        for o in tx.outputs() {
            match o {
                TxOutput::CreateStakePool(p, d) => {
                    if make_pool_id(tx.inputs()).ok() != Some(*p) {
                        return Err("wrong identifier of the new pool");
                    }
                    if d.pledge() < net.chain.min_stake_pool_pledge() {
                        return Err("pledge too small");
                    }
                    self.pos(c29::Op::Create(*p, d.as_ref().clone().into()))?;
                }
                TxOutput::CreateDelegationId(k, p) => {
                    let id = make_delegation_id(tx.inputs()).map_err(|_| "no identifier for the delegation")?;
                    self.pos(c29::Op::NewDelegation(*p, id, k.clone()))?;
                }
                TxOutput::DelegateStaking(a, d) => self.pos(c29::Op::Delegate(*d, a.into_atoms()))?,
                _ => {}
            }
        }
        // tokens
        for i in tx.inputs() {
            match i {
                TxInput::Utxo(o) => self.output_not_frozen(&self.utxos[o].out)?,
                TxInput::Account(_) => {}
                TxInput::AccountCommand(_, c) => match c {
                    AccountCommand::MintTokens(t, _)
                    | AccountCommand::UnmintTokens(t)
                    | AccountCommand::LockTokenSupply(t)
                    | AccountCommand::FreezeToken(t, _)
                    | AccountCommand::ChangeTokenAuthority(t, _)
                    | AccountCommand::ChangeTokenMetadataUri(t, _) => self.not_frozen(t)?,
                    AccountCommand::UnfreezeToken(_) => {}
                    AccountCommand::ConcludeOrder(o) | AccountCommand::FillOrder(o, _, _) => self.order_not_frozen(o)?,
                },
                TxInput::OrderAccountCommand(c) => match c {
                    OrderAccountCommand::FillOrder(o, _) | OrderAccountCommand::ConcludeOrder(o) => self.order_not_frozen(o)?,
                    OrderAccountCommand::FreezeOrder(_) => {}
                },
            }
        }
        tx.outputs().iter().try_for_each(|o| self.output_not_frozen(o))?;
        for i in tx.inputs() {
            let TxInput::AccountCommand(n, c) = i else { continue };
            self.use_nonce(c.into(), n.value())?;
            match c {
                AccountCommand::MintTokens(t, a) => self.tokens(c30::Op::Mint(*t, a.into_atoms()))?,
                AccountCommand::UnmintTokens(t) => {
                    let burned: Vec<u128> = tx
                        .outputs()
                        .iter()
                        .filter_map(|o| match o {
                            TxOutput::Burn(OutputValue::TokenV1(x, a)) if x == t => Some(a.into_atoms()),
                            _ => None,
                        })
                        .collect();
                    let sum = checked_sum(&burned).ok_or("too much burned")?;
                    if sum > 0 {
                        self.tokens(c30::Op::Unmint(*t, sum))?;
                    }
                }
                AccountCommand::LockTokenSupply(t) => self.tokens(c30::Op::Lock(*t))?,
                AccountCommand::FreezeToken(t, u) => self.tokens(c30::Op::Freeze(*t, *u))?,
                AccountCommand::UnfreezeToken(t) => self.tokens(c30::Op::Unfreeze(*t))?,
                AccountCommand::ChangeTokenAuthority(t, d) => self.tokens(c30::Op::Authority(*t, d.clone()))?,
                AccountCommand::ChangeTokenMetadataUri(t, u) => self.tokens(c30::Op::Uri(*t, u.clone()))?,
                AccountCommand::ConcludeOrder(o) => self.orders(c31::Op::Conclude(*o))?,
                AccountCommand::FillOrder(o, a, _) => self.orders(c31::Op::Fill(*o, a.into_atoms(), OrdersVersion::V0))?,
            }
        }
        for o in tx.outputs() {
            if let TxOutput::IssueFungibleToken(i) = o {
                let TokenIssuance::V1(i) = i.as_ref();
                let token = c30::Token {
                    ticker: i.token_ticker.clone(),
                    decimals: i.number_of_decimals,
                    uri: i.metadata_uri.clone(),
                    total: i.total_supply,
                    locked: false,
                    frozen: if i.is_freezable == IsTokenFreezable::Yes {
                        c30::Frozen::Can
                    } else {
                        c30::Frozen::Never
                    },
                    authority: i.authority.clone(),
                    supply: 0,
                };
                let id = *new_token.as_ref().map_err(|_| "no identifier for the token")?;
                self.tokens(c30::Op::Issue(id, token, false))?;
            }
        }
        // orders
        for i in tx.inputs() {
            if let TxInput::OrderAccountCommand(c) = i {
                self.orders(match c {
                    OrderAccountCommand::FillOrder(o, a) => c31::Op::Fill(*o, a.into_atoms(), OrdersVersion::V1),
                    OrderAccountCommand::FreezeOrder(o) => c31::Op::Freeze(*o),
                    OrderAccountCommand::ConcludeOrder(o) => c31::Op::Conclude(*o),
                })?;
            }
        }
        for o in tx.outputs() {
            if let TxOutput::CreateOrder(d) = o {
                let id = make_order_id(tx.inputs()).map_err(|_| "no identifier for the order")?;
                let v = |v: &OutputValue| c32::value(v).ok_or("old token");
                let (ask, give) = (v(d.ask())?, v(d.give())?);
                let order = c31::Order {
                    key: d.conclude_key().clone(),
                    ask,
                    give,
                    frozen: false,
                    ask_left: ask.1,
                    give_left: give.1,
                };
                self.orders(c31::Op::Create(id, order, false))?;
            }
        }
        // outputs
        for i in tx.inputs() {
            if let TxInput::Utxo(o) = i {
                self.utxos.remove(o).ok_or("spent twice")?;
            }
        }
        let id: Id<Transaction> = tx.get_id();
        for (n, o) in tx.outputs().iter().enumerate() {
            let kept = matches!(
                o,
                TxOutput::Transfer(..)
                    | TxOutput::LockThenTransfer(..)
                    | TxOutput::CreateStakePool(..)
                    | TxOutput::ProduceBlockFromStake(..)
                    | TxOutput::IssueNft(..)
                    | TxOutput::Htlc(..)
            );
            let at = UtxoOutPoint::new(id.into(), n as u32);
            if kept
                && self
                    .utxos
                    .insert(
                        at,
                        Coin {
                            out: o.clone(),
                            height: h,
                            time,
                        },
                    )
                    .is_some()
            {
                return Err("output exists already");
            }
        }
        Ok(fee)
    }

    /// Rules that need no knowledge of the chain's contents.
    pub fn plain(net: &Net, h: u64, times: &[u64], now: u64, b: &Blk) -> Result<(), &'static str> {
        let t = b.time();
        if t < median(times) {
            return Err("too early");
        }
        if t > now + net.chain.max_future_block_time_offset(BlockHeight::new(h)).as_secs() {
            return Err("too far in the future");
        }
        for o in b.block.block_reward().outputs() {
            match o {
                TxOutput::LockThenTransfer(OutputValue::Coin(_), _, OutputTimeLock::ForBlockCount(n)) if *n >= net.maturity() => {}
                _ => return Err("reward of the wrong kind"),
            }
        }
        let mut seen = BTreeSet::new();
        for t in &b.txs {
            for i in t.tx.transaction().inputs() {
                if !matches!(i, TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(..))) && !seen.insert(i.clone()) {
                    return Err("the same input twice");
                }
            }
            Self::plain_tx(net, h, t)?;
        }
        Ok(())
    }

    /// The same for a single transaction.
    pub fn plain_tx(net: &Net, h: u64, t: &Tx) -> Result<(), &'static str> {
        let tx = t.tx.transaction();
        if tx.inputs().is_empty() {
            return Err("no inputs");
        }
        for i in tx.inputs() {
            let v0 = net.orders(h) == OrdersVersion::V0;
            match i {
                TxInput::AccountCommand(_, AccountCommand::FillOrder(..) | AccountCommand::ConcludeOrder(_)) if !v0 => {
                    return Err("old order command")
                }
                TxInput::OrderAccountCommand(_) if v0 => return Err("new order command"),
                TxInput::AccountCommand(_, AccountCommand::FillOrder(_, a, _)) if *a == Amount::ZERO => return Err("fill with nothing"),
                TxInput::OrderAccountCommand(OrderAccountCommand::FillOrder(_, a)) if *a == Amount::ZERO => {
                    return Err("fill with nothing")
                }
                _ => {}
            }
        }
        // two inputs of one transaction may not be equal, not even fills
        let distinct: BTreeSet<&TxInput> = tx.inputs().iter().collect();
        if distinct.len() != tx.inputs().len() {
            return Err("the same input twice");
        }
        let issued = tx
            .outputs()
            .iter()
            .filter(|o| matches!(o, TxOutput::IssueFungibleToken(_) | TxOutput::IssueNft(..)))
            .count();
        if issued > 1 {
            return Err("two new tokens");
        }
        for o in tx.outputs() {
            match o {
                TxOutput::CreateOrder(d) => {
                    if c32::value(d.ask()).map(|x| x.0) == c32::value(d.give()).map(|x| x.0) {
                        return Err("order of a currency for itself");
                    }
                }
                TxOutput::IssueNft(_, i, _) => {
                    let NftIssuance::V0(_) = i.as_ref();
                }
                _ => {}
            }
        }
        Ok(())
    }

    /// The state after a block, given the timestamps of the chain below it.
    pub fn extend(&self, net: &Net, times: &[u64], b: &Blk) -> Result<State, &'static str> {
        let h = self.height + 1;
        let mtp = median(times);
        let mut n = self.clone();
        n.height = h;
        let mut fees = 0u128;
        for t in &b.txs {
            fees = fees
                .checked_add(n.connect(net, h, b.time(), mtp, Some(b.id()), t)?)
                .ok_or("fees too large")?;
        }
        let allowed = net
            .chain
            .block_subsidy_at_height(&BlockHeight::new(h))
            .into_atoms()
            .checked_add(fees)
            .ok_or("reward too large")?;
        let mut sum = 0u128;
        for (i, o) in b.block.block_reward().outputs().iter().enumerate() {
            if let TxOutput::LockThenTransfer(OutputValue::Coin(a), _, _) = o {
                sum = sum.checked_add(a.into_atoms()).ok_or("reward too large")?;
            }
            n.utxos.insert(
                UtxoOutPoint::new(b.gid().into(), i as u32),
                Coin {
                    out: o.clone(),
                    height: h,
                    time: b.time(),
                },
            );
        }
        if sum > allowed {
            return Err("reward too large");
        }
        if (h + 1) % net.epoch == 0 {
            n.ends.push(Arc::new(n.books.pos.clone()));
            let epoch = h / net.epoch;
            if let Some(e) = epoch.checked_sub(net.seal) {
                n.sealed = Arc::clone(&n.ends[e as usize]);
            }
        }
        Ok(n)
    }
}
