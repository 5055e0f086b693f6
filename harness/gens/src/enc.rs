//! The encoding of chain objects, written from the format: little-endian integers, compact integers, counted lists,
//! one-byte tags, options as 0/1.

use common::{
    chain::{
        block::{
            consensus_data::{PoSData, PoWData},
            signed_block_header::{BlockHeaderSignature, SignedBlockHeader},
            timestamp::BlockTimestamp,
            BlockHeader, BlockReward, ConsensusData,
        },
        htlc::HashedTimelockContract,
        output_value::OutputValue,
        signature::{
            inputsig::{standard_signature::StandardInputSignature, InputWitness},
            sighash::input_commitments::SighashInputCommitment,
        },
        stakelock::StakePoolData,
        timelock::OutputTimeLock,
        tokens::{
            IsTokenFreezable, IsTokenUnfreezable, Metadata, NftIssuance, NftIssuanceV0, TokenData, TokenIssuance, TokenTotalSupply,
        },
        AccountCommand, AccountNonce, AccountOutPoint, AccountSpending, AccountType, Block, Destination, Genesis, OrderAccountCommand,
        OrderData, OutPointSourceId, SignedTransaction, Transaction, TxInput, TxOutput, UtxoOutPoint,
    },
    primitives::{per_thousand::PerThousand, Amount, BlockHeight, Compact, Id, H256},
};
use serialization::Encode;

#[derive(Default)]
pub struct W(pub Vec<u8>);

pub fn enc<T: Enc + ?Sized>(t: &T) -> Vec<u8> {
    let mut w = W::default();
    t.enc(&mut w);
    w.0
}

pub trait Enc {
    fn enc(&self, w: &mut W);
}

impl W {
    pub fn u8(&mut self, x: u8) {
        self.0.push(x);
    }

    pub fn raw(&mut self, b: &[u8]) {
        self.0.extend_from_slice(b);
    }

    pub fn compact(&mut self, x: u128) {
        if x < 1 << 6 {
            self.u8((x as u8) << 2);
        } else if x < 1 << 14 {
            self.raw(&(((x as u16) << 2) | 1).to_le_bytes());
        } else if x < 1 << 30 {
            self.raw(&(((x as u32) << 2) | 2).to_le_bytes());
        } else {
            let n = (16 - x.leading_zeros() as usize / 8).max(4);
            self.u8((((n - 4) as u8) << 2) | 3);
            self.raw(&x.to_le_bytes()[..n]);
        }
    }

    pub fn bytes(&mut self, b: &[u8]) {
        self.compact(b.len() as u128);
        self.raw(b);
    }

    pub fn list<T: Enc>(&mut self, l: &[T]) {
        self.compact(l.len() as u128);
        for x in l {
            x.enc(self);
        }
    }

    pub fn tag(&mut self, t: u8, parts: &[&dyn Enc]) {
        self.u8(t);
        for p in parts {
            p.enc(self);
        }
    }
}

impl Enc for H256 {
    fn enc(&self, w: &mut W) {
        w.raw(self.as_bytes());
    }
}

impl<T> Enc for Id<T> {
    fn enc(&self, w: &mut W) {
        w.raw(self.to_hash().as_bytes());
    }
}

macro_rules! compact {
    ($($t:ty, $x:ident => $e:expr;)*) => {$(
        impl Enc for $t {
            fn enc(&self, w: &mut W) {
                let $x = self;
                w.compact($e as u128);
            }
        }
    )*};
}

compact! {
    Amount, x => x.into_atoms();
    AccountNonce, x => x.value();
    BlockHeight, x => x.into_int();
    BlockTimestamp, x => x.as_int_seconds();
}

/// Keys, signatures and VRF values: fixed sizes after a one-byte kind, from the cryptography crate.
macro_rules! crypto {
    ($($t:ty, $n:expr;)*) => {$(
        impl Enc for $t {
            fn enc(&self, w: &mut W) {
                let b = self.encode();
                assert!(b.len() == $n && b[0] == 0, "{} of {} bytes, kind {}", stringify!($t), b.len(), b[0]);
                w.raw(&b);
            }
        }
    )*};
}

crypto! {
    crypto::key::PublicKey, 34;
    crypto::key::Signature, 65;
    crypto::vrf::VRFPublicKey, 33;
    crypto::vrf::VRFReturn, 97;
}

impl Enc for PerThousand {
    fn enc(&self, w: &mut W) {
        w.raw(&self.value().to_le_bytes());
    }
}

impl Enc for Compact {
    fn enc(&self, w: &mut W) {
        w.raw(&self.0.to_le_bytes());
    }
}

impl Enc for u32 {
    fn enc(&self, w: &mut W) {
        w.raw(&self.to_le_bytes());
    }
}

impl Enc for Destination {
    fn enc(&self, w: &mut W) {
        match self {
            Destination::AnyoneCanSpend => w.u8(0),
            Destination::PublicKeyHash(h) => {
                w.u8(1);
                w.raw(h.as_bytes());
            }
            Destination::PublicKey(k) => w.tag(2, &[k]),
            Destination::ScriptHash(h) => w.tag(3, &[h]),
            Destination::ClassicMultisig(h) => {
                w.u8(4);
                w.raw(h.as_bytes());
            }
        }
    }
}

impl Enc for Metadata {
    fn enc(&self, w: &mut W) {
        match &self.creator {
            None => w.u8(0),
            Some(c) => w.tag(1, &[&c.public_key]),
        }
        w.bytes(&self.name);
        w.bytes(&self.description);
        w.bytes(&self.ticker);
        for d in [&self.icon_uri, &self.additional_metadata_uri, &self.media_uri] {
            w.bytes(d.as_opt_slice().unwrap_or(&[]));
        }
        w.bytes(&self.media_hash);
    }
}

impl Enc for NftIssuanceV0 {
    fn enc(&self, w: &mut W) {
        self.metadata.enc(w);
    }
}

impl Enc for NftIssuance {
    fn enc(&self, w: &mut W) {
        match self {
            NftIssuance::V0(n) => w.tag(0, &[n]),
        }
    }
}

impl Enc for TokenData {
    fn enc(&self, w: &mut W) {
        match self {
            TokenData::TokenTransfer(t) => w.tag(1, &[&t.token_id, &t.amount]),
            TokenData::TokenIssuance(t) => {
                w.u8(2);
                w.bytes(&t.token_ticker);
                t.amount_to_issue.enc(w);
                w.u8(t.number_of_decimals);
                w.bytes(&t.metadata_uri);
            }
            TokenData::NftIssuance(n) => w.tag(3, &[&**n]),
        }
    }
}

impl Enc for OutputValue {
    fn enc(&self, w: &mut W) {
        match self {
            OutputValue::Coin(a) => w.tag(0, &[a]),
            OutputValue::TokenV0(t) => w.tag(1, &[&**t]),
            OutputValue::TokenV1(i, a) => w.tag(2, &[i, a]),
        }
    }
}

impl Enc for OutputTimeLock {
    fn enc(&self, w: &mut W) {
        match self {
            OutputTimeLock::UntilHeight(h) => w.tag(0, &[h]),
            OutputTimeLock::UntilTime(t) => w.tag(1, &[t]),
            OutputTimeLock::ForBlockCount(n) => {
                w.u8(2);
                w.compact(*n as u128);
            }
            OutputTimeLock::ForSeconds(n) => {
                w.u8(3);
                w.compact(*n as u128);
            }
        }
    }
}

impl Enc for TokenTotalSupply {
    fn enc(&self, w: &mut W) {
        match self {
            TokenTotalSupply::Fixed(a) => w.tag(0, &[a]),
            TokenTotalSupply::Lockable => w.u8(1),
            TokenTotalSupply::Unlimited => w.u8(2),
        }
    }
}

impl Enc for IsTokenFreezable {
    fn enc(&self, w: &mut W) {
        w.u8(match self {
            IsTokenFreezable::No => 0,
            IsTokenFreezable::Yes => 1,
        });
    }
}

impl Enc for IsTokenUnfreezable {
    fn enc(&self, w: &mut W) {
        w.u8(match self {
            IsTokenUnfreezable::No => 0,
            IsTokenUnfreezable::Yes => 1,
        });
    }
}

impl Enc for TokenIssuance {
    fn enc(&self, w: &mut W) {
        match self {
            TokenIssuance::V1(t) => {
                w.u8(1);
                w.bytes(&t.token_ticker);
                w.u8(t.number_of_decimals);
                w.bytes(&t.metadata_uri);
                t.total_supply.enc(w);
                t.authority.enc(w);
                t.is_freezable.enc(w);
            }
        }
    }
}

impl Enc for StakePoolData {
    fn enc(&self, w: &mut W) {
        self.pledge().enc(w);
        self.staker().enc(w);
        self.vrf_public_key().enc(w);
        self.decommission_key().enc(w);
        self.margin_ratio_per_thousand().enc(w);
        self.cost_per_block().enc(w);
    }
}

impl Enc for HashedTimelockContract {
    fn enc(&self, w: &mut W) {
        w.raw(self.secret_hash.as_bytes());
        self.spend_key.enc(w);
        self.refund_timelock.enc(w);
        self.refund_key.enc(w);
    }
}

impl Enc for OrderData {
    fn enc(&self, w: &mut W) {
        self.conclude_key().enc(w);
        self.ask().enc(w);
        self.give().enc(w);
    }
}

impl Enc for TxOutput {
    fn enc(&self, w: &mut W) {
        match self {
            TxOutput::Transfer(v, d) => w.tag(0, &[v, d]),
            TxOutput::LockThenTransfer(v, d, t) => w.tag(1, &[v, d, t]),
            TxOutput::Burn(v) => w.tag(2, &[v]),
            TxOutput::CreateStakePool(i, d) => w.tag(3, &[i, &**d]),
            TxOutput::ProduceBlockFromStake(d, i) => w.tag(4, &[d, i]),
            TxOutput::CreateDelegationId(d, i) => w.tag(5, &[d, i]),
            TxOutput::DelegateStaking(a, i) => w.tag(6, &[a, i]),
            TxOutput::IssueFungibleToken(t) => w.tag(7, &[&**t]),
            TxOutput::IssueNft(i, n, d) => w.tag(8, &[i, &**n, d]),
            TxOutput::DataDeposit(b) => {
                w.u8(9);
                w.bytes(b);
            }
            TxOutput::Htlc(v, h) => w.tag(10, &[v, &**h]),
            TxOutput::CreateOrder(o) => w.tag(11, &[&**o]),
        }
    }
}

impl Enc for OutPointSourceId {
    fn enc(&self, w: &mut W) {
        match self {
            OutPointSourceId::Transaction(i) => w.tag(0, &[i]),
            OutPointSourceId::BlockReward(i) => w.tag(1, &[i]),
        }
    }
}

impl Enc for UtxoOutPoint {
    fn enc(&self, w: &mut W) {
        self.source_id().enc(w);
        self.output_index().enc(w);
    }
}

impl Enc for AccountSpending {
    fn enc(&self, w: &mut W) {
        match self {
            AccountSpending::DelegationBalance(i, a) => w.tag(0, &[i, a]),
        }
    }
}

impl Enc for AccountType {
    fn enc(&self, w: &mut W) {
        match self {
            AccountType::Delegation(i) => w.tag(0, &[i]),
            AccountType::Token(i) => w.tag(1, &[i]),
            AccountType::Order(i) => w.tag(2, &[i]),
        }
    }
}

impl Enc for AccountOutPoint {
    fn enc(&self, w: &mut W) {
        self.nonce().enc(w);
        self.account().enc(w);
    }
}

impl Enc for AccountCommand {
    fn enc(&self, w: &mut W) {
        match self {
            AccountCommand::MintTokens(i, a) => w.tag(0, &[i, a]),
            AccountCommand::UnmintTokens(i) => w.tag(1, &[i]),
            AccountCommand::LockTokenSupply(i) => w.tag(2, &[i]),
            AccountCommand::FreezeToken(i, u) => w.tag(3, &[i, u]),
            AccountCommand::UnfreezeToken(i) => w.tag(4, &[i]),
            AccountCommand::ChangeTokenAuthority(i, d) => w.tag(5, &[i, d]),
            AccountCommand::ConcludeOrder(i) => w.tag(6, &[i]),
            AccountCommand::FillOrder(i, a, d) => w.tag(7, &[i, a, d]),
            AccountCommand::ChangeTokenMetadataUri(i, b) => {
                w.tag(8, &[i]);
                w.bytes(b);
            }
        }
    }
}

impl Enc for OrderAccountCommand {
    fn enc(&self, w: &mut W) {
        match self {
            OrderAccountCommand::FillOrder(i, a) => w.tag(0, &[i, a]),
            OrderAccountCommand::FreezeOrder(i) => w.tag(1, &[i]),
            OrderAccountCommand::ConcludeOrder(i) => w.tag(2, &[i]),
        }
    }
}

impl Enc for TxInput {
    fn enc(&self, w: &mut W) {
        match self {
            TxInput::Utxo(o) => w.tag(0, &[o]),
            TxInput::Account(a) => w.tag(1, &[a]),
            TxInput::AccountCommand(n, c) => w.tag(2, &[n, c]),
            TxInput::OrderAccountCommand(c) => w.tag(3, &[c]),
        }
    }
}

impl Enc for StandardInputSignature {
    fn enc(&self, w: &mut W) {
        w.u8(self.sighash_type().get());
        w.bytes(self.raw_signature());
    }
}

impl Enc for InputWitness {
    fn enc(&self, w: &mut W) {
        match self {
            InputWitness::NoSignature(None) => w.raw(&[0, 0]),
            InputWitness::NoSignature(Some(b)) => {
                w.raw(&[0, 1]);
                w.bytes(b);
            }
            InputWitness::Standard(s) => w.tag(1, &[s]),
        }
    }
}

impl Enc for Transaction {
    fn enc(&self, w: &mut W) {
        w.u8(1);
        w.compact(self.flags());
        w.list(self.inputs());
        w.list(self.outputs());
    }
}

impl Enc for SignedTransaction {
    fn enc(&self, w: &mut W) {
        self.transaction().enc(w);
        w.list(self.signatures());
    }
}

impl Enc for PoWData {
    fn enc(&self, w: &mut W) {
        self.bits().enc(w);
        w.raw(&self.nonce().to_le_bytes());
    }
}

impl Enc for PoSData {
    fn enc(&self, w: &mut W) {
        w.list(self.kernel_inputs());
        w.list(self.kernel_witness());
        self.stake_pool_id().enc(w);
        self.vrf_data().enc(w);
        self.compact_target().enc(w);
    }
}

impl Enc for ConsensusData {
    fn enc(&self, w: &mut W) {
        match self {
            ConsensusData::None => w.u8(0),
            ConsensusData::PoW(d) => w.tag(1, &[&**d]),
            ConsensusData::PoS(d) => w.tag(2, &[&**d]),
        }
    }
}

/// A header keeps its two roots to itself, so they come from what made it.
pub fn header_bytes(h: &BlockHeader, roots: (H256, H256)) -> Vec<u8> {
    let mut w = W::default();
    w.u8(1);
    h.prev_block_id().enc(&mut w);
    roots.0.enc(&mut w);
    roots.1.enc(&mut w);
    h.timestamp().enc(&mut w);
    h.consensus_data().enc(&mut w);
    w.0
}

pub fn signed_header_bytes(h: &SignedBlockHeader, roots: (H256, H256)) -> Vec<u8> {
    let mut w = W::default();
    w.0.extend(header_bytes(h.header(), roots));
    match h.signature_data() {
        BlockHeaderSignature::None => w.u8(0),
        BlockHeaderSignature::HeaderSignature(s) => w.tag(1, &[s.signature()]),
    }
    w.0
}

impl Enc for BlockReward {
    fn enc(&self, w: &mut W) {
        w.list(self.outputs());
    }
}

impl Enc for Block {
    fn enc(&self, w: &mut W) {
        w.0.extend(signed_header_bytes(self.header(), (self.merkle_root(), self.witness_merkle_root())));
        self.block_reward().enc(w);
        w.list(self.transactions());
    }
}

impl Enc for Genesis {
    fn enc(&self, w: &mut W) {
        w.bytes(self.genesis_message().as_bytes());
        self.timestamp().enc(w);
        w.list(self.utxos());
    }
}

impl Enc for SighashInputCommitment<'_> {
    fn enc(&self, w: &mut W) {
        match self {
            SighashInputCommitment::None => w.u8(0),
            SighashInputCommitment::Utxo(u) => w.tag(1, &[&**u]),
            SighashInputCommitment::ProduceBlockFromStakeUtxo { utxo, staker_balance } => w.tag(2, &[&**utxo, staker_balance]),
            SighashInputCommitment::FillOrderAccountCommand { initially_asked, initially_given } => w.tag(3, &[initially_asked, initially_given]),
            SighashInputCommitment::ConcludeOrderAccountCommand { initially_asked, initially_given, ask_balance, give_balance } => {
                w.tag(4, &[initially_asked, initially_given, ask_balance, give_balance])
            }
        }
    }
}
