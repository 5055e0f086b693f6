//! Generators of chain objects.

use common::{
    address::pubkeyhash::PublicKeyHash,
    chain::{
        block::{
            block_body::BlockBody,
            consensus_data::{PoSData, PoWData},
            signed_block_header::{BlockHeaderSignature, BlockHeaderSignatureData, SignedBlockHeader},
            timestamp::BlockTimestamp,
            BlockHeader, BlockReward, ConsensusData,
        },
        htlc::{HashedTimelockContract, HtlcSecretHash},
        output_value::OutputValue,
        signature::{
            inputsig::{standard_signature::StandardInputSignature, InputWitness},
            sighash::{input_commitments::SighashInputCommitment, sighashtype::SigHashType},
        },
        stakelock::StakePoolData,
        timelock::OutputTimeLock,
        tokens::*,
        AccountCommand, AccountNonce, AccountOutPoint, AccountSpending, AccountType, Block, Destination, Genesis, OrderAccountCommand,
        OrderData, OutPointSourceId, SignedTransaction, Transaction, TxInput, TxOutput, UtxoOutPoint,
    },
    primitives::{per_thousand::PerThousand, Amount, BlockHeight, Compact, Id, H256},
};
use crypto::{
    key::{KeyKind, PrivateKey, PublicKey, Signature},
    vrf::{transcript::no_rng::VRFTranscript, VRFKeyKind, VRFPrivateKey, VRFPublicKey, VRFReturn},
};
use pbt::Gen;
use std::{borrow::Cow, sync::OnceLock};
use test_utils::random::{Seed, TestRng};

pub struct Pool {
    pub keys: Vec<(PrivateKey, PublicKey)>,
    pub signatures: Vec<Signature>,
    pub vrf: Vec<(VRFPrivateKey, VRFPublicKey)>,
    pub vrf_returns: Vec<VRFReturn>,
}

/// Keys and signatures are slow to make: a fixed set of them.
pub fn pool() -> &'static Pool {
    static P: OnceLock<Pool> = OnceLock::new();
    P.get_or_init(|| {
        let mut rng = TestRng::new(Seed::from_u64(0x6765_6e73));
        let keys: Vec<_> = (0..24).map(|_| PrivateKey::new_from_rng(&mut rng, KeyKind::Secp256k1Schnorr)).collect();
        let signatures = keys.iter().map(|(k, _)| k.sign_message(b"gens", &mut rng).expect("signs")).collect();
        let vrf: Vec<_> = (0..6).map(|_| VRFPrivateKey::new_from_rng(&mut rng, VRFKeyKind::Schnorrkel)).collect();
        let vrf_returns = vrf.iter().map(|(k, _)| k.produce_vrf_data(VRFTranscript::new(b"gens"))).collect();
        Pool { keys, signatures, vrf, vrf_returns }
    })
}

/// Few different values, so that equal ones meet.
pub fn hash(g: &mut Gen) -> H256 {
    match g.below(4) {
        0 => H256::repeat_byte(g.below(3) as u8),
        1 => {
            let mut h = H256::zero();
            h.0[g.usize(32)] = 1 << g.below(8);
            h
        }
        _ => H256(g.array()),
    }
}

pub fn id<T>(g: &mut Gen) -> Id<T> {
    Id::new(hash(g))
}

pub fn amount(g: &mut Gen) -> Amount {
    Amount::from_atoms(g.u128())
}

pub fn public_key(g: &mut Gen) -> PublicKey {
    g.pick(&pool().keys).1.clone()
}

pub fn destination(g: &mut Gen) -> Destination {
    match g.below(5) {
        0 => Destination::AnyoneCanSpend,
        1 => Destination::PublicKeyHash(PublicKeyHash(g.array())),
        2 => Destination::PublicKey(public_key(g)),
        3 => Destination::ScriptHash(id(g)),
        _ => Destination::ClassicMultisig(PublicKeyHash(g.array())),
    }
}

pub fn metadata(g: &mut Gen) -> Metadata {
    let uri = |g: &mut Gen| match g.below(3) {
        0 => None.into(),
        1 => Some(vec![]).into(),
        _ => Some(g.bytes(1, 6)).into(),
    };
    Metadata {
        creator: g.bool().then(|| public_key(g).into()),
        name: g.bytes(0, 8),
        description: g.bytes(0, 70),
        ticker: g.bytes(0, 5),
        icon_uri: uri(g),
        additional_metadata_uri: uri(g),
        media_uri: uri(g),
        media_hash: g.bytes(0, 32),
    }
}

pub fn token_data(g: &mut Gen) -> TokenData {
    match g.below(3) {
        0 => TokenData::TokenTransfer(TokenTransfer { token_id: id(g), amount: amount(g) }),
        1 => TokenData::TokenIssuance(Box::new(TokenIssuanceV0 {
            token_ticker: g.bytes(0, 6),
            amount_to_issue: amount(g),
            number_of_decimals: g.u8(),
            metadata_uri: g.bytes(0, 8),
        })),
        _ => TokenData::NftIssuance(Box::new(NftIssuanceV0 { metadata: metadata(g) })),
    }
}

pub fn output_value(g: &mut Gen) -> OutputValue {
    match g.weighted(&[3, 1, 3]) {
        0 => OutputValue::Coin(amount(g)),
        1 => OutputValue::TokenV0(Box::new(token_data(g))),
        _ => OutputValue::TokenV1(id(g), amount(g)),
    }
}

pub fn timelock(g: &mut Gen) -> OutputTimeLock {
    match g.below(4) {
        0 => OutputTimeLock::UntilHeight(BlockHeight::new(g.u64())),
        1 => OutputTimeLock::UntilTime(BlockTimestamp::from_int_seconds(g.u64())),
        2 => OutputTimeLock::ForBlockCount(g.u64()),
        _ => OutputTimeLock::ForSeconds(g.u64()),
    }
}

pub fn total_supply(g: &mut Gen) -> TokenTotalSupply {
    match g.below(3) {
        0 => TokenTotalSupply::Fixed(amount(g)),
        1 => TokenTotalSupply::Lockable,
        _ => TokenTotalSupply::Unlimited,
    }
}

pub fn token_issuance(g: &mut Gen) -> TokenIssuance {
    TokenIssuance::V1(TokenIssuanceV1 {
        token_ticker: g.bytes(0, 6),
        number_of_decimals: g.u8(),
        metadata_uri: g.bytes(0, 8),
        total_supply: total_supply(g),
        authority: destination(g),
        is_freezable: *g.pick(&[IsTokenFreezable::No, IsTokenFreezable::Yes]),
    })
}

pub fn pool_data(g: &mut Gen) -> StakePoolData {
    StakePoolData::new(
        amount(g),
        destination(g),
        g.pick(&pool().vrf).1.clone(),
        destination(g),
        PerThousand::new(g.range(0, 1000) as u16).expect("in range"),
        amount(g),
    )
}

pub fn htlc(g: &mut Gen) -> HashedTimelockContract {
    HashedTimelockContract {
        secret_hash: HtlcSecretHash(g.array()),
        spend_key: destination(g),
        refund_timelock: timelock(g),
        refund_key: destination(g),
    }
}

pub const OUTPUTS: u64 = 12;

pub fn output_of(g: &mut Gen, kind: u64) -> TxOutput {
    match kind {
        0 => TxOutput::Transfer(output_value(g), destination(g)),
        1 => TxOutput::LockThenTransfer(output_value(g), destination(g), timelock(g)),
        2 => TxOutput::Burn(output_value(g)),
        3 => TxOutput::CreateStakePool(id(g), Box::new(pool_data(g))),
        4 => TxOutput::ProduceBlockFromStake(destination(g), id(g)),
        5 => TxOutput::CreateDelegationId(destination(g), id(g)),
        6 => TxOutput::DelegateStaking(amount(g), id(g)),
        7 => TxOutput::IssueFungibleToken(Box::new(token_issuance(g))),
        8 => TxOutput::IssueNft(id(g), Box::new(NftIssuance::V0(NftIssuanceV0 { metadata: metadata(g) })), destination(g)),
        9 => TxOutput::DataDeposit(g.bytes(0, 70)),
        10 => TxOutput::Htlc(output_value(g), Box::new(htlc(g))),
        _ => TxOutput::CreateOrder(Box::new(OrderData::new(destination(g), output_value(g), output_value(g)))),
    }
}

pub fn output(g: &mut Gen) -> TxOutput {
    let k = g.below(OUTPUTS);
    output_of(g, k)
}

pub fn source_id(g: &mut Gen) -> OutPointSourceId {
    if g.bool() {
        OutPointSourceId::Transaction(id(g))
    } else {
        OutPointSourceId::BlockReward(id(g))
    }
}

pub fn outpoint(g: &mut Gen) -> UtxoOutPoint {
    UtxoOutPoint::new(source_id(g), g.uint(32) as u32)
}

pub fn account_command(g: &mut Gen) -> AccountCommand {
    match g.below(9) {
        0 => AccountCommand::MintTokens(id(g), amount(g)),
        1 => AccountCommand::UnmintTokens(id(g)),
        2 => AccountCommand::LockTokenSupply(id(g)),
        3 => AccountCommand::FreezeToken(id(g), *g.pick(&[IsTokenUnfreezable::No, IsTokenUnfreezable::Yes])),
        4 => AccountCommand::UnfreezeToken(id(g)),
        5 => AccountCommand::ChangeTokenAuthority(id(g), destination(g)),
        6 => AccountCommand::ConcludeOrder(id(g)),
        7 => AccountCommand::FillOrder(id(g), amount(g), destination(g)),
        _ => AccountCommand::ChangeTokenMetadataUri(id(g), g.bytes(0, 70)),
    }
}

pub fn order_command(g: &mut Gen) -> OrderAccountCommand {
    match g.below(3) {
        0 => OrderAccountCommand::FillOrder(id(g), amount(g)),
        1 => OrderAccountCommand::FreezeOrder(id(g)),
        _ => OrderAccountCommand::ConcludeOrder(id(g)),
    }
}

pub fn nonce(g: &mut Gen) -> AccountNonce {
    AccountNonce::new(g.u64())
}

pub fn spending(g: &mut Gen) -> AccountSpending {
    AccountSpending::DelegationBalance(id(g), amount(g))
}

pub fn account_type(g: &mut Gen) -> AccountType {
    match g.below(3) {
        0 => AccountType::Delegation(id(g)),
        1 => AccountType::Token(id(g)),
        _ => AccountType::Order(id(g)),
    }
}

pub fn input(g: &mut Gen) -> TxInput {
    match g.weighted(&[4, 1, 2, 1]) {
        0 => TxInput::Utxo(outpoint(g)),
        1 => TxInput::Account(AccountOutPoint::new(nonce(g), spending(g))),
        2 => TxInput::AccountCommand(nonce(g), account_command(g)),
        _ => TxInput::OrderAccountCommand(order_command(g)),
    }
}

pub const SIGHASHES: [u8; 6] = [1, 2, 3, 0x81, 0x82, 0x83];

pub fn sighash_type(g: &mut Gen) -> SigHashType {
    (*g.pick(&SIGHASHES)).try_into().expect("valid")
}

pub fn witness(g: &mut Gen) -> InputWitness {
    match g.below(3) {
        0 => InputWitness::NoSignature(g.bool().then(|| g.bytes(0, 6))),
        _ => InputWitness::Standard(StandardInputSignature::new(sighash_type(g), g.bytes(0, 70))),
    }
}

pub fn transaction(g: &mut Gen) -> Transaction {
    let flags = g.u128();
    let inputs = g.vec(0, 4, input);
    let outputs = g.vec(0, 4, output);
    Transaction::new(flags, inputs, outputs).expect("makes a transaction")
}

pub fn signed_transaction(g: &mut Gen) -> SignedTransaction {
    let tx = transaction(g);
    let w = tx.inputs().iter().map(|_| witness(g)).collect();
    SignedTransaction::new(tx, w).expect("right number of signatures")
}

pub fn compact(g: &mut Gen) -> Compact {
    Compact(g.uint(32) as u32)
}

pub fn consensus(g: &mut Gen) -> ConsensusData {
    match g.below(3) {
        0 => ConsensusData::None,
        1 => ConsensusData::PoW(Box::new(PoWData::new(compact(g), g.u128()))),
        _ => ConsensusData::PoS(Box::new(PoSData::new(
            g.vec(0, 2, input),
            g.vec(0, 2, witness),
            id(g),
            g.pick(&pool().vrf_returns).clone(),
            compact(g),
        ))),
    }
}

/// A header and its roots of transactions and witnesses.
pub fn header(g: &mut Gen) -> (BlockHeader, (H256, H256)) {
    let roots = (hash(g), hash(g));
    (BlockHeader::new(id(g), roots.0, roots.1, BlockTimestamp::from_int_seconds(g.u64()), consensus(g)), roots)
}

pub fn header_signature(g: &mut Gen) -> BlockHeaderSignature {
    if g.bool() {
        BlockHeaderSignature::None
    } else {
        BlockHeaderSignature::HeaderSignature(BlockHeaderSignatureData::new(g.pick(&pool().signatures).clone()))
    }
}

pub fn signed_header(g: &mut Gen) -> (SignedBlockHeader, (H256, H256)) {
    let (h, roots) = header(g);
    (SignedBlockHeader::new(header_signature(g), h), roots)
}

pub fn reward(g: &mut Gen) -> BlockReward {
    BlockReward::new(g.vec(0, 3, output))
}

pub fn body(g: &mut Gen) -> BlockBody {
    BlockBody::new(reward(g), g.vec(0, 5, signed_transaction))
}

/// A block whose header commits to its body.
pub fn block(g: &mut Gen) -> Block {
    let r = reward(g);
    let txs = g.vec(0, 5, signed_transaction);
    Block::new(txs, id(g), BlockTimestamp::from_int_seconds(g.u64()), consensus(g), r).expect("makes a block")
}

pub fn genesis(g: &mut Gen) -> Genesis {
    Genesis::new(g.text(10), BlockTimestamp::from_int_seconds(g.u64()), g.vec(0, 3, output))
}

pub fn commitment(g: &mut Gen) -> SighashInputCommitment<'static> {
    match g.weighted(&[1, 4, 1, 1, 1]) {
        0 => SighashInputCommitment::None,
        1 => SighashInputCommitment::Utxo(Cow::Owned(output(g))),
        2 => SighashInputCommitment::ProduceBlockFromStakeUtxo { utxo: Cow::Owned(output(g)), staker_balance: amount(g) },
        3 => SighashInputCommitment::FillOrderAccountCommand { initially_asked: output_value(g), initially_given: output_value(g) },
        _ => SighashInputCommitment::ConcludeOrderAccountCommand {
            initially_asked: output_value(g),
            initially_given: output_value(g),
            ask_balance: amount(g),
            give_balance: amount(g),
        },
    }
}
