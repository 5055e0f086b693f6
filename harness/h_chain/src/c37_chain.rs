//! A real node on chains of staked, mined and free blocks with branches.
use crate::{
    c37::{average_from, big, compress, expand, genesis, hash_of, max256, ref_effective, ref_new_target, sealed, signed, vrf_of},
    disk::Disk,
};
use chainstate::{make_chainstate, BlockSource, ChainstateConfig, ChainstateSubsystem, DefaultTransactionVerificationStrategy};
use chainstate_storage::Store;
use chainstate_types::{pos_randomness::PoSRandomness, BlockIndex};
use common::{
    chain::{
        block::{consensus_data::PoSData, timestamp::BlockTimestamp, BlockReward, BlockRewardTransactable, ConsensusData},
        config::{Builder, ChainType},
        make_pool_id,
        output_value::OutputValue,
        signature::{
            inputsig::{standard_signature::StandardInputSignature, InputWitness},
            sighash::{input_commitments::make_sighash_input_commitments_for_kernel_input_utxos, sighashtype::SigHashType},
        },
        stakelock::StakePoolData,
        Block, ChainConfig, ChainstateUpgradeBuilder, ConsensusUpgrade, Destination, GenBlock, NetUpgrades, OutPointSourceId,
        PoSChainConfig, PoSChainConfigBuilder, PoSConsensusVersion, PoSStatus, PoWStatus, PoolId, RequiredConsensus, SignedTransaction,
        Transaction, TxInput, TxOutput, UtxoOutPoint,
    },
    primitives::{per_thousand::PerThousand, time::Time, Amount, BlockDistance, BlockHeight, Compact, Id, Idable, H256},
    time_getter::{TimeGetter, TimeGetterFn},
    Uint256,
};
use consensus::{
    generate_consensus_data_and_reward_ignore_consensus, generate_pos_consensus_data_and_reward, generate_pow_consensus_data_and_reward, mine,
    PoSGenerateBlockInputData, PoWGenerateBlockInputData,
};
use gens::make;
use num::{bigint::BigUint, One, Zero};
use pbt::{check, check_eq, note, Gen, Res};
use serialization::{DecodeAll, Encode};
use std::{
    collections::{BTreeMap, BTreeSet},
    num::NonZeroU64,
    sync::{Arc, OnceLock},
    time::Duration,
};
use test_utils::random::{Seed, TestRng};

const COIN: u128 = 100_000_000_000;
const START: u64 = 1_000_000;
const NOW: u64 = START + 200_000;
const SPACING: u64 = 120;

struct Net {
    chain: Arc<ChainConfig>,
    root: State,
    epoch: u64,
    distance: u64,
    /// Heights at which rules change and the target they start with.
    what: String,
}

#[derive(Clone)]
struct Pool {
    key: usize,
    vrf: usize,
    kernel: UtxoOutPoint,
    out: TxOutput,
    own: u128,
}

/// What holds after a block.
#[derive(Clone)]
struct State {
    height: u64,
    times: Vec<u64>,
    bits: Option<Compact>,
    pools: BTreeMap<PoolId, Pool>,
    epochs: BTreeMap<u64, H256>,
    coins: (UtxoOutPoint, u128),
    trust: BigUint,
}

fn am(a: u128) -> Amount {
    Amount::from_atoms(a)
}

fn stake(first: Option<u32>, limit: u32, change: u16, version: PoSConsensusVersion) -> ConsensusUpgrade {
    let config = PoSChainConfigBuilder::new_for_unit_test()
        .targe_limit(Uint256::from_bytes({
            let mut v = ((BigUint::one() << limit) - 1u32).to_bytes_le();
            v.resize(32, 0);
            v.try_into().expect("32 bytes")
        }))
        .block_count_to_average_for_blocktime(5)
        .difficulty_change_limit(PerThousand::new(change).expect("in range"))
        .consensus_version(version)
        .build();
    ConsensusUpgrade::PoS { initial_difficulty: first.map(|b| compress(&(BigUint::one() << b))), config }
}

fn nets() -> &'static Vec<Arc<Net>> {
    static N: OnceLock<Vec<Arc<Net>>> = OnceLock::new();
    N.get_or_init(|| {
        let (v0, v1) = (PoSConsensusVersion::V0, PoSConsensusVersion::V1);
        let work = |shift: u32| ConsensusUpgrade::PoW { initial_difficulty: compress(&(max256() >> shift)) };
        let lists: Vec<(&str, u64, u64, Vec<(u64, ConsensusUpgrade)>)> = vec![
            ("staked", 3, 1, vec![(0, stake(Some(210), 210, 100, v1))]),
            ("staked, steep", 2, 1, vec![(0, stake(Some(211), 212, 400, v1))]),
            ("staked, by balance", 4, 2, vec![(0, stake(Some(209), 210, 200, v0))]),
            ("staked, one block epochs", 1, 1, vec![(0, stake(Some(211), 211, 50, v1))]),
            ("staked, new rules at 4 and 7", 2, 2, vec![
                (0, stake(Some(210), 211, 300, v0)),
                (4, stake(None, 211, 100, v1)),
                (7, stake(Some(209), 210, 200, v1)),
            ]),
            ("free, staked from 3", 2, 1, vec![(0, ConsensusUpgrade::IgnoreConsensus), (3, stake(Some(210), 211, 100, v1))]),
            ("mined, staked from 4", 3, 1, vec![(0, work(1)), (4, stake(Some(210), 211, 100, v1))]),
            ("staked, mined from 5, staked from 8", 3, 1, vec![
                (0, stake(Some(210), 211, 100, v1)),
                (5, work(3)),
                (8, stake(Some(210), 211, 100, v1)),
            ]),
            ("staked, free from 6", 2, 1, vec![(0, stake(Some(210), 211, 100, v1)), (6, ConsensusUpgrade::IgnoreConsensus)]),
        ];
        lists
            .into_iter()
            .map(|(what, epoch, distance, upgrades)| {
                let mut outs = vec![TxOutput::Transfer(OutputValue::Coin(am(1_000_000 * COIN)), Destination::AnyoneCanSpend)];
                let mut pools = vec![];
                for i in 0..3usize {
                    let pool = PoolId::new(H256::repeat_byte(i as u8 + 1));
                    let pledge = (1000 + 700 * i as u128) * COIN;
                    let out = new_pool(pool, i, i, pledge, 20 * i as u16);
                    outs.push(out.clone());
                    pools.push((pool, i, out, pledge));
                }
                let chain = Arc::new(
                    Builder::new(ChainType::Regtest)
                        .consensus_upgrades(
                            NetUpgrades::initialize(upgrades.into_iter().map(|(h, u)| (BlockHeight::new(h), u)).collect()).expect("upgrades"),
                        )
                        .chainstate_upgrades(
                            NetUpgrades::initialize(vec![(BlockHeight::new(0), ChainstateUpgradeBuilder::latest().build())]).expect("upgrades"),
                        )
                        .epoch_length(NonZeroU64::new(epoch).expect("some"))
                        .sealed_epoch_distance_from_tip(distance as usize)
                        .max_depth_for_reorg(BlockDistance::new(1000))
                        .min_stake_pool_pledge(am(1000 * COIN))
                        .max_future_block_time_offset(Some(Duration::from_secs(3600)))
                        .target_block_spacing(Duration::from_secs(SPACING))
                        .genesis_custom(genesis(START, outs))
                        .build(),
                );
                let source = OutPointSourceId::BlockReward(chain.genesis_block_id());
                let root = State {
                    height: 0,
                    times: vec![START],
                    bits: None,
                    pools: pools
                        .into_iter()
                        .map(|(id, i, out, own)| (id, Pool { key: i, vrf: i, kernel: UtxoOutPoint::new(source.clone(), i as u32 + 1), out, own }))
                        .collect(),
                    epochs: BTreeMap::new(),
                    coins: (UtxoOutPoint::new(source.clone(), 0), 1_000_000 * COIN),
                    trust: BigUint::zero(),
                };
                Arc::new(Net { chain, root, epoch, distance, what: what.to_owned() })
            })
            .collect()
    })
}

fn new_pool(id: PoolId, key: usize, vrf: usize, pledge: u128, margin: u16) -> TxOutput {
    TxOutput::CreateStakePool(
        id,
        Box::new(StakePoolData::new(
            am(pledge),
            Destination::PublicKey(make::pool().keys[key].1.clone()),
            make::pool().vrf[vrf].1.clone(),
            Destination::AnyoneCanSpend,
            PerThousand::new(margin).expect("in range"),
            am(u128::from(margin) * COIN),
        )),
    )
}

impl Net {
    fn seed(&self, st: &State, height: u64) -> H256 {
        let own = sealed(height, self.epoch, self.distance).and_then(|e| st.epochs.get(&e).copied());
        own.unwrap_or(self.chain.initial_randomness())
    }

    fn rules(&self, height: u64) -> RequiredConsensus {
        self.chain.consensus_upgrades().consensus_status(BlockHeight::new(height))
    }

    /// The target of the next block, if it needs one.
    fn required(&self, st: &State) -> Option<Compact> {
        let height = st.height + 1;
        let config: PoSChainConfig = match self.rules(height) {
            RequiredConsensus::IgnoreConsensus => return None,
            RequiredConsensus::PoW(PoWStatus::Threshold { initial_difficulty }) => return Some(initial_difficulty),
            RequiredConsensus::PoW(PoWStatus::Ongoing) => {
                return Some(st.bits.unwrap_or_else(|| compress(&big(self.chain.get_proof_of_work_config().limit()))));
            }
            RequiredConsensus::PoS(PoSStatus::Threshold { initial_difficulty: Some(d), .. }) => return Some(d),
            RequiredConsensus::PoS(s) => s.get_chain_config().clone(),
        };
        let limit = big(config.target_limit());
        let Some(prev) = st.bits else { return Some(compress(&limit)) };
        if let RequiredConsensus::PoS(PoSStatus::Threshold { initial_difficulty: Some(d), .. }) = self.rules(st.height) {
            return Some(d);
        }
        let from = average_from(st.height, config.block_count_to_average_for_blocktime());
        let average = (st.times[st.height as usize] - st.times[from as usize]) / (st.height - from);
        let prev = expand(prev).expect("readable");
        Some(compress(&ref_new_target(&prev, average, SPACING, config.difficulty_change_limit().value(), &limit)))
    }

    /// Does the pool win the next block at this time?
    fn wins(&self, g: &mut Gen, st: &State, pool: &PoolId, time: u64) -> Result<bool, String> {
        let height = st.height + 1;
        let RequiredConsensus::PoS(status) = self.rules(height) else { return Err("not staked".into()) };
        let p = &st.pools[pool];
        let weight = match status.get_chain_config().consensus_version() {
            PoSConsensusVersion::V0 => p.own,
            _ => ref_effective(p.own, p.own, crate::c37::final_supply()).map_err(|e| e.to_string())?,
        };
        let hash = hash_of(g, &make::pool().vrf[p.vrf].0, height / self.epoch, &self.seed(st, height), time)?;
        let target = expand(self.required(st).expect("needs one")).ok_or("unreadable target")?;
        Ok(hash <= target * weight)
    }
}

struct Made {
    block: Block,
    /// Refused before its branch is tried.
    plain: bool,
    good: bool,
    name: &'static str,
    state: Option<State>,
}

fn witness(g: &mut Gen, key: usize, inputs: &[TxInput], outs: &[TxOutput], utxos: &[TxOutput]) -> InputWitness {
    let (private, public) = &make::pool().keys[key];
    let s = StandardInputSignature::produce_uniparty_signature_for_input(
        private,
        SigHashType::all(),
        Destination::PublicKey(public.clone()),
        &BlockRewardTransactable::new(Some(inputs), Some(outs), None),
        &make_sighash_input_commitments_for_kernel_input_utxos(utxos),
        0,
        &mut TestRng::new(Seed::from_u64(g.seed())),
    )
    .expect("signs");
    InputWitness::Standard(s)
}

/// The next block on a branch; perhaps with one thing wrong. `others`: states of other branches.
fn next(g: &mut Gen, net: &Net, st: &State, on: Id<GenBlock>, node: &Node, others: &[State], honest: bool) -> Result<Made, String> {
    let height = st.height + 1;
    let last = *st.times.last().expect("some");
    let mut after = st.clone();
    after.height = height;
    // transactions
    let mut txs = vec![];
    let mut fees = 0;
    let mut created = None;
    if g.chance(1, 4) && st.coins.1 > 10_000 * COIN {
        let inputs = vec![TxInput::Utxo(st.coins.0.clone())];
        let pay = u128::from(g.range(0, 30)) * COIN;
        let mut left = st.coins.1 - pay;
        let mut outs = vec![];
        if g.bool() && st.pools.len() < 5 {
            let id = make_pool_id(&inputs).map_err(|e| e.to_string())?;
            let pledge = (1000 + u128::from(g.range(0, 3000))) * COIN;
            let key = g.urange(0, 5);
            left -= pledge;
            let out = new_pool(id, key, key, pledge, g.range(0, 1000) as u16);
            created = Some((id, key, out.clone(), pledge));
            outs.push(out);
        }
        outs.insert(0, TxOutput::Transfer(OutputValue::Coin(am(left)), Destination::AnyoneCanSpend));
        let tx = Transaction::new(0, inputs, outs).expect("makes a transaction");
        let source = OutPointSourceId::Transaction(tx.get_id());
        after.coins = (UtxoOutPoint::new(source.clone(), 0), left);
        if let Some((id, key, out, own)) = created {
            after.pools.insert(id, Pool { key, vrf: key, kernel: UtxoOutPoint::new(source, 1), out, own });
        }
        fees = pay;
        txs.push(SignedTransaction::new(tx, vec![InputWitness::NoSignature(None)]).expect("one witness"));
    }
    let at = |t: u64| BlockTimestamp::from_int_seconds(t);
    let subsidy = net.chain.block_subsidy_at_height(&BlockHeight::new(height)).into_atoms();
    let rules = net.rules(height);
    let required = net.required(st);
    let prev = node.cs.get_gen_block_index_for_any_block(&on).map_err(|e| e.to_string())?.ok_or("no parent")?;
    let ancestor = |of: &BlockIndex, h: BlockHeight| {
        node.cs
            .get_ancestor(&chainstate_types::GenBlockIndex::Block(of.clone()), h)
            .map_err(|e| consensus::ChainstateError::FailedToObtainAncestor(*of.block_id(), h, e.to_string()))
    };
    let finish = |block: Block, mut after: State, name, good: bool, plain: bool, data: Option<Compact>, node: &Node| -> Result<Made, String> {
        let time = block.timestamp().as_int_seconds();
        after.times.push(time);
        after.bits = data;
        let proof = block.header().consensus_data().get_block_proof(at(last), at(time));
        if good {
            after.trust += big(proof.ok_or("a block of no weight")?);
        }
        let _ = node;
        Ok(Made { block, plain, good, name, state: good.then_some(after) })
    };
    let RequiredConsensus::PoS(status) = &rules else {
        let time = last + g.range(1, 200);
        let (data, reward) = match &rules {
            RequiredConsensus::PoW(s) => {
                let input = PoWGenerateBlockInputData::new(Destination::AnyoneCanSpend);
                let (d, r) = generate_pow_consensus_data_and_reward(&net.chain, &prev, at(time), s, ancestor, input, BlockHeight::new(height))
                    .map_err(|e| format!("preparing a mined block: {e}"))?;
                check_eq!(Some(d.bits()), required, "target of the mined block at height {height}");
                (ConsensusData::PoW(Box::new(d)), r)
            }
            _ => generate_consensus_data_and_reward_ignore_consensus(&net.chain, BlockHeight::new(height)).map_err(|e| e.to_string())?,
        };
        let mut block = Block::new(txs, on, at(time), data, reward).expect("makes a block");
        let (mut good, mut name) = (true, "honest");
        if let Some(bits) = required {
            let mut h = block.header().header().clone();
            let stop = Arc::new(utils::atomics::RelaxedAtomicBool::new(false));
            check!(mine(&mut h, 1 << 16, bits, stop).map_err(|e| e.to_string())?.is_success(), "nothing mined");
            if !honest {
                // too little work, or of another kind
                let mut k = 0u128;
                match g.below(3) {
                    0 => {
                        name = "too little work";
                        while k < 1 << 12 {
                            h.update_consensus_data(ConsensusData::PoW(Box::new(common::chain::block::consensus_data::PoWData::new(bits, k))));
                            good = big(Uint256::from(h.get_id().to_hash())) <= expand(bits).expect("readable");
                            if !good {
                                break;
                            }
                            k += 1;
                        }
                    }
                    1 => {
                        name = "another target";
                        good = false;
                        let other = g.pick(&[0x2100ffffu32, 0x20ffffff, 0, 1, 0x207fffff]);
                        let other = if *other == bits.0 { 0x1f00ffff } else { *other };
                        h.update_consensus_data(ConsensusData::PoW(Box::new(common::chain::block::consensus_data::PoWData::new(Compact(other), 0))));
                    }
                    _ => {
                        name = "no work";
                        good = false;
                        h.update_consensus_data(ConsensusData::None);
                    }
                }
            }
            let body = block.body().clone();
            block = Block::new_from_header(h.with_no_signature(), body).expect("makes a block");
        } else if !honest {
            (good, name) = (false, "work where none is asked for");
            let mut h = block.header().header().clone();
            let bits = *g.pick(&[0u32, 1, 0x01000000, 0x2100ffff, 0x207fffff, 0xff000001, 0x04800001]);
            h.update_consensus_data(ConsensusData::PoW(Box::new(common::chain::block::consensus_data::PoWData::new(Compact(bits), 0))));
            let body = block.body().clone();
            block = Block::new_from_header(h.with_no_signature(), body).expect("makes a block");
        }
        let bits = required;
        return finish(block, after, name, good, true, bits, node);
    };
    // a staked block: who and when
    let pools: Vec<PoolId> = st.pools.keys().copied().collect();
    let pool = *g.pick(&pools);
    let mut time = last + g.range(1, 240);
    let mut wins = net.wins(g, st, &pool, time)?;
    for _ in 0..12 {
        if wins {
            break;
        }
        if honest || g.chance(7, 8) {
            time += 1;
            wins = net.wins(g, st, &pool, time)?;
        }
    }
    let p = &st.pools[&pool];
    let epoch = height / net.epoch;
    let seed = net.seed(st, height);
    let required = required.expect("needs one");
    let mut key = p.key;
    let mut shown = required;
    let mut kernel = p.kernel.clone();
    let mut kernel_out = p.out.clone();
    let mut named = pool;
    let mut proof = vrf_of(&make::pool().vrf[p.vrf].0, epoch, &seed, time);
    let mut outs = vec![TxOutput::ProduceBlockFromStake(Destination::PublicKey(make::pool().keys[p.key].1.clone()), pool)];
    let mut kernel_key = p.key;
    let (mut good, mut name, mut plain) = (wins, if wins { "honest" } else { "high hash" }, true);
    let mut unsigned = false;
    if !honest && wins {
        good = false;
        let other = pools.iter().copied().find(|x| *x != pool).expect("more than one");
        match g.below(15) {
            0 => {
                name = "not after its parent";
                time = last;
                proof = vrf_of(&make::pool().vrf[p.vrf].0, epoch, &seed, time);
            }
            1 => {
                name = "another target";
                shown = Compact(if g.bool() { required.0 + 1 } else { required.0 - 1 });
            }
            2 => {
                name = "randomness of another epoch";
                let all: Vec<H256> = st
                    .epochs
                    .values()
                    .copied()
                    .chain([net.chain.initial_randomness()])
                    .chain(others.iter().flat_map(|o| o.epochs.values().copied()))
                    .filter(|x| *x != seed)
                    .collect();
                let s = if all.is_empty() { H256::zero() } else { *g.pick(&all) };
                proof = vrf_of(&make::pool().vrf[p.vrf].0, epoch, &s, time);
            }
            3 => {
                name = "number of another epoch";
                proof = vrf_of(&make::pool().vrf[p.vrf].0, epoch + 1, &seed, time);
            }
            4 => {
                name = "signed by another";
                key = (key + 1) % 6;
            }
            5 => {
                name = "not signed";
                unsigned = true;
            }
            6 => {
                name = "kernel of another pool";
                kernel = st.pools[&other].kernel.clone();
                kernel_out = st.pools[&other].out.clone();
                key = st.pools[&other].key;
                kernel_key = key;
            }
            7 => {
                name = "of another pool";
                named = other;
            }
            8 => {
                name = "kernel of another branch";
                let all: Vec<_> = others.iter().filter_map(|o| o.pools.get(&pool)).filter(|o| o.kernel != kernel).collect();
                if all.is_empty() {
                    kernel = UtxoOutPoint::new(OutPointSourceId::BlockReward(Id::new(H256::zero())), 0);
                } else {
                    let o = *g.pick(&all);
                    kernel = o.kernel.clone();
                    kernel_out = o.out.clone();
                }
            }
            9 => {
                name = "kernel not signed for";
                plain = false;
                kernel_key = (kernel_key + 1) % 6;
            }
            10 => {
                name = "stake moved to another pool";
                plain = false;
                outs = vec![TxOutput::ProduceBlockFromStake(Destination::PublicKey(make::pool().keys[p.key].1.clone()), other)];
            }
            11 => {
                name = "stake moved to another staker";
                plain = false;
                outs = vec![TxOutput::ProduceBlockFromStake(Destination::PublicKey(make::pool().keys[(p.key + 1) % 6].1.clone()), pool)];
            }
            12 => {
                name = "stake doubled";
                plain = false;
                let again = outs[0].clone();
                outs.push(again);
            }
            13 => {
                name = "reward paid out";
                outs.push(TxOutput::LockThenTransfer(
                    OutputValue::Coin(am(subsidy)),
                    Destination::AnyoneCanSpend,
                    common::chain::timelock::OutputTimeLock::ForBlockCount(5000),
                ));
            }
            _ => {
                name = "nothing staked";
            }
        }
    }
    let inputs = vec![TxInput::Utxo(kernel)];
    let made_by_node_code = good && g.chance(1, 3);
    let (data, reward) = if made_by_node_code {
        let input = PoSGenerateBlockInputData::new(
            make::pool().keys[p.key].0.clone(),
            make::pool().vrf[p.vrf].0.clone(),
            pool,
            inputs,
            vec![kernel_out],
        );
        let (d, r) = generate_pos_consensus_data_and_reward(
            &net.chain,
            &prev,
            &input,
            status,
            PoSRandomness::new(seed),
            at(time),
            BlockHeight::new(height),
            ancestor,
            &mut TestRng::new(Seed::from_u64(g.seed())),
        )
        .map_err(|e| format!("preparing a staked block: {e}"))?;
        check_eq!(d.compact_target(), required, "target of the block at height {height}");
        check_eq!(r.outputs(), &outs[..], "reward of a staked block");
        (ConsensusData::PoS(Box::new(d)), r)
    } else if name == "nothing staked" {
        (ConsensusData::None, BlockReward::new(vec![]))
    } else {
        let w = witness(g, kernel_key, &inputs, &outs, &[kernel_out]);
        (ConsensusData::PoS(Box::new(PoSData::new(inputs, vec![w], named, proof, shown))), BlockReward::new(outs))
    };
    let block = Block::new(txs, on, at(time), data, reward.clone()).expect("makes a block");
    let header = if unsigned { block.header().header().clone().with_no_signature() } else { signed(g, &block, key) };
    let body = block.body().clone();
    let block = Block::new_from_header(header, body).expect("makes a block");
    if good {
        let q = after.pools.get_mut(&pool).expect("there");
        q.kernel = UtxoOutPoint::new(OutPointSourceId::BlockReward(block.get_id().into()), 0);
        q.out = reward.outputs()[0].clone();
        q.own += subsidy + fees;
        if (height + 1) % net.epoch == 0 {
            let ConsensusData::PoS(d) = block.consensus_data() else { return Err("not staked".into()) };
            let h = PoSRandomness::from_block(epoch, at(time), &PoSRandomness::new(seed), d.vrf_data(), &make::pool().vrf[st.pools[&pool].vrf].1)
                .map_err(|e| e.to_string())?;
            after.epochs.insert(epoch, h.value());
        }
    }
    finish(block, after, name, good, plain, Some(shown), node)
}

struct Node {
    net: Arc<Net>,
    disk: Disk,
    cs: ChainstateSubsystem,
}

struct Clock;

impl TimeGetterFn for Clock {
    fn get_time(&self) -> Time {
        Time::from_secs_since_epoch(NOW)
    }
}

fn open(net: &Arc<Net>, disk: &Disk) -> Result<ChainstateSubsystem, String> {
    let store = Store::new(disk.clone(), &net.chain).map_err(|e| format!("opening the store: {e}"))?;
    make_chainstate(
        Arc::clone(&net.chain),
        ChainstateConfig::new().with_heavy_checks_enabled(true),
        store,
        DefaultTransactionVerificationStrategy::new(),
        None,
        TimeGetter::new(Arc::new(Clock)),
        None,
    )
    .map_err(|e| format!("opening the node: {e}"))
}

impl Node {
    fn new(net: &Arc<Net>) -> Result<Node, String> {
        let disk = Disk::default();
        let cs = open(net, &disk)?;
        Ok(Node { net: Arc::clone(net), disk, cs })
    }

    fn best(&self) -> Result<Id<GenBlock>, String> {
        self.cs.get_best_block_id().map_err(|e| e.to_string())
    }

    /// The chain's state against the plain one.
    fn compare(&self, st: &State) -> Res {
        for (id, p) in &st.pools {
            let balance = self.cs.get_stake_pool_balance(id).map_err(|e| e.to_string())?;
            check_eq!(balance.map(|b| b.into_atoms()), Some(p.own), "balance of a pool");
            let data = self.cs.get_stake_pool_data(id).map_err(|e| e.to_string())?.ok_or("a pool is missing")?;
            check_eq!(data.staker_balance().map_err(|e| e.to_string())?.into_atoms(), p.own, "what a pool's owner has in it");
            let u = self.cs.utxo(&p.kernel).map_err(|e| e.to_string())?.ok_or("a stake is missing")?;
            check_eq!(u.output(), &p.out, "a stake");
        }
        for e in 0..=st.height / self.net.epoch + 2 {
            let last = (e + 1) * self.net.epoch - 1;
            let got = self.cs.get_epoch_data(e).map_err(|e| e.to_string())?.map(|d| d.randomness().value());
            // what is kept about an epoch that is not over does not matter
            if last > st.height {
                continue;
            } else if let Some(want) = st.epochs.get(&e) {
                check_eq!(got, Some(*want), "randomness of epoch {e}");
            } else {
                check!(got.is_none() || got == Some(self.net.chain.initial_randomness()), "randomness of epoch {e}, which did not end with stake");
            }
        }
        Ok(())
    }

    fn trust(&self, id: &Id<GenBlock>) -> Result<BigUint, String> {
        let i = self.cs.get_gen_block_index_for_any_block(id).map_err(|e| e.to_string())?.ok_or("unknown block")?;
        Ok(big(i.chain_trust()))
    }

    fn tables(&self) -> BTreeMap<String, Arc<BTreeMap<Vec<u8>, Vec<u8>>>> {
        let skip = ["DBValue", "DBBlock", "DBBlockIndex", "DBAccountingEpochDelta", "DBAccountingEpochDeltaUndo", "DBEpochData"];
        self.disk.names().into_iter().filter(|n| !skip.contains(&n.as_str())).map(|n| (n.clone(), self.disk.table(&n))).collect()
    }
}

pub fn staked_chain(g: &mut Gen) -> Res {
    let net = g.pick(nets()).clone();
    note!(g, "{}", net.what);
    let mut node = Node::new(&net)?;
    let root = net.chain.genesis_block_id();
    let mut known: BTreeMap<Id<GenBlock>, (Option<Id<GenBlock>>, State)> = [(root, (None, net.root.clone()))].into();
    let mut order = vec![root];
    let mut best = root;
    let mut failed: BTreeSet<Id<GenBlock>> = BTreeSet::new();
    let (mut reorgs, mut refused, mut grown) = (0, 0, 0);
    let steps = g.len(6, 26);
    let path = |known: &BTreeMap<Id<GenBlock>, (Option<Id<GenBlock>>, State)>, id: &Id<GenBlock>| {
        let mut v = vec![*id];
        while let Some(p) = known[v.last().expect("some")].0 {
            v.push(p);
        }
        v
    };
    for _ in 0..steps {
        if g.chance(1, 16) {
            drop(node.cs);
            node.cs = open(&net, &node.disk)?;
            check_eq!(node.best()?, best, "best block after a restart");
            node.compare(&known[&best].1)?;
        }
        if g.chance(1, 14) && best != root {
            // declare a block of the best chain bad, and perhaps good again
            let main = path(&known, &best);
            let bad = main[g.urange(0, main.len() - 2)];
            note!(g, "declare {bad} bad");
            let block: Id<Block> = bad.classify(&net.chain).chain_block_id().ok_or("not a block")?;
            node.cs.invalidate_block(&block).map_err(|e| format!("declaring a block bad: {e}"))?;
            let gone: Vec<_> = known.keys().filter(|k| path(&known, k).contains(&bad)).copied().collect();
            failed.extend(gone);
            best = node.best()?;
            let top = known.iter().filter(|(k, _)| !failed.contains(k)).map(|(_, s)| s.1.trust.clone()).max().expect("genesis");
            check!(!failed.contains(&best), "the best block is bad");
            check_eq!(known.get(&best).map(|s| s.1.trust.clone()), Some(top), "trust of the best chain without the bad one");
            node.compare(&known[&best].1)?;
            if g.bool() {
                node.cs.reset_block_failure_flags(&block).map_err(|e| format!("declaring a block good: {e}"))?;
                let back: Vec<_> = failed.iter().filter(|k| path(&known, k).contains(&bad)).copied().collect();
                for b in back {
                    failed.remove(&b);
                }
                best = node.best()?;
                let top = known.iter().filter(|(k, _)| !failed.contains(k)).map(|(_, s)| s.1.trust.clone()).max().expect("genesis");
                check_eq!(known.get(&best).map(|s| s.1.trust.clone()), Some(top), "trust of the best chain with the block that is good again");
                node.compare(&known[&best].1)?;
            }
        }
        let on = match g.below(8) {
            0 | 1 => {
                let all: Vec<_> = order.iter().filter(|x| !failed.contains(x)).copied().collect();
                *g.pick(&all)
            }
            2 | 3 => {
                // a high one
                let mut all: Vec<_> = known.iter().filter(|x| !failed.contains(x.0)).map(|(k, s)| (s.1.height, *k)).collect();
                all.sort();
                all[all.len().saturating_sub(g.urange(1, 4))].1
            }
            _ => best,
        };
        let honest = g.chance(2, 3);
        let st = known[&on].1.clone();
        let others: Vec<State> = {
            let on_path = path(&known, &on);
            known.iter().filter(|(k, _)| !on_path.contains(k)).map(|(_, s)| s.1.clone()).collect()
        };
        let made = next(g, &net, &st, on, &node, &others, honest)?;
        let id: Id<GenBlock> = made.block.get_id().into();
        if known.contains_key(&id) {
            continue;
        }
        g.tag(made.name);
        note!(g, "{} {id} at height {} on {on}", made.name, st.height + 1);
        let got = node.cs.process_block(made.block.clone(), BlockSource::Local);
        let shown = match &got {
            Ok(x) => format!("accepted ({:?})", x.as_ref().map(|i| *i.block_id())),
            Err(e) => format!("refused: {e}"),
        };
        if let Some(next) = made.state.filter(|_| made.good) {
            check!(got.is_ok(), "{} block at height {}: {shown}", made.name, st.height + 1);
            check_eq!(node.trust(&id)?, next.trust, "trust of the block");
            check!(next.trust > st.trust, "no trust gained");
            let better = next.trust > known[&best].1.trust;
            check_eq!(got.as_ref().is_ok_and(|x| x.is_some()), better, "whether the block is the new best one");
            known.insert(id, (Some(on), next));
            order.push(id);
            if better {
                reorgs += u32::from(on != best);
                grown += 1;
                best = id;
            }
        } else {
            refused += 1;
            if made.plain {
                check!(got.is_err(), "block ({}) at height {}: {shown}", made.name, st.height + 1);
            } else {
                check!(!matches!(got, Ok(Some(_))), "block ({}) at height {}: {shown}", made.name, st.height + 1);
            }
        }
        check_eq!(node.best()?, best, "best block after one that was {shown} ({})", made.name);
        node.compare(&known[&best].1)?;
    }
    // a node that saw nothing but the best chain
    let mut straight = Node::new(&net)?;
    for id in path(&known, &best).into_iter().rev().skip(1) {
        let b: Id<Block> = id.classify(&net.chain).chain_block_id().ok_or("not a block")?;
        let raw = node.disk.table("DBBlock").get(&b.encode()).cloned().ok_or("a block is missing")?;
        let block = Block::decode_all(&mut &raw[..]).map_err(|e| format!("unreadable block: {e}"))?;
        let r = straight.cs.process_block(block, BlockSource::Local).map_err(|e| format!("a block of the best chain alone: {e}"))?;
        check!(r.is_some(), "a block of the best chain alone is not the best");
    }
    check_eq!(straight.best()?, best, "best block of a node that saw only the best chain");
    let (a, b) = (node.tables(), straight.tables());
    for (n, x) in &a {
        check!(x == &b[n], "table {n} differs from that of a node that saw only the best chain");
    }
    g.tag_if(reorgs > 0, "reorganised");
    g.nontrivial_if(grown >= 3 && (refused > 0 || reorgs > 0));
    Ok(())
}
