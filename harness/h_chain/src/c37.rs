//! Proof of stake and proof of work: targets, stake, work and what blocks must show.
use chainstate_types::{
    pos_randomness::PoSRandomness, storage_result, vrf_tools::construct_transcript, BlockIndex, BlockIndexHandle, BlockStatus, EpochData,
    EpochStorageRead, GenBlockIndex, PropertyQueryError,
};
use common::{
    chain::{
        block::{
            consensus_data::{PoSData, PoWData},
            signed_block_header::{BlockHeaderSignature, BlockHeaderSignatureData, SignedBlockHeader},
            timestamp::BlockTimestamp,
            BlockReward, ConsensusData,
        },
        config::{Builder, ChainType},
        Block, ChainConfig, ChainstateUpgradeBuilder, ConsensusUpgrade, DelegationId, Destination, GenBlock, Genesis, NetUpgrades,
        OutPointSourceId, PoSChainConfig, PoSChainConfigBuilder, PoSConsensusVersion, PoSStatus, PoWStatus,
        PoolIdMismatchInKernelUtxoAndPoSDataForbidden, PoolId, RequiredConsensus, TxInput, TxOutput, UtxoOutPoint,
    },
    primitives::{per_thousand::PerThousand, Amount, BlockHeight, Compact, Id, Idable, H256},
    Uint256,
};
use consensus::{
    calc_and_check_pos_hash, calc_pos_hash_from_prv_key, calculate_effective_pool_balance, calculate_target_required,
    calculate_target_required_from_block_index, calculate_work_required, check_pos_hash, check_proof_of_work, find_timestamp_for_staking, mine,
    validate_consensus, EffectivePoolBalanceError,
};
use crypto::vrf::{VRFPrivateKey, VRFReturn};
use gens::make;
use num::{bigint::BigUint, One, ToPrimitive, Zero};
use pbt::{check, check_eq, facet, no_panic, note, Gen, Property, Res};
use pos_accounting::{DelegationData, PoSAccountingView, PoolData};
use serialization::Encode;
use std::{
    cell::Cell,
    collections::BTreeMap,
    num::NonZeroU64,
    sync::Arc,
    time::Duration,
};
use test_utils::random::{Seed, TestRng};
use utxo::{Utxo, UtxosView};

pub const P: Property = Property {
    id: "C37",
    rule: "Targets, balances, hashes and times at and around the limits of the rules, chains of blocks with chosen times and \
           targets, and staked, mined and free chains with branches, given to a node. Non-trivial: both the formula and its limits \
           take part, or the block is accepted, or it differs from an acceptable one in one thing.",
    facets: &[
        facet("stake_hash", 120_000, stake_hash),
        facet("effective", 150_000, effective),
        facet("pos_target", 25_000, pos_target),
        facet("pow_target", 60_000, pow_target),
        facet("work", 200_000, work),
        facet("validate", 8_000, validate),
        facet("staked_chain", 900, crate::c37_chain::staked_chain),
    ],
    assumptions: &[
        "The schnorrkel VRF makes the output unique for a key and a transcript (C08 checks what can be checked from outside).",
        "Sealed epochs lie at least one epoch behind the tip, as on all public networks.",
    ],
};

pub fn big(u: Uint256) -> BigUint {
    BigUint::from_bytes_le(&u.to_bytes())
}

pub fn small(b: &BigUint) -> Option<Uint256> {
    let mut v = b.to_bytes_le();
    (v.len() <= 32).then(|| {
        v.resize(32, 0);
        Uint256::from_bytes(v.try_into().expect("32 bytes"))
    })
}

pub fn max256() -> BigUint {
    (BigUint::one() << 256u32) - 1u32
}

/// Target that a compact form stands for.
pub fn expand(c: Compact) -> Option<BigUint> {
    let (e, m) = (c.0 >> 24, c.0 & 0x7f_ffff);
    let word = if e <= 3 { m >> (8 * (3 - e)) } else { m };
    let v = if e <= 3 { BigUint::from(word) } else { BigUint::from(m) << (8 * (e - 3)) };
    ((word == 0 || c.0 & 0x80_0000 == 0) && v.bits() <= 256).then_some(v)
}

pub fn compress(v: &BigUint) -> Compact {
    let mut size = v.bits().div_ceil(8) as u32;
    let mut m: u64 = if size <= 3 {
        v.to_u64().expect("short") << (8 * (3 - size))
    } else {
        (v >> (8 * (size - 3))).to_u64().expect("short")
    };
    if m & 0x80_0000 != 0 {
        m >>= 8;
        size += 1;
    }
    Compact(m as u32 | (size << 24))
}

/// A number of up to 256 bits, often with few digits or at an edge.
fn number(g: &mut Gen, bits: u32) -> BigUint {
    let b = g.range(0, u64::from(bits)) as u32;
    let v = match g.below(4) {
        0 => BigUint::one() << b,
        1 => BigUint::one() << b.saturating_sub(1),
        2 => (BigUint::one() << b) - 1u32,
        _ => BigUint::from_bytes_le(&g.bytes_exact(32)) >> (256 - b),
    };
    v.min((BigUint::one() << bits) - 1u32)
}

fn nudge(g: &mut Gen, v: &BigUint) -> BigUint {
    match g.below(4) {
        0 => v + 1u32,
        1 if !v.is_zero() => v - 1u32,
        _ => v.clone(),
    }
}

fn am(a: u128) -> Amount {
    Amount::from_atoms(a)
}

/// What a pool counts for: its balance, capped, less what its pledge falls short of.
pub fn ref_effective(pledge: u128, balance: u128, supply: u128) -> Result<u128, EffectivePoolBalanceError> {
    if supply == 0 {
        return Err(EffectivePoolBalanceError::FinalSupplyZero);
    }
    if balance >= supply {
        return Err(EffectivePoolBalanceError::PoolBalanceGreaterThanSupply(am(balance), am(supply)));
    }
    if pledge > balance {
        return Err(EffectivePoolBalanceError::PoolPledgeGreaterThanBalance(am(pledge), am(balance)));
    }
    let cap = supply / 1000;
    if cap == 0 {
        return Err(EffectivePoolBalanceError::ArithmeticError);
    }
    let (sigma, s) = (BigUint::from(balance.min(cap)), BigUint::from(pledge.min(cap)));
    let z = BigUint::from(cap);
    let gap = &sigma * &z * &z - &s * (&z * &sigma - &s * (&z - &sigma));
    let short = gap * 75_375_728u64 / (1_075_375_728u64 * &z * &z);
    Ok(balance.min(cap) - short.to_u128().expect("no more than the balance"))
}

pub fn final_supply() -> u128 {
    // 400 million at first; every two minutes 202, 151, 113, 85, 64, 48, 36, 27, 20 and 15 more in the years that follow
    let blocks = 365 * 24 * 30;
    let coins: u128 = 400_000_000 + blocks * [202, 151, 113, 85, 64, 48, 36, 27, 20, 15].iter().sum::<u128>();
    coins * 100_000_000_000
}

/// A pledge, the balance it is part of, and the supply that is part of; mostly.
fn holdings(g: &mut Gen) -> (u128, u128, u128) {
    let supply = match g.below(4) {
        0 => final_supply(),
        1 => g.uint(80),
        2 => g.uint(90),
        _ => g.uint(128),
    };
    let cap = supply / 1000;
    let part = |g: &mut Gen, of: u128| match g.below(6) {
        0 => of,
        1 => of.saturating_sub(1),
        2 => of.saturating_add(1),
        3 => of / 2,
        4 => of / 1000 * u128::from(g.range(0, 1000)),
        _ => {
            let n = g.below(64) as u32;
            of >> n
        }
    };
    let balance = match g.below(8) {
        0 => part(g, supply),
        1 | 2 => part(g, cap.saturating_mul(2)),
        _ => part(g, cap),
    };
    let of = if g.chance(1, 4) { cap } else { balance };
    let pledge = part(g, of);
    let pledge = if g.chance(1, 12) { pledge } else { pledge.min(balance) };
    (pledge, balance, supply)
}

/// Whether plain 256-bit arithmetic suffices.
fn fits(balance: u128, supply: u128) -> bool {
    let z = BigUint::from(supply / 1000);
    (BigUint::from(balance).min(z.clone()) * &z * &z * 75_375_728u64).bits() <= 256
}

fn effective(g: &mut Gen) -> Res {
    let (pledge, balance, supply) = holdings(g);
    note!(g, "pledge {pledge}, balance {balance}, supply {supply}");
    let want = ref_effective(pledge, balance, supply);
    let got = calculate_effective_pool_balance(am(pledge), am(balance), am(supply)).map(|a| a.into_atoms());
    if !fits(balance, supply) && want.is_ok() {
        g.tag("too big");
        check!(got == want || got == Err(EffectivePoolBalanceError::ArithmeticError), "effective balance {got:?} instead of {want:?}");
        return Ok(());
    }
    check_eq!(got, want, "effective balance");
    let Ok(e) = got else {
        g.tag("refused");
        return Ok(());
    };
    check!(e <= balance && e <= supply / 1000, "effective balance beyond the balance or the cap");
    g.tag(if balance >= supply / 1000 { "saturated" } else { "below the cap" });
    g.nontrivial_if(e > 0);
    // more of the same never counts less
    let more = balance.saturating_add(g.uint(70)).min(supply - 1);
    if let Ok(f) = calculate_effective_pool_balance(am(pledge), am(more), am(supply)) {
        check!(f.into_atoms() >= e, "a balance of {more} counts less: {f:?} instead of {e}");
    }
    Ok(())
}

fn stake_hash(g: &mut Gen) -> Res {
    let (pledge, balance, supply) = holdings(g);
    let target = number(g, 256);
    let version = if g.bool() { PoSConsensusVersion::V1 } else { PoSConsensusVersion::V0 };
    let weight = match version {
        PoSConsensusVersion::V0 => Ok(balance),
        _ => calculate_effective_pool_balance(am(pledge), am(balance), am(supply)).map(|a| a.into_atoms()),
    };
    let limit = weight.clone().ok().map(|w| &target * w);
    let at = limit.clone().filter(|l| *l <= max256()).unwrap_or_else(|| number(g, 256));
    let hash = nudge(g, &at).min(max256());
    note!(g, "{version:?}, target {target:#x}, pledge {pledge}, balance {balance}, supply {supply}, hash {hash:#x}");
    let want = limit.as_ref().is_some_and(|l| hash <= *l);
    let go = |h: &BigUint, t: &BigUint, b: u128| {
        check_pos_hash(version, &small(h).expect("fits"), &small(t).expect("fits"), am(pledge), am(b), am(supply))
    };
    let got = go(&hash, &target, balance);
    check_eq!(got.is_ok(), want, "hash within stake times target");
    g.tag(if want { "wins" } else { "loses" });
    g.nontrivial_if(limit.is_some_and(|l| l <= max256() && !l.is_zero()));
    if want {
        // easier never loses
        let lower = if hash.is_zero() { hash.clone() } else { &hash - 1u32 };
        check!(go(&lower, &target, balance).is_ok(), "a lower hash loses");
        check!(go(&hash, &(&target + 1u32).min(max256()), balance).is_ok(), "a higher target loses");
        let more = balance.saturating_add(g.uint(60));
        if version == PoSConsensusVersion::V0 || (more < supply && fits(more, supply)) {
            check!(go(&hash, &target, more).is_ok(), "a higher balance loses");
        }
    }
    Ok(())
}

// --- chains of made up blocks

/// Blocks on top of each other and what is asked about them.
pub struct Line {
    pub chain: Arc<ChainConfig>,
    pub blocks: Vec<BlockIndex>,
}

impl Line {
    fn gen(&self, height: u64) -> Option<GenBlockIndex> {
        match height {
            0 => Some(GenBlockIndex::Genesis(Arc::clone(self.chain.genesis_block()))),
            h => self.blocks.get(h as usize - 1).cloned().map(GenBlockIndex::Block),
        }
    }
    fn tip(&self) -> GenBlockIndex {
        self.gen(self.blocks.len() as u64).expect("there")
    }
    fn push(&mut self, time: u64, data: ConsensusData) {
        let height = self.blocks.len() as u64 + 1;
        let prev = self.tip().block_id();
        let block = Block::new(vec![], prev, BlockTimestamp::from_int_seconds(time), data, BlockReward::new(vec![])).expect("makes a block");
        self.blocks.push(index(&block, height));
    }
}

fn index(block: &Block, height: u64) -> BlockIndex {
    BlockIndex::new(block, Uint256::from_u64(1), block.prev_block_id(), BlockHeight::new(height), block.timestamp(), 0, BlockStatus::new())
}

impl BlockIndexHandle for Line {
    fn get_block_index(&self, id: &Id<Block>) -> Result<Option<BlockIndex>, PropertyQueryError> {
        Ok(self.blocks.iter().find(|b| b.block_id() == id).cloned())
    }
    fn get_gen_block_index(&self, id: &Id<GenBlock>) -> Result<Option<GenBlockIndex>, PropertyQueryError> {
        Ok((0..=self.blocks.len() as u64).filter_map(|h| self.gen(h)).find(|b| b.block_id() == *id))
    }
    fn get_ancestor(&self, of: &BlockIndex, height: BlockHeight) -> Result<GenBlockIndex, PropertyQueryError> {
        let known = of.block_height() >= height && self.blocks.iter().any(|b| b.block_id() == of.block_id());
        self.gen(height.into_int()).filter(|_| known).ok_or(PropertyQueryError::BlockNotFound(*of.block_id()))
    }
    fn get_block_reward(&self, _: &BlockIndex) -> Result<Option<BlockReward>, PropertyQueryError> {
        Ok(None)
    }
}

pub fn genesis(time: u64, outs: Vec<TxOutput>) -> Genesis {
    Genesis::new("stake".to_owned(), BlockTimestamp::from_int_seconds(time), outs)
}

fn pos_data(bits: Compact) -> ConsensusData {
    ConsensusData::PoS(Box::new(PoSData::new(vec![], vec![], PoolId::new(H256::zero()), make::pool().vrf_returns[0].clone(), bits)))
}

/// The target after blocks whose average time was `average`.
pub fn ref_new_target(prev: &BigUint, average: u64, spacing: u64, change: u16, limit: &BigUint) -> BigUint {
    let step = prev * change / 1000u32;
    let new = prev * average.max(1) / spacing;
    let new = new.clamp(prev - &step, prev + &step);
    if new > max256() { limit.clone() } else { new.min(limit.clone()) }
}

/// Number of the block (from 0 for genesis) from which on times are averaged.
pub fn average_from(height: u64, count: usize) -> u64 {
    height.saturating_sub(count as u64 - 1)
}

fn pos_target(g: &mut Gen) -> Res {
    let count = g.range(2, 8) as usize;
    let change = *g.pick(&[0u16, 1, 1, 10, 100, 999, 1000]);
    let spacing = *g.pick(&[1u64, 2, 60, 120, 120, 1000]);
    let limit = number(g, 256);
    let config = PoSChainConfigBuilder::new_for_unit_test()
        .targe_limit(small(&limit).expect("fits"))
        .block_count_to_average_for_blocktime(count)
        .difficulty_change_limit(PerThousand::new(change).expect("in range"))
        .build();
    // when the rules start and whether with a target of their own
    let n = g.range(0, 12);
    let mut upgrades = vec![];
    let mut starts: BTreeMap<u64, Option<Compact>> = BTreeMap::new();
    for i in 0..g.range(1, 3) {
        let at = if i == 0 { 0 } else { g.range(1, 12) };
        let first = g.chance(2, 3).then(|| compress(&number(g, 256)));
        if starts.insert(at, first).is_none() {
            upgrades.push((BlockHeight::new(at), ConsensusUpgrade::PoS { initial_difficulty: first, config: config.clone() }));
        } else {
            starts.insert(at, upgrades.iter().find_map(|(h, u)| match u {
                ConsensusUpgrade::PoS { initial_difficulty, .. } if h.into_int() == at => Some(*initial_difficulty),
                _ => None,
            }).expect("there"));
        }
    }
    let start = g.range(0, 1000);
    let chain = Arc::new(
        Builder::new(ChainType::Regtest)
            .consensus_upgrades(NetUpgrades::initialize(upgrades).expect("upgrades"))
            .target_block_spacing(Duration::from_secs(spacing))
            .genesis_custom(genesis(start, vec![]))
            .build(),
    );
    let mut line = Line { chain: Arc::clone(&chain), blocks: vec![] };
    let mut times = vec![start];
    let mut bits = vec![Compact(0)];
    let backwards = g.chance(1, 20);
    let huge = g.chance(1, 8);
    for h in 1..=n {
        let last = *times.last().expect("some");
        let gap = match g.below(5) {
            0 => 0,
            1 => spacing,
            2 => g.range(0, spacing * 2),
            3 => g.range(spacing.saturating_sub(1), spacing + 1),
            _ => g.uint(if huge { 58 } else { 20 }) as u64,
        };
        let t = if backwards && g.chance(1, 3) { last.saturating_sub(gap) } else { last.saturating_add(gap) };
        // mostly what was due
        let b = match g.below(4) {
            0 => Compact(g.u32()),
            1 => compress(&number(g, 256)),
            2 => compress(&limit),
            _ => due(&chain, &starts, &config, &line, &times, &bits).flatten().unwrap_or(Compact(0)),
        };
        line.push(t, pos_data(b));
        times.push(t);
        bits.push(b);
        let _ = h;
    }
    note!(g, "times {times:?}, targets {bits:x?}, starts {starts:x?}, average of {count}, change {change}, spacing {spacing}, limit {limit:#x}");
    let want = due(&chain, &starts, &config, &line, &times, &bits);
    let next = BlockHeight::new(n + 1);
    let RequiredConsensus::PoS(status) = chain.consensus_upgrades().consensus_status(next) else {
        return Err("not a staked height".into());
    };
    check_eq!(
        matches!(&status, PoSStatus::Threshold { .. }),
        starts.contains_key(&(n + 1)),
        "whether new rules start at height {}",
        n + 1
    );
    let tip = line.tip();
    let a = calculate_target_required(&chain, &status, tip.block_id(), &line);
    let asked = Cell::new(None);
    let b = calculate_target_required_from_block_index(&chain, &status, &tip, |of, h| {
        asked.set(Some(h.into_int()));
        line.get_ancestor(of, h)
            .map_err(|e| consensus::ChainstateError::FailedToObtainAncestor(*of.block_id(), h, e.to_string()))
    });
    check_eq!(a.is_ok(), b.is_ok(), "two ways to the same target");
    let got = a.as_ref().ok().copied();
    check_eq!(got, b.ok(), "two ways to the same target");
    check_eq!(got, want.flatten(), "target required at height {}: {a:?}", n + 1);
    if let Some(h) = asked.get() {
        check_eq!(h, average_from(n, count), "where averaging starts");
    }
    if let (Some(got), Some(prev)) = (got, bits.last().filter(|_| asked.get().is_some()).and_then(|b| expand(*b))) {
        let new = expand(got).ok_or("the target cannot be read")?;
        check!(new <= limit, "target above the limit");
        let step = &prev * change / 1000u32;
        check!(new <= &prev + &step, "target grew too fast");
        // the stored form keeps the leading bits only
        let lowest = compress(&(&prev - &step).min(limit.clone()));
        check!(new >= expand(lowest).expect("readable"), "target shrank too fast");
        let from = average_from(n, count);
        let average = (times[n as usize] - times[from as usize]) / (n - from);
        g.tag(match average.cmp(&spacing) {
            std::cmp::Ordering::Less => "too fast",
            std::cmp::Ordering::Equal => "just right",
            std::cmp::Ordering::Greater => "too slow",
        });
        if average <= spacing {
            check!(new <= prev, "blocks came fast, and it became easier");
        }
        if average >= spacing && prev <= limit {
            check!(new >= expand(compress(&prev)).expect("readable"), "blocks came slowly, and it became harder");
        }
        g.nontrivial_if(average != spacing && step > BigUint::zero());
    }
    Ok(())
}

/// The target due after the blocks of a line; `Some(None)`: none can be told.
fn due(
    _chain: &ChainConfig,
    starts: &BTreeMap<u64, Option<Compact>>,
    config: &PoSChainConfig,
    line: &Line,
    times: &[u64],
    bits: &[Compact],
) -> Option<Option<Compact>> {
    let n = line.blocks.len() as u64;
    let limit = big(config.target_limit());
    if let Some(Some(first)) = starts.get(&(n + 1)) {
        return Some(Some(*first));
    }
    if n == 0 {
        return Some(Some(compress(&limit)));
    }
    if let Some(Some(first)) = starts.get(&n) {
        return Some(Some(*first));
    }
    let prev = match expand(bits[n as usize]) {
        Some(p) => p,
        None => return Some(None),
    };
    let from = average_from(n, config.block_count_to_average_for_blocktime());
    if from == n || times[n as usize] < times[from as usize] {
        return Some(None);
    }
    let average = (times[n as usize] - times[from as usize]) / (n - from);
    let spacing = _chain.target_block_spacing().as_secs();
    Some(Some(compress(&ref_new_target(&prev, average, spacing, config.difficulty_change_limit().value(), &limit))))
}

// --- work

fn pow_nets() -> &'static Vec<Arc<ChainConfig>> {
    static N: std::sync::OnceLock<Vec<Arc<ChainConfig>>> = std::sync::OnceLock::new();
    N.get_or_init(|| {
        let mut v = vec![];
        for ty in [ChainType::Mainnet, ChainType::Testnet, ChainType::Signet, ChainType::Regtest] {
            for first in [None, Some(BigUint::one() << 200u32), Some(max256())] {
                let upgrades = match &first {
                    None => vec![(BlockHeight::new(0), ConsensusUpgrade::IgnoreConsensus)],
                    Some(f) => vec![(BlockHeight::new(0), ConsensusUpgrade::PoW { initial_difficulty: compress(f) })],
                };
                v.push(Arc::new(
                    Builder::new(ty)
                        .consensus_upgrades(NetUpgrades::initialize(upgrades).expect("upgrades"))
                        .checkpoints(BTreeMap::new())
                        .genesis_custom(genesis(0, vec![]))
                        .build(),
                ));
            }
        }
        v
    })
}

const PERIOD: u64 = 2016;
const FORTNIGHT: u64 = 14 * 24 * 60 * 60;

fn pow_target(g: &mut Gen) -> Res {
    let chain = g.pick(pow_nets()).clone();
    let limit = big(chain.get_proof_of_work_config().limit());
    let first = match chain.consensus_upgrades().consensus_status(BlockHeight::zero()) {
        RequiredConsensus::PoW(PoWStatus::Threshold { initial_difficulty }) => Some(initial_difficulty),
        _ => None,
    };
    match (first, chain.chain_type()) {
        (Some(f), _) => check_eq!(Some(limit.clone()), expand(f), "limit of a network that starts with work"),
        (None, ChainType::Mainnet | ChainType::Testnet) => check_eq!(limit, (BigUint::one() << 224u32) - 1u32, "limit"),
        (None, ChainType::Signet) => check_eq!(compress(&limit), Compact(0x1e0377ae), "limit"),
        (None, ChainType::Regtest) => check_eq!(limit, (BigUint::one() << 255u32) - 1u32, "limit"),
    }
    let height = match g.below(4) {
        0 => {
            let top = g.range(1, 20);
            PERIOD * g.range(1, 1 << top) - 1
        }
        1 => PERIOD * g.range(1, 9) - g.range(0, 3),
        _ => g.range(1, 100_000),
    };
    let prev_time = g.range(100_000_000, 5_000_000_000);
    let span = match g.below(6) {
        0 => FORTNIGHT,
        1 => FORTNIGHT * 4 + g.range(0, 2) - 1,
        2 => FORTNIGHT / 4 + g.range(0, 2) - 1,
        3 => g.range(0, FORTNIGHT * 5),
        4 => g.range(0, 1000),
        _ => g.range(FORTNIGHT - 10_000, FORTNIGHT + 10_000),
    };
    // blocks of a branch need not come in order
    let before = g.chance(1, 20);
    let old_time = if before { prev_time + g.range(1, 10_000) } else { prev_time.saturating_sub(span) };
    let new_time = match g.below(3) {
        0 => prev_time + 1200 + g.range(0, 2) - 1,
        1 => prev_time + g.range(0, 4000),
        _ => prev_time - g.range(0, 4000),
    };
    let bits = match g.below(6) {
        0 => Compact(g.u32()),
        1 => compress(&limit),
        2 => compress(&nudge(g, &limit).min(max256())),
        _ => {
            let top = limit.bits() as u32;
            compress(&number(g, top))
        }
    };
    let due = (height + 1) % PERIOD == 0;
    note!(g, "{:?} {first:x?}, height {height}, times {old_time} {prev_time} {new_time}, {bits:x?}", chain.chain_type());
    let block = Block::new(
        vec![],
        Id::new(make::hash(g)),
        BlockTimestamp::from_int_seconds(prev_time),
        ConsensusData::PoW(Box::new(PoWData::new(bits, 0))),
        BlockReward::new(vec![]),
    )
    .expect("makes a block");
    let prev = GenBlockIndex::Block(index(&block, height));
    let old = Block::new(
        vec![],
        Id::new(make::hash(g)),
        BlockTimestamp::from_int_seconds(old_time),
        ConsensusData::PoW(Box::new(PoWData::new(bits, 1))),
        BlockReward::new(vec![]),
    )
    .expect("makes a block");
    let asked = Cell::new(None);
    let ancestor = |of: &BlockIndex, h: BlockHeight| {
        assert_eq!(*of.block_id(), block.get_id(), "the ancestor of another block");
        asked.set(Some(h.into_int()));
        Ok(GenBlockIndex::Block(index(&old, h.into_int())))
    };
    let at = BlockTimestamp::from_int_seconds(new_time);
    let start = Compact(g.u32());
    check_eq!(
        calculate_work_required(&chain, &prev, at, &PoWStatus::Threshold { initial_difficulty: start }, ancestor),
        Ok(start),
        "target where new rules start"
    );
    let root = GenBlockIndex::Genesis(Arc::clone(chain.genesis_block()));
    check_eq!(calculate_work_required(&chain, &root, at, &PoWStatus::Ongoing, ancestor), Ok(compress(&limit)), "target of the first block");
    let got = no_panic(|| calculate_work_required(&chain, &prev, at, &PoWStatus::Ongoing, ancestor))?;
    let lenient = matches!(chain.chain_type(), ChainType::Testnet | ChainType::Regtest);
    let want = if *chain.chain_type() == ChainType::Regtest {
        g.tag("fixed");
        Some(bits)
    } else if due {
        g.tag(if before { "times out of order" } else { "retarget" });
        let took = prev_time.saturating_sub(old_time).clamp(FORTNIGHT / 4, FORTNIGHT * 4);
        expand(bits).map(|o| {
            let full = o * took;
            compress(&(if full > max256() { max256() } else { full } / FORTNIGHT).min(limit.clone()))
        })
    } else if lenient && new_time > prev_time + 1200 {
        g.tag("stalled");
        Some(compress(&limit))
    } else {
        g.tag("same");
        Some(bits)
    };
    check_eq!(got.as_ref().ok().copied(), want, "target: {got:?}");
    check_eq!(asked.get(), (due && *chain.chain_type() != ChainType::Regtest).then(|| height - (PERIOD - 1)), "first block of the period");
    g.nontrivial_if(due || got.ok() != Some(bits));
    Ok(())
}

fn work(g: &mut Gen) -> Res {
    match g.below(3) {
        0 => {
            // does a hash suffice?
            let bits = if g.bool() { Compact(g.u32()) } else { compress(&number(g, 256)) };
            let target = expand(bits);
            let hash = match &target {
                Some(t) if g.chance(3, 4) => nudge(g, t).min(max256()),
                _ => number(g, 256),
            };
            note!(g, "{bits:x?}, hash {hash:#x}");
            let mut raw = hash.to_bytes_le();
            raw.resize(32, 0);
            let got = check_proof_of_work(H256::from_slice(&raw), bits);
            check_eq!(got.ok(), target.as_ref().map(|t| hash <= *t), "work suffices");
            g.tag("hash");
            g.nontrivial_if(target.is_some());
        }
        1 => {
            // the less likely, the more it counts
            let bits = if g.bool() { Compact(g.u32()) } else { compress(&nudge(g, &max256()).min(max256())) };
            let bits = if g.chance(1, 3) { bits } else { compress(&number(g, 256)) };
            note!(g, "{bits:x?}");
            let time = BlockTimestamp::from_int_seconds(g.raw64());
            let got = ConsensusData::PoW(Box::new(PoWData::new(bits, g.raw128()))).get_block_proof(time, time).map(big);
            let want = expand(bits).filter(|t| *t < max256()).map(|t| {
                let d = &t + 1u32;
                (((max256() - t) / d) + 1u32).min(max256())
            });
            check_eq!(got, want, "weight of work");
            // 2^256 / (target + 1), but for rounding
            if let (Some(w), Some(t)) = (&got, expand(bits)) {
                let expected = (BigUint::one() << 256u32) / (t + 1u32);
                check!(*w == expected.min(max256()), "weight is not the expected number of attempts");
            }
            g.tag("work");
            g.nontrivial_if(got.is_some());
        }
        _ => {
            // the sooner, the more it counts
            let (a, b) = match g.below(3) {
                0 => (g.raw64(), g.raw64()),
                1 => {
                    let a = g.u64();
                    (a, a.saturating_add(g.range(0, 3000)))
                }
                _ => {
                    let a = g.range(0, 1 << 32);
                    (a, a + g.range(0, 1300))
                }
            };
            note!(g, "{a} {b}");
            let proof = |a, b| {
                pos_data(Compact(0)).get_block_proof(BlockTimestamp::from_int_seconds(a), BlockTimestamp::from_int_seconds(b)).map(big)
            };
            let got = proof(a, b);
            check_eq!(got.is_some(), a <= b, "weight of a staked block with times {a} and {b}");
            if let Some(w) = got {
                let gap = b - a;
                let w = w.to_u128().ok_or("too heavy")?;
                check!(w >= 1, "a block of no weight");
                if gap >= 1200 {
                    check_eq!(w, 1, "weight after {gap} seconds");
                } else {
                    let want = 1e18 * (-0.01 * gap as f64).exp();
                    check!((w as f64 - want).abs() < 1e4, "weight {w} after {gap} seconds instead of {want}");
                }
                check!(proof(a, b.saturating_add(1)).and_then(|x| x.to_u128()).is_some_and(|x| x <= w), "a later block weighs more");
                g.nontrivial();
            }
            check_eq!(ConsensusData::None.get_block_proof(BlockTimestamp::from_int_seconds(a), BlockTimestamp::from_int_seconds(b)).map(big), Some(BigUint::one()), "weight of a free block");
            g.tag("stake");
        }
    }
    Ok(())
}

// --- whole blocks

struct Epochs(BTreeMap<u64, H256>);

impl EpochStorageRead for Epochs {
    fn get_epoch_data(&self, e: u64) -> storage_result::Result<Option<EpochData>> {
        Ok(self.0.get(&e).map(|r| EpochData::new(PoSRandomness::new(*r))))
    }
}

struct Outs(BTreeMap<UtxoOutPoint, TxOutput>);

impl UtxosView for Outs {
    type Error = std::convert::Infallible;
    fn utxo(&self, o: &UtxoOutPoint) -> Result<Option<Utxo>, Self::Error> {
        Ok(self.0.get(o).map(|x| Utxo::new_for_blockchain(x.clone(), BlockHeight::new(1))))
    }
    fn has_utxo(&self, o: &UtxoOutPoint) -> Result<bool, Self::Error> {
        Ok(self.0.contains_key(o))
    }
    fn best_block_hash(&self) -> Result<Id<GenBlock>, Self::Error> {
        Ok(Id::new(H256::zero()))
    }
    fn estimated_size(&self) -> Option<usize> {
        None
    }
}

struct Pools(BTreeMap<PoolId, (PoolData, u128)>);

impl PoSAccountingView for Pools {
    type Error = pos_accounting::Error;
    fn pool_exists(&self, p: PoolId) -> Result<bool, Self::Error> {
        Ok(self.0.contains_key(&p))
    }
    fn get_pool_balance(&self, p: PoolId) -> Result<Amount, Self::Error> {
        Ok(am(self.0.get(&p).map_or(0, |x| x.1)))
    }
    fn get_pool_data(&self, p: PoolId) -> Result<Option<PoolData>, Self::Error> {
        Ok(self.0.get(&p).map(|x| x.0.clone()))
    }
    fn get_pool_delegations_shares(&self, _: PoolId) -> Result<Option<BTreeMap<DelegationId, Amount>>, Self::Error> {
        Ok(None)
    }
    fn get_delegation_balance(&self, _: DelegationId) -> Result<Amount, Self::Error> {
        Ok(Amount::ZERO)
    }
    fn get_delegation_data(&self, _: DelegationId) -> Result<Option<DelegationData>, Self::Error> {
        Ok(None)
    }
    fn get_pool_delegation_share(&self, _: PoolId, _: DelegationId) -> Result<Amount, Self::Error> {
        Ok(Amount::ZERO)
    }
}

pub fn signed(g: &mut Gen, b: &Block, key: usize) -> SignedBlockHeader {
    let header = b.header().header().clone();
    let s = make::pool().keys[key].0.sign_message(&header.encode(), &mut TestRng::new(Seed::from_u64(g.seed()))).expect("signs");
    header.with_signature(BlockHeaderSignature::HeaderSignature(BlockHeaderSignatureData::new(s)))
}

pub fn vrf_of(key: &VRFPrivateKey, epoch: u64, seed: &H256, time: u64) -> VRFReturn {
    key.produce_vrf_data(construct_transcript(epoch, seed, BlockTimestamp::from_int_seconds(time)))
}

/// The hash that must be low, made a second time with other blinding.
pub fn hash_of(g: &mut Gen, key: &VRFPrivateKey, epoch: u64, seed: &H256, time: u64) -> Result<BigUint, String> {
    let public = crypto::vrf::VRFPublicKey::from_private_key(key);
    let h = calc_pos_hash_from_prv_key(
        epoch,
        &PoSRandomness::new(*seed),
        BlockTimestamp::from_int_seconds(time),
        &public,
        key,
        &mut TestRng::new(Seed::from_u64(g.seed())),
    )
    .map_err(|e| format!("no hash: {e}"))?;
    Ok(big(h))
}

/// Which epoch's randomness counts at a height; none: that of genesis.
pub fn sealed(height: u64, epoch_length: u64, distance: u64) -> Option<u64> {
    let e = height / epoch_length;
    let last = (height + 1) % epoch_length == 0;
    e.checked_sub(distance + u64::from(!last))
}

fn validate(g: &mut Gen) -> Res {
    let (length, distance) = (g.range(1, 5), g.range(1, 3));
    let version = if g.chance(2, 3) { PoSConsensusVersion::V1 } else { PoSConsensusVersion::V0 };
    let height = g.range(1, 12);
    // pools
    let n = g.range(1, 3) as usize;
    let supply = final_supply();
    let mut pools = BTreeMap::new();
    let mut outs = BTreeMap::new();
    let mut who = vec![];
    for i in 0..n {
        let mut h = make::hash(g);
        h.0[31] = i as u8;
        let id = PoolId::new(h);
        let pledge = g.uint(56).max(1);
        let rewards = if g.bool() { g.uint(50) } else { 0 };
        let delegated = if g.bool() { g.uint(56) } else { 0 };
        let (key, vrf) = (i, (i + 1) % 3);
        let terms = PerThousand::new(g.range(0, 1000) as u16).expect("in range");
        let data = PoolData::new(Destination::AnyoneCanSpend, am(pledge), am(rewards), make::pool().vrf[vrf].1.clone(), terms, am(g.uint(40)));
        pools.insert(id, (data, pledge + rewards + delegated));
        let dest = Destination::PublicKey(make::pool().keys[key].1.clone());
        let out = if g.bool() {
            TxOutput::CreateStakePool(
                id,
                Box::new(common::chain::stakelock::StakePoolData::new(
                    am(pledge),
                    dest,
                    make::pool().vrf[vrf].1.clone(),
                    Destination::AnyoneCanSpend,
                    terms,
                    Amount::ZERO,
                )),
            )
        } else {
            TxOutput::ProduceBlockFromStake(dest, id)
        };
        let point = UtxoOutPoint::new(OutPointSourceId::BlockReward(Id::new(h)), 0);
        outs.insert(point.clone(), out);
        who.push((id, key, vrf, point, pledge + rewards, pledge + rewards + delegated));
    }
    let (pool, key, vrf, point, own, balance) = who[0].clone();
    // randomness
    let mut epochs = BTreeMap::new();
    for e in 0..=height / length {
        if g.chance(5, 6) {
            epochs.insert(e, make::hash(g));
        }
    }
    // times and the chain so far
    let mut now = g.range(0, 1000);
    let root_time = now;
    let config = PoSChainConfigBuilder::new_for_unit_test().consensus_version(version).block_count_to_average_for_blocktime(4).build();
    let mut times = vec![];
    for _ in 1..height {
        now += g.range(1, 300);
        times.push(now);
    }
    let prev_time = now;
    let time = prev_time + g.range(1, 300);
    let epoch = height / length;
    // the config is needed for the seed at genesis
    let seed_of = |chain: &ChainConfig, epochs: &BTreeMap<u64, H256>| {
        sealed(height, length, distance).and_then(|e| epochs.get(&e).copied()).unwrap_or(chain.initial_randomness())
    };
    let plain = Builder::new(ChainType::Regtest).build();
    let seed = seed_of(&plain, &epochs);
    let hash = hash_of(g, &make::pool().vrf[vrf].0, epoch, &seed, time)?;
    let weight = match version {
        PoSConsensusVersion::V0 => balance,
        _ => ref_effective(own, balance, supply).map_err(|e| e.to_string())?,
    };
    // a target around what it takes, or one that results from the chain
    let threshold = height == 1 || g.chance(2, 3);
    let exact = if weight == 0 { max256() } else { (&hash / weight).min(max256()) };
    let bits = match g.below(4) {
        0 => compress(&(&exact * 2u32).min(max256())),
        1 => compress(&exact),
        2 => compress(&(&exact + (&exact >> 8u32) + 1u32).min(max256())),
        _ => compress(&number(g, 256)),
    };
    let strict = g.chance(1, 2);
    let upgrade = ChainstateUpgradeBuilder::latest()
        .pool_id_mismatch_in_kernel_input_utxo_and_pos_data_forbidden(if strict {
            PoolIdMismatchInKernelUtxoAndPoSDataForbidden::Yes
        } else {
            PoolIdMismatchInKernelUtxoAndPoSDataForbidden::No
        })
        .build();
    let mut upgrades =
        vec![(BlockHeight::new(0), ConsensusUpgrade::PoS { initial_difficulty: Some(bits), config: config.clone() })];
    if threshold {
        upgrades.push((BlockHeight::new(height), ConsensusUpgrade::PoS { initial_difficulty: Some(bits), config: config.clone() }));
    }
    let chain = Arc::new(
        Builder::new(ChainType::Regtest)
            .consensus_upgrades(NetUpgrades::initialize(upgrades).expect("upgrades"))
            .chainstate_upgrades(NetUpgrades::initialize(vec![(BlockHeight::new(0), upgrade)]).expect("upgrades"))
            .epoch_length(NonZeroU64::new(length).expect("some"))
            .sealed_epoch_distance_from_tip(distance as usize)
            .genesis_custom(genesis(root_time, vec![]))
            .build(),
    );
    check_eq!(chain.initial_randomness(), plain.initial_randomness(), "randomness of genesis");
    check_eq!(chain.final_supply().map(|s| s.to_amount_atoms().into_atoms()), Some(supply), "final supply");
    let mut line = Line { chain: Arc::clone(&chain), blocks: vec![] };
    for t in &times {
        line.push(*t, pos_data(bits));
    }
    let required = if threshold {
        bits
    } else {
        let prev = expand(bits).ok_or("unreadable target")?;
        let h = height - 1;
        let from = average_from(h, 4);
        let at = |i: u64| if i == 0 { root_time } else { times[i as usize - 1] };
        let average = (at(h) - at(from)) / (h - from);
        compress(&ref_new_target(&prev, average, chain.target_block_spacing().as_secs(), 1, &max256()))
    };
    let target = expand(required);
    let wins = target.as_ref().is_some_and(|t| hash <= t * weight);
    // the block, with at most one thing wrong
    let what = if g.chance(2, 5) { 0 } else { g.range(1, 19) };
    let mut inputs = vec![TxInput::Utxo(point.clone())];
    let mut at = time;
    let mut named = pool;
    let mut bits_shown = required;
    let mut proof = vrf_of(&make::pool().vrf[vrf].0, epoch, &seed, time);
    let mut signer = Some(key);
    let mut good = wins;
    let mut name = "honest";
    let parent = line.tip().block_id();
    let mut data = None;
    match what {
        1 => {
            // the proof is right for the time, but it is not after the previous block
            at = prev_time - g.range(0, 1).min(prev_time);
            proof = vrf_of(&make::pool().vrf[vrf].0, epoch, &seed, at);
            (good, name) = (false, "not after its parent");
        }
        2 => {
            at = time + 1;
            (good, name) = (false, "proof of another time");
        }
        3 => {
            proof = vrf_of(&make::pool().vrf[vrf].0, epoch + 1, &seed, time);
            (good, name) = (false, "proof of another epoch");
        }
        4 => {
            let other = epochs.values().copied().find(|r| *r != seed).unwrap_or(H256::zero());
            proof = vrf_of(&make::pool().vrf[vrf].0, epoch, &other, time);
            (good, name) = (false, "proof from other randomness");
        }
        5 => {
            proof = vrf_of(&make::pool().vrf[(vrf + 1) % 3].0, epoch, &seed, time);
            (good, name) = (false, "proof by another key");
        }
        6 => {
            bits_shown = Compact(required.0.wrapping_add(1));
            (good, name) = (false, "another target");
        }
        7 => {
            bits_shown = Compact(required.0.wrapping_sub(1));
            (good, name) = (false, "another target");
        }
        8 => {
            signer = None;
            (good, name) = (false, "not signed");
        }
        9 => {
            signer = Some(key + 5);
            (good, name) = (false, "signed by another");
        }
        10 => {
            inputs.clear();
            (good, name) = (false, "no kernel");
        }
        11 => {
            let again = inputs[0].clone();
            inputs.push(again);
            (good, name) = (false, "two kernels");
        }
        12 => {
            inputs[0] = TxInput::Utxo(UtxoOutPoint::new(OutPointSourceId::BlockReward(Id::new(make::hash(g))), 1));
            (good, name) = (false, "no such kernel");
        }
        13 => {
            let mut h = make::hash(g);
            h.0[31] = 0xee;
            named = PoolId::new(h);
            (good, name) = (false, "no such pool");
        }
        14 if n > 1 => {
            // the kernel of one pool, the proof and name of another
            inputs[0] = TxInput::Utxo(who[1].3.clone());
            signer = Some(who[1].1);
            (good, name) = (wins && !strict, "kernel of another pool");
        }
        15 => {
            let kind = g.below(6);
            let mut o = make::output_of(g, kind);
            if matches!(o, TxOutput::CreateStakePool(..) | TxOutput::ProduceBlockFromStake(..)) {
                o = TxOutput::Burn(common::chain::output_value::OutputValue::Coin(am(1)));
            }
            outs.insert(point.clone(), o);
            (good, name) = (false, "not a kernel");
        }
        16 => {
            data = Some(ConsensusData::None);
            (good, name) = (false, "nothing shown");
        }
        17 => {
            data = Some(ConsensusData::PoW(Box::new(PoWData::new(required, 0))));
            (good, name) = (false, "work instead of stake");
        }
        18 => {
            // owner of the kernel is not a plain key
            let d = *g.pick(&[0, 1]);
            let dest = match d {
                0 => Destination::AnyoneCanSpend,
                _ => Destination::PublicKeyHash((&make::pool().keys[key].1).into()),
            };
            outs.insert(point.clone(), TxOutput::ProduceBlockFromStake(dest, pool));
            (good, name) = (false, "no key to sign with");
        }
        19 => {
            inputs[0] = make::input(g);
            if matches!(inputs[0], TxInput::Utxo(_)) {
                inputs[0] = TxInput::from_account(common::chain::AccountNonce::new(0), make::spending(g));
            }
            (good, name) = (false, "kernel is not an output");
        }
        _ => {}
    }
    let data = data.unwrap_or_else(|| {
        ConsensusData::PoS(Box::new(PoSData::new(inputs, vec![], named, proof.clone(), bits_shown)))
    });
    let block = Block::new(vec![], parent, BlockTimestamp::from_int_seconds(at), data, BlockReward::new(vec![])).expect("makes a block");
    let header = match signer {
        Some(k) => signed(g, &block, k),
        None => block.header().header().clone().with_no_signature(),
    };
    note!(g, "{name}, {version:?}, height {height}, epochs of {length} and {distance} back, hash {hash:#x}, weight {weight}, target {required:x?}");
    g.tag(name);
    let got = no_panic(|| validate_consensus(&chain, &header, &line, &Epochs(epochs.clone()), &Outs(outs.clone()), &Pools(pools.clone())))?;
    check_eq!(got.is_ok(), good, "block ({name}; {}): {got:?}", if wins { "low hash" } else { "high hash" });
    g.nontrivial_if(wins || (what == 0 && target.as_ref().is_some_and(|t| hash <= t * weight * 4u32)));
    if what == 0 {
        // a header changed after signing
        if good {
            let mut h = header.header().clone();
            h.update_timestamp(BlockTimestamp::from_int_seconds(time + 1));
            let h = h.with_signature(header.signature_data().clone());
            check!(
                validate_consensus(&chain, &h, &line, &Epochs(epochs.clone()), &Outs(outs.clone()), &Pools(pools.clone())).is_err(),
                "a header changed after signing is accepted"
            );
        }
        // what the staker's own search says
        if let Some(t) = target.as_ref().and_then(small) {
            let one = calc_and_check_pos_hash(
                version,
                epoch,
                &PoSRandomness::new(seed),
                &t,
                &proof,
                &make::pool().vrf[vrf].1,
                BlockTimestamp::from_int_seconds(time),
                am(own),
                am(balance),
                am(supply),
            );
            check_eq!(one.is_ok(), wins, "hash of the block: {one:?}");
            let last = time + g.range(0, 6);
            let found = find_timestamp_for_staking(
                chain.final_supply().expect("finite"),
                &config,
                required,
                BlockTimestamp::from_int_seconds(time),
                BlockTimestamp::from_int_seconds(last),
                &PoSRandomness::new(seed),
                epoch,
                am(own),
                am(balance),
                &make::pool().vrf[vrf].0,
                &mut TestRng::new(Seed::from_u64(g.seed())),
            )
            .map_err(|e| format!("search for a time: {e}"))?;
            let mut want = None;
            for s in time..=last {
                let h = hash_of(g, &make::pool().vrf[vrf].0, epoch, &seed, s)?;
                if h <= big(t) * weight {
                    want = Some(s);
                    break;
                }
            }
            check_eq!(found.as_ref().map(|x| x.0.as_int_seconds()), want, "first time at which the pool may make a block");
        }
        // a mined block on a network of work
        if g.chance(1, 3) {
            mined(g)?;
        }
    }
    Ok(())
}

fn mined(g: &mut Gen) -> Res {
    let first = compress(&(max256() >> g.range(0, 6)));
    let n = g.range(0, 3);
    let upgrades = vec![
        (BlockHeight::new(0), ConsensusUpgrade::PoW { initial_difficulty: compress(&(max256() >> 1u32)) }),
        (BlockHeight::new(n + 1), ConsensusUpgrade::PoW { initial_difficulty: first }),
    ];
    let chain = Arc::new(
        Builder::new(ChainType::Regtest)
            .consensus_upgrades(NetUpgrades::initialize(upgrades).expect("upgrades"))
            .genesis_custom(genesis(0, vec![]))
            .build(),
    );
    let mut line = Line { chain: Arc::clone(&chain), blocks: vec![] };
    for i in 0..n {
        line.push(i + 1, ConsensusData::PoW(Box::new(PoWData::new(first, 0))));
    }
    let bits = if g.chance(1, 4) { compress(&(max256() >> g.range(0, 6))) } else { first };
    let nonce = g.raw128();
    let data = ConsensusData::PoW(Box::new(PoWData::new(bits, nonce)));
    let block = Block::new(vec![], line.tip().block_id(), BlockTimestamp::from_int_seconds(n + 2), data, BlockReward::new(vec![]))
        .expect("makes a block");
    let none = (Epochs(BTreeMap::new()), Outs(BTreeMap::new()), Pools(BTreeMap::new()));
    let mut header = block.header().header().clone();
    let id = big(Uint256::from(header.get_id().to_hash()));
    let want = bits == first && id <= expand(first).expect("readable");
    let got = validate_consensus(&chain, &header.clone().with_no_signature(), &line, &none.0, &none.1, &none.2);
    check_eq!(got.is_ok(), want, "mined block: {got:?}");
    // what the miner finds is accepted
    let stop = Arc::new(utils::atomics::RelaxedAtomicBool::new(false));
    let r = mine(&mut header, 2000, first, stop).map_err(|e| e.to_string())?;
    check!(r.is_success(), "nothing mined");
    let ConsensusData::PoW(d) = header.consensus_data() else {
        return Err("not a mined block".into());
    };
    check_eq!(d.bits(), first, "target of the mined block");
    let found = d.nonce();
    for k in 0..=found {
        let mut h = header.clone();
        h.update_consensus_data(ConsensusData::PoW(Box::new(PoWData::new(first, k))));
        let low = big(Uint256::from(h.get_id().to_hash())) <= expand(first).expect("readable");
        check_eq!(low, k == found, "nonce {k} of {found}");
    }
    let got = validate_consensus(&chain, &header.with_no_signature(), &line, &none.0, &none.1, &none.2);
    check!(got.is_ok(), "what the miner found is refused: {got:?}");
    Ok(())
}
