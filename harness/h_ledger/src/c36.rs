//! Emission schedules and the division of block rewards.
use common::{
    chain::{
        config::{
            emission_schedule::{mainnet_schedule_table, ParseEmissionTableError, MAINNET_COIN_PREMINE},
            Builder, ChainType, EmissionScheduleTabular,
        },
        CoinUnit, DelegationId, Destination, PoolId, RewardDistributionVersion,
    },
    primitives::{per_thousand::PerThousand, Amount, BlockHeight, Id, H256},
};
use gens::make;
use pbt::{check, check_eq, enumerated, facet, note, Gen, Property, Res};
use pos_accounting::{
    DefaultStorageTag, InMemoryPoSAccounting, PoSAccountingDB, PoSAccountingDelta, PoSAccountingOperations, PoSAccountingView, PoolData,
};
use std::{collections::BTreeMap, time::Duration};
use tx_verifier::transaction_verifier::{distribute_pos_reward, RewardDistributionError};

pub const P: Property = Property {
    id: "C36",
    rule: "Random schedules of up to 12 periods with amounts up to the end of the range, read at and around every boundary and at random heights; the published schedule at every boundary for several block intervals and over every network; schedule text, well-formed and broken. Rewards of 0 to 2^127 atoms divided over pools with 0 to 8 delegations of very different sizes, all margins and costs, both versions. Non-trivial: a schedule with at least 3 periods, or a reward with at least two paid delegations.",
    facets: &[
        facet("schedules", 60_000, schedules),
        facet("schedule_text", 60_000, schedule_text),
        enumerated("published_schedule", 24, published),
        facet("rewards", 60_000, rewards),
    ],
    assumptions: &["A schedule whose amounts leave the range is refused by the node at start and not judged."],
};

const COIN: u128 = 100_000_000_000;

/// (supply at genesis, subsidy of the first period, later periods)
struct Table {
    supply: u128,
    subsidy: u128,
    periods: BTreeMap<u64, u128>,
}

impl Table {
    fn subsidy(&self, h: u64) -> u128 {
        // a period takes effect with the block after its height
        self.periods.range(..h).next_back().map_or(self.subsidy, |x| *x.1)
    }

    fn amount(&self, h: u64) -> Option<u128> {
        let mut sum = self.supply;
        let mut from = 0u64;
        let mut cur = self.subsidy;
        for (p, s) in &self.periods {
            if *p >= h {
                break;
            }
            sum = sum.checked_add(cur.checked_mul((p - from) as u128)?)?;
            (from, cur) = (*p, *s);
        }
        sum.checked_add(cur.checked_mul((h - from) as u128)?)
    }

    fn build(&self) -> EmissionScheduleTabular {
        EmissionScheduleTabular::new(
            CoinUnit::from_atoms(self.supply),
            CoinUnit::from_atoms(self.subsidy),
            self.periods.iter().map(|(h, s)| (BlockHeight::new(*h), CoinUnit::from_atoms(*s))).collect(),
        )
    }

    /// Whether the whole table stays in range, up to `h`.
    fn fits(&self, h: u64) -> bool {
        self.periods.keys().next_back().is_none_or(|p| self.amount(*p).is_some()) && self.amount(h).is_some()
    }
}

fn atoms(g: &mut Gen) -> u128 {
    match g.below(4) {
        0 => g.range(0, 1000) as u128 * COIN,
        1 => g.u128() >> g.urange(20, 127),
        2 => g.below(3) as u128,
        _ => g.range(0, 1 << 50) as u128,
    }
}

fn table(g: &mut Gen) -> Table {
    let supply = atoms(g);
    let subsidy = atoms(g);
    let n = g.urange(0, 12);
    let mut periods = BTreeMap::new();
    let mut h = 0u64;
    for _ in 0..n {
        let step = match g.below(4) {
            0 => 1,
            1 => g.range(1, 10),
            2 => g.range(1, 1 << 20),
            _ => g.range(0, 3),
        };
        h = h.saturating_add(step);
        let s = if g.chance(1, 4) { 0 } else { atoms(g) };
        periods.insert(h, s);
    }
    Table { supply, subsidy, periods }
}

fn schedules(g: &mut Gen) -> Res {
    let t = table(g);
    let b = t.build();
    note!(g, "{b}");
    check_eq!(b.initial_supply().to_amount_atoms().into_atoms(), t.supply, "initial supply");
    let got: Vec<_> = b.subsidy_periods().map(|(h, c)| (h.into_int(), c.to_amount_atoms().into_atoms())).collect();
    let want: Vec<_> = std::iter::once((0, t.subsidy)).chain(t.periods.iter().map(|(h, s)| (*h, *s))).collect();
    check_eq!(got, want, "periods");
    let tail = *want.last().expect("at least one");
    let (h, c) = b.tail_emission();
    check_eq!((h.into_int(), c.to_amount_atoms().into_atoms()), tail, "tail emission");
    if !t.fits(0) {
        return Ok(());
    }
    g.nontrivial_if(t.periods.len() >= 3);
    check_eq!(
        b.final_supply().map(|x| x.to_amount_atoms().into_atoms()),
        if tail.1 == 0 { t.amount(tail.0) } else { None },
        "final supply"
    );
    let s = b.schedule();
    check_eq!(s.initial_supply().to_amount_atoms().into_atoms(), t.supply, "initial supply of the schedule");
    let mut hs: Vec<u64> = t.periods.keys().flat_map(|h| [h.saturating_sub(1), *h, h + 1, h + 2]).collect();
    hs.extend([0, 1, 2]);
    for _ in 0..8 {
        hs.push(g.raw64() >> g.urange(0, 63));
        hs.push(g.range(0, 1 << 21));
    }
    let through_config = Builder::new(ChainType::Regtest).emission_schedule_tabular(b.clone());
    let config = through_config.build();
    check_eq!(config.final_supply(), b.final_supply(), "final supply of the chain");
    for h in hs {
        if !t.fits(h) {
            continue;
        }
        let got = s.amount_at(BlockHeight::new(h)).to_amount_atoms().into_atoms();
        check_eq!(Some(got), t.amount(h), "supply at height {h}");
        if let Some(end) = b.final_supply() {
            // the largest supply is only the cap if all periods are over or add something
            check!(got <= end.to_amount_atoms().into_atoms(), "supply at height {h} is above the final supply");
        }
        if h > 0 {
            check_eq!(s.subsidy(BlockHeight::new(h)).to_amount_atoms().into_atoms(), t.subsidy(h), "subsidy at height {h}");
            check_eq!(config.block_subsidy_at_height(&BlockHeight::new(h)).into_atoms(), t.subsidy(h), "subsidy of the chain at height {h}");
        }
    }
    Ok(())
}

fn coins_text(g: &mut Gen, a: u128) -> String {
    let (w, f) = (a / COIN, a % COIN);
    if f == 0 {
        if g.chance(1, 4) {
            format!("{w}.0")
        } else {
            format!("{w}")
        }
    } else {
        let t = format!("{f:011}");
        format!("{w}.{}", t.trim_end_matches('0'))
    }
}

fn schedule_text(g: &mut Gen) -> Res {
    let t = table(g);
    let b = t.build();
    let sp = |g: &mut Gen| " ".repeat(g.urange(0, 2));
    let mut parts = vec![format!("{}{}+{}", coins_text(g, t.supply), sp(g), coins_text(g, t.subsidy))];
    for (h, s) in &t.periods {
        parts.push(format!("{h}:+{}", coins_text(g, *s)));
    }
    let text = parts.iter().map(|p| format!("{}{p}{}", sp(g), sp(g))).collect::<Vec<_>>().join(",");
    note!(g, "{text}");
    check_eq!(text.parse::<EmissionScheduleTabular>().as_ref(), Ok(&b), "schedule read from text");
    check_eq!(b.to_string().parse::<EmissionScheduleTabular>().as_ref(), Ok(&b), "schedule read from its own text");
    g.nontrivial_if(t.periods.len() >= 3);
    // one entry broken
    let i = g.urange(0, parts.len() - 1);
    let mut broken = parts.clone();
    let kind = g.below(3);
    let sep = if i == 0 { "+" } else { ":+" };
    let (a, c) = broken[i].split_once(sep).map(|(a, c)| (a.to_string(), c.to_string())).ok_or("separator")?;
    let junk = *g.pick(&["", "x", "1x", "1..2", "-1", "0x10"]);
    broken[i] = match kind {
        0 => format!("{junk}{sep}{c}"),
        1 => format!("{a}{sep}{junk}"),
        _ => a.trim().to_string(),
    };
    let text = broken.join(",");
    note!(g, "broken: {text}");
    let r = text.parse::<EmissionScheduleTabular>();
    let ok = match (&r, kind, i) {
        (Err(ParseEmissionTableError::InitialSupply(_)), 0, 0) => true,
        (Err(ParseEmissionTableError::BlockHeight(n, _)), 0, i) => *n == i,
        (Err(ParseEmissionTableError::Subsidy(n, _)), 1, i) => *n == i,
        (Err(ParseEmissionTableError::NoSubsidy(n)), 2, i) => *n == i,
        _ => false,
    };
    check!(ok, "text with a broken entry {i} gave {r:?}");
    Ok(())
}

fn published(g: &mut Gen) -> Res {
    let case = g.below(24);
    let secs = [120u64, 120, 120, 120, 1, 2, 3, 60, 61, 90, 119, 121, 240, 600, 7, 3600, 86_400, 100_000, 12, 30, 45, 1000, 5000, 10_000][case as usize];
    let config = (case < 4).then(|| match case {
        0 => common::chain::config::create_mainnet(),
        1 => common::chain::config::create_testnet(),
        2 => common::chain::config::create_regtest(),
        _ => Builder::new(ChainType::Signet).build(),
    });
    note!(g, "interval {secs} s, chain {:?}", config.as_ref().map(|c| *c.chain_type()));
    let t = mainnet_schedule_table(Duration::from_secs(secs));
    let year = 31_536_000 / secs;
    let yearly: [u128; 11] = [202, 151, 113, 85, 64, 48, 36, 27, 20, 15, 0];
    check_eq!(MAINNET_COIN_PREMINE.to_amount_atoms().into_atoms(), 400_000_000 * COIN, "premine");
    let s = match &config {
        Some(c) => c.emission_schedule().clone(),
        None => t.schedule(),
    };
    let mut total = 400_000_000 * COIN;
    let mut last = u128::MAX;
    for (y, want) in yearly.iter().enumerate() {
        let first = y as u64 * year + 1;
        for h in [first, first + 1, first + year / 2, first + year - 2, first + year - 1].into_iter().filter(|h| *h > y as u64 * year && *h <= (y as u64 + 1) * year) {
            let got = s.subsidy(BlockHeight::new(h)).to_amount_atoms().into_atoms();
            check_eq!(got, want * COIN, "subsidy at height {h}");
            check!(got <= last, "the subsidy grew at height {h}");
            last = got;
            if let Some(c) = &config {
                check_eq!(c.block_subsidy_at_height(&BlockHeight::new(h)).into_atoms(), want * COIN, "subsidy of the chain at height {h}");
            }
        }
        total += want * COIN * year as u128;
        check_eq!(s.amount_at(BlockHeight::new((y as u64 + 1) * year)).to_amount_atoms().into_atoms(), total, "supply after year {}", y + 1);
    }
    for h in [20 * year, u32::MAX as u64, u64::MAX - 1, u64::MAX] {
        check_eq!(s.amount_at(BlockHeight::new(h)).to_amount_atoms().into_atoms(), total, "supply at height {h}");
        check_eq!(s.subsidy(BlockHeight::new(h)), CoinUnit::ZERO, "subsidy at height {h}");
    }
    check_eq!(t.final_supply().map(|x| x.to_amount_atoms().into_atoms()), Some(total), "final supply");
    if secs == 120 {
        check_eq!(total, 599_990_800 * COIN, "maximum supply");
    }
    if let Some(c) = &config {
        check_eq!(c.final_supply().map(|x| x.to_amount_atoms().into_atoms()), Some(599_990_800 * COIN), "maximum supply of the chain");
    }
    g.nontrivial();
    Ok(())
}

const MAX: u128 = i128::MAX as u128;

/// floor(a*b/c) by bits; `None` beyond 128 bits.
fn mul_div(a: u128, b: u128, c: u128) -> u128 {
    if b == 0 || a == 0 {
        return 0;
    }
    // quotient and remainder of a*b, adding a for each bit of b
    let (mut q, mut r) = (0u128, 0u128);
    let (qa, ra) = (a / c, a % c);
    for i in (0..128).rev() {
        let top = r >> 127 == 1;
        let d = r.wrapping_shl(1);
        let carry = top || d >= c;
        r = if carry { d.wrapping_sub(c) } else { d };
        q = q * 2 + u128::from(carry);
        if (b >> i) & 1 == 1 {
            q += qa;
            let (s, o) = r.overflowing_add(ra);
            let carry = o || s >= c;
            r = if carry { s.wrapping_sub(c) } else { s };
            q += u128::from(carry);
        }
    }
    q
}

fn rewards(g: &mut Gen) -> Res {
    let pool = PoolId::new(H256(g.array()));
    let other = PoolId::new(H256(g.array()));
    if pool == other {
        return Ok(());
    }
    let big = g.chance(1, 4);
    let size = |g: &mut Gen| -> u128 {
        match g.below(5) {
            0 => g.range(0, 3) as u128,
            1 => g.range(1, 1000) as u128,
            2 if big => g.u128() >> g.urange(2, 127),
            _ => g.range(1, 1 << 60) as u128,
        }
    };
    let pledge = size(g);
    let earned = if g.bool() { size(g) } else { 0 };
    let margin = match g.below(4) {
        0 => 0,
        1 => 1000,
        _ => g.range(0, 1000) as u16,
    };
    let total = match g.below(6) {
        0 => 0,
        1 => g.range(1, 20) as u128,
        2 => g.u128() >> g.urange(0, 127),
        _ => size(g),
    };
    let cost = match g.below(5) {
        0 => 0,
        1 => total,
        2 => total.saturating_add(1),
        3 => total / 3,
        _ => size(g),
    };
    let mut dels: BTreeMap<DelegationId, u128> = BTreeMap::new();
    for _ in 0..g.urange(0, 8) {
        let id = DelegationId::new(H256(g.array()));
        dels.insert(id, size(g));
    }
    let foreign = DelegationId::new(H256(g.array()));
    if dels.contains_key(&foreign) {
        return Ok(());
    }
    let version = *g.pick(&[RewardDistributionVersion::V0, RewardDistributionVersion::V1]);
    note!(g, "pledge {pledge} earned {earned} cost {cost} margin {margin} delegations {:?} reward {total} {version:?}", dels.values());
    let owner = pledge + earned;
    let sum: u128 = dels.values().sum();
    if owner + sum > MAX {
        return Ok(());
    }
    let vrf = make::pool().vrf[0].1.clone();
    let data = PoolData::new(
        Destination::AnyoneCanSpend,
        Amount::from_atoms(pledge),
        Amount::ZERO,
        vrf,
        PerThousand::new(margin).ok_or("margin")?,
        Amount::from_atoms(cost),
    );
    let base = InMemoryPoSAccounting::new();
    let db = PoSAccountingDB::<_, DefaultStorageTag>::new(&base);
    let mut a = PoSAccountingDelta::new(&db);
    let e = |x: pos_accounting::Error| format!("setting up: {x}");
    a.create_pool(pool, data.clone()).map_err(e)?;
    a.create_pool(other, data).map_err(e)?;
    a.create_delegation_id(other, foreign, Destination::AnyoneCanSpend).map_err(e)?;
    a.delegate_staking(foreign, Amount::from_atoms(12345)).map_err(e)?;
    if earned > 0 {
        a.increase_staker_rewards(pool, Amount::from_atoms(earned)).map_err(e)?;
    }
    for (d, x) in &dels {
        a.create_delegation_id(pool, *d, Destination::AnyoneCanSpend).map_err(e)?;
        if *x > 0 {
            a.delegate_staking(*d, Amount::from_atoms(*x)).map_err(e)?;
        }
    }
    let before = a.consume();
    let mut a = PoSAccountingDelta::from_data(&db, before.clone());
    let missing = PoolId::new(H256(g.array()));
    if g.chance(1, 10) && missing != pool && missing != other {
        let r = distribute_pos_reward(&mut a, Id::new(H256::zero()), missing, Amount::from_atoms(total), version);
        check_eq!(r, Err(RewardDistributionError::PoolDataNotFound(missing)), "reward to an unknown pool");
    }
    let r = distribute_pos_reward(&mut a, Id::new(H256(g.array())), pool, Amount::from_atoms(total), version);
    // what the rules give
    let to_share = total.checked_sub(cost);
    let mut allowed_to_refuse = (owner + sum).checked_add(total).is_none_or(|x| x > MAX) || total > MAX;
    let mut must_refuse = false;
    let staker = match (to_share, version) {
        (None, RewardDistributionVersion::V0) => total,
        (Some(x), RewardDistributionVersion::V0) => {
            if x.checked_mul(margin as u128).is_none() {
                allowed_to_refuse = true;
            }
            cost + mul_div(x, margin as u128, 1000)
        }
        (_, RewardDistributionVersion::V1) if owner + sum == 0 => {
            must_refuse = true;
            0
        }
        (None, RewardDistributionVersion::V1) => total,
        (Some(x), RewardDistributionVersion::V1) => {
            let own = mul_div(x, owner, owner + sum);
            cost + own + mul_div(x - own, margin as u128, 1000)
        }
    };
    if must_refuse {
        check!(r.is_err(), "a reward for a pool without any balance was divided");
        return Ok(());
    }
    let undos = match r {
        Err(e) => {
            check!(allowed_to_refuse, "dividing a reward failed: {e}");
            g.tag("refused");
            return Ok(());
        }
        Ok(u) => u,
    };
    let rest = total - staker;
    let mut want_dels = dels.clone();
    let mut paid = 0u128;
    if sum > 0 {
        for x in want_dels.values_mut() {
            let part = mul_div(rest, *x, sum);
            paid += part;
            *x += part;
        }
    }
    check!(paid <= rest, "reference error");
    let want_owner = owner + staker + (rest - paid);
    for (d, x) in &want_dels {
        check_eq!(a.get_delegation_balance(*d).map_err(e)?.into_atoms(), *x, "balance of a delegation of {}", dels[d]);
        check_eq!(a.get_pool_delegation_share(pool, *d).map_err(e)?.into_atoms(), *x, "share of a delegation of {}", dels[d]);
    }
    let got = a.get_pool_data(pool).map_err(e)?.ok_or("the pool is gone")?;
    check_eq!(got.staker_balance().map_err(e)?.into_atoms(), want_owner, "operator's balance");
    check_eq!(got.pledge_amount().into_atoms(), pledge, "pledge");
    check_eq!(a.get_pool_balance(pool).map_err(e)?.into_atoms(), owner + sum + total, "pool balance grows by exactly the reward");
    check_eq!(a.get_pool_balance(other).map_err(e)?.into_atoms(), pledge + 12345, "another pool");
    check_eq!(a.get_delegation_balance(foreign).map_err(e)?.into_atoms(), 12345, "delegation to another pool");
    g.nontrivial_if(want_dels.iter().filter(|(d, x)| dels[*d] != **x).count() >= 2);
    g.tag_if(paid < rest && sum > 0, "remainder");
    for u in undos.into_iter().rev() {
        a.undo(u).map_err(|e| format!("undoing a reward failed: {e}"))?;
    }
    for (d, x) in &dels {
        check_eq!(a.get_delegation_balance(*d).map_err(e)?.into_atoms(), *x, "balance of a delegation after undoing");
    }
    let got = a.get_pool_data(pool).map_err(e)?.ok_or("the pool is gone")?;
    check_eq!(got.staker_balance().map_err(e)?.into_atoms(), owner, "operator's balance after undoing");
    check_eq!(a.get_pool_balance(pool).map_err(e)?.into_atoms(), owner + sum, "pool balance after undoing");
    Ok(())
}
