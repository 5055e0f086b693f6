//! Coin selection: what is selected, against an exact account of the offered groups.

use std::collections::BTreeMap;

use common::{
    chain::{Destination, OutPointSourceId, TxInput, TxOutput, UtxoOutPoint, output_value::OutputValue},
    primitives::{Amount, Id},
};
use gens::make;
use pbt::{Gen, Property, Res, check, check_eq, enumerated, facet, no_panic, note};

#[allow(dead_code, unused_imports)]
#[path = "../../../wallet/src/account/utxo_selector/mod.rs"]
mod utxo_selector;
use utxo_selector::{CoinSelectionAlgo, OutputGroup, PayFee, SelectionResult, UtxoSelectorError, select_coins};

pub const P: Property = Property {
    id: "C40",
    rule: "Pools of up to 300 output groups (equal and unequal values, fees above and below the long-term fee, weights that do \
           and do not fit), targets at and around sums of subsets. Non-trivial: some of the groups are selected but not all, or \
           weight decides, or the offer misses the target by less than the cost of one group.",
    facets: &[
        facet("small_pools", 40_000, small_pools),
        facet("heavy_pools", 30_000, heavy_pools),
        facet("many_groups", 500, many_groups),
        facet("preselected", 40_000, preselected),
        facet("huge_amounts", 20_000, huge_amounts),
        enumerated("exhaustive", 3 * 5 * 5 * 5 * 5 * 9, exhaustive),
        facet("groups", 40_000, groups),
    ],
    assumptions: &["The selection draws its own randomness; every case is repeated, and what must hold must hold for any draw."],
};

fn am(a: u128) -> Amount {
    Amount::from_atoms(a)
}

#[derive(Clone, Debug)]
struct Offer {
    values: Vec<u128>,
    fee: u128,
    long: u128,
    weight: usize,
}

impl Offer {
    fn value(&self) -> u128 {
        self.values.iter().fold(0, |a, b| a.saturating_add(*b))
    }
    fn worth(&self, pay: PayFee) -> u128 {
        match pay {
            PayFee::PayFeeWithThisCurrency => self.value() - self.fee,
            PayFee::DoNotPayFeeWithThisCurrency => self.value(),
        }
    }
}

struct Case {
    offers: Vec<Offer>,
    target: u128,
    cost: u128,
    pay: PayFee,
    max_weight: usize,
    /// weights follow from fees
    even: bool,
}

fn input(group: usize, i: usize) -> TxInput {
    let mut h = [0u8; 32];
    h[0] = group as u8;
    h[1] = (group >> 8) as u8;
    TxInput::Utxo(UtxoOutPoint::new(OutPointSourceId::Transaction(Id::new(h.into())), i as u32))
}

fn pool(offers: &[Offer]) -> Vec<OutputGroup> {
    offers
        .iter()
        .enumerate()
        .map(|(n, o)| OutputGroup {
            outputs: o
                .values
                .iter()
                .enumerate()
                .map(|(i, v)| (input(n, i), TxOutput::Transfer(OutputValue::Coin(am(*v)), Destination::AnyoneCanSpend)))
                .collect(),
            value: am(o.value()),
            fee: am(o.fee),
            long_term_fee: am(o.long),
            weight: o.weight,
        })
        .collect()
}

/// The groups that were selected, and what they come to.
fn judge(c: &Case, got: SelectionResult, all: bool) -> Result<Vec<usize>, String> {
    let (weight, fees, change, n) = (got.get_weight(), got.get_total_fees(), got.get_change(), got.num_selected_inputs());
    let outs = got.into_output_pairs();
    check_eq!(outs.len(), n, "number of inputs");
    let mut taken: BTreeMap<usize, usize> = BTreeMap::new();
    let mut seen = std::collections::BTreeSet::new();
    for (i, o) in &outs {
        check!(seen.insert(i.clone()), "an input is selected twice");
        let TxInput::Utxo(p) = i else {
            return Err("an input nobody offered".into());
        };
        let id = p.source_id();
        let h = id.get_tx_id().ok_or("an input nobody offered")?.to_hash();
        let g = h.0[0] as usize + ((h.0[1] as usize) << 8);
        let offer = c.offers.get(g).ok_or("an input nobody offered")?;
        let v = *offer.values.get(p.output_index() as usize).ok_or("an input nobody offered")?;
        check_eq!(o, &TxOutput::Transfer(OutputValue::Coin(am(v)), Destination::AnyoneCanSpend), "output of a selected input");
        *taken.entry(g).or_default() += 1;
    }
    for (g, n) in &taken {
        check_eq!(*n, c.offers[*g].values.len(), "inputs taken of one group");
    }
    let taken: Vec<usize> = taken.into_keys().collect();
    check_eq!(weight, taken.iter().map(|g| c.offers[*g].weight).sum::<usize>(), "weight of the selection");
    check_eq!(fees, am(taken.iter().map(|g| c.offers[*g].fee).sum()), "fees of the selection");
    let worth: u128 = taken.iter().map(|g| c.offers[*g].worth(c.pay)).sum();
    check!(worth >= c.target, "selected {worth} for a target of {}", c.target);
    if c.target == 0 {
        check!(taken.is_empty(), "something is selected for nothing");
        check_eq!(change, Amount::ZERO, "change for nothing");
        return Ok(taken);
    }
    check_eq!(change, am(change_of(c, worth)), "change of {worth} for {}", c.target);
    if all {
        check_eq!(taken.len(), c.offers.len(), "groups taken");
    } else {
        check!(weight <= c.max_weight, "weight {weight} of the selection exceeds {}", c.max_weight);
    }
    Ok(taken)
}

fn change_of(c: &Case, worth: u128) -> u128 {
    let over = worth - c.target;
    let change = match c.pay {
        PayFee::PayFeeWithThisCurrency => over.saturating_sub(c.cost),
        PayFee::DoNotPayFeeWithThisCurrency => over,
    };
    if change < c.cost { 0 } else { change }
}

fn waste_of(c: &Case, taken: &[usize]) -> i128 {
    let worth: u128 = taken.iter().map(|g| c.offers[*g].worth(c.pay)).sum();
    let rest = if change_of(c, worth) != 0 { c.cost } else { worth - c.target };
    taken.iter().map(|g| c.offers[*g].fee as i128 - c.offers[*g].long as i128).sum::<i128>() + rest as i128
}

/// What no draw may miss: the least waste among the selections that need no change.
fn exact(c: &Case) -> Option<i128> {
    let n = c.offers.len();
    assert!(n <= 12);
    (1u32..1 << n)
        .filter_map(|mask| {
            let taken: Vec<usize> = (0..n).filter(|i| mask >> i & 1 == 1).collect();
            let worth: u128 = taken.iter().map(|g| c.offers[*g].worth(c.pay)).sum();
            let weight: usize = taken.iter().map(|g| c.offers[*g].weight).sum();
            (worth >= c.target && worth <= c.target + c.cost && weight <= c.max_weight).then(|| {
                taken.iter().map(|g| c.offers[*g].fee as i128 - c.offers[*g].long as i128).sum::<i128>() + (worth - c.target) as i128
            })
        })
        .min()
}

fn run(g: &mut Gen, c: &Case, times: u32) -> Result<(u32, u32), String> {
    let pay = if c.pay == PayFee::PayFeeWithThisCurrency { "fees paid from it" } else { "fees paid otherwise" };
    note!(g, "target {}, cost of change {}, {pay}, at most {} heavy, offers {:?}", c.target, c.cost, c.max_weight, c.offers);
    let total: u128 = c.offers.iter().map(|o| o.worth(c.pay)).sum();
    let weight: usize = c.offers.iter().map(|o| o.weight).sum();
    let best = if c.offers.len() <= 10 && c.target > 0 { exact(c) } else { None };
    // groups that cost and bring the same count as equal, so the fee has to tell the weight
    let even = c.even && c.offers.iter().all(|o| o.fee > 0 || o.weight == c.offers[0].weight);
    // when every input costs more now than later, the search for an exact match is complete
    let dear = c.offers.iter().all(|o| o.fee > o.long);
    let (mut part, mut failed) = (0, 0);
    for _ in 0..if g.recording { times * 40 } else { times } {
        let got = no_panic(|| {
            select_coins(pool(&c.offers), am(c.target), c.pay, am(c.cost), CoinSelectionAlgo::Randomize, c.max_weight)
        })?;
        if c.target == 0 {
            judge(c, got.map_err(|e| format!("nothing was asked for: {e}"))?, false)?;
            continue;
        }
        if c.offers.is_empty() {
            check_eq!(got.err(), Some(UtxoSelectorError::NoUtxos), "nothing offered");
            continue;
        }
        if total < c.target {
            check_eq!(got.err(), Some(UtxoSelectorError::NotEnoughFunds(am(total), am(c.target))), "too little offered");
            continue;
        }
        match got {
            Ok(got) => {
                let taken = judge(c, got, false)?;
                part += u32::from(taken.len() < c.offers.len());
                if let Some(best) = best
                    && dear
                    && even
                {
                    let waste = waste_of(c, &taken);
                    check!(waste <= best, "wasted {waste}, while {best} was possible");
                }
            }
            Err(e) => {
                failed += 1;
                check!(matches!(e, UtxoSelectorError::MaxWeightExceeded | UtxoSelectorError::NoSolutionFound), "unexpected failure: {e}");
                check!(weight > c.max_weight, "{e}, but everything offered fits");
                check!(!(even && best.is_some()), "{e}, but an exact match exists");
                let alone = c.offers.iter().all(|o| o.worth(c.pay) >= c.target + c.cost && o.weight <= c.max_weight);
                check!(!alone, "{e}, but any group alone is enough");
            }
        }
    }
    Ok((part, failed))
}

fn pay(g: &mut Gen) -> PayFee {
    if g.chance(2, 3) { PayFee::PayFeeWithThisCurrency } else { PayFee::DoNotPayFeeWithThisCurrency }
}

/// Groups with weights, and fees that follow from them.
fn offers(g: &mut Gen, n: usize, bits: u32, even: bool) -> Vec<Offer> {
    let (rate, long) = match g.below(4) {
        0 => (0, 0),
        1 => (g.range(2, 9) as u128, 1),
        2 => (g.range(0, 3) as u128, g.range(0, 12) as u128),
        _ => (g.range(0, 3) as u128, g.range(0, 3) as u128),
    };
    let same = g.chance(1, 3);
    let common = g.uint(bits);
    (0..n)
        .map(|_| {
            let weight = if g.chance(1, 2) { 10 } else { g.urange(1, 40) };
            let (mut fee, mut l) = (rate * weight as u128, long * weight as u128);
            if !even {
                fee = g.uint(7);
                l = g.uint(7);
            }
            let k = if g.chance(1, 6) { g.urange(2, 3) } else { 1 };
            let mut values: Vec<u128> = (0..k).map(|_| if same && g.bool() { common } else { g.uint(bits) }).collect();
            let v: u128 = values.iter().sum();
            if v < fee {
                values[0] += fee - v + u128::from(g.bool());
            }
            Offer { values, fee, long: l, weight }
        })
        .collect()
}

/// A target that some of the groups reach, or nearly.
fn target(g: &mut Gen, offers: &[Offer], pay: PayFee, cost: u128) -> u128 {
    let total: u128 = offers.iter().map(|o| o.worth(pay)).sum();
    let some: u128 = offers.iter().filter(|_| g.bool()).map(|o| o.worth(pay)).sum();
    match g.below(8) {
        0 => total + u128::from(g.below(2) as u32),
        1 => some,
        2 => some.saturating_sub(g.range(0, 4) as u128),
        3 => some.saturating_sub(cost),
        4 => some.saturating_sub(cost + g.range(0, 2) as u128),
        5 => total.saturating_sub(g.range(0, 20) as u128),
        6 => g.range(0, 3) as u128,
        _ => (total / 16).saturating_mul(g.range(0, 17) as u128),
    }
}

fn small_pools(g: &mut Gen) -> Res {
    let n = g.urange(0, 10);
    let even = g.chance(3, 4);
    let bits = g.range(3, 40) as u32;
    let offers = offers(g, n, bits, even);
    let pay = pay(g);
    let cost = if g.chance(1, 4) { 0 } else { g.uint(8) };
    let target = target(g, &offers, pay, cost);
    let max_weight = 100_000;
    let c = Case { offers, target, cost, pay, max_weight, even };
    let (part, _) = run(g, &c, 2)?;
    g.tag_if(part > 0, "part selected");
    g.nontrivial_if(part > 0);
    Ok(())
}

fn heavy_pools(g: &mut Gen) -> Res {
    let n = g.urange(1, 10);
    let even = g.chance(3, 4);
    let bits = g.range(3, 40) as u32;
    let offers = offers(g, n, bits, even);
    let pay = pay(g);
    let cost = if g.chance(1, 4) { 0 } else { g.uint(8) };
    let target = target(g, &offers, pay, cost);
    let total: usize = offers.iter().map(|o| o.weight).sum();
    let max_weight = match g.below(3) {
        0 => g.usize(total),
        1 => total * g.urange(20, 99) / 100,
        _ => offers.iter().filter(|_| g.bool()).map(|o| o.weight).sum(),
    };
    let c = Case { offers, target, cost, pay, max_weight, even };
    let (part, failed) = run(g, &c, 4)?;
    g.tag_if(part > 0, "part selected");
    g.tag_if(failed > 0, "too heavy");
    g.nontrivial_if(part > 0 || failed > 0);
    Ok(())
}

fn many_groups(g: &mut Gen) -> Res {
    let n = g.urange(50, 300);
    let bits = g.range(6, 60) as u32;
    let offers = offers(g, n, bits, true);
    let pay = pay(g);
    let cost = g.uint(8);
    let target = target(g, &offers, pay, cost);
    let total: usize = offers.iter().map(|o| o.weight).sum();
    let max_weight = if g.bool() { total * g.urange(10, 110) / 100 } else { total };
    let c = Case { offers, target, cost, pay, max_weight, even: true };
    let (part, failed) = run(g, &c, 1)?;
    g.tag_if(failed > 0, "too heavy");
    g.nontrivial_if(part > 0 || failed > 0);
    Ok(())
}

fn preselected(g: &mut Gen) -> Res {
    let n = g.urange(0, 12);
    let bits = g.range(3, 60) as u32;
    let even = g.bool();
    let offers = offers(g, n, bits, even);
    let pay = pay(g);
    let cost = g.uint(8);
    let target = target(g, &offers, pay, cost);
    let c = Case { offers, target, cost, pay, max_weight: g.usize(200), even: false };
    let total: u128 = c.offers.iter().map(|o| o.worth(pay)).sum();
    note!(g, "target {target}, cost of change {cost}, offers {:?}", c.offers);
    let got = no_panic(|| {
        select_coins(pool(&c.offers), am(target), pay, am(cost), CoinSelectionAlgo::UsePreselected, c.max_weight)
    })?;
    if target == 0 {
        judge(&c, got.map_err(|e| format!("nothing was asked for: {e}"))?, true)?;
    } else if n == 0 {
        check_eq!(got.err(), Some(UtxoSelectorError::NoUtxos), "nothing offered");
    } else if total < target {
        check_eq!(got.err(), Some(UtxoSelectorError::NotEnoughFunds(am(total), am(target))), "too little offered");
        g.nontrivial_if(total + 20 > target);
    } else {
        let got = got.map_err(|e| format!("refused: {e}"))?;
        let change = got.get_change();
        // change that comes from elsewhere
        let extra = am(g.raw128() >> g.range(0, 127));
        let sum = change + extra;
        let more = got.add_change(extra);
        match (more, sum) {
            (Ok(more), Some(sum)) => {
                check_eq!(more.get_change(), sum, "change with {extra:?} more");
                let mut more = Some(more);
                if extra == Amount::ZERO {
                    judge(&c, more.take().expect("is there"), true)?;
                }
            }
            (Err(e), None) => check_eq!(e, UtxoSelectorError::AmountArithmeticError, "overflow of change"),
            (x, _) => return Err(format!("change {change:?} with {extra:?} more: {:?}", x.map(|x| x.get_change()))),
        }
        let got = select_coins(pool(&c.offers), am(target), pay, am(cost), CoinSelectionAlgo::UsePreselected, c.max_weight)
            .map_err(|e| e.to_string())?;
        judge(&c, got, true)?;
        g.nontrivial();
    }
    Ok(())
}

/// Amounts whose sums leave the range: refused or right, never a crash.
fn huge_amounts(g: &mut Gen) -> Res {
    let n = g.urange(1, 6);
    let mut offers = vec![];
    for _ in 0..n {
        let v = if g.bool() { g.raw128() >> g.range(0, 4) } else { u128::MAX - g.uint(8) };
        let fee = if g.bool() { 0 } else { g.uint(128).min(v) };
        let long = if g.bool() { fee } else { g.uint(128) };
        offers.push(Offer { values: vec![v], fee, long, weight: 10 });
    }
    let pay = pay(g);
    let cost = if g.bool() { g.uint(10) } else { g.uint(128) };
    let worths: Option<u128> = offers.iter().map(|o| o.worth(pay)).try_fold(0u128, |a, b| a.checked_add(b));
    let target = match worths {
        Some(t) if g.bool() => t - g.uint(8).min(t),
        _ => g.uint(128),
    };
    let algo = if g.bool() { CoinSelectionAlgo::Randomize } else { CoinSelectionAlgo::UsePreselected };
    note!(g, "target {target}, cost of change {cost}, offers {offers:?}");
    let got = no_panic(|| select_coins(pool(&offers), am(target), pay, am(cost), algo, 100))?;
    if target == 0 {
        check!(got.is_ok_and(|r| r.num_selected_inputs() == 0), "nothing was asked for");
        return Ok(());
    }
    let Some(total) = worths else {
        check_eq!(got.err(), Some(UtxoSelectorError::AmountArithmeticError), "the sum of all is out of range");
        g.nontrivial();
        return Ok(());
    };
    match got {
        Ok(got) => {
            check!(total >= target, "too little offered");
            let outs = got.into_output_pairs();
            let mut sum = 0u128;
            let mut seen = std::collections::BTreeSet::new();
            for (i, _) in &outs {
                check!(seen.insert(i.clone()), "an input is selected twice");
                let TxInput::Utxo(p) = i else { return Err("not offered".into()) };
                let id = p.source_id();
                sum += offers[id.get_tx_id().ok_or("not offered")?.to_hash().0[0] as usize].worth(pay);
            }
            check!(sum >= target, "selected {sum}");
            g.nontrivial();
        }
        Err(UtxoSelectorError::NotEnoughFunds(a, b)) => {
            check!(total < target && a == am(total) && b == am(target), "not enough: {a:?} of {b:?}");
        }
        Err(_) => check!(total >= target, "too little was offered"),
    }
    Ok(())
}

/// All pools of up to four groups worth 1 to 4 and 9, and all targets up to 8.
fn exhaustive(g: &mut Gen) -> Res {
    let mut k = g.below(3 * 5 * 5 * 5 * 5 * 9);
    let mut digit = |n: u64| {
        let d = k % n;
        k /= n;
        d
    };
    let cost = digit(3) as u128;
    let mut offers = vec![];
    for _ in 0..4 {
        let v = [0, 1, 2, 4, 9][digit(5) as usize];
        if v > 0 {
            offers.push(Offer { values: vec![v + 3], fee: 3, long: 1, weight: 10 });
        }
    }
    let target = digit(9) as u128;
    let pay = if offers.len() % 2 == 0 { PayFee::PayFeeWithThisCurrency } else { PayFee::DoNotPayFeeWithThisCurrency };
    for max_weight in [100, 30, 20, 10, 9] {
        let c = Case { offers: offers.clone(), target, cost, pay, max_weight, even: true };
        let (part, failed) = run(g, &c, 3)?;
        g.nontrivial_if(part > 0 || failed > 0);
    }
    Ok(())
}

fn groups(g: &mut Gen) -> Res {
    let kind = g.below(11);
    let out = make::output_of(g, kind);
    let (fee, long, weight) = (am(g.uint(40)), am(g.uint(40)), g.usize(1000));
    let i = input(1, 2);
    let want = match &out {
        TxOutput::Transfer(v, _) | TxOutput::LockThenTransfer(v, _, _) | TxOutput::Htlc(v, _) => Some(match v {
            OutputValue::Coin(a) => *a,
            OutputValue::TokenV0(_) => v.amount(),
            OutputValue::TokenV1(_, a) => *a,
        }),
        TxOutput::IssueNft(..) => Some(am(1)),
        _ => None,
    };
    let got = no_panic(|| OutputGroup::new((i.clone(), out.clone()), fee, long, weight))?;
    match (got, want) {
        (Ok(got), Some(v)) => {
            check_eq!(got.outputs, vec![(i, out.clone())], "output of the group");
            check_eq!((got.value, got.fee, got.long_term_fee, got.weight), (v, fee, long, weight), "the group");
            check_eq!(got.get_effective_value(PayFee::DoNotPayFeeWithThisCurrency), v, "worth without fees");
            if fee <= v {
                let worth = got.get_effective_value(PayFee::PayFeeWithThisCurrency);
                check_eq!((worth + fee), Some(v), "worth with fees");
            }
            g.tag("groups");
            g.nontrivial();
        }
        (Err(UtxoSelectorError::UnsupportedTransactionOutput(o)), None) => {
            check_eq!(*o, out, "output named");
            g.tag("refused");
        }
        (got, _) => return Err(format!("{out:?}: {got:?}")),
    }
    Ok(())
}
