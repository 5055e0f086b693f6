//! Bloom filters.

use pbt::*;
use std::{collections::BTreeMap, fmt::Debug, hash::Hash};
use utils::bloom_filters::{bloom_filter::BloomFilter, rolling_bloom_filter::RollingBloomFilter};

pub const P: Property = Property {
    id: "C14",
    rule: "a case is non-trivial when at least two items were inserted and, for the rolling filter, a generation of items was dropped",
    facets: &[
        facet("plain_u64", 9000, plain::<U64>),
        facet("plain_bytes", 9000, plain::<Bytes>),
        facet("rolling_u64", 15000, rolling::<U64>),
        facet("rolling_bytes", 12000, rolling::<Bytes>),
        facet("plain_rate", 360, plain_rate),
        facet("rolling_rate", 360, rolling_rate),
        facet("fresh_positives", 360, fresh_positives),
    ],
    assumptions: &[
        "false positive rates are judged on at least 4000 never inserted items against twice the configured rate plus a margin of more than six standard deviations",
    ],
};

trait Kind {
    type T: Hash + Ord + Clone + Debug;
    /// Distinct numbers give distinct items.
    fn item(n: u64) -> Self::T;
}
struct U64;
impl Kind for U64 {
    type T = u64;
    fn item(n: u64) -> u64 {
        n
    }
}
struct Bytes;
impl Kind for Bytes {
    type T = Vec<u8>;
    fn item(n: u64) -> Vec<u8> {
        // lengths vary, including the empty string for zero
        let mut v = n.to_le_bytes().to_vec();
        while v.last() == Some(&0) {
            v.pop();
        }
        v
    }
}

const RATES: [f64; 7] = [0.9, 0.5, 0.1, 0.01, 0.001, 1e-6, 1e-12];

fn plain<K: Kind>(g: &mut Gen) -> Res {
    let size = g.range(1, 64) as usize;
    let fpp = *g.pick(&RATES);
    let seed = g.raw64();
    let mut f = BloomFilter::<K::T>::new(size, fpp, &mut crate::rng(seed));
    let mut twin = BloomFilter::<K::T>::new(size, fpp, &mut crate::rng(seed));
    let mut live: Vec<u64> = vec![];
    let steps = g.range(1, 150);
    let mut inserted = 0;
    let mut cleared = 0;
    note!(g, "size {size} fpp {fpp} seed {seed}");
    for n in [0, 1, 5, u64::MAX] {
        check!(!f.contains(&K::item(n)), "an empty filter reports {:?}", K::item(n));
    }
    for _ in 0..steps {
        if g.exhausted() {
            break;
        }
        match g.weighted(&[20, 4, 1]) {
            0 => {
                let n = if g.chance(1, 3) { g.below(20) } else { g.raw64() };
                note!(g, "insert {n}");
                f.insert(&K::item(n));
                twin.insert(&K::item(n));
                live.push(n);
                inserted += 1;
                check!(f.contains(&K::item(n)), "item {n} is not reported right after its insertion");
            }
            1 => {
                let n = g.raw64();
                check_eq!(f.contains(&K::item(n)), f.contains(&K::item(n)), "two queries for {n}");
                check_eq!(f.contains(&K::item(n)), twin.contains(&K::item(n)), "query for {n} of two filters with the same seed and items");
            }
            _ => {
                note!(g, "clear");
                f.clear();
                twin.clear();
                cleared += 1;
                for n in live.drain(..) {
                    check!(!f.contains(&K::item(n)), "item {n} is reported by a cleared filter");
                }
                for _ in 0..5 {
                    let n = g.raw64();
                    check!(!f.contains(&K::item(n)), "item {n} is reported by a cleared filter");
                }
            }
        }
        for n in &live {
            check!(f.contains(&K::item(*n)), "inserted item {n} is not reported after {} insertions", live.len());
        }
    }
    g.tag_if(live.len() > size, "overfull");
    g.tag_if(cleared > 0, "cleared");
    g.nontrivial_if(inserted >= 2);
    Ok(())
}

fn rolling<K: Kind>(g: &mut Gen) -> Res {
    let size = g.range(1, 40) as usize;
    let fpp = *g.pick(&RATES);
    let seed = g.raw64();
    let mut r = crate::rng(seed);
    let mut f = RollingBloomFilter::<K::T>::new(size, fpp, &mut r);
    // item -> number of the insertion that inserted it last
    let mut last: BTreeMap<u64, usize> = BTreeMap::new();
    let mut count = 0usize;
    let most = 3 * std::cmp::max(1, (size + 1) / 2);
    let steps = g.urange(1, 5 * size + 10);
    let small = g.chance(1, 3);
    note!(g, "size {size} fpp {fpp} seed {seed} small {small}");
    for n in [0, 1, 5, u64::MAX] {
        check!(!f.contains(&K::item(n)), "an empty filter reports {:?}", K::item(n));
    }
    for _ in 0..steps {
        let n = if small { g.below(2 * size as u64 + 3) } else { g.raw64() };
        f.insert(&K::item(n), &mut r);
        count += 1;
        last.insert(n, count);
        for (n, at) in &last {
            // items for which fewer than `size` insertions came later
            if count - at < size {
                check!(
                    f.contains(&K::item(*n)),
                    "item {n} is not reported after {} newer insertions, size {size}",
                    count - at
                );
            }
        }
        if fpp < 1e-10 {
            let known = last.keys().filter(|n| f.contains(&K::item(**n))).count();
            check!(known <= most, "{known} items are remembered, at most {most} may be for size {size}");
            for (n, at) in &last {
                if count - at >= most {
                    check!(
                        !f.contains(&K::item(*n)),
                        "item {n} is still reported after {} newer insertions, size {size}",
                        count - at
                    );
                }
            }
        }
    }
    g.tag_if(size % 2 == 1, "odd_size");
    g.tag_if(count > most, "dropped");
    g.nontrivial_if(count > most);
    Ok(())
}

fn bound(n: usize, p: f64) -> f64 {
    let m = 2.0 * p * n as f64;
    m + 7.0 * m.sqrt() + 12.0
}

fn plain_rate(g: &mut Gen) -> Res {
    let size = g.range(50, 1500) as usize;
    let fpp = *g.pick(&[0.3, 0.1, 0.03, 0.01, 0.001]);
    let seed = g.raw64();
    let base = g.raw64();
    let mut f = BloomFilter::<u64>::new(size, fpp, &mut crate::rng(seed));
    for i in 0..size as u64 {
        f.insert(&base.wrapping_add(i));
    }
    let n = 6000;
    let fp = (0..n as u64).filter(|i| f.contains(&base.wrapping_add(1 << 40).wrapping_add(*i))).count();
    note!(g, "size {size} fpp {fpp}: {fp} of {n}");
    check!(fp as f64 <= bound(n, fpp), "{fp} false positives in {n}, rate {fpp}, size {size}");
    g.nontrivial();
    Ok(())
}

fn rolling_rate(g: &mut Gen) -> Res {
    let size = g.range(20, 800) as usize;
    let fpp = *g.pick(&[0.3, 0.1, 0.03, 0.01, 0.001]);
    let seed = g.raw64();
    let base = g.raw64();
    let total = g.range(size as u64, 6 * size as u64);
    let mut r = crate::rng(seed);
    let mut f = RollingBloomFilter::<u64>::new(size, fpp, &mut r);
    for i in 0..total {
        f.insert(&base.wrapping_add(i), &mut r);
    }
    let n = 6000;
    let fp = (0..n as u64).filter(|i| f.contains(&base.wrapping_add(1 << 40).wrapping_add(*i))).count();
    note!(g, "size {size} fpp {fpp} inserted {total}: {fp} of {n}");
    check!(fp as f64 <= bound(n, fpp), "{fp} false positives in {n}, rate {fpp}, size {size}, {total} inserted");
    g.nontrivial();
    Ok(())
}

/// Different random sources, and later generations of a rolling filter, err on different items.
fn fresh_positives(g: &mut Gen) -> Res {
    let size = g.range(20, 200);
    let fpp = 0.3;
    let seed = g.raw64();
    let base = g.raw64();
    let queries: Vec<u64> = (0..4000u64).map(|i| base.wrapping_add(1 << 40).wrapping_add(i)).collect();
    let (a, b): (Vec<bool>, Vec<bool>);
    if g.bool() {
        let make = |s: u64| {
            let mut f = BloomFilter::<u64>::new(size as usize, fpp, &mut crate::rng(s));
            (0..size).for_each(|i| f.insert(&base.wrapping_add(i)));
            queries.iter().map(|q| f.contains(q)).collect::<Vec<_>>()
        };
        a = make(seed);
        b = make(seed ^ 1);
        g.tag("two_filters");
    } else {
        let mut r = crate::rng(seed);
        let mut f = RollingBloomFilter::<u64>::new(size as usize, fpp, &mut r);
        // the same items again and again: every generation holds the same set
        let sub = std::cmp::max(1, (size + 1) / 2);
        let full = |f: &mut RollingBloomFilter<u64>, r: &mut _| {
            for _ in 0..3 {
                for i in 0..sub {
                    f.insert(&base.wrapping_add(i), r);
                }
            }
        };
        full(&mut f, &mut r);
        a = queries.iter().map(|q| f.contains(q)).collect();
        full(&mut f, &mut r);
        b = queries.iter().map(|q| f.contains(q)).collect();
        g.tag("generations");
    }
    let na = a.iter().filter(|x| **x).count();
    let both = a.iter().zip(&b).filter(|(x, y)| **x && **y).count();
    note!(g, "{na} false positives, {both} again");
    if na >= 150 {
        check!((both as f64) < 0.75 * na as f64, "{both} of {na} false positives persist under fresh random keys");
        g.nontrivial();
    }
    Ok(())
}
