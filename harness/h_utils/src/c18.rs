//! Concurrency helpers.

use pbt::*;
use std::{
    fmt::Debug,
    sync::{
        atomic::{AtomicBool, AtomicU64, AtomicUsize, Ordering},
        Arc, Barrier,
    },
};
use utils::{
    atomics::*, blockuntilzero::BlockUntilZero, const_value::ConstValue, counttracker::CountTracker,
    once_destructor::OnceDestructor, set_flag::SetFlag,
};

pub const P: Property = Property {
    id: "C18",
    rule: "a case is non-trivial when at least three operations changed the value, or at least two threads took part",
    facets: &[
        facet("num_cell", 12000, num_cell),
        facet("bool_cell", 6000, bool_cell),
        facet("trait_cell", 6000, trait_cell),
        facet("threads_num", 600, threads_num).threads(4),
        facet("threads_claim", 240, threads_claim).threads(3),
        facet("store_buffering", 24, store_buffering).threads(2),
        facet("handover", 160, handover).threads(3),
        facet("tracker_history", 6000, tracker_history),
        facet("tracker_threads", 240, tracker_threads).threads(4),
        facet("until_zero", 240, until_zero).threads(4),
        facet("flag_and_once", 6000, flag_and_once),
        facet("const_value", 4000, const_value),
    ],
    assumptions: &[
        "thread interleavings and memory orders are those this machine (x86-64) produces; a weakening that only a weaker machine would show is not observable here",
    ],
};

/// Numbers of all widths, as 64-bit words for the model.
pub trait Num: Copy + Debug + PartialEq + Eq + Ord + 'static {
    const BITS: u32;
    fn of(v: u64) -> Self;
    fn word(self) -> u64;
    fn wadd(self, o: Self) -> Self;
    fn wsub(self, o: Self) -> Self;
    fn and(self, o: Self) -> Self;
    fn or(self, o: Self) -> Self;
    fn xor(self, o: Self) -> Self;
    fn not(self) -> Self;
}
macro_rules! num {
    ($($t:ty),*) => {$(
        impl Num for $t {
            const BITS: u32 = <$t>::BITS;
            fn of(v: u64) -> Self { v as $t }
            fn word(self) -> u64 { self as u64 }
            fn wadd(self, o: Self) -> Self { self.wrapping_add(o) }
            fn wsub(self, o: Self) -> Self { self.wrapping_sub(o) }
            fn and(self, o: Self) -> Self { self & o }
            fn or(self, o: Self) -> Self { self | o }
            fn xor(self, o: Self) -> Self { self ^ o }
            fn not(self) -> Self { !self }
        }
    )*}
}
num!(i8, u8, i16, u16, i32, u32, i64, u64, isize, usize);

fn value<T: Num>(g: &mut Gen) -> T {
    let edges = [0, 1, 2, u64::MAX, 1 << (T::BITS - 1), (1 << (T::BITS - 1)) - 1, (1 << (T::BITS - 1)) + 1];
    match g.weighted(&[3, 2, 3]) {
        0 => T::of(g.below(4)),
        1 => T::of(*g.pick(&edges)),
        _ => T::of(g.raw64()),
    }
}

fn num_cell(g: &mut Gen) -> Res {
    macro_rules! go {
        ($($t:ident $r:ident $a:ident $s:ident),*) => {{
            let all: &[fn(&mut Gen) -> Res] = &[$(
                num_run::<$t, RelaxedOrderings>, num_run::<$t, AcqRelOrderings>, num_run::<$t, SeqCstOrderings>,
                |g| alias::<$t, RelaxedOrderings>(g, $r::new(<$t>::MAX)),
                |g| alias::<$t, AcqRelOrderings>(g, $a::new(<$t>::MAX)),
                |g| alias::<$t, SeqCstOrderings>(g, $s::new(<$t>::MAX)),
            )*];
            let i = g.usize(all.len());
            all[i](g)
        }}
    }
    fn alias<T: Num + atomic_traits::HasStdAtomic, O: Orderings>(_: &mut Gen, c: Atomic<T, O>) -> Res
    where
        T::AtomicType: AtomicNumTrait<Type = T>,
    {
        // the named aliases are cells of the type their name says
        check_eq!(c.fetch_add(T::of(1)).wadd(T::of(1)), c.load(), "alias overflow");
        Ok(())
    }
    go!(
        i8 RelaxedAtomicI8 AcqRelAtomicI8 SeqCstAtomicI8,
        u8 RelaxedAtomicU8 AcqRelAtomicU8 SeqCstAtomicU8,
        i16 RelaxedAtomicI16 AcqRelAtomicI16 SeqCstAtomicI16,
        u16 RelaxedAtomicU16 AcqRelAtomicU16 SeqCstAtomicU16,
        i32 RelaxedAtomicI32 AcqRelAtomicI32 SeqCstAtomicI32,
        u32 RelaxedAtomicU32 AcqRelAtomicU32 SeqCstAtomicU32,
        i64 RelaxedAtomicI64 AcqRelAtomicI64 SeqCstAtomicI64,
        u64 RelaxedAtomicU64 AcqRelAtomicU64 SeqCstAtomicU64,
        isize RelaxedAtomicIsize AcqRelAtomicIsize SeqCstAtomicIsize,
        usize RelaxedAtomicUsize AcqRelAtomicUsize SeqCstAtomicUsize
    )
}

fn num_run<T, O>(g: &mut Gen) -> Res
where
    T: Num + atomic_traits::HasStdAtomic + Default,
    T::AtomicType: From<T> + AtomicNumTrait<Type = T>,
    O: Orderings,
{
    let start: T = value(g);
    let (c, mut m) = match g.below(3) {
        0 => (Atomic::<T, O>::default(), T::of(0)),
        1 => (Atomic::<T, O>::from(start), start),
        _ => (Atomic::<T, O>::new(start), start),
    };
    let mut changes = 0;
    for _ in 0..g.range(1, 30) {
        let (v, w): (T, T) = (value(g), if g.bool() { m } else { value(g) });
        let old = m;
        let op = g.below(14);
        note!(g, "op {op} {v:?} {w:?}");
        match op {
            0 => check_eq!(c.load(), m, "load"),
            1 => {
                c.store(v);
                m = v;
            }
            2 => {
                m = v;
                check_eq!(c.swap(v), old, "swap");
            }
            3 => {
                let e = if w == old { Ok(old) } else { Err(old) };
                if w == old {
                    m = v;
                }
                check_eq!(c.compare_exchange(w, v), e, "compare_exchange");
            }
            4 => match c.compare_exchange_weak(w, v) {
                Ok(x) => {
                    check!(x == old && w == old, "weak compare_exchange({w:?}) succeeded with {x:?} on {old:?}");
                    m = v;
                }
                Err(x) => check_eq!(x, old, "weak compare_exchange failure value"),
            },
            5 => {
                let refuse = g.chance(1, 3);
                let mut calls = vec![];
                let r = c.fetch_update(|x| {
                    calls.push(x);
                    (!refuse).then(|| x.wadd(v))
                });
                check_eq!(r, if refuse { Err(old) } else { Ok(old) }, "fetch_update");
                check!(!calls.is_empty() && calls.iter().all(|x| *x == old), "fetch_update passed {calls:?}");
                if !refuse {
                    m = old.wadd(v);
                }
            }
            6 => {
                m = old.and(v);
                check_eq!(c.fetch_and(v), old, "fetch_and");
            }
            7 => {
                m = old.and(v).not();
                check_eq!(c.fetch_nand(v), old, "fetch_nand");
            }
            8 => {
                m = old.or(v);
                check_eq!(c.fetch_or(v), old, "fetch_or");
            }
            9 => {
                m = old.xor(v);
                check_eq!(c.fetch_xor(v), old, "fetch_xor");
            }
            10 => {
                m = old.wadd(v);
                check_eq!(c.fetch_add(v), old, "fetch_add");
            }
            11 => {
                m = old.wsub(v);
                check_eq!(c.fetch_sub(v), old, "fetch_sub");
            }
            12 => {
                m = old.max(v);
                check_eq!(c.fetch_max(v), old, "fetch_max");
            }
            _ => {
                m = old.min(v);
                check_eq!(c.fetch_min(v), old, "fetch_min");
            }
        }
        changes += usize::from(m != old);
        check_eq!(c.load(), m, "value after operation {op} with {v:?} on {old:?}");
        check_eq!(c.inner().load(Ordering::SeqCst), m, "inner value");
        check_eq!(format!("{c:?}"), format!("{m:?}"), "debug text");
    }
    check_eq!(c.into_inner().load(Ordering::SeqCst), m, "final value");
    g.nontrivial_if(changes >= 3);
    Ok(())
}

fn bool_cell(g: &mut Gen) -> Res {
    match g.below(3) {
        0 => bool_run::<RelaxedOrderings>(g),
        1 => bool_run::<AcqRelOrderings>(g),
        _ => bool_run::<SeqCstOrderings>(g),
    }?;
    let v = g.bool();
    check_eq!((RelaxedAtomicBool::new(v).load(), AcqRelAtomicBool::new(v).load(), SeqCstAtomicBool::new(v).load()), (v, v, v), "aliases");
    Ok(())
}

fn bool_run<O: Orderings>(g: &mut Gen) -> Res {
    let start = g.bool();
    let (c, mut m) = match g.below(3) {
        0 => (Atomic::<bool, O>::default(), false),
        1 => (Atomic::<bool, O>::from(start), start),
        _ => (Atomic::<bool, O>::new(start), start),
    };
    let mut changes = 0;
    for _ in 0..g.range(1, 20) {
        let (v, w) = (g.bool(), g.bool());
        let old = m;
        let op = g.below(10);
        note!(g, "op {op} {v} {w}");
        match op {
            0 => check_eq!(c.load(), m, "load"),
            1 => {
                c.store(v);
                m = v;
            }
            2 => {
                m = v;
                check_eq!(c.swap(v), old, "swap");
            }
            3 => {
                if w == old {
                    m = v;
                }
                check_eq!(c.compare_exchange(w, v), if w == old { Ok(old) } else { Err(old) }, "compare_exchange");
            }
            4 => match c.compare_exchange_weak(w, v) {
                Ok(x) => {
                    check!(x == old && w == old, "weak compare_exchange({w}) succeeded with {x} on {old}");
                    m = v;
                }
                Err(x) => check_eq!(x, old, "weak compare_exchange failure value"),
            },
            5 => {
                let r = c.fetch_update(|x| w.then_some(x ^ v));
                check_eq!(r, if w { Ok(old) } else { Err(old) }, "fetch_update");
                if w {
                    m = old ^ v;
                }
            }
            6 => {
                m = old & v;
                check_eq!(c.fetch_and(v), old, "fetch_and");
            }
            7 => {
                m = !(old & v);
                check_eq!(c.fetch_nand(v), old, "fetch_nand");
            }
            8 => {
                m = old | v;
                check_eq!(c.fetch_or(v), old, "fetch_or");
            }
            _ => {
                m = old ^ v;
                check_eq!(c.fetch_xor(v), old, "fetch_xor");
            }
        }
        changes += usize::from(m != old);
        check_eq!(c.load(), m, "value after operation {op} with {v} on {old}");
        check_eq!(format!("{c:?}"), format!("{m:?}"), "debug text");
    }
    g.nontrivial_if(changes >= 3);
    Ok(())
}

/// The traits over the standard atomics, used by generic code.
fn trait_cell(g: &mut Gen) -> Res {
    fn run<A, T: Num>(g: &mut Gen) -> Res
    where
        A: AtomicNumTrait<Type = T> + From<T>,
    {
        use Ordering::*;
        let rmw = [Relaxed, Acquire, Release, AcqRel, SeqCst];
        let ld = [Relaxed, Acquire, SeqCst];
        let st = [Relaxed, Release, SeqCst];
        let mut m: T = value(g);
        let c = A::from(m);
        let mut changes = 0;
        for _ in 0..g.range(1, 20) {
            let (v, w): (T, T) = (value(g), if g.bool() { m } else { value(g) });
            let o = *g.pick(&rmw);
            let l = *g.pick(&ld);
            let s = *g.pick(&st);
            let old = m;
            let op = g.below(13);
            let got = match op {
                0 => {
                    c.store(v, s);
                    m = v;
                    old
                }
                1 => {
                    m = v;
                    c.swap(v, o)
                }
                2 => {
                    if w == old {
                        m = v;
                    }
                    let r = c.compare_exchange(w, v, o, l);
                    check_eq!(r.is_ok(), w == old, "compare_exchange");
                    r.unwrap_or_else(|x| x)
                }
                3 => {
                    let r = c.compare_exchange_weak(w, v, o, l);
                    if r.is_ok() {
                        check_eq!(w, old, "weak compare_exchange succeeded");
                        m = v;
                    }
                    r.unwrap_or_else(|x| x)
                }
                4 => {
                    let refuse = g.bool();
                    if !refuse {
                        m = old.wsub(v);
                    }
                    let r = c.fetch_update(o, l, |x| (!refuse).then(|| x.wsub(v)));
                    check_eq!(r.is_err(), refuse, "fetch_update");
                    r.unwrap_or_else(|x| x)
                }
                5 => {
                    m = old.and(v);
                    c.fetch_and(v, o)
                }
                6 => {
                    m = old.and(v).not();
                    c.fetch_nand(v, o)
                }
                7 => {
                    m = old.or(v);
                    c.fetch_or(v, o)
                }
                8 => {
                    m = old.xor(v);
                    c.fetch_xor(v, o)
                }
                9 => {
                    m = old.wadd(v);
                    c.fetch_add(v, o)
                }
                10 => {
                    m = old.wsub(v);
                    c.fetch_sub(v, o)
                }
                11 => {
                    m = old.max(v);
                    c.fetch_max(v, o)
                }
                _ => {
                    m = old.min(v);
                    c.fetch_min(v, o)
                }
            };
            changes += usize::from(m != old);
            check_eq!(got, old, "value returned by operation {op} with {v:?}");
            check_eq!(c.load(l), m, "value after operation {op} with {v:?} on {old:?}");
        }
        g.nontrivial_if(changes >= 3);
        Ok(())
    }
    use std::sync::atomic::*;
    let all: &[fn(&mut Gen) -> Res] = &[
        run::<AtomicI8, i8>,
        run::<AtomicU8, u8>,
        run::<AtomicI16, i16>,
        run::<AtomicU16, u16>,
        run::<AtomicI32, i32>,
        run::<AtomicU32, u32>,
        run::<AtomicI64, i64>,
        run::<AtomicU64, u64>,
        run::<AtomicIsize, isize>,
        run::<AtomicUsize, usize>,
    ];
    let i = g.usize(all.len());
    all[i](g)
}

fn threads_num(g: &mut Gen) -> Res {
    fn run<T, O>(g: &mut Gen) -> Res
    where
        T: Num + atomic_traits::HasStdAtomic + Default + Send + Sync,
        T::AtomicType: From<T> + AtomicNumTrait<Type = T> + Sync + Send,
        O: Orderings + Sync,
    {
        let threads = g.range(2, 4) as usize;
        let per = g.range(50, 1500);
        let (sum, cas, upd, weak, maxi, mini, bits, flip) = (
            Atomic::<T, O>::default(),
            Atomic::<T, O>::default(),
            Atomic::<T, O>::default(),
            Atomic::<T, O>::default(),
            Atomic::<T, O>::default(),
            Atomic::<T, O>::new(T::of(100)),
            Atomic::<T, O>::default(),
            Atomic::<T, O>::default(),
        );
        let seeds: Vec<u64> = (0..threads).map(|_| g.raw64()).collect();
        let b = Barrier::new(threads);
        let tops: Vec<(u64, u64)> = std::thread::scope(|s| {
            let hs: Vec<_> = seeds
                .iter()
                .enumerate()
                .map(|(t, seed)| {
                    let (sum, cas, upd, weak, maxi, mini, bits, flip, b) =
                        (&sum, &cas, &upd, &weak, &maxi, &mini, &bits, &flip, &b);
                    s.spawn(move || {
                        b.wait();
                        let mut x = *seed;
                        let (mut top, mut low) = (0, 100);
                        for i in 0..per {
                            x = x.wrapping_mul(6364136223846793005).wrapping_add(1442695040888963407);
                            if i % 3 == 0 {
                                sum.fetch_sub(T::of(3));
                            } else {
                                sum.fetch_add(T::of(5));
                            }
                            let mut cur = cas.load();
                            while let Err(now) = cas.compare_exchange(cur, cur.wadd(T::of(1))) {
                                cur = now;
                            }
                            let mut cur = weak.load();
                            while let Err(now) = weak.compare_exchange_weak(cur, cur.wadd(T::of(1))) {
                                cur = now;
                            }
                            let _ = upd.fetch_update(|v| Some(v.wadd(T::of(1))));
                            let v = (x >> 33) % 100;
                            top = top.max(v);
                            low = low.min(v);
                            maxi.fetch_max(T::of(v));
                            mini.fetch_min(T::of(v));
                            flip.fetch_xor(T::of(1 << t));
                        }
                        bits.fetch_or(T::of(1 << t));
                        (top, low)
                    })
                })
                .collect();
            hs.into_iter().map(|h| h.join().expect("thread")).collect()
        });
        let n = threads as u64;
        let subs = per.div_ceil(3);
        let expected = (per - subs).wrapping_mul(5).wrapping_sub(subs.wrapping_mul(3)).wrapping_mul(n);
        check_eq!(sum.load(), T::of(expected), "sum of additions and subtractions");
        check_eq!(cas.load(), T::of(per * n), "increments by compare_exchange");
        check_eq!(weak.load(), T::of(per * n), "increments by compare_exchange_weak");
        check_eq!(upd.load(), T::of(per * n), "increments by fetch_update");
        check_eq!(maxi.load(), T::of(tops.iter().map(|x| x.0).max().unwrap_or(0)), "maximum");
        check_eq!(mini.load(), T::of(tops.iter().map(|x| x.1).min().unwrap_or(100)), "minimum");
        check_eq!(bits.load(), T::of((1 << threads) - 1), "bits set by each thread");
        check_eq!(flip.load(), T::of(if per % 2 == 1 { (1 << threads) - 1 } else { 0 }), "bits flipped");
        Ok(())
    }
    g.nontrivial();
    let all: &[fn(&mut Gen) -> Res] = &[
        run::<u8, RelaxedOrderings>,
        run::<i16, RelaxedOrderings>,
        run::<u32, RelaxedOrderings>,
        run::<u64, RelaxedOrderings>,
        run::<i8, AcqRelOrderings>,
        run::<u16, AcqRelOrderings>,
        run::<i32, AcqRelOrderings>,
        run::<i64, AcqRelOrderings>,
        run::<u64, SeqCstOrderings>,
        run::<usize, SeqCstOrderings>,
        run::<isize, SeqCstOrderings>,
    ];
    let i = g.usize(all.len());
    all[i](g)
}

/// Only one thread wins each round of swap, compare-and-swap or nand on a flag.
fn threads_claim(g: &mut Gen) -> Res {
    fn run<O: Orderings + Sync>(g: &mut Gen) -> Res {
        let threads = g.range(2, 3) as usize;
        let rounds = g.range(20, 400) as usize;
        let how = g.below(4);
        let cells: Vec<Atomic<bool, O>> = (0..rounds).map(|_| Atomic::default()).collect();
        let wins: Vec<AtomicUsize> = (0..rounds).map(|_| AtomicUsize::new(0)).collect();
        let b = Barrier::new(threads);
        std::thread::scope(|s| {
            for _ in 0..threads {
                s.spawn(|| {
                    b.wait();
                    for (c, w) in cells.iter().zip(&wins) {
                        let won = match how {
                            0 => !c.swap(true),
                            1 => c.compare_exchange(false, true).is_ok(),
                            2 => !c.fetch_or(true),
                            _ => c.fetch_update(|x| (!x).then_some(true)).is_ok(),
                        };
                        w.fetch_add(usize::from(won), Ordering::SeqCst);
                    }
                });
            }
        });
        for (i, (c, w)) in cells.iter().zip(&wins).enumerate() {
            check_eq!(w.load(Ordering::SeqCst), 1, "winners of round {i}, way {how}");
            check!(c.load(), "the flag of round {i} is unset");
        }
        Ok(())
    }
    g.nontrivial();
    match g.below(3) {
        0 => run::<RelaxedOrderings>(g),
        1 => run::<AcqRelOrderings>(g),
        _ => run::<SeqCstOrderings>(g),
    }
}

/// With sequentially consistent cells at least one of two threads that each write one cell and then read the other
/// sees the write.
fn store_buffering(g: &mut Gen) -> Res {
    let rounds = g.range(20_000, 40_000);
    let x = [SeqCstAtomicU64::new(0), SeqCstAtomicU64::new(0)];
    let start = [AtomicU64::new(0), AtomicU64::new(0)];
    let bad = AtomicU64::new(0);
    let seen = [AtomicU64::new(0), AtomicU64::new(0)];
    std::thread::scope(|s| {
        for me in 0..2usize {
            let (x, start, bad, seen) = (&x, &start, &bad, &seen);
            s.spawn(move || {
                let other = 1 - me;
                let wait = |n: u64| {
                    start[me].store(n, Ordering::Release);
                    let mut spins = 0u32;
                    while start[other].load(Ordering::Acquire) < n {
                        spins += 1;
                        if spins % 4096 == 0 {
                            std::thread::yield_now();
                        }
                        std::hint::spin_loop();
                    }
                };
                for r in 1..=rounds {
                    wait(2 * r - 1);
                    x[me].store(r);
                    let v = x[other].load();
                    seen[me].store(v, Ordering::Release);
                    wait(2 * r);
                    if me == 0 && seen[0].load(Ordering::Acquire) < r && seen[1].load(Ordering::Acquire) < r {
                        bad.fetch_add(1, Ordering::SeqCst);
                    }
                }
            });
        }
    });
    check_eq!(bad.load(Ordering::SeqCst), 0, "rounds in which neither thread saw the other's write");
    g.nontrivial();
    Ok(())
}

/// What was written before a flag is set is visible to who sees the flag.
fn handover(g: &mut Gen) -> Res {
    let n = g.range(200, 2000) as usize;
    let data: Vec<RelaxedAtomicU64> = (0..n).map(|_| RelaxedAtomicU64::new(0)).collect();
    let front = AcqRelAtomicUsize::new(0);
    let stop = AcqRelAtomicBool::new(false);
    let r: Vec<Res> = std::thread::scope(|s| {
        let readers: Vec<_> = (0..2)
            .map(|_| {
                s.spawn(|| {
                    let mut last = 0;
                    loop {
                        let stopped = stop.load();
                        let f = front.load();
                        check!(f >= last, "the counter went back from {last} to {f}");
                        last = f;
                        if f > 0 {
                            check_eq!(data[f - 1].load(), f as u64, "entry published before counter {f}");
                        }
                        if stopped {
                            check_eq!(f, n, "the last counter value");
                            return Ok(());
                        }
                    }
                })
            })
            .collect();
        for i in 0..n {
            data[i].store(i as u64 + 1);
            front.store(i + 1);
        }
        stop.store(true);
        readers.into_iter().map(|h| h.join().unwrap_or_else(|_| Err("reader panicked".into()))).collect()
    });
    for x in r {
        x?;
    }
    g.nontrivial();
    Ok(())
}

fn tracker_history(g: &mut Gen) -> Res {
    fn run<A, T: Num>(g: &mut Gen, zero: A, value: impl Fn(&CountTracker<A>) -> T, make: impl Fn(&Arc<A>) -> CountTracker<A>, read: impl Fn(&A) -> T) -> Res
    where
        A: AtomicNumTrait,
        A::Type: OneZero,
    {
        let src = Arc::new(zero);
        let mut live: Vec<CountTracker<A>> = vec![];
        let mut changes = 0;
        for _ in 0..g.range(1, 60) {
            if g.bool() || live.is_empty() {
                live.push(make(&src));
            } else {
                let i = g.usize(live.len());
                drop(live.swap_remove(i));
            }
            changes += 1;
            check_eq!(read(&src), T::of(live.len() as u64), "counter");
            for t in &live {
                check_eq!(value(t), T::of(live.len() as u64), "value read through a tracker");
            }
        }
        live.clear();
        check_eq!(read(&src), T::of(0), "counter at the end");
        g.nontrivial_if(changes >= 3);
        Ok(())
    }
    use std::sync::atomic::{AtomicI32, AtomicU8};
    match g.below(3) {
        0 => run::<AtomicI32, i32>(g, AtomicI32::new(0), |t| t.value(), |s| CountTracker::new(Arc::clone(s)), |a| a.load(Ordering::SeqCst)),
        1 => run::<AtomicU8, u8>(g, AtomicU8::new(0), |t| t.value(), |s| CountTracker::new(Arc::clone(s)), |a| a.load(Ordering::SeqCst)),
        _ => {
            // the same through the wait-until-zero counter
            let b = BlockUntilZero::<AtomicI32>::default();
            let mut live = vec![];
            for _ in 0..g.range(1, 60) {
                if g.bool() || live.is_empty() {
                    live.push(b.count_one());
                } else {
                    let i = g.usize(live.len());
                    drop(live.swap_remove(i));
                }
                check_eq!(b.value(), live.len() as i32, "value");
                check!(live.iter().all(|t: &CountTracker<AtomicI32>| t.value() == b.value()), "value read through a tracker");
                if live.is_empty() {
                    b.wait_for_zero();
                }
            }
            live.clear();
            b.wait_for_zero();
            check_eq!(b.value(), 0, "value at the end");
            Ok(())
        }
    }
}
use num_traits_like::OneZero;
mod num_traits_like {
    pub trait OneZero: num_traits::One + num_traits::Zero {}
    impl<T: num_traits::One + num_traits::Zero> OneZero for T {}
}

fn tracker_threads(g: &mut Gen) -> Res {
    let src = Arc::new(std::sync::atomic::AtomicI64::new(0));
    let threads = g.range(2, 4);
    let n = g.range(10, 1500);
    let keep = g.range(0, 5) as usize;
    let b = Barrier::new(threads as usize);
    let kept: Vec<Vec<CountTracker<_>>> = std::thread::scope(|s| {
        let hs: Vec<_> = (0..threads)
            .map(|_| {
                let (src, b) = (Arc::clone(&src), &b);
                s.spawn(move || {
                    b.wait();
                    let mut mine = vec![];
                    for i in 0..n {
                        mine.push(CountTracker::new(Arc::clone(&src)));
                        if i % 3 == 0 {
                            mine.pop();
                        }
                        if i % 7 == 0 {
                            mine.truncate(keep);
                        }
                    }
                    mine.truncate(keep);
                    mine
                })
            })
            .collect();
        hs.into_iter().map(|h| h.join().expect("thread")).collect()
    });
    let live: usize = kept.iter().map(Vec::len).sum();
    check_eq!(src.load(Ordering::SeqCst), live as i64, "counter with {live} live trackers");
    drop(kept);
    check_eq!(src.load(Ordering::SeqCst), 0, "counter at the end");
    g.nontrivial();
    Ok(())
}

/// The waiter, and dropping the counter, return only after every guard is gone.
fn until_zero(g: &mut Gen) -> Res {
    let b = BlockUntilZero::<std::sync::atomic::AtomicI32>::new();
    let threads = g.range(1, 4);
    let done = Arc::new(AtomicUsize::new(0));
    let go = Arc::new(AtomicBool::new(false));
    let mut hs = vec![];
    for _ in 0..threads {
        let guards: Vec<_> = (0..g.range(1, 3)).map(|_| b.count_one()).collect();
        let us = g.below(8000);
        let (done, go) = (Arc::clone(&done), Arc::clone(&go));
        hs.push(std::thread::spawn(move || {
            while !go.load(Ordering::SeqCst) {
                std::thread::yield_now();
            }
            let mut guards = guards;
            while guards.len() > 1 {
                guards.pop();
                std::thread::yield_now();
            }
            std::thread::sleep(std::time::Duration::from_micros(us));
            done.fetch_add(1, Ordering::SeqCst);
            drop(guards);
        }));
    }
    let by_drop = g.bool();
    go.store(true, Ordering::SeqCst);
    if by_drop {
        drop(b);
    } else {
        b.wait_for_zero();
        check_eq!(b.value(), 0, "value after the wait");
    }
    let finished = done.load(Ordering::SeqCst);
    for h in hs {
        let _ = h.join();
    }
    check_eq!(finished as u64, threads, "guards released when the waiter returned");
    g.nontrivial_if(threads > 1);
    Ok(())
}

fn flag_and_once(g: &mut Gen) -> Res {
    let mut f = SetFlag::new();
    let mut m = false;
    for _ in 0..g.range(1, 12) {
        match g.below(3) {
            0 => check_eq!(f.test(), m, "flag"),
            1 => {
                f.set();
                m = true;
            }
            _ => {
                check_eq!(f.test_and_set(), m, "previous flag");
                m = true;
            }
        }
        check_eq!(f.test(), m, "flag");
    }
    // destructors run once, at the end of the scope, in reverse order, also when it is left early
    let n = g.range(1, 5) as usize;
    let early = g.usize(n + 2);
    let log = std::cell::RefCell::new(vec![]);
    let _ = (|| -> Option<()> {
        let mut held = vec![];
        for i in 0..n {
            if i == early {
                let _d = OnceDestructor::new(|| log.borrow_mut().push(100));
                check_len(&log, 0)?;
                return None;
            }
            held.push(OnceDestructor::new(|| {
                let k = log.borrow().len();
                log.borrow_mut().push(k)
            }));
        }
        check_len(&log, 0)?;
        let moved = held;
        drop(moved);
        Some(())
    })();
    fn check_len(l: &std::cell::RefCell<Vec<usize>>, n: usize) -> Option<()> {
        assert_eq!(l.borrow().len(), n, "a destructor ran early");
        Some(())
    }
    let expected = if early < n { early + 1 } else { n };
    check_eq!(log.borrow().len(), expected, "destructor runs");
    check_eq!(log.borrow().iter().filter(|x| **x == 100).count(), usize::from(early < n), "early destructor runs");
    // a panic in the scope runs it too
    let ran = AtomicUsize::new(0);
    let _ = no_panic(|| {
        let _d = OnceDestructor::new(|| {
            ran.fetch_add(1, Ordering::SeqCst);
        });
        if early == 0 {
            std::panic::resume_unwind(Box::new("out"));
        }
    });
    check_eq!(ran.load(Ordering::SeqCst), 1, "destructor runs on leaving the scope");
    g.nontrivial();
    Ok(())
}

utils::make_config_setting!(NumSetting, u64, 77);
utils::make_config_setting!(TextSetting, String, "abc".into());

fn const_value(g: &mut Gen) -> Res {
    let (a, b) = (g.text(4), g.text(4));
    let (ca, cb): (ConstValue<String>, ConstValue<String>) = (a.clone().into(), ConstValue::new(b.clone()));
    check_eq!(*ca, a, "value");
    check_eq!(ca.as_ref(), &a, "as_ref");
    check_eq!(ca.cmp(&cb), a.cmp(&b), "order");
    check_eq!(ca.partial_cmp(&cb), a.partial_cmp(&b), "order");
    check_eq!(ca == cb, a == b, "equality");
    check_eq!(ca.to_string(), a, "text");
    check_eq!(ca.clone().take(), a, "taken value");
    check_eq!(*ConstValue::<u64>::default(), 0, "default");
    let h = |x: &dyn Fn(&mut std::collections::hash_map::DefaultHasher)| {
        let mut s = std::collections::hash_map::DefaultHasher::new();
        x(&mut s);
        std::hash::Hasher::finish(&s)
    };
    use std::hash::Hash;
    check_eq!(h(&|s| ca.hash(s)), h(&|s| a.hash(s)), "hash");
    let n = g.raw64();
    check_eq!(*NumSetting::default(), 77, "default setting");
    check_eq!(*NumSetting::new(n), n, "setting");
    check_eq!(u64::from(NumSetting::from(n)), n, "setting");
    check_eq!(*NumSetting::from(Some(n)), n, "setting");
    check_eq!(*NumSetting::from(None), 77, "setting");
    check_eq!(*TextSetting::from(None), "abc", "setting");
    check_eq!(TextSetting::from(Some(a.clone())).as_ref(), &a, "setting");
    check_eq!(String::from(TextSetting::new(b.clone())), b, "setting");
    g.nontrivial_if(a != b);
    Ok(())
}
