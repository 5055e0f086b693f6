//! Utility algorithms.

use pbt::*;
use randomness::{adapters::Rng08Adapter, seq::IteratorRandom as _, BoxedRngMutexWrapper, Rng, RngExt as _, SliceRandom as _, TryRng};
use std::{collections::BTreeSet, fmt::Debug};
use utils::{
    array_2d::Array2d,
    cow_utils::CowUtils as _,
    displayable_option::DisplayableOption as _,
    exp_rand::{exponential_rand, EXPONENTIAL_RAND_UPPER_LIMIT},
    graph_traversals::{dag_depth_postorder, dag_depth_postorder_multiroot},
    qrcode::{qrcode_from_str, QrCode},
    shuffled::Shuffled as _,
    sorted::Sorted as _,
};

pub const P: Property = Property {
    id: "C22",
    rule: "a case is non-trivial when the graph had a node reachable along two ways, the sequence at least two items, the array at least two rows and columns, or the text at least one character",
    facets: &[
        facet("postorder", 48000, postorder),
        facet("sorting", 30000, sorting),
        facet("shuffling", 12000, shuffling),
        facet("shuffle_spread", 240, shuffle_spread),
        facet("array", 24000, array),
        facet("qr", 1500, qr),
        facet("exponential", 240, exponential),
        facet("exponential_edges", 18000, exponential_edges),
        facet("sampling", 18000, sampling),
        facet("same_seed", 12000, same_seed),
        facet("versions_options", 12000, versions_options),
    ],
    assumptions: &["the module matrix of a QR code is that of the code generation library (qrcodegen)"],
};

struct Dag {
    children: Vec<Vec<usize>>,
}

/// Nodes are numbered so that edges go to higher labels; the labels are shuffled afterwards.
fn dag(g: &mut Gen) -> Dag {
    let n = g.range(1, 12) as usize;
    let label: Vec<usize> = {
        let mut v: Vec<usize> = (0..n).collect();
        g.shuffle(&mut v);
        v
    };
    let dense = g.range(1, 5);
    let mut children = vec![vec![]; n];
    for i in 0..n {
        for j in i + 1..n {
            if g.chance(dense, 8) {
                children[label[i]].push(label[j]);
            }
        }
        let c = &mut children[label[i]];
        g.shuffle(c);
        if !c.is_empty() && g.chance(1, 10) {
            let again = c[0];
            c.push(again);
        }
    }
    Dag { children }
}

fn reference(d: &Dag, n: usize, seen: &mut BTreeSet<usize>, out: &mut Vec<usize>) {
    if !seen.insert(n) {
        return;
    }
    for c in &d.children[n] {
        reference(d, *c, seen, out);
    }
    out.push(n);
}

fn reach(d: &Dag, n: usize, seen: &mut BTreeSet<usize>) {
    if seen.insert(n) {
        for c in &d.children[n] {
            reach(d, *c, seen);
        }
    }
}

fn postorder(g: &mut Gen) -> Res {
    let d = dag(g);
    let n = d.children.len();
    let roots: Vec<usize> = g.vec(0, 4, |g| g.usize(n));
    note!(g, "children {:?} roots {roots:?}", d.children);
    let run = |roots: &[usize]| -> Res {
        let single = roots.len() == 1;
        let got: Vec<usize> = if single {
            dag_depth_postorder(roots[0], |x| d.children[*x].clone()).collect()
        } else {
            dag_depth_postorder_multiroot(roots.to_vec(), |x| d.children[*x].clone()).collect()
        };
        let mut all = BTreeSet::new();
        roots.iter().for_each(|r| reach(&d, *r, &mut all));
        check_eq!(got.iter().copied().collect::<BTreeSet<_>>(), all, "nodes visited from {roots:?}");
        check_eq!(got.len(), all.len(), "visits from {roots:?} in {got:?}");
        for (i, x) in got.iter().enumerate() {
            let mut below = BTreeSet::new();
            reach(&d, *x, &mut below);
            below.remove(x);
            check!(
                below.iter().all(|b| got[..i].contains(b)),
                "node {x} comes before one reachable from it in {got:?}"
            );
        }
        let (mut seen, mut expected) = (BTreeSet::new(), vec![]);
        roots.iter().for_each(|r| reference(&d, *r, &mut seen, &mut expected));
        check_eq!(got, expected, "order from {roots:?}");
        if single {
            let again: Vec<usize> = dag_depth_postorder_multiroot(roots.to_vec(), |x| d.children[*x].clone()).collect();
            check_eq!(again, expected, "order from one root given as a list");
        }
        Ok(())
    };
    run(&roots)?;
    for r in 0..n {
        run(&[r])?;
    }
    let shared = (0..n).any(|x| d.children.iter().filter(|c| c.contains(&x)).count() > 1);
    g.tag_if(roots.len() > 1, "several_roots");
    g.nontrivial_if(shared);
    Ok(())
}

fn sorting(g: &mut Gen) -> Res {
    // pairs, so that stability is visible
    let v: Vec<(u8, usize)> = {
        let mut i = 0;
        g.vec(0, 40, |g| {
            i += 1;
            (g.below(6) as u8, i)
        })
    };
    let mut e = v.clone();
    e.sort();
    check_eq!(v.clone().sorted(), e, "sorted");
    let mut e = v.clone();
    // insertion sort by the first component, descending and stable
    for i in 1..e.len() {
        let mut j = i;
        while j > 0 && e[j - 1].0 < e[j].0 {
            e.swap(j - 1, j);
            j -= 1;
        }
    }
    check_eq!(v.clone().sorted_by(|a, b| b.0.cmp(&a.0)), e, "sorted by a comparison");
    g.nontrivial_if(v.len() > 1);
    Ok(())
}

fn multiset<T: Ord + Clone>(v: &[T]) -> Vec<T> {
    let mut v = v.to_vec();
    v.sort();
    v
}

fn shuffling(g: &mut Gen) -> Res {
    let v: Vec<u64> = g.vec(0, 40, |g| g.below(30));
    let seed = g.raw64();
    let s = v.clone().shuffled(&mut crate::rng(seed));
    check_eq!(multiset(&s), multiset(&v), "items after shuffling");
    check_eq!(v.clone().shuffled(&mut crate::rng(seed)), s, "shuffling again with the same seed");
    let mut w = v.clone();
    w.shuffle(&mut crate::rng(seed));
    check_eq!(multiset(&w), multiset(&v), "items after shuffling in place");
    let a: [u64; 5] = std::array::from_fn(|_| g.raw64());
    check_eq!(multiset(&a.shuffled(&mut crate::rng(seed))), multiset(&a), "array after shuffling");
    let distinct: BTreeSet<_> = v.iter().collect();
    if distinct.len() > 1 {
        let mut w = v.clone();
        let mut one = vec![0u8, 1, 2];
        test_utils::random::shuffle_until_different(&mut one, &mut crate::rng(seed));
        check!(one != [0, 1, 2], "shuffle_until_different returned the same order");
        check_eq!(multiset(&one), vec![0, 1, 2], "items after shuffle_until_different");
        test_utils::random::shuffle_until_different(&mut w, &mut crate::rng(seed));
        check_eq!(multiset(&w), multiset(&v), "items after shuffle_until_different");
    }
    g.nontrivial_if(v.len() > 1);
    Ok(())
}

/// Every item can end up at every place.
fn shuffle_spread(g: &mut Gen) -> Res {
    let n = g.range(2, 6) as usize;
    let mut r = crate::rng(g.raw64());
    let rounds = 4000;
    let mut at = vec![vec![0usize; n]; n];
    for _ in 0..rounds {
        let v: Vec<usize> = (0..n).collect();
        for (i, x) in v.shuffled(&mut r).into_iter().enumerate() {
            at[x][i] += 1;
        }
    }
    let e = rounds as f64 / n as f64;
    for (x, row) in at.iter().enumerate() {
        for (i, c) in row.iter().enumerate() {
            check!((*c as f64 - e).abs() < 8.0 * e.sqrt(), "item {x} was at place {i} in {c} of {rounds} shuffles of {n}");
        }
    }
    g.nontrivial();
    Ok(())
}

fn array(g: &mut Gen) -> Res {
    let (rows, cols) = (g.range(0, 6) as usize, g.range(1, 6) as usize);
    let init = g.raw64();
    let mut a = Array2d::new(rows, cols, init);
    let mut m = vec![vec![init; cols]; rows];
    check_eq!((a.rows_count(), a.cols_count()), (rows, cols), "dimensions");
    let same = |a: &Array2d<u64>, m: &Vec<Vec<u64>>| -> Res {
        check_eq!(a.rows().map(<[u64]>::to_vec).collect::<Vec<_>>(), *m, "rows");
        for (r, row) in m.iter().enumerate() {
            check_eq!(a[r].to_vec(), *row, "row {r}");
            for (c, v) in row.iter().enumerate() {
                check_eq!(a[r][c], *v, "cell {r}, {c}");
            }
            check!(no_panic(|| a[r][cols]).is_err(), "row {r} has more than {cols} cells");
        }
        check!(no_panic(|| a[rows].len()).is_err(), "more than {rows} rows can be read");
        Ok(())
    };
    same(&a, &m)?;
    for _ in 0..g.range(1, 12) {
        let v = g.raw64();
        if rows == 0 {
            break;
        }
        let (r, c) = (g.usize(rows), g.usize(cols));
        match g.below(4) {
            0 | 1 => {
                a[r][c] = v;
                m[r][c] = v;
            }
            2 => {
                a[r].fill(v);
                m[r].fill(v);
            }
            _ => {
                for (i, row) in a.rows_mut().enumerate() {
                    check_eq!(row.len(), cols, "cells of row {i}");
                    row[c] = v.wrapping_add(i as u64);
                    m[i][c] = v.wrapping_add(i as u64);
                }
            }
        }
        same(&a, &m)?;
    }
    let copy = a.clone();
    same(&copy, &m)?;
    g.nontrivial_if(rows > 1 && cols > 1);
    Ok(())
}

fn qr(g: &mut Gen) -> Res {
    let s = match g.weighted(&[3, 3, 2, 1]) {
        0 => g.text(60),
        1 => g.string(&"0123456789".chars().collect::<Vec<_>>(), 0, 200),
        2 => g.string(&"ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789 $%*+-./:".chars().collect::<Vec<_>>(), 0, 200),
        _ => "x".repeat(g.range(1500, 2600) as usize),
    };
    note!(g, "{} characters", s.chars().count());
    let lib = qrcodegen::QrCode::encode_text(&s, qrcodegen::QrCodeEcc::Medium);
    let q = qrcode_from_str(&s);
    let (lib, q) = match (lib, q) {
        (Err(_), Err(e)) => {
            check_eq!(e, utils::qrcode::QrCodeError::DataTooLong(s.len()), "error");
            g.tag("too_long");
            return Ok(());
        }
        (Ok(l), Ok(q)) => (l, q),
        (l, q) => return Err(format!("encoding {} bytes: library {}, ours {}", s.len(), l.is_ok(), q.is_ok())),
    };
    let n = lib.size();
    let side = n as usize;
    check_eq!(q.side_length(), side, "side");
    let v = q.as_vec();
    check_eq!(v.len(), side * side, "modules");
    for y in 0..n {
        for x in 0..n {
            let m = lib.get_module(x, y);
            check_eq!(q.pixel(x as usize, y as usize), Some(m), "module {x}, {y}");
            check_eq!(q.pixel_or_false(x as usize, y as usize), m, "module {x}, {y}");
            check_eq!(v[y as usize * side + x as usize], m, "module {x}, {y} in the vector");
        }
    }
    for (x, y) in [(side, 0), (0, side), (side, side), (usize::MAX, 0), (0, usize::MAX), (side - 1, side)] {
        check_eq!(q.pixel(x, y), None, "module outside, {x}, {y}");
        check!(!q.pixel_or_false(x, y), "module outside, {x}, {y}");
    }
    // console form: each module twice, with a border, rows ended by the line mark, and one mark at the end
    let border = *g.pick(&[0u8, 1, 2, 3, 7]);
    let (e, f, nl) = *g.pick(&[(' ', '#', '\n'), ('0', '1', '|'), ('é', '█', '\u{2028}')]);
    let t = q.encode_to_console_string(border, e, f, nl);
    let lines: Vec<Vec<char>> = t.split(nl).map(|l| l.chars().collect()).collect();
    let b = border as usize;
    let w = side + 2 * b;
    check_eq!(lines.len(), w + 2, "lines of the console form");
    check!(lines[w].is_empty() && lines[w + 1].is_empty(), "the end of the console form");
    for (y, l) in lines[..w].iter().enumerate() {
        check_eq!(l.len(), 2 * w, "length of line {y}");
        for x in 0..w {
            let on = x >= b && y >= b && x < side + b && y < side + b && lib.get_module((x - b) as i32, (y - b) as i32);
            let c = if on { f } else { e };
            check!(l[2 * x] == c && l[2 * x + 1] == c, "characters at {x}, {y} of the console form");
        }
    }
    check_eq!(
        q.encode_to_console_string_with_defaults(border),
        q.encode_to_console_string(border, utils::qrcode::EMPTY_CHAR, utils::qrcode::FILLED_CHAR, utils::qrcode::NEW_LINE),
        "console form with defaults"
    );
    // picture form: one square per module that is on, inside a view box with the border
    let sb = g.range(0, 9) as usize;
    let svg = q.encode_to_svg_string(sb);
    let d = side + 2 * sb;
    check!(svg.contains(&format!("viewBox=\"0 0 {d} {d}\"")), "view box of the picture for border {sb}");
    let path = svg.split("<path d=\"").nth(1).and_then(|p| p.split('"').next()).ok_or("no path in the picture")?;
    let squares: Vec<(usize, usize)> = path
        .split_whitespace()
        .map(|p| {
            let p = p.strip_prefix('M')?.strip_suffix("h1v1h-1z")?;
            let (x, y) = p.split_once(',')?;
            Some((x.parse().ok()?, y.parse().ok()?))
        })
        .collect::<Option<_>>()
        .ok_or("unreadable path in the picture")?;
    let expected: Vec<(usize, usize)> = (0..side)
        .flat_map(|y| (0..side).map(move |x| (x, y)))
        .filter(|(x, y)| lib.get_module(*x as i32, *y as i32))
        .map(|(x, y)| (x + sb, y + sb))
        .collect();
    check_eq!(squares, expected, "squares of the picture");
    g.nontrivial_if(!s.is_empty());
    Ok(())
}

fn exponential(g: &mut Gen) -> Res {
    let mut r = crate::rng(g.raw64());
    let n = 20_000;
    let mut v: Vec<f64> = (0..n).map(|_| exponential_rand(&mut r)).collect();
    check!(v.iter().all(|x| *x > 0.0 && *x < f64::from(EXPONENTIAL_RAND_UPPER_LIMIT)), "a value is out of range");
    let mean = v.iter().sum::<f64>() / f64::from(n);
    check!((mean - 1.0).abs() < 0.06, "mean {mean}");
    v.sort_by(f64::total_cmp);
    let far = v
        .iter()
        .enumerate()
        .map(|(i, x)| ((i as f64 + 0.5) / f64::from(n) - (1.0 - (-x).exp())).abs())
        .fold(0.0, f64::max);
    check!(far < 0.025, "distance {far} from the exponential distribution");
    g.nontrivial();
    Ok(())
}

/// Words given one after another, then repeated.
struct Words(Vec<u64>, usize);
impl TryRng for Words {
    type Error = std::convert::Infallible;
    fn try_next_u32(&mut self) -> Result<u32, Self::Error> {
        self.try_next_u64().map(|x| x as u32)
    }
    fn try_next_u64(&mut self) -> Result<u64, Self::Error> {
        self.1 += 1;
        Ok(self.0[(self.1 - 1) % self.0.len()])
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), Self::Error> {
        for c in d.chunks_mut(8) {
            let w = self.try_next_u64()?.to_le_bytes();
            c.copy_from_slice(&w[..c.len()]);
        }
        Ok(())
    }
}

fn exponential_edges(g: &mut Gen) -> Res {
    let w = match g.below(4) {
        0 => 0,
        1 => u64::MAX,
        2 => g.raw64() & ((1 << 14) - 1),
        _ => g.raw64() | (u64::MAX << 14),
    };
    let x = exponential_rand(&mut Words(vec![w, g.raw64()], 0));
    note!(g, "word {w:#x} gives {x}");
    check!(x.is_finite() && x > 0.0, "value {x} for word {w:#x}");
    check!(x < f64::from(EXPONENTIAL_RAND_UPPER_LIMIT), "value {x} for word {w:#x}");
    g.nontrivial();
    Ok(())
}

fn sampling(g: &mut Gen) -> Res {
    let mut r = crate::rng(g.raw64());
    let (a, b) = (g.raw64(), g.raw64());
    let (lo, hi) = (a.min(b), a.max(b));
    let x: u64 = r.random_range(lo..=hi);
    check!(x >= lo && x <= hi, "{x} is not within {lo} and {hi}");
    let v: Vec<u64> = g.vec(0, 20, |g| g.below(1000));
    let n = g.range(0, 25) as usize;
    let idx = v.iter().enumerate().sample(&mut r, n);
    check_eq!(idx.len(), n.min(v.len()), "size of a sample");
    check_eq!(idx.iter().map(|x| x.0).collect::<BTreeSet<_>>().len(), idx.len(), "distinct indices in a sample");
    let (lo, hi) = (g.range(0, 20) as usize, g.range(20, 40) as usize);
    let bytes = test_utils::random::gen_random_bytes(&mut r, lo, hi);
    check!(bytes.len() >= lo && bytes.len() <= hi, "{} bytes, asked for {lo} to {hi}", bytes.len());
    let s = test_utils::random_ascii_alphanumeric_string(&mut r, lo..=hi);
    check!(s.len() >= lo && s.len() <= hi && s.chars().all(|c| c.is_ascii_alphanumeric()), "text {s:?}");
    check_eq!(test_utils::random_ascii_alphanumeric_string(&mut r, hi..lo), "", "text of an empty range");
    let s = test_utils::random::gen_random_alnum_string(&mut r, lo, hi);
    let k = s.chars().count();
    check!(k >= lo && k <= hi && s.chars().all(char::is_alphanumeric), "text {s:?}");
    let value = g.uint(128);
    let parts = test_utils::split_value(&mut r, value);
    check_eq!(parts.iter().try_fold(0u128, |a, x| a.checked_add(*x)), Some(value), "sum of the parts {parts:?}");
    let mut data = g.bytes(1, 30);
    let before = data.clone();
    test_utils::random::flip_random_bit(&mut data, &mut r);
    let diff: u32 = data.iter().zip(&before).map(|(a, b)| (a ^ b).count_ones()).sum();
    check!(diff == 1 && data.len() == before.len(), "{diff} bits were flipped");
    check_eq!(test_utils::gen_different_value(&3u64, || g.below(5)) != 3, true, "a different value");
    let c = test_utils::get_random_non_ascii_alphanumeric_byte(&mut r);
    check!(!c.is_ascii_alphanumeric(), "byte {c}");
    let max = hi.max(1);
    let t = test_utils::gen_text_with_non_ascii(c, &mut r, max);
    check!(!t.is_empty() && t.len() <= max && t.iter().filter(|x| !x.is_ascii_alphanumeric()).count() == 1 && t.contains(&c), "text {t:?}");
    g.nontrivial_if(v.len() > 1);
    Ok(())
}

/// The next things a source gives, by a mixture of calls.
fn draw<R: Rng>(r: &mut R, calls: &[u8]) -> Vec<Vec<u8>> {
    calls
        .iter()
        .map(|c| match c {
            0 => r.next_u32().to_le_bytes().to_vec(),
            1 => r.next_u64().to_le_bytes().to_vec(),
            n => {
                let mut b = vec![0; *n as usize];
                r.fill_bytes(&mut b);
                b
            }
        })
        .collect()
}

fn same_seed(g: &mut Gen) -> Res {
    let seed = g.raw64();
    let calls = g.vec(1, 20, |g| g.below(40) as u8);
    let e = draw(&mut crate::rng(seed), &calls);
    check_eq!(draw(&mut crate::rng(seed), &calls), e, "the same seed again");
    let m = std::sync::Mutex::new(Box::new(crate::rng(seed)));
    check_eq!(draw(&mut BoxedRngMutexWrapper::new(&m), &calls), e, "through the mutex wrapper");
    let mut old = Rng08Adapter(crate::rng(seed));
    let through: Vec<Vec<u8>> = calls
        .iter()
        .map(|c| {
            use rand_0_8::RngCore as _;
            match c {
                0 => old.next_u32().to_le_bytes().to_vec(),
                1 => old.next_u64().to_le_bytes().to_vec(),
                n => {
                    let mut b = vec![0; *n as usize];
                    if n % 2 == 0 {
                        old.fill_bytes(&mut b);
                    } else {
                        old.try_fill_bytes(&mut b).expect("infallible");
                    }
                    b
                }
            }
        })
        .collect();
    check_eq!(through, e, "through the adapter for the older interface");
    let wide = vec![32u8; 1];
    let draws = [
        draw(&mut crate::rng(seed), &wide),
        draw(&mut crate::rng(seed ^ 1), &wide),
        draw(&mut randomness::make_true_rng(), &wide),
        draw(&mut randomness::make_true_rng(), &wide),
        draw(&mut randomness::make_pseudo_rng(), &wide),
        draw(&mut randomness::make_pseudo_rng(), &wide),
    ];
    check_eq!(draws.iter().collect::<BTreeSet<_>>().len(), draws.len(), "distinct streams");
    check_eq!(test_utils::random::Seed::from_u64(seed).as_u64(), seed, "seed");
    check_eq!(seed.to_string().parse::<test_utils::random::Seed>().map(|s| s.as_u64()), Ok(seed), "seed text");
    g.nontrivial_if(calls.len() > 1);
    Ok(())
}

utils::newtype!(
    #[derive(Debug, PartialEq)]
    struct Wrapped(Vec<u64>);
);

fn versions_options(g: &mut Gen) -> Res {
    fn shown<T: Debug>(g: &mut Gen, v: T, d: impl Fn(&Option<T>) -> [String; 3], e: impl Fn(&T) -> [String; 3]) -> Res {
        if g.chance(1, 4) {
            check_eq!(d(&None), ["None", "None", "None"].map(String::from), "no value");
        } else {
            let x = e(&v);
            check_eq!(d(&Some(v)), x, "a value");
        }
        Ok(())
    }
    let v = g.raw64();
    shown(
        g,
        v,
        |o| [o.as_displayable().to_string(), format!("{:x}", o.as_displayable()), format!("{:X}", o.as_displayable())],
        |v| [format!("{v}"), format!("{v:x}"), format!("{v:X}")],
    )?;
    let s = g.text(5);
    let o = Some(s.clone());
    check_eq!(o.as_displayable().to_string(), s, "text");

    let w: Vec<u64> = g.vec(0, 4, |g| g.raw64());
    let mut n = Wrapped::new(w.clone());
    check_eq!(n.inner(), &w, "inner value");
    check_eq!(n.len(), w.len(), "deref");
    n.inner_mut().push(1);
    n.push(2);
    let e = [w.clone(), vec![1, 2]].concat();
    check_eq!(Vec::from(Wrapped::from(e.clone())), e, "conversion");
    check_eq!(n.take(), e, "taken value");

    let c = std::borrow::Cow::Borrowed(&w);
    check_eq!(*c.to_owned_cow(), w, "owned copy");
    check!(matches!(c.to_owned_cow(), std::borrow::Cow::Owned(_)), "copy is not owned");

    check_eq!(utils::const_nz_u8!(255).get(), 255, "constant");
    check_eq!(utils::const_nz_i64!(-5).get(), -5, "constant");
    check_eq!(utils::const_nz_usize!(7 * 3).get(), 21, "constant");
    check_eq!(utils::const_nz_u128!(u128::MAX).get(), u128::MAX, "constant");

    use utils::app_version::{AppVersionGitInfo, AppVersionWithGitInfo};
    let hash: &'static str = Box::leak(g.string(&"0123456789abcdef".chars().collect::<Vec<_>>(), 12, 44).into_boxed_str());
    let version: &'static str = *g.pick(&["1.2.3", "0.0.1", "10.20.30"]);
    let with = AppVersionWithGitInfo { version, git_info: Some(AppVersionGitInfo { head_hash: hash }) };
    check_eq!(with.to_semver_string(), format!("{version}+{}", &hash[..12]), "version");
    check_eq!(with.to_pretty_string(), format!("{version} (HEAD hash: {})", &hash[..12]), "version");
    let without = AppVersionWithGitInfo { version, git_info: None };
    check_eq!(without.to_semver_string(), version, "version");
    check_eq!(without.to_pretty_string(), version, "version");
    g.nontrivial();
    Ok(())
}
