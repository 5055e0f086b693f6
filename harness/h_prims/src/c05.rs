//! Per-thousand ratios and fractions.
use common::primitives::{per_thousand::PerThousand, rational::Rational};
use common::uint::Uint256;
use num::{BigUint, ToPrimitive as _};
use pbt::{check, check_eq, enumerated, facet, no_panic, note, Gen, Property, Res};
use serialization::{DecodeAll, Encode};
use std::cmp::Ordering;

pub const P: Property = Property {
    id: "C05",
    rule: "All 65536 ratio values (enumerated), percentage and decimal texts built with padding and mutations, and fraction pairs drawn as unrelated, equal-valued (scaled), neighbouring, with common numerators or denominators and zero numerators. Non-trivial: a ratio strictly between 0 and 1000, or fractions with different denominators.",
    facets: &[
        enumerated("all_ratios", 65536, all_ratios),
        facet("ratio_text", 1_200_000, ratio_text),
        facet("ratio_json", 240_000, ratio_json),
        facet("fraction_u64", 600_000, fraction_u64),
        facet("fraction_u128", 1_200_000, fraction_u128),
        facet("fraction_u256", 800_000, fraction_u256),
        facet("fraction_sort", 80_000, fraction_sort),
        facet("ratio_random", 80_000, ratio_random),
    ],
    assumptions: &["Texts that end in more than one percent sign are not judged (the code accepts them)."],
};

fn all_ratios(g: &mut Gen) -> Res {
    let v = g.below(65536) as u16;
    note!(g, "{v}");
    let p = PerThousand::new(v);
    check_eq!(p.is_some(), v <= 1000, "construction from {v}");
    let bytes = v.to_le_bytes();
    match (PerThousand::decode_all(&mut &bytes[..]), v <= 1000) {
        (Ok(x), true) => check_eq!(x.value(), v, "decoded value"),
        (Err(_), false) => {}
        (r, _) => return Err(format!("decoding {v}: {r:?}")),
    }
    match (serde_json::from_str::<PerThousand>(&v.to_string()), v <= 1000) {
        (Ok(x), true) => check_eq!(x.value(), v, "value from a JSON integer"),
        (Err(_), false) => {}
        (r, _) => return Err(format!("JSON integer {v}: {r:?}")),
    }
    let Some(p) = p else { return Ok(()) };
    g.nontrivial_if(v > 0 && v < 1000);
    check_eq!((p.value(), p.as_per_thousand_int(), p.denominator()), (v, v, 1000), "value");
    check_eq!(p.encode(), bytes.to_vec(), "wire form");
    check_eq!(p.as_f64(), f64::from(v) / 1000.0, "as floating point");
    let strip = |s: String| if s.contains('.') { s.trim_end_matches('0').trim_end_matches('.').to_string() } else { s };
    let pct = strip(format!("{}.{}", v / 10, v % 10)) + "%";
    let dec = strip(format!("{}.{:03}", v / 1000, v % 1000));
    check_eq!(p.to_percentage_str(), pct, "percentage text of {v}");
    check_eq!(p.to_string(), pct, "display of {v}");
    check_eq!(p.to_decimal_str(), dec, "decimal text of {v}");
    for s in [pct.clone(), dec, format!("{}.{}%", v / 10, v % 10), format!("{}.{:03}", v / 1000, v % 1000)] {
        let back = PerThousand::from_decimal_str(&s).map_err(|e| e.to_string())?;
        check_eq!(back, p, "{s} back");
    }
    let j = serde_json::to_string(&p).map_err(|e| e.to_string())?;
    check_eq!(j, format!("\"{pct}\""), "JSON");
    check_eq!(serde_json::from_str::<PerThousand>(&j).map_err(|e| e.to_string())?, p, "JSON back");
    let q = PerThousand::new(g.below(1001) as u16).unwrap();
    check_eq!(p.cmp(&q), v.cmp(&q.value()), "order");
    Ok(())
}

/// None = must be refused. Some(None) = not judged.
fn ref_ratio(s: &str) -> Option<Option<u16>> {
    let t = s.trim();
    let (body, dec) = match t.strip_suffix('%') {
        Some(b) => {
            if b.ends_with('%') {
                return Some(None);
            }
            // trailing white space after the percent sign is not part of the form
            if !s.ends_with('%') {
                return None;
            }
            (s.strip_suffix('%').unwrap(), 1usize)
        }
        None => (s, 3),
    };
    if body.len() > 257 {
        return None;
    }
    let b: String = body.trim_matches(' ').chars().filter(|c| *c != '_').collect();
    let (i, f) = b.split_once('.').unwrap_or((&b, ""));
    if !i.chars().chain(f.chars()).all(|c| c.is_ascii_digit()) || i.len() + f.len() == 0 {
        return None;
    }
    let m: BigUint = format!("{i}{f}").parse().unwrap();
    m.to_u128()?; // more digits than an amount holds
    let scaled = m * BigUint::from(10u8).pow(dec as u32);
    let p = BigUint::from(10u8).pow(f.len() as u32);
    if &scaled % &p != BigUint::default() {
        return None;
    }
    (scaled / p).to_u16().filter(|v| *v <= 1000).map(Some)
}

fn ratio_text(g: &mut Gen) -> Res {
    let v = g.below(1100);
    let s = match g.weighted(&[3, 3, 2, 1]) {
        0 => format!("{}.{}{}%", v / 10, v % 10, "0".repeat(g.usize(4))),
        1 => format!("{}.{:03}{}", v / 1000, v % 1000, "0".repeat(g.usize(4))),
        2 => {
            let f = g.string(&['0', '1', '5', '9', '.', '%', ' '], 0, 7);
            f + if g.bool() { "%" } else { "" }
        }
        _ => g.text(10),
    };
    let mut c: Vec<char> = s.chars().collect();
    if g.chance(1, 3) && !c.is_empty() {
        let k = g.usize(c.len());
        match g.below(3) {
            0 => {
                c.remove(k);
            }
            1 => c[k] = *g.pick(&['0', '9', '.', '%', '-', ' ', '_']),
            _ => c.insert(k, *g.pick(&['0', '1', '.', '-', ' ', '\t'])),
        }
        g.tag("mutated");
    }
    let s: String = c.into_iter().collect();
    note!(g, "{s:?}");
    let got = no_panic(|| PerThousand::from_decimal_str(&s)).map_err(|p| format!("crash: {s:?}: {p}"))?;
    match (got, ref_ratio(&s)) {
        (_, Some(None)) => g.tag("not judged"),
        (Ok(p), Some(Some(w))) => {
            g.tag("accepted");
            g.nontrivial_if(w > 0 && w < 1000);
            check_eq!(p.value(), w, "value of {s:?}")
        }
        (Err(_), None) => g.tag("refused"),
        (r, w) => return Err(format!("{s:?}: got {r:?}, expected {w:?}")),
    }
    Ok(())
}

fn ratio_json(g: &mut Gen) -> Res {
    let s = match g.below(3) {
        0 => format!("\"{}.{}%\"", g.below(110), g.below(10)),
        1 => g.below(2000).to_string(),
        _ => g.pick(&["-1", "1.5", "null", "true", "65536", "1001", "[]", "\"\"", "\"101%\"", "\"1.001\"", "0.5"]).to_string(),
    };
    note!(g, "{s}");
    let v: serde_json::Value = serde_json::from_str(&s).unwrap();
    let want = match &v {
        serde_json::Value::String(t) => ref_ratio(t).flatten(),
        serde_json::Value::Number(n) => n.as_u64().filter(|x| *x <= 1000).map(|x| x as u16),
        _ => None,
    };
    g.nontrivial_if(want.is_some_and(|w| w > 0 && w < 1000));
    let got = serde_json::from_str::<PerThousand>(&s).ok().map(|p| p.value());
    check_eq!(got, want, "JSON {s}");
    Ok(())
}

fn ratio_random(g: &mut Gen) -> Res {
    let seed = g.seed();
    note!(g, "seed {seed}");
    g.nontrivial();
    let mut rng = test_utils::random::make_seedable_rng(test_utils::random::Seed(seed));
    let p = PerThousand::new_from_rng(&mut rng);
    check!(p.value() <= 1000, "random ratio {} out of range", p.value());
    let mut rng = test_utils::random::make_seedable_rng(test_utils::random::Seed(seed));
    check_eq!(PerThousand::new_from_rng(&mut rng), p, "the same seed gives another ratio");
    Ok(())
}

fn cmp_ref(a: &BigUint, b: &BigUint, c: &BigUint, d: &BigUint) -> Ordering {
    (a * d).cmp(&(c * b))
}

fn agree(what: &str, o: Ordering, po: Option<Ordering>, want: Ordering) -> Res {
    check!(o == want && po == Some(want), "{what}: cmp {o:?}, partial_cmp {po:?}, expected {want:?}");
    Ok(())
}

fn frac_pair(g: &mut Gen, bits: u32) -> (u128, u128, u128, u128) {
    let max = if bits >= 128 { u128::MAX } else { (1 << bits) - 1 };
    let a = g.uint(bits);
    let b = g.uint(bits).max(1);
    let (c, d) = match g.weighted(&[4, 2, 1, 1, 2, 1]) {
        0 => (g.uint(bits), g.uint(bits).max(1)),
        1 => {
            // the same value, scaled (when it fits), or nearly so
            let k = u128::from(g.below(1000)) + 1;
            match (a.checked_mul(k).filter(|x| *x <= max), b.checked_mul(k).filter(|x| *x <= max)) {
                (Some(x), Some(y)) => {
                    if g.bool() {
                        (x, y)
                    } else {
                        (x.saturating_add(1).min(max), y)
                    }
                }
                _ => (a / k, (b / k).max(1)),
            }
        }
        2 => (a, g.uint(bits).max(1)),
        3 => (g.uint(bits), b),
        4 => (a.saturating_add(u128::from(g.below(2))).min(max), b.saturating_add(u128::from(g.below(3))).min(max)),
        _ => (a, b),
    };
    if g.chance(1, 12) {
        return (0, b, 0, d);
    }
    (a, b, c, d)
}

fn tag_pair(g: &mut Gen, a: u128, b: u128, c: u128, d: u128, w: Ordering) {
    g.nontrivial_if(b != d);
    g.tag_if(a == 0 && c == 0, "both zero");
    g.tag_if(a == c && b != d, "same numerator");
    g.tag_if(a != c && b == d, "same denominator");
    g.tag_if(w == Ordering::Equal && b != d, "equal value, other form");
}

fn fraction_u64(g: &mut Gen) -> Res {
    let (a, b, c, d) = frac_pair(g, 64);
    note!(g, "{a}/{b} {c}/{d}");
    let (x, y) = (Rational::<u64>::new(a as u64, b as u64), Rational::<u64>::new(c as u64, d as u64));
    let w = cmp_ref(&a.into(), &b.into(), &c.into(), &d.into());
    tag_pair(g, a, b, c, d, w);
    agree(&format!("{a}/{b} and {c}/{d}"), x.cmp(&y), x.partial_cmp(&y), w)?;
    check_eq!((*x.numer(), *x.denom()), (a as u64, b as u64), "parts");
    Ok(())
}

fn fraction_u128(g: &mut Gen) -> Res {
    let (a, b, c, d) = frac_pair(g, 128);
    note!(g, "{a}/{b} {c}/{d}");
    let (x, y) = (Rational::<u128>::new(a, b), Rational::<u128>::new(c, d));
    let w = cmp_ref(&a.into(), &b.into(), &c.into(), &d.into());
    tag_pair(g, a, b, c, d, w);
    agree(&format!("{a}/{b} and {c}/{d}"), x.cmp(&y), x.partial_cmp(&y), w)?;
    agree(&format!("{c}/{d} and {a}/{b}"), y.cmp(&x), y.partial_cmp(&x), w.reverse())?;
    check_eq!((*x.numer(), *x.denom()), (a, b), "parts");
    check_eq!(x.to_string(), format!("{a} / {b}"), "display");
    check_eq!(x == y, (a, b) == (c, d), "structural equality");
    let (u, v): (Rational<Uint256>, Rational<Uint256>) = (x.into(), y.into());
    check_eq!((*u.numer(), *u.denom()), (Uint256::from(a), Uint256::from(b)), "widened parts");
    agree(&format!("{a}/{b} and {c}/{d} widened"), u.cmp(&v), u.partial_cmp(&v), w)
}

fn fraction_u256(g: &mut Gen) -> Res {
    let wide = |g: &mut Gen, z: bool| -> BigUint {
        let sh = g.below(256);
        let mut v = BigUint::from_bytes_le(&g.bytes_exact(32)) >> sh;
        if g.chance(1, 6) {
            v = (BigUint::from(1u8) << 256u32) - BigUint::from(g.below(3) + 1);
        }
        if !z && v == BigUint::default() {
            v = BigUint::from(1u8);
        }
        v
    };
    let (a, b) = (wide(g, true), wide(g, false));
    let (c, d) = match g.weighted(&[3, 1, 1, 1]) {
        0 => (wide(g, true), wide(g, false)),
        1 => (a.clone(), wide(g, false)),
        2 => (wide(g, true), b.clone()),
        _ => {
            let s = g.below(16);
            (&a >> s, (&b >> s).max(BigUint::from(1u8)))
        }
    };
    note!(g, "{a:x}/{b:x} {c:x}/{d:x}");
    g.nontrivial_if(b != d && a.bits() > 128);
    let s = |v: &BigUint| {
        let mut b = v.to_bytes_le();
        b.resize(32, 0);
        Uint256::from_slice(&b).unwrap()
    };
    let (x, y) = (Rational::new(s(&a), s(&b)), Rational::new(s(&c), s(&d)));
    agree(&format!("{a:x}/{b:x} and {c:x}/{d:x}"), x.cmp(&y), x.partial_cmp(&y), cmp_ref(&a, &b, &c, &d))
}

fn fraction_sort(g: &mut Gen) -> Res {
    let n = g.urange(2, 12);
    let mut v: Vec<Rational<u128>> = (0..n)
        .map(|_| if g.bool() { Rational::new(u128::from(g.below(6)), u128::from(g.below(6)) + 1) } else { Rational::new(g.u128(), g.u128().max(1)) })
        .collect();
    note!(g, "{v:?}");
    g.nontrivial();
    v.sort();
    for w in v.windows(2) {
        let o = cmp_ref(&(*w[0].numer()).into(), &(*w[0].denom()).into(), &(*w[1].numer()).into(), &(*w[1].denom()).into());
        check!(o != Ordering::Greater, "sorted {:?} before {:?}", w[0], w[1]);
    }
    Ok(())
}
