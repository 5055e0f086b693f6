//! Decimal amounts against a digit-string reference.
use common::primitives::amount::{
    decimal::{subtract_decimal_amounts_of_same_currency, DecimalAmountWithIsSameComparison},
    Amount, DecimalAmount, DisplayAmount, RpcAmountIn, RpcAmountOut, SignedAmount,
};
use num::{BigUint, ToPrimitive, Zero};
use pbt::{check, check_eq, facet, no_panic, note, Gen, Property, Res};

pub const P: Property = Property {
    id: "C02",
    rule: "Amounts and decimal counts over their full ranges (with runs of trailing zeros), number texts built from digit runs with padding, underscores, spaces and points (lengths up to and beyond the limit), mutated texts and arbitrary text; the oracle works on digit strings and arbitrary-precision integers. Non-trivial: the value has at least one non-zero digit and a fractional part, or the text is one edit away from a number.",
    facets: &[
        facet("amount_round_trip", 600_000, amount_round_trip),
        facet("parse_number_text", 1_000_000, parse_number_text),
        facet("parse_any_text", 1_000_000, parse_any_text),
        facet("rescaling", 600_000, rescaling),
        facet("subtraction", 600_000, subtraction),
        facet("signed_text", 400_000, signed_text),
        facet("json", 400_000, json),
    ],
    assumptions: &[],
};

fn ten(n: u32) -> BigUint {
    BigUint::from(10u8).pow(n)
}

/// An amount, often with trailing zeros.
pub fn mantissa(g: &mut Gen) -> u128 {
    if g.bool() {
        g.u128()
    } else {
        let z = g.below(39) as u32;
        let p = 10u128.pow(z);
        let m = g.u128() % (u128::MAX / p).max(1);
        m * p
    }
}

fn decimals(g: &mut Gen) -> u8 {
    match g.weighted(&[4, 2, 1, 1]) {
        0 => g.below(20) as u8,
        1 => g.below(45) as u8,
        2 => g.u8(),
        _ => 255 - g.below(3) as u8,
    }
}

/// The reference: value = m / 10^d. Atoms at `dec` decimals, when a whole number in range.
fn ref_atoms(m: u128, d: u8, dec: u8) -> Option<u128> {
    let n = BigUint::from(m) * ten(dec.into());
    let p = ten(d.into());
    if (&n % &p).is_zero() {
        (n / p).to_u128()
    } else {
        None
    }
}

/// Text with exactly d decimals.
fn ref_text(m: u128, d: u8) -> String {
    let s = m.to_string();
    let d = d as usize;
    if d == 0 {
        return s;
    }
    let s = if s.len() <= d { "0".repeat(d + 1 - s.len()) + &s } else { s };
    format!("{}.{}", &s[..s.len() - d], &s[s.len() - d..])
}

fn ref_strip(mut m: u128, mut d: u8) -> (u128, u8) {
    while d > 0 && m % 10 == 0 {
        m /= 10;
        d -= 1;
    }
    (m, d)
}

fn pair(d: &DecimalAmount) -> (u128, u8) {
    (d.mantissa(), d.decimals())
}

fn amount_round_trip(g: &mut Gen) -> Res {
    let m = mantissa(g);
    let d = decimals(g);
    note!(g, "{m} atoms, {d} decimals");
    g.nontrivial_if(m > 0 && d > 0);
    g.tag_if(m == 0, "zero");
    g.tag_if(m > 0 && m % 10 == 0, "trailing zero");
    let a = Amount::from_atoms(m);
    let full = DecimalAmount::from_amount_full_padding(a, d);
    let min = DecimalAmount::from_amount_no_padding(a, d);
    check_eq!(pair(&full), (m, d), "full form of {m} with {d} decimals");
    check_eq!(pair(&min), ref_strip(m, d), "minimal form of {m} with {d} decimals");
    check_eq!(full.to_string(), ref_text(m, d), "text of {m} with {d} decimals");
    let (sm, sd) = ref_strip(m, d);
    check_eq!(min.to_string(), ref_text(sm, sd), "minimal text of {m} with {d} decimals");
    check_eq!(a.into_fixedpoint_str(d), ref_text(sm, sd), "fixed-point text of {m} with {d} decimals");
    for t in [full, min] {
        check_eq!(t.to_amount(d), Some(a), "{t} back to atoms with {d} decimals");
        let back: DecimalAmount = t.to_string().parse().map_err(|e| format!("parse {t}: {e}"))?;
        check!(back.is_same(&t), "{t} reads back as {back:?}");
        check_eq!(back.to_amount(d), Some(a), "{t} read back to atoms");
        check_eq!(DisplayAmount::from_decimal_amount(t).to_string(), t.to_string(), "display text");
    }
    check_eq!(Amount::from_fixedpoint_str(&a.into_fixedpoint_str(d), d), Some(a), "fixed-point round trip of {m}, {d}");
    check_eq!(DisplayAmount::from_amount_full(a, d).to_string(), ref_text(m, d), "display text of {m}");
    // Padding with width must keep the number (used for tables).
    let w = g.usize(60);
    check_eq!(format!("{full:>w$}").trim_start().to_string(), ref_text(m, d), "padded text");
    Ok(())
}

/// Reference parser: None = must be refused.
fn ref_parse(s: &str) -> Option<(u128, u8)> {
    if s.len() > 257 {
        return None;
    }
    let t: String = s.trim_matches(' ').chars().filter(|c| *c != '_').collect();
    let mut seen = false;
    let (mut digits, mut frac) = (String::new(), 0usize);
    for c in t.chars() {
        match c {
            '.' if !seen => seen = true,
            '0'..='9' => {
                digits.push(c);
                frac += usize::from(seen);
            }
            _ => return None,
        }
    }
    if digits.is_empty() || frac > 255 {
        return None;
    }
    let m: BigUint = digits.parse().expect("digits");
    Some((m.to_u128()?, frac as u8))
}

fn compare_parse(g: &mut Gen, s: &str) -> Res {
    let want = ref_parse(s);
    let got = no_panic(|| s.parse::<DecimalAmount>()).map_err(|p| format!("crash: parsing {s:?}: {p}"))?;
    g.tag(if want.is_some() { "accepted" } else { "refused" });
    match (got, want) {
        (Ok(v), Some(w)) => check_eq!(pair(&v), w, "value of {s:?}"),
        (Err(_), None) => {}
        (Ok(v), None) => return Err(format!("{s:?} must be refused, parsed as {v:?}")),
        (Err(e), Some(w)) => return Err(format!("{s:?} must parse as {w:?}, refused: {e}")),
    }
    let dec = decimals(g);
    let atoms = want.and_then(|(m, d)| ref_atoms(m, d, dec));
    check_eq!(
        Amount::from_fixedpoint_str(s, dec).map(|a| a.into_atoms()),
        atoms,
        "{s:?} as atoms with {dec} decimals"
    );
    Ok(())
}

fn number_text(g: &mut Gen) -> String {
    let mut s = String::new();
    let m = mantissa(g).to_string();
    match g.weighted(&[4, 3, 2, 1]) {
        0 => {
            // digits with a point anywhere
            let k = g.usize(m.len() + 1);
            s.push_str(&m[..k]);
            if g.chance(7, 8) {
                s.push('.');
            }
            s.push_str(&m[k..]);
        }
        1 => {
            // padded on both sides
            s.push_str(&"0".repeat(g.usize(6)));
            let k = g.usize(m.len() + 1);
            s.push_str(&m[..k]);
            s.push('.');
            s.push_str(&m[k..]);
            let room = 39usize.saturating_sub(m.len());
            s.push_str(&"0".repeat(g.usize(room + 4)));
        }
        2 => {
            // long fraction with leading zeros
            let small = u128::from(g.below(1000)).to_string();
            s.push_str(if g.bool() { "0." } else { "." });
            let z = match g.weighted(&[1, 1]) {
                0 => g.usize(256),
                _ => 250 + g.usize(8),
            };
            s.push_str(&"0".repeat(z));
            s.push_str(&small);
        }
        _ => {
            // all digits, near the limit of the type
            let v = BigUint::from(u128::MAX) + BigUint::from(g.below(20)) - BigUint::from(10u8);
            s.push_str(&v.to_string());
            if g.bool() {
                let k = g.usize(s.len() + 1);
                s.insert(k, '.');
            }
        }
    }
    for _ in 0..g.below(3) {
        if g.bool() {
            let k = g.usize(s.len() + 1);
            s.insert(k, '_');
        }
    }
    if g.chance(1, 4) {
        s = " ".repeat(g.usize(3)) + &s + &" ".repeat(g.usize(3));
    }
    s
}

fn parse_number_text(g: &mut Gen) -> Res {
    let s = number_text(g);
    note!(g, "{s:?}");
    g.nontrivial_if(s.contains('.') && s.contains(|c: char| ('1'..='9').contains(&c)));
    g.tag_if(s.len() > 250, "near the length limit");
    compare_parse(g, &s)
}

fn parse_any_text(g: &mut Gen) -> Res {
    let s = if g.bool() {
        let mut s: Vec<char> = number_text(g).chars().collect();
        for _ in 0..=g.below(3) {
            let k = g.usize(s.len() + 1);
            let c = *g.pick(&['.', '-', '+', 'e', ' ', '_', '٣', '０', ',', '0', '9', '\t', 'x', '\u{a0}']);
            if g.bool() && k < s.len() {
                s[k] = c;
            } else {
                s.insert(k, c);
            }
        }
        g.nontrivial();
        s.into_iter().collect()
    } else if g.bool() {
        g.string(&['0', '1', '.', '_', ' ', '-'], 0, 12)
    } else {
        g.text(40)
    };
    note!(g, "{s:?}");
    compare_parse(g, &s)
}

fn rescaling(g: &mut Gen) -> Res {
    let m = mantissa(g);
    let d = decimals(g);
    let e = if g.bool() { d.saturating_add(g.below(40) as u8) } else { decimals(g) };
    note!(g, "{m}e-{d} to {e} decimals");
    g.nontrivial_if(m > 0 && d != e);
    let x = DecimalAmount::from_uint_decimal(m, d);
    let want = if e < d { None } else { (BigUint::from(m) * ten((e - d).into())).to_u128().map(|v| (v, e)) };
    g.tag(if want.is_some() { "possible" } else { "impossible" });
    check_eq!(x.with_decimals(e).map(|v| pair(&v)), want, "{m}e-{d} with {e} decimals");
    check_eq!(pair(&x.without_padding()), ref_strip(m, d), "{m}e-{d} without padding");
    check_eq!(x.to_amount(e).map(|a| a.into_atoms()), ref_atoms(m, d, e), "{m}e-{d} as atoms with {e} decimals");
    let y = DecimalAmount::from_uint_decimal(m ^ u128::from(g.below(2)), e);
    check_eq!(x.is_same(&y), pair(&x) == pair(&y), "is_same");
    check_eq!(DisplayAmount::from(x) == DisplayAmount::from(y), pair(&x) == pair(&y), "display equality");
    check_eq!(
        DecimalAmountWithIsSameComparison(x) == DecimalAmountWithIsSameComparison(y),
        pair(&x) == pair(&y),
        "comparison wrapper"
    );
    check_eq!(pair(&DecimalAmount::from_uint_integral(m)), (m, 0), "integral");
    check_eq!(pair(&DecimalAmount::ZERO), (0, 0), "zero");
    // the padded and the stripped form denote the same number of atoms
    if let Some(p) = x.with_decimals(e) {
        let f = decimals(g);
        check_eq!(p.to_amount(f), x.to_amount(f), "{p} and {x} as atoms with {f} decimals");
    }
    Ok(())
}

fn subtraction(g: &mut Gen) -> Res {
    // Both from one currency of `c` decimals, in any padding that currency allows.
    let c = g.below(40) as u8;
    let (a, b) = {
        let a = mantissa(g);
        let b = if g.bool() { mantissa(g) } else { a.wrapping_add(3).wrapping_sub(u128::from(g.below(6))) };
        (a, b)
    };
    note!(g, "{a} - {b}, {c} decimals");
    let form = |g: &mut Gen, v: u128| {
        let amt = Amount::from_atoms(v);
        if g.bool() {
            DecimalAmount::from_amount_full_padding(amt, c)
        } else {
            DecimalAmount::from_amount_no_padding(amt, c)
        }
    };
    let (x, y) = (form(g, a), form(g, b));
    g.nontrivial_if(a > b && b > 0 && c > 0);
    let r = subtract_decimal_amounts_of_same_currency(&x, &y);
    match a.checked_sub(b) {
        None => check!(r.is_none(), "{x} - {y} must fail, got {r:?}"),
        Some(v) => {
            g.tag("non-negative");
            let r = r.ok_or_else(|| format!("{x} - {y} failed"))?;
            check_eq!(pair(&r), ref_strip(v, c), "{x} - {y}");
            check_eq!(r.to_amount(c), Some(Amount::from_atoms(v)), "{x} - {y} as atoms");
        }
    }
    // Unrelated amounts: exact or refused.
    let (u, v) = (DecimalAmount::from_uint_decimal(mantissa(g), decimals(g)), DecimalAmount::from_uint_decimal(mantissa(g), decimals(g)));
    if let Some(r) = subtract_decimal_amounts_of_same_currency(&u, &v) {
        let sc = |x: &DecimalAmount| BigUint::from(x.mantissa()) * ten(255 - u32::from(x.decimals()));
        check_eq!(sc(&r) + sc(&v), sc(&u), "{u} - {v} = {r}");
        g.tag("unrelated");
    }
    Ok(())
}

fn signed_text(g: &mut Gen) -> Res {
    let v = match g.weighted(&[1, 1, 1]) {
        0 => mantissa(g) as i128,
        1 => -((mantissa(g) >> 1) as i128),
        _ => *g.pick(&[i128::MIN, i128::MIN + 1, i128::MAX, -1, 0, 1]),
    };
    let d = decimals(g);
    note!(g, "{v} with {d} decimals");
    g.nontrivial_if(v < 0 && d > 0);
    let a = SignedAmount::from_atoms(v);
    let (m, e) = ref_strip(v.unsigned_abs(), d);
    let want = format!("{}{}", if v < 0 { "-" } else { "" }, ref_text(m, e));
    let s = a.into_fixedpoint_str(d);
    check_eq!(s, want, "text of {v} with {d} decimals");
    check_eq!(SignedAmount::from_fixedpoint_str(&s, d), Some(a), "{s} back");
    // Any text.
    let t = if g.bool() { "-".to_string() + &number_text(g) } else { g.text(20) };
    note!(g, "{t:?}");
    let body = t.strip_prefix('-').unwrap_or(&t);
    let want = ref_parse(body).and_then(|(m, e)| ref_atoms(m, e, d)).and_then(|u| {
        if t.starts_with('-') {
            if u == 1 << 127 {
                Some(i128::MIN)
            } else {
                i128::try_from(u).ok().map(|x| -x)
            }
        } else {
            i128::try_from(u).ok()
        }
    });
    let got = no_panic(|| SignedAmount::from_fixedpoint_str(&t, d)).map_err(|p| format!("crash: {t:?}: {p}"))?;
    check_eq!(got.map(|x| x.into_atoms()), want, "{t:?} with {d} decimals");
    Ok(())
}

fn json(g: &mut Gen) -> Res {
    let m = mantissa(g);
    let d = decimals(g);
    let a = Amount::from_atoms(m);
    note!(g, "{m} atoms, {d} decimals");
    g.nontrivial_if(m > 0 && d > 0);
    let e = |e: serde_json::Error| e.to_string();
    let dec = DecimalAmount::from_uint_decimal(m, d);
    // in: atoms, decimal; as strings and as integers
    let i1 = RpcAmountIn::from_atoms(a);
    let i2 = RpcAmountIn::from_decimal(dec);
    let (j1, j2) = (serde_json::to_string(&i1).map_err(e)?, serde_json::to_string(&i2).map_err(e)?);
    check_eq!(j1, format!("{{\"atoms\":\"{m}\"}}"), "JSON of atoms");
    check_eq!(j2, format!("{{\"decimal\":\"{}\"}}", ref_text(m, d)), "JSON of decimal");
    let (b1, b2): (RpcAmountIn, RpcAmountIn) = (serde_json::from_str(&j1).map_err(e)?, serde_json::from_str(&j2).map_err(e)?);
    check!(b1.is_same(&i1) && b2.is_same(&i2), "input amounts change in JSON: {j1} {j2}");
    check!(!b1.is_same(&b2), "atoms and decimal are presentations of their own");
    let t = decimals(g);
    check_eq!(b1.to_amount(t), Some(a), "atoms with {t} decimals");
    check_eq!(b2.to_amount(t).map(|x| x.into_atoms()), ref_atoms(m, d, t), "{j2} with {t} decimals");
    if let Ok(small) = u64::try_from(m) {
        g.tag("JSON integer");
        let b: RpcAmountIn = serde_json::from_str(&format!("{{\"atoms\":{small}}}")).map_err(e)?;
        check!(b.is_same(&i1), "integer atoms");
        let b: RpcAmountIn = serde_json::from_str(&format!("{{\"decimal\":{small}}}")).map_err(e)?;
        check!(b.is_same(&RpcAmountIn::from_decimal(DecimalAmount::from_uint_integral(m))), "integer decimal");
    }
    check!(
        serde_json::from_str::<RpcAmountIn>(&format!("{{\"atoms\":\"{m}\",\"decimal\":\"{m}\"}}")).is_err(),
        "both presentations at once"
    );
    // out
    for (o, w) in [
        (RpcAmountOut::from_amount_full_padding(a, d), (m, d)),
        (RpcAmountOut::from_amount_no_padding(a, d), ref_strip(m, d)),
        (RpcAmountOut::from_amount(a, d), ref_strip(m, d)),
    ] {
        check_eq!(o.amount(), a, "atoms of the output amount");
        check_eq!(pair(&o.decimal()), w, "decimal of the output amount");
        let j = serde_json::to_string(&o).map_err(e)?;
        check_eq!(j, format!("{{\"atoms\":\"{m}\",\"decimal\":\"{}\"}}", ref_text(w.0, w.1)), "JSON of the output amount");
        let b: RpcAmountOut = serde_json::from_str(&j).map_err(e)?;
        check!(b.is_same(&o), "output amount changes in JSON: {j}");
    }
    // sameness of presentations: of the atoms, and of the decimal with its places
    let m2 = if g.bool() { m } else { m.wrapping_add(1) };
    let ins = [(i1, 0, (m, 0)), (i2, 1, (m, d)), (RpcAmountIn::from(Amount::from_atoms(m2)), 0, (m2, 0)), (RpcAmountIn::from(DecimalAmount::from_uint_decimal(m2, d)), 1, (m2, d)), (RpcAmountIn::from_decimal(DecimalAmount::from_uint_decimal(m, d.wrapping_add(1))), 1, (m, d.wrapping_add(1)))];
    for (x, kx, vx) in &ins {
        for (y, ky, vy) in &ins {
            check_eq!(x.is_same(y), kx == ky && vx == vy, "input sameness of {x:?} and {y:?}");
        }
    }
    let out = |atoms: u128, (m, d): (u128, u8)| {
        serde_json::from_str::<RpcAmountOut>(&format!("{{\"atoms\":\"{atoms}\",\"decimal\":\"{}\"}}", ref_text(m, d))).map_err(e)
    };
    let outs = [(m, (m, d)), (m2, (m, d)), (m, (m2, d)), (m, ref_strip(m, d))];
    for (ax, dx) in outs {
        for (ay, dy) in outs {
            let (x, y) = (out(ax, dx)?, out(ay, dy)?);
            check_eq!(x.is_same(&y), ax == ay && dx == dy, "output sameness of {x:?} and {y:?}");
        }
    }
    check!(RpcAmountOut::ZERO.amount() == Amount::ZERO && pair(&RpcAmountOut::ZERO.decimal()) == (0, 0), "zero");
    // arbitrary strings in place of numbers
    let s = if g.bool() { number_text(g) } else { g.text(12) };
    note!(g, "{s:?}");
    let q = serde_json::to_string(&s).map_err(e)?;
    let r = no_panic(|| serde_json::from_str::<RpcAmountIn>(&format!("{{\"decimal\":{q}}}")))
        .map_err(|p| format!("crash: decimal {s:?}: {p}"))?;
    match (r, ref_parse(&s)) {
        (Ok(v), Some((m, d))) => check!(v.is_same(&RpcAmountIn::from_decimal(DecimalAmount::from_uint_decimal(m, d))), "decimal {s:?}"),
        (Err(_), None) => {}
        (r, w) => return Err(format!("decimal {s:?}: got {r:?}, expected {w:?}")),
    }
    let r = serde_json::from_str::<RpcAmountIn>(&format!("{{\"atoms\":{q}}}"));
    let digits = s.strip_prefix('+').unwrap_or(&s);
    let w = (!digits.is_empty() && digits.bytes().all(|c| c.is_ascii_digit())).then(|| digits.parse::<u128>().ok()).flatten();
    match (r, w) {
        (Ok(v), Some(w)) => check!(v.is_same(&RpcAmountIn::from_atoms(Amount::from_atoms(w))), "atoms {s:?}"),
        (Err(_), None) => {}
        (r, w) => return Err(format!("atoms {s:?}: got {r:?}, expected {w:?}")),
    }
    Ok(())
}
