//! Heights, distances, times, versions.
use chrono::{DateTime, Datelike as _, Timelike as _, Utc};
use common::primitives::{
    semver::SemVer,
    time::{self, Time},
    BlockCount, BlockDistance, BlockHeight,
};
use num::{BigInt, ToPrimitive as _};
use pbt::{check, check_eq, enumerated, facet, no_panic, note, Gen, Property, Res};
use serialization::{DecodeAll, Encode};
use std::{sync::Mutex, time::Duration};

pub const P: Property = Property {
    id: "C21",
    rule: "Heights over all 64-bit values with a bias to 0 and 2^63, distances over all signed 64-bit values, times over all second and nanosecond counts, civil dates computed by an independent algorithm, version texts from numbers around the component limits with mutations. Non-trivial: neither operand is zero, or the text holds three components.",
    facets: &[
        facet("heights", 1_200_000, heights),
        facet("height_codec", 600_000, height_codec),
        facet("height_ranges", 240_000, height_ranges),
        facet("times", 1_200_000, times),
        facet("dates", 600_000, dates),
        enumerated("all_days", 150_000, all_days),
        facet("versions", 600_000, versions),
        facet("version_text", 1_000_000, version_text),
        facet("clock", 80_000, clock),
    ],
    assumptions: &["Adding a distance to a height is judged where the sum of the two 64-bit signed numbers fits (elsewhere the code documents a panic)."],
};

fn i64_of(g: &mut Gen) -> i64 {
    match g.weighted(&[2, 2, 1, 1]) {
        0 => g.uint(63) as i64,
        1 => -(g.uint(63) as i64),
        2 => g.raw64() as i64,
        _ => *g.pick(&[i64::MIN, i64::MIN + 1, i64::MAX, -1, 0, 1]),
    }
}

fn height(g: &mut Gen) -> u64 {
    match g.weighted(&[4, 1, 1]) {
        0 => g.u64(),
        1 => (1u64 << 63).wrapping_add(g.below(5)).wrapping_sub(2),
        _ => g.below(1000),
    }
}

fn heights(g: &mut Gen) -> Res {
    let a = height(g);
    let b = if g.bool() { height(g) } else { a.wrapping_add(g.below(5)).wrapping_sub(2) };
    let d = if g.bool() {
        i64_of(g)
    } else {
        (a as i64).wrapping_neg().wrapping_add(g.below(5) as i64).wrapping_sub(2)
    };
    let e = i64_of(g);
    note!(g, "heights {a} {b}, distances {d} {e}");
    g.nontrivial_if(a > 0 && d != 0);
    let (x, y) = (BlockHeight::new(a), BlockHeight::new(b));
    let (p, q) = (BlockDistance::new(d), BlockDistance::new(e));
    // A height above 2^63-1 does not take part in distance arithmetic.
    let ha = i64::try_from(a).ok();
    let hb = i64::try_from(b).ok();
    let fit = |v: BigInt| v.to_i64().and_then(|v| u64::try_from(v).ok());
    let sum = BigInt::from(a) + BigInt::from(d);
    if ha.is_none() || sum.to_i64().is_some() {
        let want = ha.and_then(|_| fit(sum));
        check_eq!((x + p).map(|h| h.into_int()), want, "height {a} + {d}");
        g.tag(if want.is_some() { "sum" } else { "sum refused" });
    } else {
        g.tag("sum not judged");
    }
    let want = ha.and_then(|_| fit(BigInt::from(a) - BigInt::from(d)));
    check_eq!((x - p).map(|h| h.into_int()), want, "height {a} - {d}");
    let want = ha.zip(hb).and_then(|(s, t)| s.checked_sub(t));
    check_eq!((x - y).map(|v| v.to_int()), want, "height {a} - height {b}");
    check_eq!((p + q).map(|v| v.to_int()), (BigInt::from(d) + BigInt::from(e)).to_i64(), "distance {d} + {e}");
    check_eq!((p - q).map(|v| v.to_int()), (BigInt::from(d) - BigInt::from(e)).to_i64(), "distance {d} - {e}");
    check_eq!(x.cmp(&y), a.cmp(&b), "order of heights");
    check_eq!(p.cmp(&q), d.cmp(&e), "order of distances");
    check_eq!(x.checked_add(b).map(|h| h.into_int()), (BigInt::from(a) + BigInt::from(b)).to_u64(), "height {a} + {b} blocks");
    check_eq!(x.prev_height().map(|h| h.into_int()), (BigInt::from(a) - BigInt::from(1)).to_u64(), "height before {a}");
    if a < u64::MAX {
        check_eq!(x.next_height().into_int(), a + 1, "height after {a}");
        check_eq!(x.next_height().prev_height(), Some(x), "before after");
    } else {
        check!(no_panic(|| x.next_height()).is_err(), "a height follows the greatest one");
    }
    let (s, t) = (BlockCount::new(a), BlockCount::new(b));
    check_eq!((s + t).map(|c| c.to_int()), (BigInt::from(a) + BigInt::from(b)).to_u64(), "count {a} + {b}");
    check_eq!((s - t).map(|c| c.to_int()), (BigInt::from(a) - BigInt::from(b)).to_u64(), "count {a} - {b}");
    check_eq!(
        (BlockHeight::zero().into_int(), BlockHeight::one().into_int(), BlockHeight::max().into_int()),
        (0, 1, u64::MAX),
        "constants"
    );
    // round trips of distance arithmetic
    if let Some(dd) = x - y {
        if (BigInt::from(b) + BigInt::from(dd.to_int())).to_i64().is_some() {
            check_eq!(y + dd, Some(x), "{b} + ({a} - {b})");
        }
        check_eq!(x - dd, Some(y), "{a} - ({a} - {b})");
    }
    Ok(())
}

fn height_codec(g: &mut Gen) -> Res {
    let a = height(g);
    let d = i64_of(g);
    note!(g, "{a} {d}");
    g.nontrivial_if(a > 63);
    let x = BlockHeight::new(a);
    let e = x.encode();
    check_eq!(e, crate::c01::compact_ref(a.into()), "wire form of height {a}");
    check_eq!(BlockHeight::decode_all(&mut &e[..]), Ok(x), "height round trip");
    check_eq!(BlockCount::new(a).encode(), e, "wire form of count");
    check_eq!(BlockCount::decode_all(&mut &e[..]), Ok(BlockCount::new(a)), "count round trip");
    let p = BlockDistance::new(d);
    check_eq!(p.encode(), d.to_le_bytes().to_vec(), "wire form of distance");
    check_eq!(BlockDistance::decode_all(&mut &p.encode()[..]), Ok(p), "distance round trip");
    check_eq!(x.to_string(), a.to_string(), "text");
    check_eq!(p.to_string(), d.to_string(), "text");
    check_eq!(a.to_string().parse::<BlockHeight>().ok(), Some(x), "text round trip");
    check_eq!(u64::from(x), a, "into");
    check_eq!(BlockHeight::from(a), x, "from");
    check_eq!((i64::from(p), BlockDistance::from(d)), (d, p), "distance conversions");
    let j = serde_json::to_string(&x).map_err(|e| e.to_string())?;
    check_eq!(j, a.to_string(), "JSON");
    check_eq!(serde_json::from_str::<BlockHeight>(&j).ok(), Some(x), "JSON round trip");
    let bytes = g.bytes(0, 12);
    let mut inp = &bytes[..];
    if let Ok(h) = <BlockHeight as serialization::Decode>::decode(&mut inp) {
        g.tag("random bytes decode");
        check_eq!(h.encode(), bytes[..bytes.len() - inp.len()].to_vec(), "re-encoding of {bytes:?}");
    }
    let t = g.string(&['0', '1', '9', '-', '+', ' ', '.'], 0, 22);
    let body = t.strip_prefix('+').unwrap_or(&t);
    let want = (!body.is_empty() && body.bytes().all(|c| c.is_ascii_digit())).then(|| body.parse::<u64>().ok()).flatten();
    check_eq!(t.parse::<BlockHeight>().ok().map(|h| h.into_int()), want, "height from {t:?}");
    Ok(())
}

fn height_ranges(g: &mut Gen) -> Res {
    let a = height(g);
    let n = g.below(40);
    let b = if g.chance(1, 5) { a.wrapping_sub(n) } else { a.saturating_add(n) };
    if a.abs_diff(b) > 1000 {
        return Ok(());
    }
    note!(g, "{a}..{b}");
    g.nontrivial_if(b > a);
    let v: Vec<u64> = BlockHeight::new(a).iter_up_to(BlockHeight::new(b)).map(|h| h.into_int()).take(2000).collect();
    check_eq!(v.len() as u64, b.saturating_sub(a), "number of heights in {a}..{b}");
    check!(v.iter().enumerate().all(|(i, h)| *h == a + i as u64), "heights in {a}..{b}: {v:?}");
    let v: Vec<u64> = BlockHeight::new(a).iter_up_to_including(BlockHeight::new(b)).map(|h| h.into_int()).take(2000).collect();
    check_eq!(v.len() as u64, if b >= a { b - a + 1 } else { 0 }, "number of heights in {a}..={b}");
    check!(v.iter().enumerate().all(|(i, h)| *h == a + i as u64), "heights in {a}..={b}: {v:?}");
    Ok(())
}

fn dur(g: &mut Gen) -> Duration {
    let s = match g.weighted(&[3, 2, 1]) {
        0 => g.below(1 << 33),
        1 => g.u64(),
        _ => u64::MAX - g.below(3),
    };
    let n = match g.weighted(&[2, 1, 1]) {
        0 => 0,
        1 => g.below(1_000_000_000),
        _ => 999_999_999 - g.below(2),
    };
    Duration::new(s, n as u32)
}

const G9: u128 = 1_000_000_000;
fn nanos(d: Duration) -> u128 {
    u128::from(d.as_secs()) * G9 + u128::from(d.subsec_nanos())
}
fn of_nanos(n: u128) -> Option<Duration> {
    u64::try_from(n / G9).ok().map(|s| Duration::new(s, (n % G9) as u32))
}

fn times(g: &mut Gen) -> Res {
    let a = dur(g);
    let b = if g.bool() { dur(g) } else { of_nanos(nanos(a).saturating_add(u128::from(g.below(5))).saturating_sub(2)).unwrap_or(a) };
    note!(g, "{a:?} {b:?}");
    g.nontrivial_if(!a.is_zero() && !b.is_zero());
    let (x, y) = (Time::from_duration_since_epoch(a), Time::from_duration_since_epoch(b));
    let d = |t: Option<Time>| t.map(|t| t.as_duration_since_epoch());
    check_eq!(x.as_duration_since_epoch(), a, "duration");
    check_eq!(x.as_secs_since_epoch(), a.as_secs(), "seconds");
    check_eq!(Time::from_secs_since_epoch(a.as_secs()).as_duration_since_epoch(), Duration::from_secs(a.as_secs()), "from seconds");
    let sum = of_nanos(nanos(a) + nanos(b));
    let dif = nanos(a).checked_sub(nanos(b)).and_then(of_nanos);
    g.tag_if(sum.is_none(), "sum overflows");
    g.tag_if(dif.is_none(), "difference is negative");
    check_eq!(d(x + b), sum, "{a:?} + {b:?}");
    check_eq!(d(x - b), dif, "{a:?} - {b:?}");
    check_eq!(x - y, dif, "time difference");
    check_eq!(x.saturating_duration_add(b).as_duration_since_epoch(), sum.unwrap_or(Duration::MAX), "saturating sum");
    check_eq!(x.saturating_duration_sub(b).as_duration_since_epoch(), dif.unwrap_or(Duration::ZERO), "saturating difference");
    check_eq!(x.saturating_sub(y), dif.unwrap_or(Duration::ZERO), "saturating time difference");
    check_eq!(x.cmp(&y), nanos(a).cmp(&nanos(b)), "order");
    check_eq!(x == y, a == b, "equality");
    let ms = nanos(a) / 1_000_000;
    check_eq!(time::duration_to_int(&a).ok(), u64::try_from(ms).ok(), "milliseconds");
    let m = g.u64();
    check_eq!(nanos(time::duration_from_int(m)), u128::from(m) * 1_000_000, "from milliseconds");
    check_eq!(time::duration_to_int(&time::duration_from_int(m)).ok(), Some(m), "milliseconds round trip");
    let j = serde_json::to_string(&x).map_err(|e| e.to_string())?;
    check_eq!(serde_json::from_str::<Time>(&j).ok(), Some(x), "JSON round trip of {x:?}");
    Ok(())
}

/// Days since 1970-01-01 to (year, month, day).
fn civil(z: i64) -> (i64, u32, u32) {
    let z = z + 719_468;
    let era = z.div_euclid(146_097);
    let doe = z.rem_euclid(146_097);
    let yoe = (doe - doe / 1460 + doe / 36_524 - doe / 146_096) / 365;
    let doy = doe - (365 * yoe + yoe / 4 - yoe / 100);
    let mp = (5 * doy + 2) / 153;
    let d = doy - (153 * mp + 2) / 5 + 1;
    let m = if mp < 10 { mp + 3 } else { mp - 9 };
    (yoe + era * 400 + i64::from(m <= 2), m as u32, d as u32)
}

fn date_check(secs: u64, sub: u32) -> Res {
    let t = Time::from_duration_since_epoch(Duration::new(secs, sub));
    let (y, mo, d) = civil((secs / 86400) as i64);
    let (h, mi, s) = (secs % 86400 / 3600, secs % 3600 / 60, secs % 60);
    match t.as_absolute_time() {
        Some(a) => {
            check!(y <= 262_143, "year {y} represented");
            check_eq!(
                (i64::from(a.year()), a.month(), a.day(), u64::from(a.hour()), u64::from(a.minute()), u64::from(a.second()), a.nanosecond()),
                (y, mo, d, h, mi, s, sub),
                "date of {secs} s"
            );
            if y <= 9999 {
                let mut frac = format!("{sub:09}");
                while frac.ends_with("000") && !frac.is_empty() {
                    frac.truncate(frac.len() - 3);
                }
                let frac = if frac.is_empty() { frac } else { format!(".{frac}") };
                let date = format!("{y:04}-{mo:02}-{d:02}");
                let clock = format!("{h:02}:{mi:02}:{s:02}{frac}");
                check_eq!(t.to_string(), format!("{date} {clock} UTC"), "text of {secs}.{sub:09}");
                check_eq!(format!("{t:?}"), format!("{date}T{clock}Z"), "debug text of {secs}.{sub:09}");
            }
            let back = Time::from_absolute_time(&a);
            check_eq!(back, (sub == 0).then_some(t), "{secs}.{sub:09} s back from the date");
        }
        None => {
            check!(y > 262_100, "date of {secs} s (year {y}) missing");
            let _ = (t.to_string(), format!("{t:?}"));
        }
    }
    Ok(())
}

fn dates(g: &mut Gen) -> Res {
    let secs = match g.weighted(&[4, 1, 1]) {
        0 => g.below(1 << 38),
        1 => g.below(8_300_000_000_000),
        _ => g.u64(),
    };
    let sub = if g.bool() { 0 } else { *g.pick(&[1u32, 999_999_999, 500_000_000, 120, 1_000, 1_000_000]) };
    note!(g, "{secs}.{sub:09}");
    g.nontrivial_if(secs > 86400);
    date_check(secs, sub)?;
    let neg = DateTime::<Utc>::from_timestamp(-(g.below(1 << 40) as i64) - 1, 0);
    if let Some(n) = neg {
        check!(Time::from_absolute_time(&n).is_none(), "a time before the epoch was accepted");
    }
    Ok(())
}

fn all_days(g: &mut Gen) -> Res {
    let day = g.below(150_000);
    let s = day * 86400 + [0, 86399, 43200, 3599][(day % 4) as usize];
    note!(g, "day {day}");
    g.nontrivial();
    date_check(s, 0)
}

fn versions(g: &mut Gen) -> Res {
    let v = |g: &mut Gen| (g.u8(), g.u8(), g.u16());
    let a = v(g);
    let b = match g.below(4) {
        0 => v(g),
        1 => (a.0, g.u8(), g.u16()),
        2 => (a.0, a.1, g.u16()),
        _ => a,
    };
    note!(g, "{a:?} {b:?}");
    g.nontrivial_if(a != b && a.0 > 0);
    let (x, y) = (SemVer::new(a.0, a.1, a.2), SemVer::new(b.0, b.1, b.2));
    check_eq!((x.major, x.minor, x.patch), a, "parts");
    check_eq!(x.to_string(), format!("{}.{}.{}", a.0, a.1, a.2), "text");
    check_eq!(x.to_string().parse::<SemVer>(), Ok(x), "round trip");
    check_eq!(SemVer::try_from(x.to_string()), Ok(x), "round trip");
    check_eq!(x.cmp(&y), a.cmp(&b), "order of {x} and {y}");
    check_eq!(x == y, a == b, "equality");
    let e = x.encode();
    check_eq!(e, [vec![a.0, a.1], a.2.to_le_bytes().to_vec()].concat(), "wire form");
    check_eq!(SemVer::decode_all(&mut &e[..]), Ok(x), "wire round trip");
    Ok(())
}

fn version_text(g: &mut Gen) -> Res {
    let mut parts: Vec<String> = (0..3).map(|i| if i < 2 { g.below(300) } else { g.below(70_000) }.to_string()).collect();
    match g.weighted(&[4, 1, 1, 1, 1, 1]) {
        0 => {}
        1 => {
            parts.pop();
        }
        2 => parts.push(g.below(10).to_string()),
        3 => {
            let k = g.usize(parts.len());
            parts[k] = g.pick(&["", "-1", "+1", " 1", "1 ", "1a", "0x1", "01", "٣", "256", "65536", "4294967296"]).to_string();
        }
        4 => {
            let k = g.usize(parts.len());
            parts[k] = g.text(4);
        }
        _ => {
            let k = g.usize(parts.len());
            parts[k] = "0".repeat(g.usize(4)) + &parts[k];
        }
    }
    let s = parts.join(".");
    note!(g, "{s:?}");
    let p: Vec<&str> = s.split('.').collect();
    g.nontrivial_if(p.len() == 3);
    // A sign is tolerated by the number syntax of the language; it is not judged.
    if p.iter().any(|x| x.starts_with('+')) {
        g.tag("not judged");
        let _ = no_panic(|| s.parse::<SemVer>()).map_err(|e| format!("crash: {s:?}: {e}"))?;
        return Ok(());
    }
    let num = |x: &str, max: u64| {
        (!x.is_empty() && x.len() < 19 && x.bytes().all(|c| c.is_ascii_digit())).then(|| x.parse::<u64>().unwrap()).filter(|v| *v <= max)
    };
    let want = if p.len() == 3 {
        match (num(p[0], 255), num(p[1], 255), num(p[2], 65535)) {
            (Some(a), Some(b), Some(c)) => Some((a as u8, b as u8, c as u16)),
            _ => None,
        }
    } else {
        None
    };
    g.tag(if want.is_some() { "accepted" } else { "refused" });
    let got = no_panic(|| s.parse::<SemVer>()).map_err(|p| format!("crash: {s:?}: {p}"))?;
    check_eq!(got.ok().map(|v| (v.major, v.minor, v.patch)), want, "version {s:?}");
    Ok(())
}

/// The mocked clock is a process-wide value.
static CLOCK: Mutex<()> = Mutex::new(());

static AT_START: std::sync::OnceLock<bool> = std::sync::OnceLock::new();

fn near(a: Duration, b: Duration) -> bool {
    a.abs_diff(b) < Duration::from_secs(3600)
}

/// Called once, before anything mocks the clock.
pub fn at_start() {
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap();
    let _ = AT_START.set(near(now, time::get_time().as_duration_since_epoch()));
}

fn clock(g: &mut Gen) -> Res {
    let _l = CLOCK.lock().unwrap_or_else(|e| e.into_inner());
    let ms: Vec<u64> = g.vec(1, 4, |g| g.range(1, 1 << 50));
    note!(g, "{ms:?} ms");
    g.nontrivial();
    for m in &ms {
        time::set(Duration::from_millis(*m)).map_err(|e| e.to_string())?;
        let w = Duration::from_millis(*m);
        check_eq!(time::get_time().as_duration_since_epoch(), w, "mocked time");
        check_eq!(common::time_getter::TimeGetter::default().get_time().as_duration_since_epoch(), w, "mocked time getter");
    }
    let big = Duration::new(u64::MAX, 0);
    check!(time::set(big).is_err(), "a time that does not fit was mocked");
    check_eq!(time::get_time().as_duration_since_epoch(), Duration::from_millis(*ms.last().unwrap()), "mocked time after a refused one");
    time::reset();
    let now = std::time::SystemTime::now().duration_since(std::time::UNIX_EPOCH).unwrap();
    let t = time::get_time().as_duration_since_epoch();
    check!(near(now, t), "unmocked time");
    check!(AT_START.get().copied().unwrap_or(false), "before any time is mocked, the time is not the clock's");
    Ok(())
}
