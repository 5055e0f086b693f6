//! Bech32m against an independent implementation of BIP-350.
use common::primitives::bech32_encoding::{bech32m_decode, bech32m_encode};
use pbt::{check, check_eq, facet, no_panic, note, Gen, Property, Res};

pub const P: Property = Property {
    id: "C06",
    rule: "Random prefixes (all allowed characters, lengths 1..83) and payloads (0..600 bytes), every encoding compared with an independent implementation of BIP-350; then mutations: 1 to 4 character substitutions in strings within the 90-character guarantee, transpositions, insertions, deletions, case changes, the older checksum, non-zero padding, odd groups, and arbitrary text. Non-trivial: a payload of at least one byte, or a mutated string that differs from the original.",
    facets: &[
        facet("round_trip", 320_000, round_trip),
        facet("substitutions", 1_000_000, substitutions),
        facet("other_corruptions", 600_000, other_corruptions),
        facet("crafted", 400_000, crafted),
        facet("any_text", 600_000, any_text),
    ],
    assumptions: &[
        "Detection of up to four substitutions is guaranteed by the code for strings of at most 90 characters.",
    ],
};

const CH: &[u8; 32] = b"qpzry9x8gf2tvdw0s3jn54khce6mua7l";
const BECH32M: u32 = 0x2bc8_30a3;
const BECH32: u32 = 1;

fn polymod(values: impl Iterator<Item = u8>) -> u32 {
    const G: [u32; 5] = [0x3b6a_57b2, 0x2650_8e6d, 0x1ea1_19fa, 0x3d42_33dd, 0x2a14_62b3];
    let mut c = 1u32;
    for v in values {
        let b = c >> 25;
        c = (c & 0x1ff_ffff) << 5 ^ u32::from(v);
        for (i, g) in G.iter().enumerate() {
            if b >> i & 1 == 1 {
                c ^= g;
            }
        }
    }
    c
}

fn expand(hrp: &str) -> Vec<u8> {
    let l: Vec<u8> = hrp.bytes().map(|b| b.to_ascii_lowercase()).collect();
    let mut v: Vec<u8> = l.iter().map(|b| b >> 5).collect();
    v.push(0);
    v.extend(l.iter().map(|b| b & 31));
    v
}

/// The text for a prefix and 5-bit groups under a checksum constant.
fn encode_groups(hrp: &str, groups: &[u8], target: u32) -> String {
    let sum = polymod(expand(hrp).into_iter().chain(groups.iter().copied()).chain([0; 6])) ^ target;
    let mut s = hrp.to_ascii_lowercase();
    s.push('1');
    s.extend(groups.iter().map(|g| CH[*g as usize] as char));
    s.extend((0..6).map(|i| CH[(sum >> (5 * (5 - i)) & 31) as usize] as char));
    s
}

fn groups_of(data: &[u8]) -> Vec<u8> {
    let mut out = vec![];
    let (mut acc, mut bits) = (0u32, 0);
    for b in data {
        acc = acc << 8 | u32::from(*b);
        bits += 8;
        while bits >= 5 {
            bits -= 5;
            out.push((acc >> bits & 31) as u8);
        }
    }
    if bits > 0 {
        out.push((acc << (5 - bits) & 31) as u8);
    }
    out
}

/// Some((prefix, data)) when the text is a well-formed bech32m string, Err(reason) otherwise.
fn ref_decode(s: &str) -> Result<(String, Vec<u8>), &'static str> {
    if s.bytes().any(|b| !(33..=126).contains(&b)) {
        return Err("character");
    }
    if s.bytes().any(|b| b.is_ascii_lowercase()) && s.bytes().any(|b| b.is_ascii_uppercase()) {
        return Err("mixed case");
    }
    let pos = s.rfind('1').ok_or("no separator")?;
    let (hrp, rest) = (&s[..pos], &s[pos + 1..]);
    if hrp.is_empty() || hrp.len() > 83 {
        return Err("prefix length");
    }
    let mut g = vec![];
    for c in rest.bytes() {
        g.push(CH.iter().position(|x| *x == c.to_ascii_lowercase()).ok_or("data character")? as u8);
    }
    if g.len() < 6 {
        return Err("no checksum");
    }
    if polymod(expand(hrp).into_iter().chain(g.iter().copied())) != BECH32M {
        return Err("checksum");
    }
    g.truncate(g.len() - 6);
    let (mut acc, mut bits, mut data) = (0u32, 0, vec![]);
    for v in &g {
        acc = (acc << 5 | u32::from(*v)) & 0xfff;
        bits += 5;
        if bits >= 8 {
            bits -= 8;
            data.push((acc >> bits & 0xff) as u8);
        }
    }
    if bits >= 5 {
        return Err("padding length");
    }
    if acc & ((1 << bits) - 1) != 0 {
        return Err("padding");
    }
    Ok((hrp.to_string(), data))
}

const MAX_LEN: usize = 1023;

fn compare(s: &str) -> Result<bool, String> {
    let got = no_panic(|| bech32m_decode(s)).map_err(|p| format!("crash: {s:?}: {p}"))?;
    let want = ref_decode(s);
    match (got, want) {
        (Ok(d), Ok((hrp, data))) => {
            check!(d.hrp().eq_ignore_ascii_case(&hrp), "prefix of {s:?}: {:?}", d.hrp());
            check_eq!(d.data(), &data[..], "data of {s:?}");
            if s.len() <= MAX_LEN {
                let again = bech32m_encode(d.hrp(), d.data()).map_err(|e| format!("{s:?} decodes but does not encode: {e}"))?;
                check_eq!(again, s.to_ascii_lowercase(), "re-encoding of {s:?}");
            }
            Ok(true)
        }
        (Err(_), Err(_)) => Ok(false),
        (Err(e), Ok(_)) if s.len() <= MAX_LEN => Err(format!("{s:?} is well-formed, refused: {e}")),
        (Err(_), Ok(_)) => Ok(false),
        (Ok(d), Err(w)) => Err(format!("{s:?} is malformed ({w}), decoded as {d:?}")),
    }
}

fn hrp(g: &mut Gen, max: usize) -> String {
    if g.chance(1, 3) {
        return (*g.pick(&["mtc", "tmt", "mpool", "mdelg", "mmltk", "mordr", "rmt", "bc", "a", "1", "a1b"])).into();
    }
    let n = g.len(1, max);
    let s: String = (0..n).map(|_| char::from(g.range(33, 126) as u8)).collect();
    if g.chance(1, 8) {
        s.to_ascii_uppercase()
    } else {
        s.to_ascii_lowercase()
    }
}

fn round_trip(g: &mut Gen) -> Res {
    let h = hrp(g, 83);
    let data = g.bytes(0, if g.thorough { 640 } else { 200 });
    note!(g, "prefix {h:?}, {} bytes {}", data.len(), hexs(&data));
    g.nontrivial_if(!data.is_empty());
    let want = encode_groups(&h, &groups_of(&data), BECH32M);
    g.tag_if(want.len() > 90, "longer than 90 characters");
    let got = bech32m_encode(&h, &data);
    if want.len() > MAX_LEN {
        check!(got.is_err(), "a string of {} characters was produced", want.len());
        return Ok(());
    }
    let s = got.map_err(|e| format!("prefix {h:?} with {} bytes refused: {e}", data.len()))?;
    check_eq!(s, want, "encoding of prefix {h:?}");
    let d = bech32m_decode(&s).map_err(|e| format!("{s:?} does not decode: {e}"))?;
    check_eq!((d.hrp().to_string(), d.data().to_vec()), (h.to_ascii_lowercase(), data.clone()), "{s:?} decoded");
    let d = bech32m_decode(s.to_ascii_uppercase()).map_err(|e| format!("{s:?} in upper case does not decode: {e}"))?;
    check_eq!(d.data(), &data[..], "upper-case {s:?} decoded");
    check!(d.hrp().eq_ignore_ascii_case(&h), "upper-case prefix");
    // bad prefixes
    let bad = match g.below(4) {
        0 => String::new(),
        1 => h.clone() + " ",
        2 => "x".repeat(84),
        _ => h.clone() + "é",
    };
    check!(bech32m_encode(&bad, &data).is_err(), "prefix {bad:?} accepted");
    Ok(())
}

fn hexs(b: &[u8]) -> String {
    b.iter().take(40).map(|x| format!("{x:02x}")).collect()
}

fn base(g: &mut Gen) -> (String, String, Vec<u8>) {
    let h = hrp(g, 20);
    let room = (90 - h.len() - 7) * 5 / 8;
    let data = g.bytes(0, room);
    (encode_groups(&h, &groups_of(&data), BECH32M), h, data)
}

fn substitutions(g: &mut Gen) -> Res {
    let (s, h, _) = base(g);
    note!(g, "{s}");
    let mut v: Vec<u8> = s.bytes().collect();
    // in the data part only: a change in the prefix is judged by the reference below
    let k = 1 + g.below(4);
    let in_prefix = g.chance(1, 5);
    for _ in 0..k {
        if in_prefix {
            let i = g.usize(h.len());
            v[i] = g.range(33, 126) as u8;
        } else {
            let i = h.len() + 1 + g.usize(v.len() - h.len() - 1);
            v[i] = *g.pick(CH);
        }
    }
    let t = String::from_utf8(v).unwrap();
    note!(g, "{t} ({k} substitutions)");
    g.nontrivial_if(t != s);
    let ok = compare(&t)?;
    if t.to_ascii_lowercase() != s.to_ascii_lowercase() && !in_prefix {
        check!(!ok, "{t} decodes, {k} characters away from {s}");
    }
    g.tag_if(t == s, "unchanged");
    Ok(())
}

fn other_corruptions(g: &mut Gen) -> Res {
    let (s, h, _) = base(g);
    let mut v: Vec<char> = s.chars().collect();
    let n = v.len();
    let what = g.below(8);
    match what {
        0 => {
            let i = g.usize(n - 1);
            v.swap(i, i + 1);
            g.tag("neighbours swapped");
        }
        1 => {
            let i = g.usize(n);
            v.remove(i);
            g.tag("deleted");
        }
        2 => {
            let i = g.usize(n + 1);
            v.insert(i, *g.pick(&['q', 'p', 'l', '1', 'b', 'i', 'o', ' ', '\u{7f}', 'é', 'Q']));
            g.tag("inserted");
        }
        3 => {
            let i = g.usize(n);
            v[i] = v[i].to_ascii_uppercase();
            g.tag("one character in upper case");
        }
        4 => {
            let i = g.usize(n + 1);
            v.truncate(i);
            g.tag("cut");
        }
        5 => {
            let i = g.usize(n);
            v.splice(0..0, vec![' '; usize::from(i == 0)]);
            v.push(*g.pick(&[' ', '\n', 'q', '\0']));
            g.tag("trailing");
        }
        6 => {
            v = v.iter().map(|c| c.to_ascii_uppercase()).collect();
            g.tag("all in upper case");
        }
        _ => {
            // the same data under another prefix
            let o = hrp(g, 10);
            v.splice(0..h.len(), o.chars());
            g.tag("other prefix");
        }
    }
    let t: String = v.into_iter().collect();
    note!(g, "{s} -> {t}");
    g.nontrivial_if(t != s);
    let ok = compare(&t)?;
    g.tag(if ok { "accepted" } else { "refused" });
    Ok(())
}

fn crafted(g: &mut Gen) -> Res {
    let h = hrp(g, 12);
    let mut gr = groups_of(&g.bytes(0, 30));
    let target = match g.below(6) {
        0 => BECH32,
        1 => BECH32M ^ 1 << g.below(30),
        _ => BECH32M,
    };
    g.tag_if(target == BECH32, "older checksum");
    match g.below(4) {
        0 => gr.push(g.below(32) as u8),
        1 => {
            gr.pop();
        }
        2 => {
            if let Some(l) = gr.last_mut() {
                *l ^= 1 << g.below(5);
            }
        }
        _ => {}
    }
    let mut s = encode_groups(&h, &gr, target);
    if g.chance(1, 6) {
        s = s.to_ascii_uppercase();
    }
    note!(g, "{s}");
    g.nontrivial();
    let ok = compare(&s)?;
    g.tag(if ok { "accepted" } else { "refused" });
    if target != BECH32M {
        check!(!ok, "{s} has another checksum constant");
    }
    Ok(())
}

fn any_text(g: &mut Gen) -> Res {
    let s = if g.bool() {
        g.text(30)
    } else {
        let mut a: Vec<char> = CH.iter().map(|c| *c as char).collect();
        a.extend(['1', '1', 'b', 'A']);
        g.string(&a, 0, 24)
    };
    note!(g, "{s:?}");
    g.nontrivial_if(s.contains('1') && s.len() > 8);
    compare(&s).map(|_| ())
}
