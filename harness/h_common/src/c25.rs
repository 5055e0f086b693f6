//! Addresses.

use common::{
    address::{
        dehexify::{dehexify_all_addresses, to_dehexified_json},
        hexified::HexifiedAddress,
        traits::Addressable,
        Address, AddressError, RpcAddress,
    },
    chain::{
        config::{create_mainnet, create_regtest, create_testnet, ChainType},
        tokens::TokenId,
        ChainConfig, DelegationId, Destination, OrderId, PoolId,
    },
};
use crypto::vrf::VRFPublicKey;
use gens::{enc::*, make};
use pbt::*;
use refs::bech32::bech32m;
use serialization::DecodeAll;
use std::{fmt::Debug, sync::OnceLock};

pub const P: Property = Property {
    id: "C25",
    rule: "a case is non-trivial when the address carries bytes (anything but the destination anyone can spend), or the text holds at least one hexified address",
    facets: &[
        facet("addresses", 40000, addresses),
        facet("altered", 300000, altered),
        facet("json", 3000, json),
        facet("dehexify", 9000, dehexify),
        facet("objects", 2500, objects),
    ],
    assumptions: &[],
};

type Res = Result<(), String>;

const KINDS: usize = 10;

/// The published prefixes: mainnet, testnet, regtest, signet.
const PREFIX: [[&str; 4]; KINDS] = [
    ["mxanyonecanspend", "txanyonecanspend", "rxanyonecanspend", "sxanyonecanspend"],
    ["mtc", "tmt", "rmt", "smt"],
    ["mptc", "tpmt", "rpmt", "spmt"],
    ["mstc", "tstc", "rstc", "sstc"],
    ["mmtc", "tmtc", "rmtc", "smtc"],
    ["mpool", "tpool", "rpool", "spool"],
    ["mdelg", "tdelg", "rdelg", "sdelg"],
    ["mmltk", "tmltk", "rmltk", "smltk"],
    ["mordr", "tordr", "rordr", "sordr"],
    ["mvrfpk", "tvrfpk", "rvrfpk", "svrfpk"],
];

fn configs() -> &'static [ChainConfig; 4] {
    static C: OnceLock<[ChainConfig; 4]> = OnceLock::new();
    C.get_or_init(|| [create_mainnet(), create_testnet(), create_regtest(), common::chain::config::Builder::new(ChainType::Signet).build()])
}

#[derive(Debug, Clone, PartialEq)]
enum Any {
    D(Destination),
    P(PoolId),
    G(DelegationId),
    T(TokenId),
    O(OrderId),
    V(VRFPublicKey),
}

macro_rules! each {
    ($a:expr, $x:ident => $e:expr) => {
        match $a {
            Any::D($x) => $e,
            Any::P($x) => $e,
            Any::G($x) => $e,
            Any::T($x) => $e,
            Any::O($x) => $e,
            Any::V($x) => $e,
        }
    };
}

impl Any {
    fn kind(&self) -> usize {
        match self {
            Any::D(Destination::AnyoneCanSpend) => 0,
            Any::D(Destination::PublicKeyHash(_)) => 1,
            Any::D(Destination::PublicKey(_)) => 2,
            Any::D(Destination::ScriptHash(_)) => 3,
            Any::D(Destination::ClassicMultisig(_)) => 4,
            Any::P(_) => 5,
            Any::G(_) => 6,
            Any::T(_) => 7,
            Any::O(_) => 8,
            Any::V(_) => 9,
        }
    }

    fn bytes(&self) -> Vec<u8> {
        each!(self, x => enc(x))
    }

    fn text(&self, net: usize) -> String {
        bech32m(PREFIX[self.kind()][net], &self.bytes())
    }

    fn word(&self) -> &'static str {
        WORDS[self.kind().saturating_sub(4)]
    }

    fn hexified(&self) -> String {
        format!("{}{{0x{}}}", self.word(), hex::encode(self.bytes()))
    }
}

const WORDS: [&str; 6] = ["HexifiedDestination", "HexifiedPoolId", "HexifiedDelegationId", "HexifiedTokenId", "HexifiedOrderId", "HexifiedVRFPublicKey"];

fn any(g: &mut Gen) -> Any {
    match g.below(10) {
        0..=4 => Any::D(make::destination(g)),
        5 => Any::P(make::id(g)),
        6 => Any::G(make::id(g)),
        7 => Any::T(make::id(g)),
        8 => Any::O(make::id(g)),
        _ => Any::V(g.pick(&make::pool().vrf).1.clone()),
    }
}

fn one<T: Addressable + Clone + PartialEq + Debug>(net: usize, text: &str, v: &T, word: &str, bytes: &[u8], prefix: &str) -> Res {
    let c = &configs()[net];
    let a = Address::new(c, v.clone()).map_err(|e| e.to_string())?;
    check_eq!((a.as_str(), a.to_string(), a.clone().into_string()), (text, text.to_owned(), text.to_owned()), "address of {v:?}");
    check_eq!((a.as_object(), &a.clone().into_object()), (v, v), "object of {text}");
    check_eq!(Address::<T>::from_string(c, text), Ok(a.clone()), "parsed {text}");
    check_eq!(v.address_prefix(c), prefix, "prefix of {v:?}");
    check_eq!(v.encode_to_bytes_for_address(), bytes, "bytes of {v:?}");
    check_eq!(T::json_wrapper_prefix(), word, "word");
    let short = format!("{}...{}", &text[..prefix.len() + 4], &text[text.len() - 4..]);
    let short = if text.len() - prefix.len() - 4 < 8 { text.to_owned() } else { short };
    check_eq!(a.to_short_string(), short, "short {text}");
    let r = RpcAddress::new(c, v.clone()).map_err(|e| e.to_string())?;
    check_eq!((r.as_str(), r.to_string(), r.clone().into_string()), (text, text.to_owned(), text.to_owned()), "rpc address of {v:?}");
    check_eq!(r.decode_object(c).as_ref(), Ok(v), "object of rpc address {text}");
    check_eq!(r.clone().into_address(c), Ok(a.clone()), "address of rpc address {text}");
    check_eq!(serde_json::to_string(&r).map_err(|e| e.to_string())?, format!("\"{text}\""), "json of rpc address");
    check!(RpcAddress::from(a.clone()) == r && RpcAddress::from_address(a) == r && RpcAddress::<T>::from_string(text.into()) == r, "rpc addresses of {text}");
    // Other networks.
    for (i, c) in configs().iter().enumerate() {
        if i != net {
            check_eq!(Address::<T>::from_string(c, text), Err(AddressError::InvalidPrefix(prefix.to_owned())), "{text} on network {i}");
            check!(r.decode_object(c).is_err() && r.clone().into_address(c).is_err(), "rpc {text} on network {i}");
        }
    }
    Ok(())
}

fn refused<T: Addressable>(net: usize, text: &str) -> Res {
    match no_panic(|| Address::<T>::from_string(&configs()[net], text)) {
        Ok(Err(_)) => Ok(()),
        Ok(Ok(_)) => Err(format!("{text} is read as {}", T::json_wrapper_prefix())),
        Err(e) => Err(format!("{text} as {}: {e}", T::json_wrapper_prefix())),
    }
}

fn addresses(g: &mut Gen) -> Res {
    let (a, net) = (any(g), g.usize(4));
    let (text, bytes) = (a.text(net), a.bytes());
    let prefix = PREFIX[a.kind()][net];
    each!(&a, x => one(net, &text, x, a.word(), &bytes, prefix))?;
    for n in 0..4 {
        for (k, other) in [refused::<Destination>, refused::<PoolId>, refused::<DelegationId>, refused::<TokenId>, refused::<OrderId>, refused::<VRFPublicKey>].iter().enumerate() {
            if k != a.kind().saturating_sub(4) {
                other(n, &text)?;
            }
        }
    }
    // The right bytes under another prefix, and other bytes under the right one.
    let wrong = bech32m(PREFIX[g.usize(KINDS)][net], &bytes);
    let cut = bech32m(prefix, &bytes[..g.usize(bytes.len())]);
    let long = bech32m(prefix, &[&bytes[..], &g.bytes(1, 3)].concat());
    each!(&a, x => {
        fn f<T: Addressable>(_: &T, net: usize, t: &str) -> Res { refused::<T>(net, t) }
        if wrong != text {
            f(x, net, &wrong)?;
        }
        f(x, net, &cut)?;
        f(x, net, &long)
    })?;
    g.tag(prefix);
    g.nontrivial_if(a.kind() > 0);
    note!(g, "{text}");
    Ok(())
}

/// Up to four other characters anywhere, or two neighbours exchanged.
fn altered(g: &mut Gen) -> Res {
    let (a, net) = (any(g), g.usize(4));
    let text = a.text(net);
    let mut b: Vec<char> = text.chars().collect();
    let n = b.len();
    match g.below(5) {
        0 => {
            b.remove(g.usize(n));
        }
        1 => b.insert(g.usize(n + 1), *g.pick(&['q', '1', 'x', ' ', 'b', 'é'])),
        2 => {
            let i = g.usize(n - 1);
            b.swap(i, i + 1);
        }
        3 => {
            let i = g.usize(n);
            b[i] = b[i].to_ascii_uppercase();
        }
        _ => {
            for _ in 0..g.range(1, 4) {
                b[g.usize(n)] = *g.pick(&"qpzry9x8gf2tvdw0s3jn54khce6mua7l1bio ".chars().collect::<Vec<_>>());
            }
        }
    }
    let bad: String = b.into_iter().collect();
    if bad == text || bad.to_lowercase() == text && bad.to_uppercase() == bad {
        return Ok(());
    }
    each!(&a, x => {
        fn f<T: Addressable>(_: &T, net: usize, t: &str) -> Res { refused::<T>(net, t) }
        f(x, net, &bad)
    })?;
    g.nontrivial();
    note!(g, "{text} -> {bad}");
    Ok(())
}

fn from_json<T: serde::de::DeserializeOwned>(s: &str) -> Result<T, String> {
    serde_json::from_str(&serde_json::to_string(s).map_err(|e| e.to_string())?).map_err(|e| e.to_string())
}

fn json(g: &mut Gen) -> Res {
    let (a, net) = (any(g), g.usize(4));
    let hexed = a.hexified();
    let hx = format!("0x{}", hex::encode(a.bytes()));
    let text = a.text(net);
    macro_rules! kind {
        ($x:expr, $t:ty) => {{
            let x: &$t = $x;
            check_eq!(serde_json::to_value(x).map_err(|e| e.to_string())?, serde_json::Value::String(hexed.clone()), "json of {x:?}");
            check_eq!(HexifiedAddress::new(x).to_string(), hexed, "hexified {x:?}");
            for s in [&hexed, &hx, &text] {
                check_eq!(from_json::<$t>(s).as_ref(), Ok(x), "{s} read from json");
            }
            check_eq!(from_json::<$t>(&hexed.replace("0x", "0x00")).is_ok(), false, "a longer {hexed}");
            check!(from_json::<$t>(&hx[..hx.len() - 1]).is_err(), "{hx} but for one digit");
            check!(from_json::<$t>(&hx[..hx.len() - 2]).is_err(), "{hx} but for one byte");
            check!(from_json::<$t>(&text[..text.len() - 1]).is_err(), "{text} but for one letter");
            check!(from_json::<$t>("").is_err() && from_json::<$t>("0x").is_err(), "nothing");
            check!(HexifiedAddress::<$t>::is_hexified_address(&hexed), "{hexed}");
            check!(!HexifiedAddress::<$t>::is_hexified_address(&hx) && !HexifiedAddress::<$t>::is_hexified_address(&text), "{hx} {text}");
            check_eq!(HexifiedAddress::<$t>::extract_hexified_address(&hexed), Some(hx[2..].to_owned()), "{hexed}");
            check_eq!(HexifiedAddress::<$t>::extract_hexified_address(&hx), None, "{hx}");
        }};
    }
    match &a {
        Any::D(x) => kind!(x, Destination),
        Any::P(x) => kind!(x, PoolId),
        Any::G(x) => kind!(x, DelegationId),
        Any::T(x) => kind!(x, TokenId),
        Any::O(x) => kind!(x, OrderId),
        Any::V(x) => check_eq!(HexifiedAddress::new(x).to_string(), hexed, "hexified {x:?}"),
    }
    // Another kind's words are not these.
    for (k, w) in WORDS.iter().enumerate() {
        let is = [
            HexifiedAddress::<Destination>::is_hexified_address(&hexed),
            HexifiedAddress::<PoolId>::is_hexified_address(&hexed),
            HexifiedAddress::<DelegationId>::is_hexified_address(&hexed),
            HexifiedAddress::<TokenId>::is_hexified_address(&hexed),
            HexifiedAddress::<OrderId>::is_hexified_address(&hexed),
            HexifiedAddress::<VRFPublicKey>::is_hexified_address(&hexed),
        ][k];
        check_eq!(is, *w == a.word(), "{hexed} is a {w}");
    }
    g.nontrivial_if(a.kind() > 0);
    Ok(())
}

/// What a hexified address's digits stand for on a network.
fn address_of(kind: usize, digits: &str, net: usize) -> Option<String> {
    let b = (0..digits.len() / 2).map(|i| u8::from_str_radix(&digits[2 * i..2 * i + 2], 16).ok()).collect::<Option<Vec<u8>>>()?;
    if digits.len() % 2 != 0 {
        return None;
    }
    let k = match kind {
        0 => {
            let k = *b.first()? as usize;
            let ok = match k {
                0 => b.len() == 1,
                1 | 4 => b.len() == 21,
                3 => b.len() == 33,
                2 => Destination::decode_all(&mut &b[..]).is_ok(),
                _ => false,
            };
            ok.then_some(k)?
        }
        5 => VRFPublicKey::decode_all(&mut &b[..]).is_ok().then_some(9)?,
        k => (b.len() == 32).then_some(k + 4)?,
    };
    Some(bech32m(PREFIX[k][net], &b))
}

/// Replaces `word{0x<digits>}`, from left to right.
fn replace(text: &str, kind: usize, net: usize) -> String {
    let word = WORDS[kind];
    let (mut out, mut rest) = (String::new(), text);
    while let Some(i) = rest.find(word) {
        let after = &rest[i + word.len()..];
        let digits = after.strip_prefix("{0x").map(|r| r.chars().take_while(char::is_ascii_hexdigit).collect::<String>());
        match digits {
            Some(d) if !d.is_empty() && after[3 + d.len()..].starts_with('}') => {
                out += &rest[..i];
                out += &address_of(kind, &d, net).unwrap_or(format!("0x{d}"));
                rest = &after[3 + d.len() + 1..];
            }
            _ => {
                out += &rest[..i + 1];
                rest = &rest[i + 1..];
            }
        }
    }
    out + rest
}

fn replace_all(text: &str, net: usize) -> String {
    (0..WORDS.len()).fold(text.to_owned(), |t, k| replace(&t, k, net))
}

fn piece(g: &mut Gen) -> String {
    match g.below(8) {
        0..=2 => any(g).hexified(),
        3 => {
            let h = any(g).hexified();
            let mut c: Vec<char> = h.chars().collect();
            let i = g.usize(c.len());
            match g.below(3) {
                0 => {
                    c.remove(i);
                }
                1 => c[i] = *g.pick(&['0', 'f', '{', '}', 'x', 'A', '"']),
                _ => c[i] = c[i].to_ascii_uppercase(),
            }
            c.into_iter().collect()
        }
        4 => format!("{}{{0x{}}}", g.pick(&WORDS), g.string(&['0', '1', 'a', 'F', 'g'], 0, 6)),
        5 => (*g.pick(&WORDS)).to_owned(),
        6 => g.string(&['{', '}', '0', 'x', ',', '"', ' '], 0, 5),
        _ => g.text(6),
    }
}

fn dehexify(g: &mut Gen) -> Res {
    let net = g.usize(4);
    let text: String = (0..g.range(1, 5)).map(|_| piece(g)).collect();
    let c = &configs()[net];
    check_eq!(dehexify_all_addresses(c, &text), replace_all(&text, net), "addresses in {text}");
    let k = g.usize(6);
    let got = match k {
        0 => HexifiedAddress::<Destination>::replace_with_address(c, &text),
        1 => HexifiedAddress::<PoolId>::replace_with_address(c, &text),
        2 => HexifiedAddress::<DelegationId>::replace_with_address(c, &text),
        3 => HexifiedAddress::<TokenId>::replace_with_address(c, &text),
        4 => HexifiedAddress::<OrderId>::replace_with_address(c, &text),
        _ => HexifiedAddress::<VRFPublicKey>::replace_with_address(c, &text),
    };
    check_eq!(got, replace(&text, k, net), "{} in {text}", WORDS[k]);
    g.nontrivial_if(text.contains("{0x"));
    note!(g, "{text}");
    Ok(())
}

/// Whole objects printed with addresses.
fn objects(g: &mut Gen) -> Res {
    let net = g.usize(4);
    let c = &configs()[net];
    let t = make::signed_transaction(g);
    let plain = serde_json::to_string(&t).map_err(|e| e.to_string())?;
    let want: serde_json::Value = serde_json::from_str(&replace_all(&plain, net)).map_err(|e| e.to_string())?;
    let got = to_dehexified_json(c, &t).map_err(|e| e.to_string())?;
    check_eq!(got, want, "{plain}");
    check!(!got.to_string().contains("Hexified"), "{got}");
    // Every destination of the outputs is there as its address.
    let text = got.to_string();
    for o in t.outputs() {
        use common::chain::TxOutput as O;
        let d = match o {
            O::Transfer(_, d) | O::LockThenTransfer(_, d, _) | O::ProduceBlockFromStake(d, _) | O::CreateDelegationId(d, _) => d,
            _ => continue,
        };
        let a = Any::D(d.clone()).text(net);
        check!(text.contains(&a), "{a} in {text}");
        g.nontrivial();
    }
    Ok(())
}
