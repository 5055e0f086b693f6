//! The documented interface: hints, their text, and the described traits.

use std::collections::BTreeMap;

use jsonrpsee::core::client::ClientT;
use pbt::{check, check_eq, Gen};
use rpc::{
    description::{Described, HasValueHint, MethodKindData, ValueHint as VH},
    subscription,
    types::{RpcHexString, RpcString},
    Builder, RpcAuthData, RpcResult,
};
use serde_json::{json, Value};

use crate::block;

// ---- types whose hints are derived

#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize, HasValueHint)]
struct Named {
    id: u64,
    flag: bool,
    note: Option<String>,
}

#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize, HasValueHint)]
struct NewType(RpcHexString);

#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize, HasValueHint)]
struct Pair(i32, Vec<Named>);

#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize, HasValueHint)]
struct Unit;

#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize, HasValueHint)]
enum Plain {
    One,
    Two,
    ThreeFour,
}

#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize, HasValueHint)]
#[serde(tag = "type", content = "content")]
enum Tagged {
    Nothing,
    Wrapped(Named),
    Inline { a: u8, b: Plain },
    Both(u16, String),
}

#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize, HasValueHint)]
#[serde(tag = "version", content = "content")]
enum Versioned {
    V1(NewType),
    V2 { deep: Box<Tagged> },
}

#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize, HasValueHint)]
#[serde(untagged)]
enum Untagged {
    Number(u32),
    Text(String),
    Obj { k: bool, m: BTreeMap<String, i64> },
    Two(bool, bool),
}

#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize, HasValueHint)]
struct Generic<T: HasValueHint> {
    item: T,
    rest: Vec<T>,
}

#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize, HasValueHint)]
#[serde(tag = "type", content = "content")]
enum Deep {
    A(RpcString),
    B { s: RpcString, u: () },
}

#[derive(Debug, Clone, PartialEq, serde::Serialize, serde::Deserialize, HasValueHint)]
struct Wrap(RpcString, Unit);

fn rstr(g: &mut Gen) -> RpcString {
    RpcString::from_bytes(g.bytes(0, 5))
}
fn named(g: &mut Gen) -> Named {
    Named { id: g.u64(), flag: g.bool(), note: g.bool().then(|| g.text(5)) }
}
fn plain(g: &mut Gen) -> Plain {
    g.pick(&[Plain::One, Plain::Two, Plain::ThreeFour]).clone()
}
fn tagged(g: &mut Gen) -> Tagged {
    match g.below(4) {
        0 => Tagged::Nothing,
        1 => Tagged::Wrapped(named(g)),
        2 => Tagged::Inline { a: g.byte(), b: plain(g) },
        _ => Tagged::Both(g.u16(), g.text(4)),
    }
}
fn newtype(g: &mut Gen) -> NewType {
    NewType(RpcHexString::from_bytes(g.bytes(0, 6)))
}
fn versioned(g: &mut Gen) -> Versioned {
    if g.bool() {
        Versioned::V1(newtype(g))
    } else {
        Versioned::V2 { deep: Box::new(tagged(g)) }
    }
}
fn untagged(g: &mut Gen) -> Untagged {
    match g.below(4) {
        0 => Untagged::Number(g.u32()),
        1 => Untagged::Text(g.text(4)),
        2 => Untagged::Obj { k: g.bool(), m: (0..g.below(4)).map(|_| (g.text(3), g.u32() as i64 - 7)).collect() },
        _ => Untagged::Two(g.bool(), g.bool()),
    }
}

// ---- does a JSON value fit a hint?

fn fits(h: &VH, v: &Value) -> bool {
    match h {
        VH::Prim("nothing") | VH::Prim("null") => v.is_null(),
        VH::Prim("bool") => v.is_boolean(),
        VH::Prim("number") => v.is_number(),
        VH::Prim("non-zero number") => v.is_number() && v != &json!(0),
        VH::Prim("string") => v.is_string(),
        VH::Prim("hex string") => v.as_str().is_some_and(|s| s.len() % 2 == 0 && s.bytes().all(|b| b.is_ascii_hexdigit())),
        VH::Prim("json") => true,
        VH::Prim(_) => false,
        VH::StrLit(s) => v == &json!(s),
        VH::Choice(hs) => hs.iter().any(|h| fits(h, v)),
        VH::Object(fs) => v.as_object().is_some_and(|o| {
            fs.iter().all(|(n, h)| fits(h, o.get(*n).unwrap_or(&Value::Null)) && o.contains_key(*n))
                && o.keys().all(|k| fs.iter().any(|(n, _)| n == k))
        }),
        VH::Map(k, x) => v
            .as_object()
            .is_some_and(|o| o.iter().all(|(n, y)| (fits(k, &json!(n)) || n.parse::<u64>().is_ok_and(|n| fits(k, &json!(n)))) && fits(x, y))),
        VH::Array(h) => v.as_array().is_some_and(|a| a.iter().all(|x| fits(h, x))),
        VH::Tuple(hs) => v.as_array().is_some_and(|a| a.len() == hs.len() && a.iter().zip(hs.iter()).all(|(x, h)| fits(h, x))),
    }
}

/// A JSON value that a hint promises to be acceptable.
fn make(g: &mut Gen, h: &VH) -> Value {
    match h {
        VH::Prim("nothing") | VH::Prim("null") => Value::Null,
        VH::Prim("bool") => json!(g.bool()),
        // (hints do not tell the width: small numbers fit all)
        VH::Prim("number") => json!(g.below(100)),
        VH::Prim("non-zero number") => json!(1 + g.below(100)),
        VH::Prim("string") => json!(g.string(&['a', 'b', '"', '\\', 'é'], 0, 6)),
        VH::Prim("hex string") => json!(crate::json::hex(&g.bytes(0, 5))),
        VH::Prim(_) => json!({"x": [1, null]}),
        VH::StrLit(s) => json!(s),
        VH::Choice(hs) => {
            let h = hs[g.usize(hs.len())];
            make(g, h)
        }
        VH::Object(fs) => Value::Object(fs.iter().map(|(n, h)| (n.to_string(), make(g, h))).collect()),
        VH::Map(k, x) => {
            let n = g.below(4);
            Value::Object(
                (0..n)
                    .map(|_| {
                        let key = match make(g, k) {
                            Value::String(s) => s,
                            v => v.to_string(),
                        };
                        (key, make(g, x))
                    })
                    .collect(),
            )
        }
        VH::Array(h) => Value::Array((0..g.below(4)).map(|_| make(g, h)).collect()),
        VH::Tuple(hs) => Value::Array(hs.iter().map(|h| make(g, h)).collect()),
    }
}

fn both<T>(g: &mut Gen, name: &str, v: T) -> Result<(), String>
where
    T: HasValueHint + serde::Serialize + serde::de::DeserializeOwned + PartialEq + std::fmt::Debug,
{
    let j = serde_json::to_value(&v).map_err(|e| e.to_string())?;
    check!(fits(&T::HINT_SER, &j), "{name}: {j} is not what the hint says\n{}", T::HINT_SER);
    let m = make(g, &T::HINT_DE);
    let read: T = serde_json::from_value(m.clone()).map_err(|e| format!("{name}: {m} is refused ({e}), the hint says\n{}", T::HINT_DE))?;
    let again = serde_json::to_value(&read).map_err(|e| e.to_string())?;
    check!(fits(&T::HINT_SER, &again), "{name}: {again} is not what the hint says\n{}", T::HINT_SER);
    Ok(())
}

pub fn hints(g: &mut Gen) -> Result<(), String> {
    use std::num::*;
    g.nontrivial();
    match g.below(34) {
        // (RpcString reads other forms than it writes: what holds it must say so in each place)
        26 => {
            let v = g.bool().then(|| rstr(g));
            both(g, "Option<RpcString>", v)
        }
        27 => {
            let v: BTreeMap<String, RpcString> = (0..g.below(3)).map(|_| (g.text(3), rstr(g))).collect();
            both(g, "map of RpcString", v)
        }
        28 => {
            let v = g.vec(0, 3, rstr);
            both(g, "Vec<RpcString>", v)
        }
        29 => {
            let v = Box::new((rstr(g),));
            both(g, "Box<(RpcString,)>", v)
        }
        30 => {
            let v = (rstr(g), rstr(g));
            both(g, "(RpcString, RpcString)", v)
        }
        31 => {
            let v = (rstr(g), rstr(g), rstr(g));
            both(g, "(RpcString * 3)", v)
        }
        32 => {
            let v = (rstr(g), rstr(g), rstr(g), rstr(g));
            both(g, "(RpcString * 4)", v)
        }
        33 => match g.below(4) {
            0 => {
                let v = Generic { item: rstr(g), rest: g.vec(0, 2, rstr) };
                both(g, "Generic<RpcString>", v)
            }
            1 => {
                let v = Deep::A(rstr(g));
                both(g, "Deep", v)
            }
            2 => {
                let v = Deep::B { s: rstr(g), u: () };
                both(g, "Deep", v)
            }
            _ => {
                let v = Wrap(rstr(g), Unit);
                check_eq!(<&Wrap as HasValueHint>::HINT_DE, Wrap::HINT_DE, "hint of a reference");
                check_eq!(<Result<Wrap, String> as HasValueHint>::HINT_DE, Wrap::HINT_DE, "hint of a result");
                both(g, "Wrap", v)
            }
        },
        0 => {
            let v = named(g);
            both(g, "struct", v)
        }
        1 => {
            let v = newtype(g);
            both(g, "newtype", v)
        }
        2 => {
            let v = Pair(g.u32() as i32, g.vec(0, 3, named));
            both(g, "tuple struct", v)
        }
        3 => both(g, "unit struct", Unit),
        4 => {
            let v = plain(g);
            both(g, "plain enum", v)
        }
        5 => {
            let v = tagged(g);
            both(g, "tagged enum", v)
        }
        6 => {
            let v = versioned(g);
            both(g, "versioned enum", v)
        }
        7 => {
            let v = untagged(g);
            both(g, "untagged enum", v)
        }
        8 => {
            let v = Generic { item: tagged(g), rest: g.vec(0, 3, tagged) };
            both(g, "generic struct", v)
        }
        9 => {
            let v: BTreeMap<String, Option<Untagged>> =
                (0..g.below(4)).map(|_| (g.text(3), if g.bool() { Some(untagged(g)) } else { None })).collect();
            both(g, "map", v)
        }
        10 => {
            let v: BTreeMap<u8, (bool, Plain)> = (0..g.below(4)).map(|_| (g.byte(), (g.bool(), plain(g)))).collect();
            both(g, "map by number", v)
        }
        11 => {
            let v = (g.byte(), named(g), g.bool().then(|| plain(g)), versioned(g));
            both(g, "4-tuple", v)
        }
        12 => {
            let v = (g.byte(), g.text(3), plain(g));
            both(g, "3-tuple", v)
        }
        13 => {
            let v = (plain(g),);
            both(g, "1-tuple", v)
        }
        14 => {
            let v: (Option<u32>, Box<Named>) = (g.bool().then(|| g.u32()), Box::new(named(g)));
            both(g, "2-tuple", v)
        }
        15 => {
            let v = RpcString::from_bytes(g.bytes(0, 5));
            both(g, "RpcString", v)
        }
        16 => both(g, "unit", ()),
        17 => {
            let v = NonZeroU64::new(g.u64().max(1)).unwrap();
            both(g, "NonZeroU64", v)
        }
        18 => {
            let v = NonZeroI8::new(g.byte() as i8 | 1).unwrap();
            both(g, "NonZeroI8", v)
        }
        19 => {
            let v = NonZeroUsize::new(g.u32() as usize | 1).unwrap();
            both(g, "NonZeroUsize", v)
        }
        20 => {
            let v = g.byte() as i8;
            both(g, "i8", v)
        }
        21 => {
            let v = vec![(g.u16(), g.u16() as i16), (0, 1)];
            both(g, "Vec", v)
        }
        22 => {
            let v = std::path::PathBuf::from(g.text(8));
            both(g, "PathBuf", v)
        }
        23 => {
            let v = make(g, &VH::JSON);
            both(g, "Value", v)
        }
        // (addresses are narrower than "string": only what is written is judged)
        24 => {
            let a = std::net::SocketAddr::from((g.array::<16>(), g.u16()));
            let j = json!(a);
            check!(fits(&std::net::SocketAddr::HINT_SER, &j), "SocketAddr: {j}");
            Ok(())
        }
        _ => {
            let v: Result<Vec<Named>, String> = Ok(g.vec(0, 2, named));
            let j = json!(v.as_ref().unwrap());
            check!(fits(&<Result<Vec<Named>, String> as HasValueHint>::HINT_SER, &j), "Result: {j}");
            Ok(())
        }
    }
}

// ---- the text of a hint says what the hint says

const PRIMS: &[VH] = &[
    VH::IRRELEVANT, VH::NOTHING, VH::NULL, VH::BOOL, VH::NUMBER, VH::NONZERO_NUMBER, VH::STRING, VH::NUMBER_STRING,
    VH::DECIMAL_STRING, VH::BECH32_STRING, VH::HEXIFIED_DEST, VH::HEXIFIED_POOL_ID, VH::HEXIFIED_DELEGATION_ID,
    VH::HEXIFIED_TOKEN_ID, VH::HEXIFIED_ORDER_ID, VH::HEX_STRING, VH::GENERIC_OBJECT, VH::JSON,
];
const KEYS: &[&str] = &["a", "type", "content", "some_key", "x\"y", "é", ""];

#[derive(Debug, Clone, PartialEq)]
enum T {
    Prim(String),
    Lit(String),
    Choice(Vec<T>),
    Object(Vec<(String, T)>),
    Map(Box<T>, Box<T>),
    Array(Box<T>),
    Tuple(Vec<T>),
}

fn leak<X>(x: X) -> &'static X {
    Box::leak(Box::new(x))
}

fn gen_hint(g: &mut Gen, depth: u32) -> (&'static VH, T) {
    let kind = if depth == 0 { g.below(2) } else { g.below(8) };
    match kind {
        0 => {
            let p = g.pick(PRIMS);
            let VH::Prim(s) = p else { unreachable!() };
            (leak(VH::Prim(s)), T::Prim(s.to_string()))
        }
        1 => {
            let s = *g.pick(KEYS);
            (leak(VH::StrLit(s)), T::Lit(s.to_string()))
        }
        2 | 3 => {
            let v = g.vec(0, 4, |g| gen_hint(g, depth - 1));
            let hs: Vec<&'static VH> = v.iter().map(|x| x.0).collect();
            let mut flat = Vec::new();
            for (_, t) in v {
                match t {
                    T::Choice(ts) => flat.extend(ts),
                    t => flat.push(t),
                }
            }
            let t = if flat.len() == 1 { flat.pop().unwrap() } else { T::Choice(flat) };
            (leak(VH::Choice(Vec::leak(hs))), t)
        }
        4 => {
            let v = g.vec(0, 4, |g| (*g.pick(KEYS), gen_hint(g, depth - 1)));
            let hs: Vec<(&'static str, &'static VH)> = v.iter().map(|x| (x.0, x.1 .0)).collect();
            (leak(VH::Object(Vec::leak(hs))), T::Object(v.into_iter().map(|(n, (_, t))| (n.to_string(), t)).collect()))
        }
        5 => {
            let (k, v) = (gen_hint(g, depth - 1), gen_hint(g, depth - 1));
            (leak(VH::Map(k.0, v.0)), T::Map(Box::new(k.1), Box::new(v.1)))
        }
        6 => {
            let x = gen_hint(g, depth - 1);
            (leak(VH::Array(x.0)), T::Array(Box::new(x.1)))
        }
        _ => {
            let v = g.vec(0, 4, |g| gen_hint(g, depth - 1));
            let hs: Vec<&'static VH> = v.iter().map(|x| x.0).collect();
            (leak(VH::Tuple(Vec::leak(hs))), T::Tuple(v.into_iter().map(|x| x.1).collect()))
        }
    }
}

#[derive(Debug, Clone, PartialEq)]
enum Tok {
    Open(char),
    Close(char),
    Comma,
    Colon,
    Dots,
    Item(usize),
    Str(String),
    Either,
    Word(String),
}

fn lex(text: &str) -> Result<Vec<Tok>, String> {
    let c: Vec<char> = text.chars().collect();
    let mut i = 0;
    let mut out = Vec::new();
    while i < c.len() {
        match c[i] {
            ' ' | '\n' => i += 1,
            '{' | '[' => {
                out.push(Tok::Open(c[i]));
                i += 1;
            }
            '}' | ']' => {
                out.push(Tok::Close(c[i]));
                i += 1;
            }
            ',' => {
                out.push(Tok::Comma);
                i += 1;
            }
            ':' => {
                out.push(Tok::Colon);
                i += 1;
            }
            '.' if c.get(i + 1) == Some(&'.') => {
                out.push(Tok::Dots);
                i += 2;
            }
            '"' => {
                let mut s = String::new();
                i += 1;
                while *c.get(i).ok_or("unterminated string")? != '"' {
                    if c[i] == '\\' {
                        i += 1;
                    }
                    s.push(c[i]);
                    i += 1;
                }
                i += 1;
                out.push(Tok::Str(s));
            }
            d if d.is_ascii_digit() => {
                let mut n = 0;
                while let Some(d) = c.get(i).and_then(|c| c.to_digit(10)) {
                    n = n * 10 + d as usize;
                    i += 1;
                }
                if c.get(i) != Some(&')') {
                    return Err(format!("a stray number in {text}"));
                }
                i += 1;
                out.push(Tok::Item(n));
            }
            _ => {
                let mut s = String::new();
                while i < c.len() && !"{}[],:\n\".".contains(c[i]) && !(c[i] == ' ' && c.get(i + 1).is_none_or(|x| !x.is_alphabetic() && *x != '-')) {
                    s.push(c[i]);
                    i += 1;
                }
                if s.is_empty() {
                    return Err(format!("unexpected {:?} in {text}", c[i]));
                }
                let s = s.trim().to_string();
                out.push(if s == "EITHER OF" { Tok::Either } else { Tok::Word(s) });
            }
        }
    }
    Ok(out)
}

fn parse(t: &[Tok], i: &mut usize) -> Result<T, String> {
    let next = |i: &mut usize| -> Result<Tok, String> {
        let x = t.get(*i).cloned().ok_or("text ends early")?;
        *i += 1;
        Ok(x)
    };
    Ok(match next(i)? {
        Tok::Word(w) if w == "impossible" => T::Choice(vec![]),
        Tok::Word(w) => T::Prim(w),
        Tok::Str(s) => T::Lit(s),
        Tok::Either => {
            let mut v = Vec::new();
            while t.get(*i) == Some(&Tok::Item(v.len() + 1)) {
                *i += 1;
                v.push(parse(t, i)?);
            }
            T::Choice(v)
        }
        Tok::Open('{') => {
            let mut v: Vec<(T, T)> = Vec::new();
            let mut map = false;
            while t.get(*i) != Some(&Tok::Close('}')) {
                if t.get(*i) == Some(&Tok::Dots) {
                    *i += 1;
                    map = true;
                    continue;
                }
                let k = parse(t, i)?;
                if next(i)? != Tok::Colon {
                    return Err("no colon".into());
                }
                v.push((k, parse(t, i)?));
                if t.get(*i) == Some(&Tok::Comma) {
                    *i += 1;
                }
            }
            *i += 1;
            if map {
                let (k, x) = v.pop().ok_or("map without entry")?;
                T::Map(Box::new(k), Box::new(x))
            } else {
                T::Object(
                    v.into_iter()
                        .map(|(k, x)| match k {
                            T::Lit(s) => Ok((s, x)),
                            k => Err(format!("key {k:?}")),
                        })
                        .collect::<Result<_, _>>()?,
                )
            }
        }
        Tok::Open('[') => {
            let mut v = Vec::new();
            let mut array = false;
            while t.get(*i) != Some(&Tok::Close(']')) {
                if t.get(*i) == Some(&Tok::Dots) {
                    *i += 1;
                    array = true;
                    continue;
                }
                v.push(parse(t, i)?);
                if t.get(*i) == Some(&Tok::Comma) {
                    *i += 1;
                }
            }
            *i += 1;
            if array {
                T::Array(Box::new(v.pop().ok_or("array without item")?))
            } else {
                T::Tuple(v)
            }
        }
        other => return Err(format!("unexpected {other:?}")),
    })
}

pub fn hint_text(g: &mut Gen) -> Result<(), String> {
    let depth = g.below(4) as u32;
    let (h, t) = gen_hint(g, depth);
    g.nontrivial_if(depth > 1);
    let text = h.to_string();
    let toks = lex(&text)?;
    let mut i = 0;
    let read = parse(&toks, &mut i).map_err(|e| format!("{e} in\n{text}\nof {h:?}"))?;
    check!(i == toks.len(), "more text than hint in\n{text}\nof {h:?}");
    check_eq!(read, t, "hint read back from\n{text}\n");
    Ok(())
}

// ---- described traits

/// All about greeting.
///
/// Second paragraph.
#[rpc::describe]
#[rpc::rpc(server, namespace = "greet")]
trait GreetRpc {
    /// Says hello
    #[method(name = "hello")]
    fn hello(&self, name: String, times: u64) -> RpcResult<Vec<String>>;

    #[method(name = "merge")]
    async fn merge(&self, left: Option<u32>, right: BTreeMap<String, bool>, mode: Plain) -> RpcResult<Value>;

    /// Nothing to see
    #[method(name = "nothing")]
    fn nothing(&self) -> RpcResult<()>;

    /// Text in either form
    ///   - indented
    #[method(name = "text")]
    fn text(&self, s: RpcString) -> RpcResult<RpcString>;

    /// Goes on and on
    #[subscription(name = "subscribe_hellos", item = Tagged)]
    async fn subscribe_hellos(&self, from: u32) -> subscription::Reply;

    #[subscription(name = "watch", unsubscribe = "stop_watching", item = u8)]
    async fn watch(&self) -> subscription::Reply;
}

#[rpc::describe]
#[rpc::rpc(server)]
trait BareRpc {
    #[method(name = "bare_call")]
    fn bare_call(&self, x: (u8, Named)) -> RpcResult<Named>;
}

struct Impl;

#[async_trait::async_trait]
impl GreetRpcServer for Impl {
    fn hello(&self, name: String, times: u64) -> RpcResult<Vec<String>> {
        Ok((0..times).map(|i| format!("{i}:{name}")).collect())
    }
    async fn merge(&self, left: Option<u32>, right: BTreeMap<String, bool>, mode: Plain) -> RpcResult<Value> {
        Ok(json!([left, right, mode]))
    }
    fn nothing(&self) -> RpcResult<()> {
        Ok(())
    }
    fn text(&self, s: RpcString) -> RpcResult<RpcString> {
        Ok(s)
    }
    async fn subscribe_hellos(&self, pending: subscription::Pending, from: u32) -> subscription::Reply {
        let sink = subscription::accept::<Tagged>(pending).await?;
        sink.send(&Tagged::Both(from as u16, String::new())).await?;
        Ok(())
    }
    async fn watch(&self, pending: subscription::Pending) -> subscription::Reply {
        let _ = subscription::accept::<u8>(pending).await?;
        Ok(())
    }
}

impl BareRpcServer for Impl {
    fn bare_call(&self, x: (u8, Named)) -> RpcResult<Named> {
        Ok(Named { id: x.1.id ^ x.0 as u64, ..x.1 })
    }
}

pub fn description(_: &mut Gen) -> Result<(), String> {
    let d = GreetRpcDescription::DESCRIPTION;
    check_eq!(d.name, "greet", "module name");
    check_eq!(d.description, "All about greeting.\n\nSecond paragraph.\n", "module description");
    let mut described: Vec<&str> = Vec::new();
    for m in d.methods.iter().chain(BareRpcDescription::DESCRIPTION.methods) {
        described.push(m.name);
        if let MethodKindData::Subscription { unsubscribe_name, .. } = &m.kind_data {
            described.push(unsubscribe_name);
        }
    }
    let (gm, bm) = (GreetRpcServer::into_rpc(Impl), BareRpcServer::into_rpc(Impl));
    let mut served: Vec<&str> = gm.method_names().chain(bm.method_names()).collect();
    served.sort();
    described.sort();
    check_eq!(described, served, "described and served methods");
    let order: Vec<&str> = d.methods.iter().map(|m| m.name).collect();
    check_eq!(
        order,
        ["greet_hello", "greet_merge", "greet_nothing", "greet_text", "greet_subscribe_hellos", "greet_watch"],
        "order of the described methods"
    );
    let docs: Vec<&str> = d.methods.iter().map(|m| m.description).collect();
    check_eq!(docs, ["Says hello\n", "", "Nothing to see\n", "Text in either form\n  - indented\n", "Goes on and on\n", ""], "method descriptions");
    check_eq!(
        &d.methods[1].params,
        &VH::Object(&[
            ("left", &VH::Choice(&[&VH::NUMBER, &VH::NULL])),
            ("right", &VH::Map(&VH::STRING, &VH::BOOL)),
            ("mode", &VH::Choice(&[&VH::StrLit("One"), &VH::StrLit("Two"), &VH::StrLit("ThreeFour")])),
        ]),
        "described parameters"
    );
    check_eq!(&d.methods[3].kind_data, &MethodKindData::Method { return_type: RpcString::HINT_SER }, "described result");
    check_eq!(
        &d.methods[3].params,
        &VH::Object(&[("s", &RpcString::HINT_DE)]),
        "described parameter with different read and written forms"
    );
    check_eq!(
        &d.methods[4].kind_data,
        &MethodKindData::Subscription { unsubscribe_name: "greet_unsubscribe_hellos", item_type: Tagged::HINT_SER },
        "described subscription"
    );
    check_eq!(
        &d.methods[5].kind_data,
        &MethodKindData::Subscription { unsubscribe_name: "greet_stop_watching", item_type: VH::NUMBER },
        "described subscription with a name of its own"
    );
    let bare = BareRpcDescription::DESCRIPTION;
    check_eq!(bare.name, "BareRpc", "name of a module without namespace");
    let text = d.to_string();
    let mut at = 0;
    for (want, after) in [
        ("## Module `greet`", true), ("All about greeting.\n\nSecond paragraph.", true), ("### Method `greet_hello`", true),
        ("Says hello", true), ("Parameters:", true), ("\"name\": string", true), ("\"times\": number", true), ("Returns:", true),
        ("[ string, .. ]", true), ("### Method `greet_merge`", true), ("### Method `greet_nothing`", true), ("{}", true),
        ("nothing", true), ("### Method `greet_text`", true), ("### Subscription `greet_subscribe_hellos`", true),
        ("Produces:", true), ("Unsubscribe using `greet_unsubscribe_hellos`", true), ("### Subscription `greet_watch`", true),
        ("Unsubscribe using `greet_stop_watching`", true),
    ] {
        let pos = text[at..].find(want).ok_or_else(|| format!("{want:?} is missing (in its place) from\n{text}"))?;
        if after {
            at += pos + want.len();
        }
    }
    Ok(())
}

/// What the description promises is what the server does.
pub fn described_calls(g: &mut Gen) -> Result<(), String> {
    let modules = [&GreetRpcDescription::DESCRIPTION, &BareRpcDescription::DESCRIPTION];
    let calls: Vec<(&'static str, bool, Vec<(String, Value)>, &VH)> = g.vec(2, 8, |g| {
        let m = modules[g.weighted(&[4, 1])];
        let method = loop {
            let m = g.pick(m.methods);
            if let MethodKindData::Method { return_type } = &m.kind_data {
                break (m, return_type);
            }
        };
        let VH::Object(params) = method.0.params else { unreachable!("params are an object") };
        let args = params.iter().map(|(n, h)| (n.to_string(), make(g, h))).collect();
        (method.0.name, g.bool(), args, method.1)
    });
    g.nontrivial();
    block(async {
        let server = Builder::new("127.0.0.1:0".parse().unwrap(), None)
            .register(GreetRpcServer::into_rpc(Impl))
            .register(BareRpcServer::into_rpc(Impl))
            .build()
            .await
            .map_err(|e| e.to_string())?;
        let client =
            rpc::new_http_client(format!("http://{}", server.http_address()), RpcAuthData::None).map_err(|e| e.to_string())?;
        for (name, by_name, args, ret) in &calls {
            let got: Value = if *by_name {
                let mut p = jsonrpsee::core::params::ObjectParams::new();
                for (n, v) in args {
                    p.insert(n, v).map_err(|e| e.to_string())?;
                }
                client.request(name, p).await
            } else {
                let mut p = jsonrpsee::core::params::ArrayParams::new();
                for (_, v) in args {
                    p.insert(v).map_err(|e| e.to_string())?;
                }
                client.request(name, p).await
            }
            .map_err(|e| format!("{name} with {args:?} (by name: {by_name}): {e}"))?;
            check!(fits(ret, &got), "{name} gave {got}, described as {ret}");
            match *name {
                "greet_hello" => {
                    let want: Vec<String> = (0..args[1].1.as_u64().unwrap_or(0)).map(|i| format!("{i}:{}", args[0].1.as_str().unwrap_or(""))).collect();
                    check_eq!(got, json!(want), "hello");
                }
                "greet_merge" => check_eq!(got, json!([args[0].1, args[1].1, args[2].1]), "merge"),
                "greet_text" => check!(got["hex"].is_string(), "text: {got}"),
                _ => {}
            }
        }
        server.shutdown().await;
        Ok(())
    })
}
