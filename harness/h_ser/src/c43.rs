//! The serialization framework: tags, directly encoded enums, the one-byte lookahead, and the wrappers.

use pbt::*;
use serialization::{
    encoded::Encoded,
    extras::non_empty_vec::DataOrNoVec,
    hex::{HexDecode, HexEncode, HexError},
    hex_encoded::{hex_encoded_serialization, HexEncoded},
    json_encoded::JsonEncoded,
    tagged::{derive_support::Peekable, tag_of},
    Compact, Decode, DecodeAll, DirectDecode, DirectEncode, Encode, Error, Input, Tag, Tagged,
};
use std::{
    collections::{BTreeMap, BTreeSet},
    fmt::Debug,
};

pub const P: Property = Property {
    id: "C43",
    rule: "a case is non-trivial when the value had a field of variable length that was not empty, the bytes got past the first byte of the encoding, or the sequence of reads crossed a looked-at byte",
    facets: &[
        enumerated("tags", 256, tags),
        facet("direct", 120000, direct),
        facet("direct_bytes", 160000, direct_bytes),
        facet("tagged", 60000, tagged),
        facet("plain", 80000, plain),
        facet("plain_bytes", 120000, plain_bytes),
        facet("lookahead", 120000, lookahead),
        facet("hex_text", 80000, hex_text),
        facet("hex_values", 40000, hex_values),
        facet("json", 40000, json),
        facet("encoded", 40000, encoded),
        facet("data_or_none", 40000, data_or_none),
    ],
    assumptions: &["the text of JSON values is read with serde_json"],
};

macro_rules! tags_table {
    () => {[
        tag_n::<0>, tag_n::<1>, tag_n::<2>, tag_n::<3>, tag_n::<4>, tag_n::<5>, tag_n::<6>, tag_n::<7>,
        tag_n::<8>, tag_n::<9>, tag_n::<10>, tag_n::<11>, tag_n::<12>, tag_n::<13>, tag_n::<14>, tag_n::<15>,
        tag_n::<16>, tag_n::<17>, tag_n::<18>, tag_n::<19>, tag_n::<20>, tag_n::<21>, tag_n::<22>, tag_n::<23>,
        tag_n::<24>, tag_n::<25>, tag_n::<26>, tag_n::<27>, tag_n::<28>, tag_n::<29>, tag_n::<30>, tag_n::<31>,
        tag_n::<32>, tag_n::<33>, tag_n::<34>, tag_n::<35>, tag_n::<36>, tag_n::<37>, tag_n::<38>, tag_n::<39>,
        tag_n::<40>, tag_n::<41>, tag_n::<42>, tag_n::<43>, tag_n::<44>, tag_n::<45>, tag_n::<46>, tag_n::<47>,
        tag_n::<48>, tag_n::<49>, tag_n::<50>, tag_n::<51>, tag_n::<52>, tag_n::<53>, tag_n::<54>, tag_n::<55>,
        tag_n::<56>, tag_n::<57>, tag_n::<58>, tag_n::<59>, tag_n::<60>, tag_n::<61>, tag_n::<62>, tag_n::<63>,
        tag_n::<64>, tag_n::<65>, tag_n::<66>, tag_n::<67>, tag_n::<68>, tag_n::<69>, tag_n::<70>, tag_n::<71>,
        tag_n::<72>, tag_n::<73>, tag_n::<74>, tag_n::<75>, tag_n::<76>, tag_n::<77>, tag_n::<78>, tag_n::<79>,
        tag_n::<80>, tag_n::<81>, tag_n::<82>, tag_n::<83>, tag_n::<84>, tag_n::<85>, tag_n::<86>, tag_n::<87>,
        tag_n::<88>, tag_n::<89>, tag_n::<90>, tag_n::<91>, tag_n::<92>, tag_n::<93>, tag_n::<94>, tag_n::<95>,
        tag_n::<96>, tag_n::<97>, tag_n::<98>, tag_n::<99>, tag_n::<100>, tag_n::<101>, tag_n::<102>, tag_n::<103>,
        tag_n::<104>, tag_n::<105>, tag_n::<106>, tag_n::<107>, tag_n::<108>, tag_n::<109>, tag_n::<110>, tag_n::<111>,
        tag_n::<112>, tag_n::<113>, tag_n::<114>, tag_n::<115>, tag_n::<116>, tag_n::<117>, tag_n::<118>, tag_n::<119>,
        tag_n::<120>, tag_n::<121>, tag_n::<122>, tag_n::<123>, tag_n::<124>, tag_n::<125>, tag_n::<126>, tag_n::<127>,
        tag_n::<128>, tag_n::<129>, tag_n::<130>, tag_n::<131>, tag_n::<132>, tag_n::<133>, tag_n::<134>, tag_n::<135>,
        tag_n::<136>, tag_n::<137>, tag_n::<138>, tag_n::<139>, tag_n::<140>, tag_n::<141>, tag_n::<142>, tag_n::<143>,
        tag_n::<144>, tag_n::<145>, tag_n::<146>, tag_n::<147>, tag_n::<148>, tag_n::<149>, tag_n::<150>, tag_n::<151>,
        tag_n::<152>, tag_n::<153>, tag_n::<154>, tag_n::<155>, tag_n::<156>, tag_n::<157>, tag_n::<158>, tag_n::<159>,
        tag_n::<160>, tag_n::<161>, tag_n::<162>, tag_n::<163>, tag_n::<164>, tag_n::<165>, tag_n::<166>, tag_n::<167>,
        tag_n::<168>, tag_n::<169>, tag_n::<170>, tag_n::<171>, tag_n::<172>, tag_n::<173>, tag_n::<174>, tag_n::<175>,
        tag_n::<176>, tag_n::<177>, tag_n::<178>, tag_n::<179>, tag_n::<180>, tag_n::<181>, tag_n::<182>, tag_n::<183>,
        tag_n::<184>, tag_n::<185>, tag_n::<186>, tag_n::<187>, tag_n::<188>, tag_n::<189>, tag_n::<190>, tag_n::<191>,
        tag_n::<192>, tag_n::<193>, tag_n::<194>, tag_n::<195>, tag_n::<196>, tag_n::<197>, tag_n::<198>, tag_n::<199>,
        tag_n::<200>, tag_n::<201>, tag_n::<202>, tag_n::<203>, tag_n::<204>, tag_n::<205>, tag_n::<206>, tag_n::<207>,
        tag_n::<208>, tag_n::<209>, tag_n::<210>, tag_n::<211>, tag_n::<212>, tag_n::<213>, tag_n::<214>, tag_n::<215>,
        tag_n::<216>, tag_n::<217>, tag_n::<218>, tag_n::<219>, tag_n::<220>, tag_n::<221>, tag_n::<222>, tag_n::<223>,
        tag_n::<224>, tag_n::<225>, tag_n::<226>, tag_n::<227>, tag_n::<228>, tag_n::<229>, tag_n::<230>, tag_n::<231>,
        tag_n::<232>, tag_n::<233>, tag_n::<234>, tag_n::<235>, tag_n::<236>, tag_n::<237>, tag_n::<238>, tag_n::<239>,
        tag_n::<240>, tag_n::<241>, tag_n::<242>, tag_n::<243>, tag_n::<244>, tag_n::<245>, tag_n::<246>, tag_n::<247>,
        tag_n::<248>, tag_n::<249>, tag_n::<250>, tag_n::<251>, tag_n::<252>, tag_n::<253>, tag_n::<254>, tag_n::<255>,
    ]};
}

type Res = Result<(), String>;

// ---------------------------------------------------------------- the reference encoding

#[derive(Default)]
struct W(Vec<u8>);

impl W {
    fn u(&mut self, v: u128, n: usize) {
        for i in 0..n {
            self.0.push((v >> (8 * i)) as u8);
        }
    }
    fn compact(&mut self, v: u128) {
        if v < 1 << 6 {
            self.u(v << 2, 1)
        } else if v < 1 << 14 {
            self.u(v << 2 | 1, 2)
        } else if v < 1 << 30 {
            self.u(v << 2 | 2, 4)
        } else {
            let n = ((128 - v.leading_zeros()) as usize + 7) / 8;
            self.u((n as u128 - 4) << 2 | 3, 1);
            self.u(v, n)
        }
    }
    fn blob(&mut self, b: &[u8]) {
        self.compact(b.len() as u128);
        self.0.extend_from_slice(b);
    }
}

/// Reads in the reference encoding. `None`: refused.
struct R<'a>(&'a [u8], usize);

impl<'a> R<'a> {
    fn take(&mut self, n: usize) -> Option<&'a [u8]> {
        let r = self.0.get(self.1..self.1.checked_add(n)?)?;
        self.1 += n;
        Some(r)
    }
    fn u(&mut self, n: usize) -> Option<u128> {
        Some(self.take(n)?.iter().rev().fold(0, |a, b| a << 8 | *b as u128))
    }
    fn compact(&mut self, bits: u32) -> Option<u128> {
        let first = self.u(1)?;
        let (v, lo) = match first & 3 {
            0 => (first >> 2, 0),
            1 => ((self.u(1)? << 8 | first) >> 2, 1 << 6),
            2 => ((self.u(3)? << 8 | first) >> 2, 1 << 14),
            _ => {
                let n = (first >> 2) as usize + 4;
                if n > 16 || n > bits as usize / 8 && n > 4 {
                    return None;
                }
                let v = self.u(n)?;
                let lo = if n == 4 { 1 << 30 } else { 1u128 << (8 * (n - 1)) };
                (v, lo)
            }
        };
        (v >= lo && (bits == 128 || v >> bits == 0)).then_some(v)
    }
    fn blob(&mut self) -> Option<Vec<u8>> {
        let n = self.compact(32)? as usize;
        Some(self.take(n)?.to_vec())
    }
    fn bool(&mut self) -> Option<bool> {
        match self.u(1)? {
            0 => Some(false),
            1 => Some(true),
            _ => None,
        }
    }
}

/// Values with an encoding written out by hand.
trait Ref: Sized + PartialEq + Debug + Clone {
    fn gen(g: &mut Gen) -> Self;
    fn put(&self, w: &mut W);
    fn get(r: &mut R) -> Option<Self>;

    fn bytes(&self) -> Vec<u8> {
        let mut w = W::default();
        self.put(&mut w);
        w.0
    }
}

macro_rules! ints {
    ($($t:ident $n:literal),*) => {$(
        impl Ref for $t {
            fn gen(g: &mut Gen) -> Self { g.uint($n * 8) as $t }
            fn put(&self, w: &mut W) { w.u(*self as u128, $n) }
            fn get(r: &mut R) -> Option<Self> { r.u($n).map(|v| v as $t) }
        }
    )*};
}
ints!(u8 1, u16 2, u32 4, u64 8, u128 16, i8 1, i16 2, i32 4, i64 8, i128 16);

macro_rules! compacts {
    ($($t:ident $n:literal),*) => {$(
        impl Ref for Compact<$t> {
            fn gen(g: &mut Gen) -> Self { Compact(g.uint($n) as $t) }
            fn put(&self, w: &mut W) { w.compact(self.0 as u128) }
            fn get(r: &mut R) -> Option<Self> { r.compact($n).map(|v| Compact(v as $t)) }
        }
    )*};
}
compacts!(u8 8, u16 16, u32 32, u64 64, u128 128);

impl Ref for bool {
    fn gen(g: &mut Gen) -> Self {
        g.bool()
    }
    fn put(&self, w: &mut W) {
        w.u(*self as u128, 1)
    }
    fn get(r: &mut R) -> Option<Self> {
        r.bool()
    }
}

impl Ref for () {
    fn gen(_: &mut Gen) -> Self {}
    fn put(&self, _: &mut W) {}
    fn get(_: &mut R) -> Option<Self> {
        Some(())
    }
}

impl Ref for String {
    fn gen(g: &mut Gen) -> Self {
        g.text(40)
    }
    fn put(&self, w: &mut W) {
        w.blob(self.as_bytes())
    }
    fn get(r: &mut R) -> Option<Self> {
        String::from_utf8(r.blob()?).ok()
    }
}

fn many<T: Ref>(g: &mut Gen) -> Vec<T> {
    let top = if g.chance(1, 12) { 90 } else { 6 };
    g.vec(0, top, T::gen)
}

impl<T: Ref> Ref for Vec<T> {
    fn gen(g: &mut Gen) -> Self {
        many(g)
    }
    fn put(&self, w: &mut W) {
        w.compact(self.len() as u128);
        self.iter().for_each(|x| x.put(w));
    }
    fn get(r: &mut R) -> Option<Self> {
        let n = r.compact(32)?;
        if n > r.0.len() as u128 && std::mem::size_of::<T>() > 0 {
            return None;
        }
        (0..n).map(|_| T::get(r)).collect()
    }
}

impl<T: Ref> Ref for Option<T> {
    fn gen(g: &mut Gen) -> Self {
        g.bool().then(|| T::gen(g))
    }
    fn put(&self, w: &mut W) {
        w.u(self.is_some() as u128, 1);
        if let Some(x) = self {
            x.put(w)
        }
    }
    fn get(r: &mut R) -> Option<Self> {
        match r.u(1)? {
            0 => Some(None),
            1 => Some(Some(T::get(r)?)),
            _ => None,
        }
    }
}

impl<T: Ref, E: Ref> Ref for Result<T, E> {
    fn gen(g: &mut Gen) -> Self {
        if g.bool() {
            Ok(T::gen(g))
        } else {
            Err(E::gen(g))
        }
    }
    fn put(&self, w: &mut W) {
        match self {
            Ok(x) => {
                w.u(0, 1);
                x.put(w)
            }
            Err(x) => {
                w.u(1, 1);
                x.put(w)
            }
        }
    }
    fn get(r: &mut R) -> Option<Self> {
        match r.u(1)? {
            0 => Some(Ok(T::get(r)?)),
            1 => Some(Err(E::get(r)?)),
            _ => None,
        }
    }
}

impl<const N: usize> Ref for [u8; N] {
    fn gen(g: &mut Gen) -> Self {
        g.array()
    }
    fn put(&self, w: &mut W) {
        w.0.extend_from_slice(self)
    }
    fn get(r: &mut R) -> Option<Self> {
        r.take(N)?.try_into().ok()
    }
}

impl<T: Ref> Ref for Box<T> {
    fn gen(g: &mut Gen) -> Self {
        Box::new(T::gen(g))
    }
    fn put(&self, w: &mut W) {
        (**self).put(w)
    }
    fn get(r: &mut R) -> Option<Self> {
        T::get(r).map(Box::new)
    }
}

impl<A: Ref, B: Ref> Ref for (A, B) {
    fn gen(g: &mut Gen) -> Self {
        (A::gen(g), B::gen(g))
    }
    fn put(&self, w: &mut W) {
        self.0.put(w);
        self.1.put(w)
    }
    fn get(r: &mut R) -> Option<Self> {
        Some((A::get(r)?, B::get(r)?))
    }
}

impl<A: Ref, B: Ref, C: Ref> Ref for (A, B, C) {
    fn gen(g: &mut Gen) -> Self {
        (A::gen(g), B::gen(g), C::gen(g))
    }
    fn put(&self, w: &mut W) {
        self.0.put(w);
        self.1.put(w);
        self.2.put(w)
    }
    fn get(r: &mut R) -> Option<Self> {
        Some((A::get(r)?, B::get(r)?, C::get(r)?))
    }
}

impl<K: Ref + Ord, V: Ref> Ref for BTreeMap<K, V> {
    fn gen(g: &mut Gen) -> Self {
        many::<(K, V)>(g).into_iter().collect()
    }
    fn put(&self, w: &mut W) {
        w.compact(self.len() as u128);
        for (k, v) in self {
            k.put(w);
            v.put(w)
        }
    }
    fn get(r: &mut R) -> Option<Self> {
        Some(Vec::<(K, V)>::get(r)?.into_iter().collect())
    }
}

impl<K: Ref + Ord> Ref for BTreeSet<K> {
    fn gen(g: &mut Gen) -> Self {
        many::<K>(g).into_iter().collect()
    }
    fn put(&self, w: &mut W) {
        w.compact(self.len() as u128);
        self.iter().for_each(|k| k.put(w))
    }
    fn get(r: &mut R) -> Option<Self> {
        Some(Vec::<K>::get(r)?.into_iter().collect())
    }
}

impl<const N: u8> Ref for Tag<N> {
    fn gen(_: &mut Gen) -> Self {
        Tag
    }
    fn put(&self, w: &mut W) {
        w.u(N as u128, 1)
    }
    fn get(r: &mut R) -> Option<Self> {
        (r.u(1)? == N as u128).then_some(Tag)
    }
}

// ---------------------------------------------------------------- types using the derives

macro_rules! fields {
    ($name:ident $(<$p:ident>)? { $($f:ident),* }) => {
        impl $(<$p: Ref>)? Ref for $name $(<$p>)? {
            fn gen(g: &mut Gen) -> Self { $(let $f = Ref::gen(g);)* $name { $($f),* } }
            fn put(&self, w: &mut W) { $(self.$f.put(w);)* }
            fn get(r: &mut R) -> Option<Self> { $(let $f = Ref::get(r)?;)* Some($name { $($f),* }) }
        }
    };
}

#[derive(PartialEq, Eq, Clone, Debug, Tagged, Encode, Decode)]
enum ByDiscriminant {
    Only = 200,
}

impl Ref for ByDiscriminant {
    fn gen(_: &mut Gen) -> Self {
        ByDiscriminant::Only
    }
    fn put(&self, w: &mut W) {
        w.u(200, 1)
    }
    fn get(r: &mut R) -> Option<Self> {
        (r.u(1)? == 200).then_some(ByDiscriminant::Only)
    }
}

#[derive(PartialEq, Eq, Clone, Debug, Tagged, Encode, Decode)]
enum ByIndex {
    #[codec(index = 42)]
    Only(u16, String, #[codec(compact)] u64),
}

impl Ref for ByIndex {
    fn gen(g: &mut Gen) -> Self {
        ByIndex::Only(Ref::gen(g), Ref::gen(g), g.u64())
    }
    fn put(&self, w: &mut W) {
        let ByIndex::Only(a, b, c) = self;
        w.u(42, 1);
        a.put(w);
        b.put(w);
        w.compact(*c as u128);
    }
    fn get(r: &mut R) -> Option<Self> {
        (r.u(1)? == 42).then_some(())?;
        Some(ByIndex::Only(Ref::get(r)?, Ref::get(r)?, r.compact(64)? as u64))
    }
}

#[derive(PartialEq, Eq, Clone, Debug, Tagged, Encode, Decode)]
enum NamedZero {
    #[codec(index = 0)]
    Only { first: bool, second: Option<Vec<u16>> },
}

impl Ref for NamedZero {
    fn gen(g: &mut Gen) -> Self {
        NamedZero::Only { first: Ref::gen(g), second: Ref::gen(g) }
    }
    fn put(&self, w: &mut W) {
        let NamedZero::Only { first, second } = self;
        w.u(0, 1);
        first.put(w);
        second.put(w);
    }
    fn get(r: &mut R) -> Option<Self> {
        (r.u(1)? == 0).then_some(())?;
        Some(NamedZero::Only { first: Ref::get(r)?, second: Ref::get(r)? })
    }
}

#[derive(PartialEq, Eq, Clone, Debug, Tagged, Encode, Decode)]
struct Plain {
    ver: Tag<25>,
    data: u64,
    extra: Vec<u8>,
}
fields!(Plain { ver, data, extra });

#[derive(PartialEq, Eq, Clone, Debug, Tagged, Encode, Decode)]
struct Nested {
    inner: Plain2,
    more: Option<[u8; 32]>,
}
fields!(Nested { inner, more });

#[derive(PartialEq, Eq, Clone, Debug, Tagged, Encode, Decode)]
struct Plain2 {
    ver: Tag<255>,
    list: Vec<Option<u32>>,
}
fields!(Plain2 { ver, list });

#[derive(PartialEq, Eq, Clone, Debug, Tagged, Encode, Decode)]
struct Around<T> {
    nested: T,
    stuff: u128,
}
fields!(Around<T> { nested, stuff });

#[derive(PartialEq, Eq, Clone, Debug, Tagged, Encode, Decode)]
struct Numbered<const N: u8> {
    version: Tag<N>,
    int: u32,
}

impl<const N: u8> Ref for Numbered<N> {
    fn gen(g: &mut Gen) -> Self {
        Numbered { version: Tag, int: g.u32() }
    }
    fn put(&self, w: &mut W) {
        w.u(N as u128, 1);
        w.u(self.int as u128, 4)
    }
    fn get(r: &mut R) -> Option<Self> {
        (r.u(1)? == N as u128).then_some(())?;
        Some(Numbered { version: Tag, int: r.u(4)? as u32 })
    }
}

/// A tuple struct.
#[derive(PartialEq, Eq, Clone, Debug, Tagged, Encode, Decode)]
struct Positional(Tag<3>, Vec<String>, u8);

impl Ref for Positional {
    fn gen(g: &mut Gen) -> Self {
        Positional(Tag, Ref::gen(g), Ref::gen(g))
    }
    fn put(&self, w: &mut W) {
        w.u(3, 1);
        self.1.put(w);
        self.2.put(w)
    }
    fn get(r: &mut R) -> Option<Self> {
        (r.u(1)? == 3).then_some(())?;
        Some(Positional(Tag, Ref::get(r)?, Ref::get(r)?))
    }
}

#[derive(PartialEq, Eq, Clone, Debug, DirectEncode, DirectDecode)]
enum Wide {
    A(ByDiscriminant),
    B(ByIndex),
    C { tag: Tag<7>, three: [u8; 3] },
    D(NamedZero, u16, Vec<u8>),
    E(Around<Nested>),
    F(Box<Plain>),
    G((Tag<64>, u8, bool)),
    H { first: Around<Numbered<128>>, second: Compact<u32>, third: String },
    I(Positional),
    J(Tag<1>),
    K((Tag<2>, ())),
}

impl Ref for Wide {
    fn gen(g: &mut Gen) -> Self {
        match g.below(11) {
            0 => Wide::A(Ref::gen(g)),
            1 => Wide::B(Ref::gen(g)),
            2 => Wide::C { tag: Tag, three: Ref::gen(g) },
            3 => Wide::D(Ref::gen(g), Ref::gen(g), Ref::gen(g)),
            4 => Wide::E(Ref::gen(g)),
            5 => Wide::F(Ref::gen(g)),
            6 => Wide::G(Ref::gen(g)),
            7 => Wide::H { first: Ref::gen(g), second: Ref::gen(g), third: Ref::gen(g) },
            8 => Wide::I(Ref::gen(g)),
            9 => Wide::J(Tag),
            _ => Wide::K(Ref::gen(g)),
        }
    }
    fn put(&self, w: &mut W) {
        match self {
            Wide::A(a) => a.put(w),
            Wide::B(a) => a.put(w),
            Wide::C { tag, three } => {
                tag.put(w);
                three.put(w)
            }
            Wide::D(a, b, c) => {
                a.put(w);
                b.put(w);
                c.put(w)
            }
            Wide::E(a) => a.put(w),
            Wide::F(a) => a.put(w),
            Wide::G(a) => a.put(w),
            Wide::H { first, second, third } => {
                first.put(w);
                second.put(w);
                third.put(w)
            }
            Wide::I(a) => a.put(w),
            Wide::J(a) => a.put(w),
            Wide::K(a) => a.put(w),
        }
    }
    fn get(r: &mut R) -> Option<Self> {
        Some(match *r.0.get(r.1)? {
            200 => Wide::A(Ref::get(r)?),
            42 => Wide::B(Ref::get(r)?),
            7 => Wide::C { tag: Ref::get(r)?, three: Ref::get(r)? },
            0 => Wide::D(Ref::get(r)?, Ref::get(r)?, Ref::get(r)?),
            255 => Wide::E(Ref::get(r)?),
            25 => Wide::F(Ref::get(r)?),
            64 => Wide::G(Ref::get(r)?),
            128 => Wide::H { first: Ref::get(r)?, second: Ref::get(r)?, third: Ref::get(r)? },
            3 => Wide::I(Ref::get(r)?),
            1 => Wide::J(Ref::get(r)?),
            2 => Wide::K(Ref::get(r)?),
            _ => return None,
        })
    }
}

#[derive(PartialEq, Eq, Clone, Debug, DirectEncode, DirectDecode)]
enum Single {
    Only(Plain),
}

impl Ref for Single {
    fn gen(g: &mut Gen) -> Self {
        Single::Only(Ref::gen(g))
    }
    fn put(&self, w: &mut W) {
        let Single::Only(a) = self;
        a.put(w)
    }
    fn get(r: &mut R) -> Option<Self> {
        Some(Single::Only(Ref::get(r)?))
    }
}

#[derive(PartialEq, Eq, Clone, Debug, DirectEncode, DirectDecode)]
enum Generic<A, B> {
    First(A),
    Second { head: Tag<99>, tail: B },
}

impl<A: Ref + Tagged, B: Ref> Ref for Generic<A, B> {
    fn gen(g: &mut Gen) -> Self {
        if g.bool() {
            Generic::First(A::gen(g))
        } else {
            Generic::Second { head: Tag, tail: B::gen(g) }
        }
    }
    fn put(&self, w: &mut W) {
        match self {
            Generic::First(a) => a.put(w),
            Generic::Second { tail, .. } => {
                w.u(99, 1);
                tail.put(w)
            }
        }
    }
    fn get(r: &mut R) -> Option<Self> {
        if *r.0.get(r.1)? == 99 {
            r.u(1);
            Some(Generic::Second { head: Tag, tail: B::get(r)? })
        } else {
            Some(Generic::First(A::get(r)?))
        }
    }
}

// ---------------------------------------------------------------- sources of bytes

/// A source that does not know its length and gives its bytes one way only.
struct Blind<'a> {
    data: &'a [u8],
    pos: usize,
}

impl Input for Blind<'_> {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(None)
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        let part = self.data.get(self.pos..self.pos + into.len()).ok_or("out of bytes")?;
        into.copy_from_slice(part);
        self.pos += into.len();
        Ok(())
    }
}

fn check_value<T: Ref + Encode + Decode>(g: &mut Gen, x: &T) -> Res {
    let want = x.bytes();
    note!(g, "value {x:?} reference {}", hex::encode(&want));
    check_eq!(x.encode(), want, "encoding");
    check_eq!(x.encoded_size(), want.len(), "encoded size");
    let mut out = vec![0xee];
    x.encode_to(&mut out);
    check!(out[0] == 0xee && out[1..] == want[..], "encoding to a destination gave {}", hex::encode(&out));
    check!(x.using_encoded(|b| b == &want[..]), "using_encoded differs");
    let mut src = &want[..];
    check_eq!(T::decode(&mut src).as_ref(), Ok(x), "decoded");
    check!(src.is_empty(), "{} bytes left after decoding", src.len());
    check_eq!(T::decode_all(&mut &want[..]).as_ref(), Ok(x), "decoded with decode_all");
    // followed by other data, from a source that does not know its length
    let tail = g.bytes(0, 4);
    let long = [&want[..], &tail[..]].concat();
    let mut blind = Blind { data: &long, pos: 0 };
    check_eq!(T::decode(&mut blind).as_ref(), Ok(x), "decoded from a stream");
    check_eq!(blind.pos, want.len(), "bytes taken from a stream");
    check_eq!(T::decode_all(&mut &long[..]).is_ok(), tail.is_empty(), "decode_all with {} more bytes", tail.len());
    let mut src = &long[..];
    check!(T::skip(&mut src).is_ok(), "a valid encoding is not skipped");
    check_eq!(src, &tail[..], "left after skipping");
    // every shorter prefix is refused, or is itself the encoding of a value (never of this one)
    if !want.is_empty() {
        let cut = g.usize(want.len());
        check!(T::decode_all(&mut &want[..cut]).as_ref() != Ok(x), "a prefix decodes to the same value");
        check_eq!(T::decode(&mut &want[..cut]).is_ok(), T::get(&mut R(&want[..cut], 0)).is_some(), "a prefix of {cut} bytes");
    }
    if let Some(n) = T::encoded_fixed_size() {
        check_eq!(n, want.len(), "fixed size");
    }
    Ok(())
}

fn check_bytes<T: Ref + Encode + Decode>(g: &mut Gen, mut b: Vec<u8>) -> Res {
    for _ in 0..g.below(4) {
        match g.below(5) {
            0 if !b.is_empty() => {
                let i = g.usize(b.len());
                b[i] = g.u8();
            }
            1 if !b.is_empty() => {
                let i = g.usize(b.len());
                b.remove(i);
            }
            2 => {
                let i = g.usize(b.len() + 1);
                let v = g.u8();
                b.insert(i, v);
            }
            3 => b.truncate(g.usize(b.len() + 1)),
            _ => b.extend(g.bytes(0, 6)),
        }
    }
    let mut r = R(&b, 0);
    let want = T::get(&mut r);
    note!(g, "bytes {} reference {want:?}, {} bytes", hex::encode(&b), r.1);
    g.nontrivial_if(r.1 > 1);
    g.tag(if want.is_some() { "valid" } else { "refused" });
    let mut src = &b[..];
    let got = no_panic(|| T::decode(&mut src))?;
    check_eq!(got.as_ref().ok(), want.as_ref(), "decoded");
    if want.is_some() {
        check_eq!(b.len() - src.len(), r.1, "bytes taken");
    }
    let mut blind = Blind { data: &b, pos: 0 };
    let got = no_panic(|| T::decode(&mut blind))?;
    check_eq!(got.as_ref().ok(), want.as_ref(), "decoded from a stream");
    if want.is_some() {
        check_eq!(blind.pos, r.1, "bytes taken from a stream");
    }
    let got = no_panic(|| T::decode_all(&mut &b[..]))?;
    check_eq!(got.ok(), want.filter(|_| r.1 == b.len()), "decode_all");
    Ok(())
}

macro_rules! all {
    ($g:expr, $f:ident, [$($t:ty),* $(,)?]) => {{
        let n = [$(stringify!($t)),*].len() as u64;
        let k = $g.below(n);
        let mut i = 0;
        $( if i == k { return $f::<$t>($g); } i += 1; )*
        let _ = i;
        Ok(())
    }};
}

// ---------------------------------------------------------------- facets

fn tag_n<const N: u8>(g: &mut Gen) -> Res {
    check_eq!(<Tag<N> as Tagged>::TAG, N, "TAG");
    check_eq!(tag_of(&Tag::<N>), N, "tag_of");
    check_eq!(Tag::<N>.encode(), vec![N], "encoding");
    check_eq!((Tag::<N>.size_hint(), Tag::<N>.encoded_size(), Tag::<N>::encoded_fixed_size()), (1, 1, Some(1)), "sizes");
    for b in 0..=255u8 {
        let data = [b, 17];
        let mut src = &data[..];
        check_eq!(Tag::<N>::decode(&mut src).is_ok(), b == N, "decoding byte {b} as tag {N}");
        check_eq!(src, &data[1..], "left after tag byte {b}");
    }
    check!(Tag::<N>::decode(&mut &[][..]).is_err(), "a tag out of nothing");
    check!(Tag::<N>::skip(&mut &[][..]).is_err(), "a tag skipped out of nothing");
    let mut src = &[N, 5][..];
    check!(Tag::<N>::skip(&mut src).is_ok() && src == [5], "skipping");
    // the types built on it
    check_eq!(<Numbered<N>>::TAG, N, "struct");
    check_eq!(<&Tag<N>>::TAG, N, "reference");
    check_eq!(<&mut Numbered<N>>::TAG, N, "mutable reference");
    check_eq!(<Box<Tag<N>>>::TAG, N, "box");
    check_eq!(<Around<Box<Numbered<N>>>>::TAG, N, "generic struct");
    check_eq!(<(Tag<N>,)>::TAG, N, "1-tuple");
    check_eq!(<(Tag<N>, u8)>::TAG, N, "2-tuple");
    check_eq!(<(Tag<N>, Tag<5>, u8)>::TAG, N, "3-tuple");
    check_eq!(<(Tag<N>, u8, u8, String)>::TAG, N, "4-tuple");
    check_eq!(<(Tag<N>, u8, u8, u8, u8)>::TAG, N, "5-tuple");
    check_eq!(<(Tag<N>, u8, u8, u8, u8, u8)>::TAG, N, "6-tuple");
    check_eq!(<(Tag<N>, u8, u8, u8, u8, u8, u8)>::TAG, N, "7-tuple");
    check_eq!(<(Tag<N>, u8, u8, u8, u8, u8, u8, Tag<9>)>::TAG, N, "8-tuple");
    let int = g.u32();
    check_eq!(Numbered::<N> { version: Tag, int }.encode()[0], N, "first byte of a struct");
    Ok(())
}

fn tags(g: &mut Gen) -> Res {
    const F: [fn(&mut Gen) -> Res; 256] = tags_table!();
    let n = g.below(256) as usize;
    g.nontrivial();
    F[n](g)
}

fn direct_one<T: Ref + Encode + Decode>(g: &mut Gen) -> Res {
    let x = T::gen(g);
    g.nontrivial_if(x.bytes().len() > 2);
    check_value(g, &x)?;
    // where it stands inside other values
    let list = vec![x.clone(), x.clone()];
    check_value(g, &list)?;
    check_value(g, &(x.clone(), Some(x), 5u8))
}

fn direct(g: &mut Gen) -> Res {
    if g.chance(1, 8) {
        // the enum adds nothing to the payload
        let p = Plain::gen(g);
        check_eq!(Wide::F(Box::new(p.clone())).encode(), p.encode(), "payload");
        check_eq!(Single::Only(p.clone()).encode(), p.encode(), "payload");
        let (a, b, c) = (NamedZero::gen(g), g.u16(), g.bytes(0, 9));
        check_eq!(Wide::D(a.clone(), b, c.clone()).encode(), (a, b, c).encode(), "payload of three fields");
    }
    all!(g, direct_one, [Wide, Single, Generic<Plain, Vec<u16>>, Generic<Nested, Wide>, Generic<Around<ByIndex>, Generic<Tag<8>, u32>>])
}

fn bytes_one<T: Ref + Encode + Decode>(g: &mut Gen) -> Res {
    let b = if g.chance(1, 4) {
        let mut b = g.bytes(0, 24);
        if g.bool() {
            let first = *g.pick(&[200, 42, 7, 0, 255, 25, 64, 128, 3, 1, 2, 99, 8]);
            b.insert(0, first);
        }
        b
    } else {
        T::gen(g).bytes()
    };
    check_bytes::<T>(g, b)
}

fn direct_bytes(g: &mut Gen) -> Res {
    all!(g, bytes_one, [Wide, Single, Generic<Plain, Vec<u16>>, Generic<Nested, Wide>, Generic<Around<ByIndex>, Generic<Tag<8>, u32>>])
}

fn tagged_one<T: Ref + Encode + Decode + Tagged>(g: &mut Gen) -> Res {
    let x = T::gen(g);
    g.nontrivial_if(x.bytes().len() > 2);
    check_eq!(x.encode()[0], T::TAG, "first byte");
    check_eq!(tag_of(&x), T::TAG, "tag_of");
    check_eq!((&x).encode(), x.encode(), "encoding of a reference");
    check_value(g, &x)?;
    // another first byte is refused
    let mut b = x.bytes();
    b[0] = g.u8();
    check_eq!(T::decode(&mut &b[..]).is_ok(), b[0] == T::TAG, "first byte {}", b[0]);
    let b = x.bytes();
    check_bytes::<T>(g, b)
}

fn tagged(g: &mut Gen) -> Res {
    check_eq!(
        [ByDiscriminant::TAG, ByIndex::TAG, NamedZero::TAG, Plain::TAG, Nested::TAG, <Around<ByIndex>>::TAG, Positional::TAG],
        [200, 42, 0, 25, 255, 42, 3],
        "tags"
    );
    all!(g, tagged_one, [ByDiscriminant, ByIndex, NamedZero, Plain, Nested, Around<ByIndex>, Around<Nested>, Numbered<128>, Positional, Box<Plain>, (Tag<6>, Vec<u8>)])
}

fn plain_one<T: Ref + Encode + Decode>(g: &mut Gen) -> Res {
    let x = T::gen(g);
    g.nontrivial_if(x.bytes().len() > 1);
    check_value(g, &x)
}

macro_rules! plain_types {
    ($g:expr, $f:ident) => {
        all!(
            $g,
            $f,
            [
                u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, bool, (), String, Compact<u8>, Compact<u16>,
                Compact<u32>, Compact<u64>, Compact<u128>, Vec<u8>, Vec<u32>, Vec<String>, Vec<Vec<u16>>, Option<bool>,
                Option<u64>, Option<Option<u8>>, Result<u16, String>, [u8; 20], [u8; 32], Box<u32>, (u8, Vec<bool>),
                (Compact<u64>, String, Option<u16>), BTreeMap<u16, String>, BTreeMap<String, Vec<u8>>, BTreeSet<u32>,
                Vec<Compact<u128>>, Vec<(u8, Compact<u32>)>, Vec<i16>, Vec<u128>
            ]
        )
    };
}

fn plain(g: &mut Gen) -> Res {
    plain_types!(g, plain_one)
}

fn plain_bytes_one<T: Ref + Encode + Decode>(g: &mut Gen) -> Res {
    let b = if g.chance(1, 5) { g.bytes(0, 20) } else { T::gen(g).bytes() };
    check_bytes::<T>(g, b)
}

fn plain_bytes(g: &mut Gen) -> Res {
    plain_types!(g, plain_bytes_one)
}

/// The lookahead input gives the bytes of what is beneath it, each once and in order.
fn lookahead(g: &mut Gen) -> Res {
    let data = g.bytes(0, 24);
    let blind = g.bool();
    if blind {
        let mut src = Blind { data: &data, pos: 0 };
        lookahead_over(g, &data, &mut src, false)?;
    } else {
        let mut src = &data[..];
        lookahead_over(g, &data, &mut src, true)?;
    }
    Ok(())
}

fn lookahead_over<I: Input>(g: &mut Gen, data: &[u8], src: &mut I, sized: bool) -> Res {
    let mut p = Peekable::new(src);
    let mut pos = 0;
    let mut looked = false;
    let mut out = Ok(());
    let mut step = |g: &mut Gen, p: &mut Peekable<I>| -> Res {
        let left = data.len() - pos;
        match g.below(5) {
            0 | 1 => {
                let got = p.peek().ok();
                note!(g, "peek {got:?}");
                check_eq!(got, data.get(pos).copied(), "peek at {pos}");
                looked |= got.is_some();
            }
            2 => {
                let got = p.read_byte().ok();
                note!(g, "read_byte {got:?}");
                check_eq!(got, data.get(pos).copied(), "byte at {pos}");
                g.nontrivial_if(looked);
                looked = false;
                pos += got.is_some() as usize;
            }
            3 => {
                let want = if sized { Some(left) } else { None };
                check_eq!(p.remaining_len().ok(), Some(want), "remaining length at {pos}");
            }
            _ => {
                let n = g.usize((left + 1).min(9));
                let mut buf = vec![0; n];
                let got = p.read(&mut buf);
                note!(g, "read {n}: {buf:?}");
                check!(got.is_ok(), "reading {n} of {left} bytes fails");
                check_eq!(&buf[..], &data[pos..pos + n], "bytes read at {pos}");
                g.nontrivial_if(looked);
                g.tag_if(looked && n == 0, "nothing read after a look");
                if n > 0 {
                    looked = false;
                }
                pos += n;
            }
        }
        Ok(())
    };
    for _ in 0..g.range(1, 14) {
        out = step(g, &mut p);
        if out.is_err() {
            break;
        }
    }
    drop(step);
    // the looked-at byte has to be consumed before the lookahead is dropped
    let again = if out.is_ok() && pos < data.len() { p.read_byte().ok().map(Some) } else { None };
    if let (Ok(()), Some(b)) = (&out, again) {
        if b != Some(data[pos]) {
            out = Err(format!("last byte {b:?}"));
        }
        pos += 1;
    } else if out.is_err() {
        let _ = p.read_byte();
        std::mem::forget(p);
        return out;
    }
    check!(no_panic(|| p.assert_tag_consumed()).is_ok(), "nothing is pending, yet the assertion fails");
    drop(p);
    out?;
    // and what follows is still beneath it
    let mut rest = vec![];
    while let Ok(b) = src.read_byte() {
        rest.push(b);
    }
    check_eq!(&rest[..], &data[pos..], "left beneath");
    Ok(())
}

// ---------------------------------------------------------------- text

fn unhex(s: &str) -> Option<Vec<u8>> {
    let b = s.as_bytes();
    if b.len() % 2 != 0 {
        return None;
    }
    let digit = |c: u8| match c {
        b'0'..=b'9' => Some(c - b'0'),
        b'a'..=b'f' => Some(c - b'a' + 10),
        b'A'..=b'F' => Some(c - b'A' + 10),
        _ => None,
    };
    b.chunks(2).map(|p| Some(digit(p[0])? << 4 | digit(p[1])?)).collect()
}

fn hex_one<T: Ref + Encode + Decode>(g: &mut Gen) -> Res {
    let mut s: String = if g.chance(1, 6) {
        let n = g.range(0, 12);
        (0..n).map(|_| *g.pick(&['0', '1', '8', 'a', 'f', 'F', 'B', 'g', 'x', ' ', 'é'])).collect()
    } else {
        hex::encode(T::gen(g).bytes())
    };
    for _ in 0..g.below(3) {
        let mut c: Vec<char> = s.chars().collect();
        let i = g.usize(c.len() + 1);
        match g.below(6) {
            0 => c.insert(i, *g.pick(&['0', 'c', 'E', 'g', ' ', '\n', 'x', '-'])),
            1 if i < c.len() => {
                c.remove(i);
            }
            2 if i < c.len() => c[i] = c[i].to_ascii_uppercase(),
            3 if i < c.len() => c[i] = *g.pick(&['0', '4', 'a', 'F', 'G', '`', '@', '/', ':']),
            4 => c.splice(0..0, ['0', 'x']).for_each(drop),
            _ => {
                c.push('0');
                c.push('0');
            }
        }
        s = c.into_iter().collect();
    }
    let raw = unhex(&s);
    let want = raw.as_ref().and_then(|b| {
        let mut r = R(b, 0);
        T::get(&mut r).filter(|_| r.1 == b.len())
    });
    note!(g, "text {s:?} reference {want:?}");
    g.tag(match (&raw, &want) {
        (None, _) => "not hex",
        (_, None) => "not an encoding",
        _ => "valid",
    });
    g.nontrivial_if(s.len() > 2);
    let got = no_panic(|| T::hex_decode_all(&s))?;
    check_eq!(got.as_ref().ok(), want.as_ref(), "hex_decode_all");
    if let Err(e) = &got {
        check_eq!(matches!(e, HexError::HexDecodeError(_)), raw.is_none(), "which error: {e}");
    }
    check_eq!(s.parse::<HexEncoded<T>>().map(|h| h.take()).ok(), want, "parsed");
    let js = serde_json::to_string(&s).expect("a string");
    check_eq!(serde_json::from_str::<HexEncoded<T>>(&js).map(|h| h.take()).ok(), want, "deserialized");
    let mut de = serde_json::Deserializer::from_str(&js);
    check_eq!(hex_encoded_serialization::deserialize::<T, _>(&mut de).ok(), want, "deserialized by function");
    Ok(())
}

fn hex_text(g: &mut Gen) -> Res {
    all!(g, hex_one, [Vec<u8>, String, u32, Wide, Plain, Option<[u8; 4]>, Compact<u64>, ()])
}

fn hex_value_one<T: Ref + Encode + Decode>(g: &mut Gen) -> Res {
    let x = T::gen(g);
    let want: String = x.bytes().iter().map(|b| format!("{b:02x}")).collect();
    note!(g, "value {x:?} hex {want}");
    g.nontrivial_if(want.len() > 2);
    check_eq!(x.hex_encode(), want, "hex_encode");
    let h = HexEncoded::new(x.clone());
    check_eq!(HexEncoded::from(x.clone()), h, "from");
    check_eq!(h.as_ref(), &x, "as_ref");
    check_eq!(h.to_string(), want, "displayed");
    check_eq!(serde_json::to_value(&h).ok(), Some(serde_json::Value::String(want.clone())), "as JSON");
    let mut out = vec![];
    hex_encoded_serialization::serialize(&x, &mut serde_json::Serializer::new(&mut out)).map_err(|e| e.to_string())?;
    check_eq!(String::from_utf8(out).ok(), Some(format!("\"{want}\"")), "by function");
    check_eq!(T::hex_decode_all(&want).as_ref(), Ok(&x), "read back");
    check_eq!(T::hex_decode_all(want.to_uppercase()).as_ref(), Ok(&x), "capitals read");
    check_eq!(h.take(), x, "take");
    for other in ["5", "null", "[1]", "{\"a\":1}", "true"] {
        check!(serde_json::from_str::<HexEncoded<T>>(other).is_err(), "{other} read as a hex text");
    }
    Ok(())
}

fn hex_values(g: &mut Gen) -> Res {
    all!(g, hex_value_one, [Vec<u8>, String, u32, Wide, Plain, Option<[u8; 4]>, Compact<u64>, (), (Vec<u16>, bool)])
}

#[derive(serde::Serialize, serde::Deserialize, Debug, Clone, PartialEq)]
struct Shape {
    name: String,
    list: Vec<i64>,
    maybe: Option<Box<Shape>>,
    kind: Kind,
}

#[derive(serde::Serialize, serde::Deserialize, Debug, Clone, PartialEq)]
enum Kind {
    Nothing,
    One(u8),
    Named { x: bool },
}

fn shape(g: &mut Gen, depth: u32) -> Shape {
    Shape {
        name: g.text(12),
        list: g.vec(0, 4, |g| g.u64() as i64),
        maybe: (depth > 0 && g.bool()).then(|| Box::new(shape(g, depth - 1))),
        kind: match g.below(3) {
            0 => Kind::Nothing,
            1 => Kind::One(g.u8()),
            _ => Kind::Named { x: g.bool() },
        },
    }
}

/// The JSON form of the value, put together by hand.
fn shape_json(s: &Shape) -> serde_json::Value {
    use serde_json::{json, Value};
    json!({
        "name": Value::String(s.name.clone()),
        "list": Value::Array(s.list.iter().map(|x| Value::from(*x)).collect()),
        "maybe": s.maybe.as_ref().map_or(Value::Null, |m| shape_json(m)),
        "kind": match &s.kind {
            Kind::Nothing => json!("Nothing"),
            Kind::One(x) => json!({"One": x}),
            Kind::Named { x } => json!({"Named": {"x": x}}),
        },
    })
}

/// Cannot be serialized: its keys are no strings.
#[derive(Debug, Clone)]
struct Bad;

impl serde::Serialize for Bad {
    fn serialize<S: serde::Serializer>(&self, _: S) -> Result<S::Ok, S::Error> {
        Err(serde::ser::Error::custom("no"))
    }
}

fn json(g: &mut Gen) -> Res {
    let x = shape(g, 2);
    let want = shape_json(&x);
    g.nontrivial_if(x.maybe.is_some() || !x.list.is_empty() || !x.name.is_empty());
    note!(g, "{want}");
    let j = JsonEncoded::new(x.clone());
    check_eq!(j.as_ref(), &x, "as_ref");
    let text = j.to_string();
    check_eq!(serde_json::from_str::<serde_json::Value>(&text).ok().as_ref(), Some(&want), "displayed");
    check_eq!(serde_json::to_value(&j).ok().as_ref(), Some(&want), "serialized");
    check_eq!(text.parse::<JsonEncoded<Shape>>().map(|j| j.take()).ok().as_ref(), Some(&x), "parsed");
    check_eq!(serde_json::from_str::<JsonEncoded<Shape>>(&text).map(|j| j.take()).ok().as_ref(), Some(&x), "deserialized");
    check_eq!(JsonEncoded::<Shape>::from_string_slice(&text).map(|j| j.take()).ok().as_ref(), Some(&x), "from a slice");
    // the text with spaces between its parts reads the same
    let pretty = serde_json::to_string_pretty(&want).expect("a value");
    check_eq!(pretty.parse::<JsonEncoded<Shape>>().map(|j| j.take()).ok().as_ref(), Some(&x), "spaced text parsed");
    // corrupted text is refused, or reads as what serde_json says it is
    let mut c: Vec<char> = text.chars().collect();
    for _ in 0..g.range(1, 2) {
        let i = g.usize(c.len());
        match g.below(3) {
            0 => {
                c.remove(i);
            }
            1 => c.insert(i, *g.pick(&['"', '{', ',', '1', ' ', 'x'])),
            _ => c.truncate(i.max(1)),
        }
    }
    let s: String = c.into_iter().collect();
    let want = serde_json::from_str::<Shape>(&s).ok();
    g.tag(if want.is_some() { "corrupted, valid" } else { "corrupted, refused" });
    check_eq!(s.parse::<JsonEncoded<Shape>>().map(|j| j.take()).ok(), want, "corrupted text parsed");
    check_eq!(JsonEncoded::<Shape>::from_string_slice(&s).map(|j| j.take()).ok(), want, "corrupted text from a slice");
    // borrowed text
    let name = serde_json::Value::String(g.string(&['a', 'b', ' ', 'z'], 0, 9)).to_string();
    check_eq!(JsonEncoded::<&str>::from_string_slice(&name).map(|j| j.take()).ok(), Some(&name[1..name.len() - 1]), "borrowed");
    check!(no_panic(|| JsonEncoded::new(Bad).to_string())?.contains("error"), "a value that cannot be serialized");
    Ok(())
}

fn encoded_one<T: Ref + Encode + Decode>(g: &mut Gen) -> Res
where
    T: serialization::EncodeLike<T>,
{
    let x = T::gen(g);
    let want = x.bytes();
    g.nontrivial_if(want.len() > 1);
    let e: Encoded<Vec<u8>, T> = Encoded::new(x.clone());
    check_eq!(e.bytes(), &want[..], "bytes");
    check_eq!(e.as_ref(), &want[..], "as_ref");
    check_eq!(e.decode(), x, "decoded");
    check_eq!(e.clone(), e, "clone");
    let f: Encoded<&[u8], T> = Encoded::from_bytes_unchecked(&want[..]);
    check_eq!(f.bytes(), e.bytes(), "borrowed bytes");
    check_eq!(f.decode(), x, "decoded from borrowed bytes");
    check_eq!(f.take_bytes(), &want[..], "borrowed bytes taken");
    let y = T::gen(g);
    let o: Encoded<Vec<u8>, T> = Encoded::from_bytes_unchecked(y.bytes());
    check_eq!(o == e, y.bytes() == want, "equality");
    check_eq!(e.take_bytes(), want, "bytes taken");
    Ok(())
}

fn encoded(g: &mut Gen) -> Res {
    all!(g, encoded_one, [u32, String, Vec<u8>, Vec<Option<u16>>, (u8, String), Compact<u64>, Box<Vec<u8>>])
}

fn data_or_none(g: &mut Gen) -> Res {
    let v: Option<Vec<u16>> = g.bool().then(|| many(g));
    let inner = v.clone().filter(|v| !v.is_empty());
    g.nontrivial_if(inner.is_some());
    g.tag_if(v == Some(vec![]), "empty");
    let d = DataOrNoVec::from(v.clone());
    check_eq!(d.as_opt_slice(), inner.as_deref(), "slice");
    check_eq!(AsRef::<Option<Vec<u16>>>::as_ref(&d), &inner, "as_ref");
    check_eq!(Option::<Vec<u16>>::from(d.clone()), inner, "back to an option");
    let want = inner.clone().unwrap_or_default().bytes();
    check_eq!(d.encode(), want, "encoding");
    check_eq!(d.encoded_size(), want.len(), "encoded size");
    check_eq!(d.using_encoded(|b| b.to_vec()), want, "using_encoded");
    check_eq!(DataOrNoVec::<u16>::decode_all(&mut &want[..]).as_ref(), Ok(&d), "decoded");
    check_eq!(Vec::<u16>::decode_all(&mut &want[..]).ok(), Some(inner.clone().unwrap_or_default()), "decoded as a list");
    let mut b = want.clone();
    if !b.is_empty() && g.bool() {
        let i = g.usize(b.len());
        b[i] = g.u8();
    }
    if g.bool() {
        b.truncate(g.usize(b.len() + 1));
    }
    let mut r = R(&b, 0);
    let back = Vec::<u16>::get(&mut r);
    let got = DataOrNoVec::<u16>::decode(&mut &b[..]).ok().map(Option::<Vec<u16>>::from);
    check_eq!(got, back.map(|v| Some(v).filter(|v| !v.is_empty())), "corrupted {}", hex::encode(&b));
    // a JSON value of it is that of the option
    check_eq!(serde_json::to_value(&d).ok(), serde_json::to_value(&inner).ok(), "as JSON");
    let back: Option<DataOrNoVec<u16>> = serde_json::to_value(&d).ok().and_then(|j| serde_json::from_value(j).ok());
    check_eq!(back.as_ref(), Some(&d), "back from JSON");
    // strings as items
    let s: Vec<String> = many(g);
    let d = DataOrNoVec::from(Some(s.clone()));
    check_eq!(d.encode(), s.bytes(), "encoding of strings");
    check_eq!(DataOrNoVec::<String>::decode_all(&mut &s.bytes()[..]).ok(), Some(d), "strings decoded");
    Ok(())
}
