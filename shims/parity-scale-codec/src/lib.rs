//! Stand-in for `parity-scale-codec`: the SCALE encoding for the API subset mintlayer-core uses.
//! See /verif/DESIGN.md ("Shims"). It is test scaffolding, not code under test.

use std::borrow::{Cow, ToOwned};
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque};
use std::marker::PhantomData;
use std::ops::Deref;
use std::rc::Rc;
use std::sync::Arc;
use std::time::Duration;

pub use parity_scale_codec_derive::{Decode, Encode};

// ---------------------------------------------------------------- errors

#[derive(PartialEq, Eq, Clone)]
pub struct Error {
    cause: Option<Box<Error>>,
    desc: Cow<'static, str>,
}

impl Error {
    pub fn chain(self, desc: impl Into<Cow<'static, str>>) -> Self {
        Self {
            desc: desc.into(),
            cause: Some(Box::new(self)),
        }
    }
    fn format_desc(&self, f: &mut std::fmt::Formatter, indent: usize) -> std::fmt::Result {
        for _ in 0..indent {
            f.write_str("\t")?;
        }
        f.write_str(&self.desc)?;
        if let Some(c) = &self.cause {
            f.write_str(":\n")?;
            c.format_desc(f, indent + 1)
        } else {
            if indent != 0 {
                f.write_str("\n")?;
            }
            Ok(())
        }
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.format_desc(f, 0)
    }
}
impl std::fmt::Debug for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.format_desc(f, 0)
    }
}
impl std::error::Error for Error {
    fn source(&self) -> Option<&(dyn std::error::Error + 'static)> {
        self.cause.as_ref().map(|e| e as _)
    }
}
impl From<&'static str> for Error {
    fn from(desc: &'static str) -> Self {
        Self {
            cause: None,
            desc: Cow::Borrowed(desc),
        }
    }
}

// ---------------------------------------------------------------- streams

pub trait Input {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
    fn read_byte(&mut self) -> Result<u8, Error> {
        let mut buf = [0u8];
        self.read(&mut buf[..])?;
        Ok(buf[0])
    }
    fn descend_ref(&mut self) -> Result<(), Error> {
        Ok(())
    }
    fn ascend_ref(&mut self) {}
    fn on_before_alloc_mem(&mut self, _size: usize) -> Result<(), Error> {
        Ok(())
    }
}

impl Input for &[u8] {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(Some(self.len()))
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        if into.len() > self.len() {
            return Err("Not enough data to fill buffer".into());
        }
        let (a, b) = self.split_at(into.len());
        into.copy_from_slice(a);
        *self = b;
        Ok(())
    }
}

pub struct IoReader<R: std::io::Read>(pub R);
impl<R: std::io::Read> Input for IoReader<R> {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(None)
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        self.0.read_exact(into).map_err(|_| Error::from("io error"))
    }
}

pub trait Output {
    fn write(&mut self, bytes: &[u8]);
    fn push_byte(&mut self, byte: u8) {
        self.write(&[byte]);
    }
}
impl<W: std::io::Write> Output for W {
    fn write(&mut self, bytes: &[u8]) {
        (self as &mut dyn std::io::Write)
            .write_all(bytes)
            .expect("Codec outputs are infallible");
    }
}

struct SizeTracker {
    written: usize,
}
impl std::io::Write for SizeTracker {
    fn write(&mut self, b: &[u8]) -> std::io::Result<usize> {
        self.written += b.len();
        Ok(b.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

// ---------------------------------------------------------------- core traits

#[doc(hidden)]
#[derive(PartialEq, Eq, Clone, Copy)]
pub enum TypeInfo {
    Unknown,
    U8,
}

pub trait Encode {
    #[doc(hidden)]
    const TYPE_INFO: TypeInfo = TypeInfo::Unknown;

    fn size_hint(&self) -> usize {
        0
    }
    fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) {
        self.using_encoded(|b| dest.write(b));
    }
    fn encode(&self) -> Vec<u8> {
        let mut r = Vec::with_capacity(self.size_hint());
        self.encode_to(&mut r);
        r
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        f(&self.encode())
    }
    fn encoded_size(&self) -> usize {
        let mut t = SizeTracker { written: 0 };
        self.encode_to(&mut t);
        t.written
    }
}

pub trait Decode: Sized {
    #[doc(hidden)]
    const TYPE_INFO: TypeInfo = TypeInfo::Unknown;

    fn decode<I: Input>(input: &mut I) -> Result<Self, Error>;
    fn skip<I: Input>(input: &mut I) -> Result<(), Error> {
        Self::decode(input).map(|_| ())
    }
    fn encoded_fixed_size() -> Option<usize> {
        None
    }
}

pub trait Codec: Encode + Decode {}
impl<S: Encode + Decode> Codec for S {}

pub trait DecodeAll: Sized {
    fn decode_all(input: &mut &[u8]) -> Result<Self, Error>;
}
impl<T: Decode> DecodeAll for T {
    fn decode_all(input: &mut &[u8]) -> Result<Self, Error> {
        let res = T::decode(input)?;
        if input.is_empty() {
            Ok(res)
        } else {
            Err("Input buffer has still data left after decoding!".into())
        }
    }
}

pub trait EncodeLike<T: Encode = Self>: Sized + Encode {}

pub trait WrapperTypeEncode: Deref {}
impl<T: ?Sized> WrapperTypeEncode for Box<T> {}
impl<T: ?Sized + Encode> EncodeLike for Box<T> {}
impl<T: Encode> EncodeLike<T> for Box<T> {}
impl<T: Encode> EncodeLike<Box<T>> for T {}
impl<T: ?Sized> WrapperTypeEncode for &T {}
impl<T: ?Sized + Encode> EncodeLike for &T {}
impl<T: Encode> EncodeLike<T> for &T {}
impl<T: Encode> EncodeLike<&T> for T {}
impl<T: Encode> EncodeLike<T> for &&T {}
impl<T: Encode> EncodeLike<&&T> for T {}
impl<T: ?Sized> WrapperTypeEncode for &mut T {}
impl<T: ?Sized + Encode> EncodeLike for &mut T {}
impl<T: Encode> EncodeLike<T> for &mut T {}
impl<T: Encode> EncodeLike<&mut T> for T {}
impl<T: ToOwned + ?Sized> WrapperTypeEncode for Cow<'_, T> {}
impl<'a, T: ToOwned + Encode + ?Sized> EncodeLike for Cow<'a, T> {}
impl<'a, T: ToOwned + Encode> EncodeLike<T> for Cow<'a, T> {}
impl<'a, T: ToOwned + Encode> EncodeLike<Cow<'a, T>> for T {}
impl<T: ?Sized> WrapperTypeEncode for Rc<T> {}
impl<T: ?Sized + Encode> EncodeLike for Rc<T> {}
impl<T: Encode> EncodeLike<T> for Rc<T> {}
impl<T: Encode> EncodeLike<Rc<T>> for T {}
impl<T: ?Sized> WrapperTypeEncode for Arc<T> {}
impl<T: ?Sized + Encode> EncodeLike for Arc<T> {}
impl<T: Encode> EncodeLike<T> for Arc<T> {}
impl<T: Encode> EncodeLike<Arc<T>> for T {}
impl<T> WrapperTypeEncode for Vec<T> {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for Vec<T> {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<&[U]> for Vec<T> {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for &[T] {}
impl WrapperTypeEncode for String {}
impl EncodeLike for String {}
impl EncodeLike<&str> for String {}
impl EncodeLike<String> for &str {}

impl<T, X> Encode for X
where
    T: Encode + ?Sized,
    X: WrapperTypeEncode<Target = T>,
{
    fn size_hint(&self) -> usize {
        (**self).size_hint()
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        (**self).using_encoded(f)
    }
    fn encode(&self) -> Vec<u8> {
        (**self).encode()
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        (**self).encode_to(dest)
    }
}

pub trait WrapperTypeDecode: Sized {
    type Wrapped: Into<Self>;
    #[doc(hidden)]
    fn decode_wrapped<I: Input>(input: &mut I) -> Result<Self, Error>
    where
        Self::Wrapped: Decode,
    {
        input.descend_ref()?;
        let r = Ok(Self::Wrapped::decode(input)?.into());
        input.ascend_ref();
        r
    }
}
impl<T> WrapperTypeDecode for Box<T> {
    type Wrapped = T;
}
impl<T> WrapperTypeDecode for Rc<T> {
    type Wrapped = T;
}
impl<T> WrapperTypeDecode for Arc<T> {
    type Wrapped = T;
}
impl<T, X> Decode for X
where
    T: Decode + Into<X>,
    X: WrapperTypeDecode<Wrapped = T>,
{
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Self::decode_wrapped(input)
    }
}

// ---------------------------------------------------------------- primitives

macro_rules! ints {
    ($($t:ty),*) => {$(
        impl EncodeLike for $t {}
        impl Encode for $t {
            fn size_hint(&self) -> usize { std::mem::size_of::<$t>() }
            fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { f(&self.to_le_bytes()[..]) }
        }
        impl Decode for $t {
            fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
                let mut b = [0u8; std::mem::size_of::<$t>()];
                input.read(&mut b)?;
                Ok(<$t>::from_le_bytes(b))
            }
            fn encoded_fixed_size() -> Option<usize> { Some(std::mem::size_of::<$t>()) }
        }
    )*};
}
ints!(i8, u16, i16, u32, i32, u64, i64, u128, i128, f32, f64);

impl EncodeLike for u8 {}
impl Encode for u8 {
    const TYPE_INFO: TypeInfo = TypeInfo::U8;
    fn size_hint(&self) -> usize {
        1
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        f(&[*self])
    }
}
impl Decode for u8 {
    const TYPE_INFO: TypeInfo = TypeInfo::U8;
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        input.read_byte()
    }
    fn encoded_fixed_size() -> Option<usize> {
        Some(1)
    }
}

impl EncodeLike for bool {}
impl Encode for bool {
    fn size_hint(&self) -> usize {
        1
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        f(&[*self as u8])
    }
}
impl Decode for bool {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        match input.read_byte()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err("Invalid boolean representation".into()),
        }
    }
    fn encoded_fixed_size() -> Option<usize> {
        Some(1)
    }
}

macro_rules! nonzero {
    ($($t:ident),*) => {$(
        impl EncodeLike for std::num::$t {}
        impl Encode for std::num::$t {
            fn size_hint(&self) -> usize { self.get().size_hint() }
            fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R { self.get().using_encoded(f) }
        }
        impl Decode for std::num::$t {
            fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
                Self::new(Decode::decode(input)?).ok_or_else(|| Error::from("cannot create non-zero number from 0"))
            }
        }
    )*};
}
nonzero!(
    NonZeroU8, NonZeroI8, NonZeroU16, NonZeroI16, NonZeroU32, NonZeroI32, NonZeroU64, NonZeroI64,
    NonZeroU128, NonZeroI128
);

impl<T> EncodeLike for PhantomData<T> {}
impl<T> Encode for PhantomData<T> {
    fn encode_to<W: Output + ?Sized>(&self, _: &mut W) {}
}
impl<T> Decode for PhantomData<T> {
    fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
        Ok(PhantomData)
    }
}

impl EncodeLike for Duration {}
impl Encode for Duration {
    fn size_hint(&self) -> usize {
        12
    }
    fn encode(&self) -> Vec<u8> {
        (self.as_secs(), self.subsec_nanos()).encode()
    }
}
impl Decode for Duration {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let (secs, nanos) = <(u64, u32)>::decode(input)?;
        if nanos >= 1_000_000_000 {
            return Err("Could not decode Duration: Number of nanoseconds should not be higher than 10^9.".into());
        }
        Ok(Duration::new(secs, nanos))
    }
}

impl<T: EncodeLike<U>, U: Encode> EncodeLike<Option<U>> for Option<T> {}
impl<T: Encode> Encode for Option<T> {
    fn size_hint(&self) -> usize {
        1 + self.as_ref().map_or(0, |x| x.size_hint())
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        match self {
            Some(t) => {
                dest.push_byte(1);
                t.encode_to(dest)
            }
            None => dest.push_byte(0),
        }
    }
}
impl<T: Decode> Decode for Option<T> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        match input
            .read_byte()
            .map_err(|e| e.chain("Could not decode variant byte for `Option`"))?
        {
            0 => Ok(None),
            1 => Ok(Some(
                T::decode(input).map_err(|e| e.chain("Could not decode `Option::Some(T)`"))?,
            )),
            _ => Err("unexpected first byte decoding Option".into()),
        }
    }
}

impl<T: EncodeLike<LikeT>, LikeT: Encode, E: EncodeLike<LikeE>, LikeE: Encode>
    EncodeLike<Result<LikeT, LikeE>> for Result<T, E>
{
}
impl<T: Encode, E: Encode> Encode for Result<T, E> {
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        match self {
            Ok(t) => {
                dest.push_byte(0);
                t.encode_to(dest)
            }
            Err(e) => {
                dest.push_byte(1);
                e.encode_to(dest)
            }
        }
    }
}
impl<T: Decode, E: Decode> Decode for Result<T, E> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        match input.read_byte()? {
            0 => Ok(Ok(T::decode(input)?)),
            1 => Ok(Err(E::decode(input)?)),
            _ => Err("unexpected first byte decoding Result".into()),
        }
    }
}

// ---------------------------------------------------------------- sequences

fn slice_to<T: Encode, W: Output + ?Sized>(s: &[T], dest: &mut W) {
    if T::TYPE_INFO == TypeInfo::U8 {
        // SAFETY: only `u8` has this type info.
        let b = unsafe { std::slice::from_raw_parts(s.as_ptr() as *const u8, s.len()) };
        dest.write(b);
    } else {
        for x in s {
            x.encode_to(dest);
        }
    }
}

fn len_to<W: Output + ?Sized>(n: usize, dest: &mut W) {
    let n = u32::try_from(n).expect("Attempted to serialize a collection with too many elements.");
    Compact(n).encode_to(dest);
}

impl<T: Encode> Encode for [T] {
    fn size_hint(&self) -> usize {
        5 + self.first().map_or(0, |x| x.size_hint() * self.len())
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        len_to(self.len(), dest);
        slice_to(self, dest);
    }
}
impl Encode for str {
    fn size_hint(&self) -> usize {
        5 + self.len()
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        self.as_bytes().encode_to(dest)
    }
    fn encode(&self) -> Vec<u8> {
        self.as_bytes().encode()
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        self.as_bytes().using_encoded(f)
    }
}

const MAX_PREALLOCATION: usize = 4 * 1024 * 1024;

fn decode_items<T: Decode, I: Input>(input: &mut I, len: usize) -> Result<Vec<T>, Error> {
    if T::TYPE_INFO == TypeInfo::U8 {
        if let Some(rem) = input.remaining_len()? {
            if rem < len {
                return Err("Not enough data to decode vector".into());
            }
        }
        let mut out: Vec<u8> = Vec::new();
        let mut left = len;
        while left > 0 {
            let n = left.min(MAX_PREALLOCATION);
            input.on_before_alloc_mem(n)?;
            let at = out.len();
            out.resize(at + n, 0);
            input.read(&mut out[at..])?;
            left -= n;
        }
        let mut out = std::mem::ManuallyDrop::new(out);
        // SAFETY: only `u8` has this type info.
        return Ok(unsafe {
            Vec::from_raw_parts(out.as_mut_ptr() as *mut T, out.len(), out.capacity())
        });
    }
    let size = std::mem::size_of::<T>().max(1);
    let mut out = Vec::new();
    let chunk = (MAX_PREALLOCATION / size).max(1).min(1024);
    let mut left = len;
    while left > 0 {
        let n = left.min(chunk);
        input.on_before_alloc_mem(n * size)?;
        out.reserve_exact(n);
        for _ in 0..n {
            out.push(T::decode(input)?);
        }
        left -= n;
    }
    Ok(out)
}

impl<T: Decode> Decode for Vec<T> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let Compact(len) = Compact::<u32>::decode(input)?;
        decode_items(input, len as usize)
    }
}
impl Decode for String {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Self::from_utf8(Vec::decode(input)?).map_err(|_| "Invalid utf8 sequence".into())
    }
}
impl<T: ToOwned + ?Sized> Decode for Cow<'_, T>
where
    <T as ToOwned>::Owned: Decode,
{
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Ok(Cow::Owned(Decode::decode(input)?))
    }
}

impl<T: EncodeLike<U>, U: Encode, const N: usize> EncodeLike<[U; N]> for [T; N] {}
impl<T: Encode, const N: usize> Encode for [T; N] {
    fn size_hint(&self) -> usize {
        self.iter().map(|x| x.size_hint()).sum()
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        slice_to(&self[..], dest);
    }
}
impl<T: Decode, const N: usize> Decode for [T; N] {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        let v: Vec<T> = decode_items(input, N)?;
        Ok(v.try_into().ok().expect("length is N"))
    }
}

impl<T: Encode> EncodeLike for VecDeque<T> {}
impl<T: Encode> Encode for VecDeque<T> {
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        len_to(self.len(), dest);
        let (a, b) = self.as_slices();
        slice_to(a, dest);
        slice_to(b, dest);
    }
}
impl<T: Decode> Decode for VecDeque<T> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Ok(<Vec<T>>::decode(input)?.into())
    }
}

macro_rules! collections {
    ($($t:ident { $($g:ident : $bound:path),* } ($item:ty)),*) => {$(
        impl<$($g: Encode + $bound),*> EncodeLike for $t<$($g),*> {}
        impl<$($g: Encode + $bound),*> Encode for $t<$($g),*> {
            fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
                len_to(self.len(), dest);
                for x in self.iter() { x.encode_to(dest); }
            }
        }
        impl<$($g: Decode + $bound),*> Decode for $t<$($g),*> {
            fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
                let Compact(len) = Compact::<u32>::decode(input)?;
                input.descend_ref()?;
                let r = (0..len).map(|_| <$item>::decode(input)).collect::<Result<Self, Error>>();
                input.ascend_ref();
                r
            }
        }
    )*};
}
collections!(
    BTreeMap { K: Ord, V: Sized } ((K, V)),
    BTreeSet { T: Ord } (T),
    LinkedList { T: Sized } (T),
    BinaryHeap { T: Ord } (T)
);

// ---------------------------------------------------------------- tuples

impl EncodeLike for () {}
impl Encode for () {
    fn encode_to<W: Output + ?Sized>(&self, _: &mut W) {}
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        f(&[])
    }
    fn encode(&self) -> Vec<u8> {
        Vec::new()
    }
}
impl Decode for () {
    fn decode<I: Input>(_: &mut I) -> Result<Self, Error> {
        Ok(())
    }
}

macro_rules! tuples {
    ($(($($t:ident $u:ident $n:tt),+))*) => {$(
        impl<$($t: EncodeLike<$u>, $u: Encode),+> EncodeLike<($($u,)+)> for ($($t,)+) {}
        impl<$($t: Encode),+> Encode for ($($t,)+) {
            fn size_hint(&self) -> usize { 0 $(+ self.$n.size_hint())+ }
            fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { $(self.$n.encode_to(dest);)+ }
        }
        impl<$($t: Decode),+> Decode for ($($t,)+) {
            fn decode<I: Input>(input: &mut I) -> Result<Self, Error> { Ok(($($t::decode(input)?,)+)) }
        }
    )*};
}
tuples! {
    (A A1 0)
    (A A1 0, B B1 1)
    (A A1 0, B B1 1, C C1 2)
    (A A1 0, B B1 1, C C1 2, D D1 3)
    (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4)
    (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5)
    (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6)
    (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7)
    (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, J J1 8)
    (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, J J1 8, K K1 9)
    (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, J J1 8, K K1 9, L L1 10)
    (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, J J1 8, K K1 9, L L1 10, M M1 11)
    (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, J J1 8, K K1 9, L L1 10, M M1 11, N N1 12)
    (A A1 0, B B1 1, C C1 2, D D1 3, E E1 4, F F1 5, G G1 6, H H1 7, J J1 8, K K1 9, L L1 10, M M1 11, N N1 12, O O1 13)
}

impl<T: Encode> Encode for std::ops::Range<T> {
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        self.start.encode_to(dest);
        self.end.encode_to(dest);
    }
}
impl<T: Decode> Decode for std::ops::Range<T> {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Ok(T::decode(input)?..T::decode(input)?)
    }
}

// ---------------------------------------------------------------- compact

#[derive(Eq, PartialEq, Clone, Copy, Ord, PartialOrd, Default)]
pub struct Compact<T>(pub T);
#[derive(Eq, PartialEq, Clone, Copy)]
pub struct CompactRef<'a, T>(pub &'a T);

impl<T> From<T> for Compact<T> {
    fn from(x: T) -> Self {
        Compact(x)
    }
}
impl<'a, T> From<&'a T> for CompactRef<'a, T> {
    fn from(x: &'a T) -> Self {
        CompactRef(x)
    }
}
impl<T: std::fmt::Debug> std::fmt::Debug for Compact<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}
impl<T: std::fmt::Display> std::fmt::Display for Compact<T> {
    fn fmt(&self, f: &mut std::fmt::Formatter) -> std::fmt::Result {
        self.0.fmt(f)
    }
}

pub trait EncodeAsRef<'a, T: 'a> {
    type RefType: Encode + From<&'a T>;
}
impl<'a, T: 'a> EncodeAsRef<'a, T> for Compact<T>
where
    CompactRef<'a, T>: Encode + From<&'a T>,
{
    type RefType = CompactRef<'a, T>;
}

pub trait HasCompact: Sized {
    type Type: for<'a> EncodeAsRef<'a, Self> + Decode + From<Self> + Into<Self>;
}
impl<T: 'static> HasCompact for T
where
    Compact<T>: for<'a> EncodeAsRef<'a, T> + Decode + From<Self> + Into<Self>,
{
    type Type = Compact<T>;
}

pub trait CompactLen<T> {
    fn compact_len(val: &T) -> usize;
}

fn compact_write<W: Output + ?Sized>(v: u128, dest: &mut W) {
    match v {
        0..=0x3f => dest.push_byte((v as u8) << 2),
        0x40..=0x3fff => dest.write(&(((v as u16) << 2) | 1).to_le_bytes()),
        0x4000..=0x3fff_ffff => dest.write(&(((v as u32) << 2) | 2).to_le_bytes()),
        _ => {
            let n = compact_bytes(v);
            dest.push_byte(3 + ((n - 4) << 2) as u8);
            dest.write(&v.to_le_bytes()[..n]);
        }
    }
}
fn compact_bytes(v: u128) -> usize {
    ((16 - v.leading_zeros() as usize / 8) as usize).max(4)
}
fn compact_size(v: u128) -> usize {
    match v {
        0..=0x3f => 1,
        0x40..=0x3fff => 2,
        0x4000..=0x3fff_ffff => 4,
        _ => compact_bytes(v) + 1,
    }
}

const U_OOR: &str = "out of range decoding Compact";

fn compact_read<I: Input>(input: &mut I, max_bytes: usize) -> Result<u128, Error> {
    let p = input.read_byte()?;
    let max: u128 = if max_bytes == 16 {
        u128::MAX
    } else {
        (1u128 << (8 * max_bytes)) - 1
    };
    let v = match p % 4 {
        0 => (p >> 2) as u128,
        1 => {
            let x = u16::from_le_bytes([p, input.read_byte()?]) >> 2;
            if x <= 0x3f || x as u128 > max {
                return Err(U_OOR.into());
            }
            x as u128
        }
        2 => {
            if max_bytes == 1 {
                return Err(U_OOR.into());
            }
            let mut b = [p, 0, 0, 0];
            input.read(&mut b[1..])?;
            let x = u32::from_le_bytes(b) >> 2;
            if x <= 0x3fff || x as u128 > max {
                return Err(U_OOR.into());
            }
            x as u128
        }
        _ => {
            let n = (p >> 2) as usize + 4;
            if max_bytes < 4 || n > max_bytes {
                return Err(U_OOR.into());
            }
            let mut b = [0u8; 16];
            input.read(&mut b[..n])?;
            let x = u128::from_le_bytes(b);
            let canonical = if n == 4 {
                x > 0x3fff_ffff
            } else {
                x >= 1u128 << (8 * (n - 1))
            };
            if !canonical || x > max {
                return Err(U_OOR.into());
            }
            x
        }
    };
    Ok(v)
}

macro_rules! compacts {
    ($($t:ty),*) => {$(
        impl From<Compact<$t>> for $t { fn from(c: Compact<$t>) -> $t { c.0 } }
        impl EncodeLike for Compact<$t> {}
        impl Encode for Compact<$t> {
            fn size_hint(&self) -> usize { compact_size(self.0 as u128) }
            fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { compact_write(self.0 as u128, dest) }
        }
        impl EncodeLike for CompactRef<'_, $t> {}
        impl Encode for CompactRef<'_, $t> {
            fn size_hint(&self) -> usize { compact_size(*self.0 as u128) }
            fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) { compact_write(*self.0 as u128, dest) }
        }
        impl CompactLen<$t> for Compact<$t> { fn compact_len(v: &$t) -> usize { compact_size(*v as u128) } }
        impl Decode for Compact<$t> {
            fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
                Ok(Compact(compact_read(input, std::mem::size_of::<$t>())? as $t))
            }
        }
    )*};
}
compacts!(u8, u16, u32, u64, u128);
