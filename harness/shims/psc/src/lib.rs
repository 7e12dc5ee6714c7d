//! Offline stand-in for `parity-scale-codec` implementing the part of SCALE that mintlayer-core uses.
//! It exists only because the git fork mintlayer-core depends on cannot be fetched here. It is written from the
//! public SCALE description; it is part of the trusted base of the harness (see DESIGN.md).

use std::borrow::Cow;
use std::collections::{BTreeMap, BTreeSet, BinaryHeap, LinkedList, VecDeque};
use std::marker::PhantomData;
use std::ops::Deref;
use std::rc::Rc;
use std::sync::Arc;

pub use parity_scale_codec_derive::{Decode, Encode};

#[derive(Debug, PartialEq, Eq, Clone)]
pub struct Error {
    cause: Option<Box<Error>>,
    desc: Cow<'static, str>,
}

impl Error {
    pub fn chain(self, desc: impl Into<Cow<'static, str>>) -> Self {
        Self { desc: desc.into(), cause: Some(Box::new(self)) }
    }
}
impl std::fmt::Display for Error {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        f.write_str(&self.desc)?;
        if let Some(c) = &self.cause {
            write!(f, ":\n\t{c}")?;
        }
        Ok(())
    }
}
impl std::error::Error for Error {}
impl From<&'static str> for Error {
    fn from(desc: &'static str) -> Self {
        Self { desc: desc.into(), cause: None }
    }
}

pub trait Input {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error>;
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error>;
    fn read_byte(&mut self) -> Result<u8, Error> {
        let mut b = [0u8];
        self.read(&mut b[..])?;
        Ok(b[0])
    }
    fn descend_ref(&mut self) -> Result<(), Error> {
        Ok(())
    }
    fn ascend_ref(&mut self) {}
    fn on_before_alloc_mem(&mut self, _size: usize) -> Result<(), Error> {
        Ok(())
    }
}
impl Input for &[u8] {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(Some(self.len()))
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        if into.len() > self.len() {
            return Err("Not enough data to fill buffer".into());
        }
        let (a, b) = self.split_at(into.len());
        into.copy_from_slice(a);
        *self = b;
        Ok(())
    }
}
pub struct IoReader<R: std::io::Read>(pub R);
impl<R: std::io::Read> Input for IoReader<R> {
    fn remaining_len(&mut self) -> Result<Option<usize>, Error> {
        Ok(None)
    }
    fn read(&mut self, into: &mut [u8]) -> Result<(), Error> {
        self.0.read_exact(into).map_err(|_| Error::from("io error"))
    }
}

pub trait Output {
    fn write(&mut self, bytes: &[u8]);
    fn push_byte(&mut self, byte: u8) {
        self.write(&[byte]);
    }
}
impl<W: std::io::Write> Output for W {
    fn write(&mut self, bytes: &[u8]) {
        (self as &mut dyn std::io::Write).write_all(bytes).expect("Codec outputs are infallible");
    }
}
struct SizeTracker(usize);
impl std::io::Write for SizeTracker {
    fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
        self.0 += buf.len();
        Ok(buf.len())
    }
    fn flush(&mut self) -> std::io::Result<()> {
        Ok(())
    }
}

pub trait Encode {
    fn size_hint(&self) -> usize {
        0
    }
    fn encode_to<T: Output + ?Sized>(&self, dest: &mut T) {
        self.using_encoded(|buf| dest.write(buf));
    }
    fn encode(&self) -> Vec<u8> {
        let mut r = Vec::with_capacity(self.size_hint());
        self.encode_to(&mut r);
        r
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        f(&self.encode())
    }
    fn encoded_size(&self) -> usize {
        let mut t = SizeTracker(0);
        self.encode_to(&mut t);
        t.0
    }
}
pub trait Decode: Sized {
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error>;
    fn skip<I: Input>(input: &mut I) -> Result<(), Error> {
        Self::decode(input).map(|_| ())
    }
    fn encoded_fixed_size() -> Option<usize> {
        None
    }
}
pub trait DecodeAll: Sized {
    fn decode_all(input: &mut &[u8]) -> Result<Self, Error>;
}
impl<T: Decode> DecodeAll for T {
    fn decode_all(input: &mut &[u8]) -> Result<Self, Error> {
        let r = T::decode(input)?;
        if input.is_empty() {
            Ok(r)
        } else {
            Err("Input buffer has still data left after decoding!".into())
        }
    }
}
pub trait DecodeLimit: Sized {
    fn decode_all_with_depth_limit(limit: u32, input: &mut &[u8]) -> Result<Self, Error>;
    fn decode_with_depth_limit<I: Input>(limit: u32, input: &mut I) -> Result<Self, Error>;
}
impl<T: Decode> DecodeLimit for T {
    fn decode_all_with_depth_limit(_limit: u32, input: &mut &[u8]) -> Result<Self, Error> {
        T::decode_all(input)
    }
    fn decode_with_depth_limit<I: Input>(_limit: u32, input: &mut I) -> Result<Self, Error> {
        T::decode(input)
    }
}
pub trait Codec: Decode + Encode {}
impl<S: Encode + Decode> Codec for S {}
pub trait FullCodec: Decode + FullEncode {}
impl<S: Decode + FullEncode> FullCodec for S {}
pub trait FullEncode: Encode + EncodeLike {}
impl<S: Encode + EncodeLike> FullEncode for S {}
pub trait EncodeLike<T: Encode = Self>: Sized + Encode {}
impl<T: Encode> EncodeLike<T> for &T {}
impl<T: Encode> EncodeLike<T> for &&T {}
impl<T: Encode> EncodeLike<T> for &mut T {}
impl<T: Encode> EncodeLike<T> for Box<T> {}
impl<T: Encode> EncodeLike<T> for Arc<T> {}
impl EncodeLike<String> for &str {}
impl<T: EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for &[T] {}

// ---- wrapper types
pub trait WrapperTypeEncode: Deref {}
impl<T: ?Sized> WrapperTypeEncode for Box<T> {}
impl<T: ?Sized> WrapperTypeEncode for &T {}
impl<T: ?Sized> WrapperTypeEncode for &mut T {}
impl<T: ToOwned + ?Sized> WrapperTypeEncode for Cow<'_, T> {}
impl<T: ?Sized> WrapperTypeEncode for Rc<T> {}
impl<T: ?Sized> WrapperTypeEncode for Arc<T> {}
impl WrapperTypeEncode for String {}

impl<T, X> Encode for X
where
    T: Encode + ?Sized,
    X: WrapperTypeEncode<Target = T>,
{
    fn size_hint(&self) -> usize {
        (**self).size_hint()
    }
    fn encode_to<W: Output + ?Sized>(&self, dest: &mut W) {
        (**self).encode_to(dest)
    }
    fn encode(&self) -> Vec<u8> {
        (**self).encode()
    }
    fn using_encoded<R, F: FnOnce(&[u8]) -> R>(&self, f: F) -> R {
        (**self).using_encoded(f)
    }
    fn encoded_size(&self) -> usize {
        (**self).encoded_size()
    }
}
pub trait WrapperTypeDecode: Sized {
    type Wrapped: Into<Self>;
    fn decode_wrapped<I: Input>(input: &mut I) -> Result<Self, Error>
    where
        Self::Wrapped: Decode,
    {
        input.descend_ref()?;
        let r = Ok(Self::Wrapped::decode(input)?.into());
        input.ascend_ref();
        r
    }
}
impl<T> WrapperTypeDecode for Box<T> {
    type Wrapped = T;
}
impl<T> WrapperTypeDecode for Rc<T> {
    type Wrapped = T;
}
impl<T> WrapperTypeDecode for Arc<T> {
    type Wrapped = T;
}
impl<T, X> Decode for X
where
    T: Decode + Into<X>,
    X: WrapperTypeDecode<Wrapped = T>,
{
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Self::decode_wrapped(input)
    }
}
impl<T: ToOwned + ?Sized> Decode for Cow<'_, T>
where
    <T as ToOwned>::Owned: Decode,
{
    fn decode<I: Input>(input: &mut I) -> Result<Self, Error> {
        Ok(Cow::Owned(Decode::decode(input)?))
    }
}

// ---- primitives
macro_rules! ints {
    ($($t:ty),*) => {$(
        impl Encode for $t {
            fn size_hint(&self) -> usize { std::mem::size_of::<$t>() }
            fn encode_to<T: Output + ?Sized>(&self, d: &mut T) { d.write(&self.to_le_bytes()) }
        }
        impl EncodeLike for $t {}
        impl Decode for $t {
            fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
                let mut b = [0u8; std::mem::size_of::<$t>()];
                i.read(&mut b)?;
                Ok(<$t>::from_le_bytes(b))
            }
            fn encoded_fixed_size() -> Option<usize> { Some(std::mem::size_of::<$t>()) }
        }
    )*};
}
ints!(u8, u16, u32, u64, u128, i8, i16, i32, i64, i128, f32, f64);

macro_rules! nonzero {
    ($($t:ty => $n:ty),*) => {$(
        impl Encode for $n {
            fn encode_to<T: Output + ?Sized>(&self, d: &mut T) { self.get().encode_to(d) }
        }
        impl EncodeLike for $n {}
        impl Decode for $n {
            fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
                <$n>::new(<$t>::decode(i)?).ok_or_else(|| Error::from("cannot create non-zero number from 0"))
            }
        }
    )*};
}
nonzero!(u8 => std::num::NonZeroU8, u16 => std::num::NonZeroU16, u32 => std::num::NonZeroU32,
    u64 => std::num::NonZeroU64, u128 => std::num::NonZeroU128);

impl Encode for bool {
    fn encode_to<T: Output + ?Sized>(&self, d: &mut T) {
        d.push_byte(*self as u8)
    }
}
impl EncodeLike for bool {}
impl Decode for bool {
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
        match i.read_byte()? {
            0 => Ok(false),
            1 => Ok(true),
            _ => Err("Invalid boolean representation".into()),
        }
    }
    fn encoded_fixed_size() -> Option<usize> {
        Some(1)
    }
}
impl Encode for () {
    fn encode_to<T: Output + ?Sized>(&self, _d: &mut T) {}
}
impl EncodeLike for () {}
impl Decode for () {
    fn decode<I: Input>(_i: &mut I) -> Result<Self, Error> {
        Ok(())
    }
}
impl<X> Encode for PhantomData<X> {
    fn encode_to<T: Output + ?Sized>(&self, _d: &mut T) {}
}
impl<X> EncodeLike for PhantomData<X> {}
impl<X> Decode for PhantomData<X> {
    fn decode<I: Input>(_i: &mut I) -> Result<Self, Error> {
        Ok(PhantomData)
    }
}
impl<X: Encode> Encode for Option<X> {
    fn encode_to<T: Output + ?Sized>(&self, d: &mut T) {
        match self {
            None => d.push_byte(0),
            Some(x) => {
                d.push_byte(1);
                x.encode_to(d)
            }
        }
    }
}
impl<X: Encode + EncodeLike<U>, U: Encode> EncodeLike<Option<U>> for Option<X> {}
impl<X: Decode> Decode for Option<X> {
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
        match i.read_byte().map_err(|e| e.chain("Could not decode `Option`, failed to read variant byte"))? {
            0 => Ok(None),
            1 => Ok(Some(X::decode(i)?)),
            _ => Err("unexpected first byte decoding Option".into()),
        }
    }
}
impl<X: Encode, E: Encode> Encode for Result<X, E> {
    fn encode_to<T: Output + ?Sized>(&self, d: &mut T) {
        match self {
            Ok(x) => {
                d.push_byte(0);
                x.encode_to(d)
            }
            Err(e) => {
                d.push_byte(1);
                e.encode_to(d)
            }
        }
    }
}
impl<X: Decode, E: Decode> Decode for Result<X, E> {
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
        match i.read_byte()? {
            0 => Ok(Ok(X::decode(i)?)),
            1 => Ok(Err(E::decode(i)?)),
            _ => Err("unexpected first byte decoding Result".into()),
        }
    }
}
impl Encode for str {
    fn encode_to<T: Output + ?Sized>(&self, d: &mut T) {
        self.as_bytes().encode_to(d)
    }
}
impl EncodeLike for String {}
impl Decode for String {
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
        String::from_utf8(Vec::<u8>::decode(i)?).map_err(|_| "Invalid utf8 sequence".into())
    }
}
impl EncodeLike for std::time::Duration {}
impl Encode for std::time::Duration {
    fn encode_to<T: Output + ?Sized>(&self, d: &mut T) {
        (self.as_secs(), self.subsec_nanos()).encode_to(d)
    }
}
impl Decode for std::time::Duration {
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
        let (s, n) = <(u64, u32)>::decode(i)?;
        if n >= 1_000_000_000 {
            return Err("Could not decode `Duration`: Number of nanoseconds should not be higher than 10^9.".into());
        }
        Ok(std::time::Duration::new(s, n))
    }
}

// ---- sequences
fn len_to<T: Output + ?Sized>(len: usize, d: &mut T) {
    Compact(u32::try_from(len).expect("Attempted to serialize a collection with too many elements."))
        .encode_to(d)
}
impl<X: Encode> Encode for [X] {
    fn size_hint(&self) -> usize {
        4 + self.len() * std::mem::size_of::<X>()
    }
    fn encode_to<T: Output + ?Sized>(&self, d: &mut T) {
        len_to(self.len(), d);
        for x in self {
            x.encode_to(d)
        }
    }
}
impl<X: Encode> Encode for Vec<X> {
    fn size_hint(&self) -> usize {
        self.as_slice().size_hint()
    }
    fn encode_to<T: Output + ?Sized>(&self, d: &mut T) {
        self.as_slice().encode_to(d)
    }
}
impl<X: Encode + EncodeLike<U>, U: Encode> EncodeLike<Vec<U>> for Vec<X> {}
fn decode_items<X: Decode, I: Input>(i: &mut I) -> Result<Vec<X>, Error> {
    let len = <Compact<u32>>::decode(i)?.0 as usize;
    if let (Some(sz), Some(rem)) = (X::encoded_fixed_size(), i.remaining_len()?) {
        if len.checked_mul(sz).is_none_or(|n| n > rem) {
            return Err("Not enough data to decode vector".into());
        }
    }
    let mut v = Vec::with_capacity(len.min(1024));
    for _ in 0..len {
        v.push(X::decode(i)?);
    }
    Ok(v)
}
impl<X: Decode> Decode for Vec<X> {
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
        decode_items(i)
    }
}
impl<X: Decode> Decode for Box<[X]> {
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
        Ok(decode_items(i)?.into_boxed_slice())
    }
}
impl<X: Encode, const N: usize> Encode for [X; N] {
    fn encode_to<T: Output + ?Sized>(&self, d: &mut T) {
        for x in self {
            x.encode_to(d)
        }
    }
}
impl<X: Encode, const N: usize> EncodeLike for [X; N] {}
impl<X: Decode, const N: usize> Decode for [X; N] {
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
        let mut v = Vec::with_capacity(N);
        for _ in 0..N {
            v.push(X::decode(i)?);
        }
        v.try_into().map_err(|_| Error::from("array length"))
    }
    fn encoded_fixed_size() -> Option<usize> {
        Some(X::encoded_fixed_size()? * N)
    }
}
macro_rules! seqs {
    ($($t:ident <$($b:path),*>),*) => {$(
        impl<X: Encode> Encode for $t<X> {
            fn encode_to<T: Output + ?Sized>(&self, d: &mut T) {
                len_to(self.len(), d);
                for x in self.iter() { x.encode_to(d) }
            }
        }
        impl<X: Decode $(+ $b)*> Decode for $t<X> {
            fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
                Ok(decode_items::<X, I>(i)?.into_iter().collect())
            }
        }
    )*};
}
seqs!(BTreeSet<Ord>, VecDeque<>, LinkedList<>, BinaryHeap<Ord>);
impl<K: Encode, V: Encode> Encode for BTreeMap<K, V> {
    fn encode_to<T: Output + ?Sized>(&self, d: &mut T) {
        len_to(self.len(), d);
        for (k, v) in self {
            k.encode_to(d);
            v.encode_to(d);
        }
    }
}
impl<K: Encode, V: Encode> EncodeLike for BTreeMap<K, V> {}
impl<K: Decode + Ord, V: Decode> Decode for BTreeMap<K, V> {
    fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
        Ok(decode_items::<(K, V), I>(i)?.into_iter().collect())
    }
}
macro_rules! tuples {
    ($($n:ident $m:ident)+) => {
        #[allow(non_snake_case)]
        impl<$($n: Encode),+> Encode for ($($n,)+) {
            fn encode_to<T_: Output + ?Sized>(&self, d: &mut T_) {
                let ($($n,)+) = self;
                $($n.encode_to(d);)+
            }
        }
        impl<$($n: EncodeLike<$m>, $m: Encode),+> EncodeLike<($($m,)+)> for ($($n,)+) {}
        impl<$($n: Decode),+> Decode for ($($n,)+) {
            fn decode<I_: Input>(i: &mut I_) -> Result<Self, Error> {
                Ok(($($n::decode(i)?,)+))
            }
            fn encoded_fixed_size() -> Option<usize> {
                Some(0 $(+ $n::encoded_fixed_size()?)+)
            }
        }
    };
}
tuples!(A A1);
tuples!(A A1 B B1);
tuples!(A A1 B B1 C C1);
tuples!(A A1 B B1 C C1 D D1);
tuples!(A A1 B B1 C C1 D D1 E E1);
tuples!(A A1 B B1 C C1 D D1 E E1 F F1);
tuples!(A A1 B B1 C C1 D D1 E E1 F F1 G G1);
tuples!(A A1 B B1 C C1 D D1 E E1 F F1 G G1 H H1);
tuples!(A A1 B B1 C C1 D D1 E E1 F F1 G G1 H H1 J J1);
tuples!(A A1 B B1 C C1 D D1 E E1 F F1 G G1 H H1 J J1 K K1);

// ---- compact integers
#[derive(Eq, PartialEq, Clone, Copy, Ord, PartialOrd, Debug)]
pub struct Compact<T>(pub T);
impl<T> From<T> for Compact<T> {
    fn from(x: T) -> Self {
        Compact(x)
    }
}
pub trait CompactLen<T> {
    fn compact_len(val: &T) -> usize;
}
/// Types that have a compact encoding.
pub trait HasCompact: Sized {
    fn encode_compact_to<T: Output + ?Sized>(&self, dest: &mut T);
    fn decode_compact<I: Input>(input: &mut I) -> Result<Self, Error>;
}

fn compact_write<T: Output + ?Sized>(v: u128, d: &mut T) {
    match v {
        0..=0x3f => d.push_byte((v as u8) << 2),
        0..=0x3fff => d.write(&(((v as u16) << 2) | 0b01).to_le_bytes()),
        0..=0x3fff_ffff => d.write(&(((v as u32) << 2) | 0b10).to_le_bytes()),
        _ => {
            let bytes = 16 - (v.leading_zeros() / 8) as usize;
            d.push_byte(0b11 + (((bytes - 4) as u8) << 2));
            d.write(&v.to_le_bytes()[..bytes]);
        }
    }
}
fn compact_read<I: Input>(i: &mut I, max: u128) -> Result<u128, Error> {
    let oob = || Error::from("out of range decoding Compact");
    let p = i.read_byte()?;
    let v: u128 = match p & 3 {
        0 => (p >> 2) as u128,
        1 => {
            let v = (u16::from_le_bytes([p, i.read_byte()?]) >> 2) as u128;
            if v <= 0x3f {
                return Err(oob());
            }
            v
        }
        2 => {
            let mut b = [p, 0, 0, 0];
            i.read(&mut b[1..])?;
            let v = (u32::from_le_bytes(b) >> 2) as u128;
            if v <= 0x3fff {
                return Err(oob());
            }
            v
        }
        _ => {
            let n = (p >> 2) as usize + 4;
            if n > 16 {
                return Err("unexpected prefix decoding Compact".into());
            }
            let mut b = [0u8; 16];
            i.read(&mut b[..n])?;
            let v = u128::from_le_bytes(b);
            if v <= 0x3fff_ffff || (n > 4 && v >> ((n - 1) * 8) == 0) {
                return Err(oob());
            }
            v
        }
    };
    if v > max {
        return Err(oob());
    }
    Ok(v)
}
macro_rules! compacts {
    ($($t:ty),*) => {$(
        impl HasCompact for $t {
            fn encode_compact_to<T: Output + ?Sized>(&self, d: &mut T) { compact_write(*self as u128, d) }
            fn decode_compact<I: Input>(i: &mut I) -> Result<Self, Error> {
                Ok(compact_read(i, <$t>::MAX as u128)? as $t)
            }
        }
        impl Encode for Compact<$t> {
            fn encode_to<T: Output + ?Sized>(&self, d: &mut T) { compact_write(self.0 as u128, d) }
        }
        impl EncodeLike for Compact<$t> {}
        impl Decode for Compact<$t> {
            fn decode<I: Input>(i: &mut I) -> Result<Self, Error> {
                Ok(Compact(<$t as HasCompact>::decode_compact(i)?))
            }
        }
        impl From<Compact<$t>> for $t {
            fn from(x: Compact<$t>) -> $t { x.0 }
        }
        impl CompactLen<$t> for Compact<$t> {
            fn compact_len(v: &$t) -> usize { Compact(*v).encoded_size() }
        }
    )*};
}
compacts!(u8, u16, u32, u64, u128);
