//! Adapters between the crate's number types and the reference integers.
use std::prelude::v1::*;

use crypto_bigint::subtle::{ConditionallySelectable, CtOption};
use crypto_bigint::{Bounded, Integer};
use zeroize::Zeroize;

use super::big::{Big, SBig};
use crate::tools::Secret;
use crate::uint::{BoxedEncoding, PublicSigned, PublicUint, SecretSigned, SecretUnsigned};

pub fn opt<T>(x: CtOption<T>) -> Option<T> {
    x.into()
}

pub fn u<T: BoxedEncoding + Bounded>(b: &Big) -> T {
    T::try_from_be_bytes(&b.to_be(T::BYTES)).expect("right length")
}

pub fn b<T: BoxedEncoding>(x: &T) -> Big {
    Big::from_be(&x.to_be_bytes())
}

pub fn sec<T: Zeroize + Clone>(x: T) -> Secret<T> {
    Secret::init_with(|| x.clone())
}

/// Builds a secret signed integer with the given value and bound, which must be consistent.
pub fn ss<T>(v: &SBig, bound: u32) -> SecretSigned<T>
where
    T: BoxedEncoding + Bounded + Zeroize + Integer + ConditionallySelectable,
{
    opt(SecretSigned::new_from_unsigned(sec(u::<T>(&v.twos(T::BITS))), bound)).expect("consistent bound")
}

pub fn ps<T>(v: &SBig, bound: u32) -> PublicSigned<T>
where
    T: BoxedEncoding + Bounded + Integer,
{
    PublicSigned::new_from_unsigned(u::<T>(&v.twos(T::BITS)), bound).expect("consistent bound")
}

pub fn su<T>(v: &Big, bound: u32) -> SecretUnsigned<T>
where
    T: BoxedEncoding + Bounded + Zeroize + Integer,
{
    opt(SecretUnsigned::new(sec(u::<T>(v)), bound)).expect("consistent bound")
}

/// The value of a secret signed integer (through its magnitude and sign).
pub fn ssv<T>(x: &SecretSigned<T>) -> SBig
where
    T: BoxedEncoding + Bounded + Zeroize + Integer + ConditionallySelectable,
{
    SBig::new(bool::from(x.is_negative()), b(x.abs_value().expose_secret()))
}

pub fn psv<T>(x: &PublicSigned<T>) -> SBig
where
    T: BoxedEncoding + Bounded + Integer,
{
    SBig::new(x.is_negative(), b(&x.abs()))
}

pub fn pub_uint<T: BoxedEncoding + Bounded>(v: &Big) -> PublicUint<T> {
    u::<T>(v).into()
}
