//! Generators shared by all checks.
use std::prelude::v1::*;
use std::vec;

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rand_chacha::ChaCha8Rng;
use rand_core::SeedableRng;

use super::big::{Big, SBig};

pub type Rng = ChaCha8Rng;

pub fn rng(seed: u64) -> Rng {
    ChaCha8Rng::seed_from_u64(seed)
}

/// A non-negative integer below `2^bits`: uniform bytes, small, near powers of two, sparse or dense bit patterns.
pub fn big_bits(bits: u32) -> BoxedStrategy<Big> {
    let nb = (bits as usize).div_ceil(8);
    prop_oneof![
        4 => proptest::collection::vec(any::<u8>(), nb).prop_map(move |b| Big::from_be(&b).low_bits(bits)),
        2 => (0..=bits, proptest::collection::vec(any::<u8>(), nb)).prop_map(move |(k, b)| Big::from_be(&b).low_bits(k)),
        1 => (0u64..20).prop_map(move |x| Big::from_u64(x).low_bits(bits)),
        2 => (0..=bits, -3i64..4).prop_map(move |(k, d)| {
            let v = SBig::from(Big::pow2(k)).add(&SBig::from(d));
            let v = if v.neg { Big::zero() } else { v.mag };
            if v.bits() > bits { Big::pow2(bits).sub(&Big::one()) } else { v }
        }),
        1 => proptest::collection::vec(0..bits.max(1), 0..4).prop_map(move |ks| {
            let mut v = Big::zero();
            for k in ks { if k < bits && !v.bit(k) { v = v.add(&Big::pow2(k)); } }
            v
        }),
    ]
    .boxed()
}

/// A non-negative integer below `m`, with mass near 0, `m`, `m/2`.
pub fn big_below(m: Big) -> BoxedStrategy<Big> {
    let m1 = m.clone();
    let m2 = m.clone();
    let m3 = m.clone();
    let nb = (m.bits() as usize).div_ceil(8) + 8;
    prop_oneof![
        5 => proptest::collection::vec(any::<u8>(), nb).prop_map(move |b| Big::from_be(&b).rem(&m1)),
        2 => big_bits(m.bits()).prop_map(move |b| b.rem(&m2)),
        2 => (0u8..3, -3i64..4).prop_map(move |(w, d)| {
            let base = match w { 0 => Big::zero(), 1 => m3.shr(1), _ => m3.clone() };
            SBig::from(base).add(&SBig::from(d)).modulo(&m3)
        }),
    ]
    .boxed()
}

/// A signed integer in the paper's `±2^exp` range, that is `[-2^(exp-1)+1, 2^(exp-1)]`.
pub fn sbig_exp(exp: u32) -> BoxedStrategy<SBig> {
    (any::<bool>(), big_bits(exp.saturating_sub(1)), 0u8..12)
        .prop_map(move |(n, m, edge)| match edge {
            0 => SBig::from(Big::pow2(exp - 1)),
            1 => SBig::new(true, Big::pow2(exp - 1).sub(&Big::one())),
            2 => SBig::zero(),
            _ => SBig::new(n, m),
        })
        .boxed()
}

/// A signed integer with `|x| < 2^bits`.
pub fn sbig_bits(bits: u32) -> BoxedStrategy<SBig> {
    (any::<bool>(), big_bits(bits)).prop_map(|(n, m)| SBig::new(n, m)).boxed()
}

/// Arbitrary bytes, biased to short and repetitive ones.
pub fn bytes(max: usize) -> BoxedStrategy<Vec<u8>> {
    prop_oneof![
        3 => proptest::collection::vec(any::<u8>(), 0..=max),
        1 => (any::<u8>(), 0..=max).prop_map(|(b, n)| vec![b; n]),
        1 => proptest::collection::vec(prop_oneof![Just(0u8), Just(1u8), Just(255u8)], 0..=max.min(12)),
    ]
    .boxed()
}
