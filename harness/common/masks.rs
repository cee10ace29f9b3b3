//! Judging a series of random values that are meant to hide something.
use std::collections::BTreeMap;
use std::collections::HashMap;
use std::format;
use std::prelude::v1::*;

use super::big::{Big, SBig};
use super::runner::*;
use crate::vensure;

/// One recovered mask.
pub struct Mask {
    pub label: &'static str,
    pub value: SBig,
    /// signed: about `-bound .. bound`; unsigned: `0 .. bound`
    pub bound: Big,
    pub signed: bool,
}

/// Checks that the masks of each label fill their range and that none occurs twice. `slack` bits may be constant (for
/// short series). Returns how many of each label there were; labels with less than 24 are only checked for repetitions.
pub fn assess(what: &str, masks: Vec<Mask>, slack: usize) -> Result<Vec<(&'static str, usize)>, Fail> {
    let mut all: BTreeMap<&'static str, Vec<Mask>> = BTreeMap::new();
    for m in masks {
        all.entry(m.label).or_default().push(m);
    }
    let mut seen: HashMap<String, (&'static str, usize)> = HashMap::new();
    let mut small = 0;
    for (label, ms) in &all {
        let count = ms.len();
        // used once (small values may meet by accident, once or twice)
        for (i, m) in ms.iter().enumerate() {
            if let Some((l2, j)) = seen.insert(format!("{:?}", m.value), (label, i)) {
                if m.bound.bits() < 64 {
                    small += 1;
                    if small < 3 {
                        continue;
                    }
                }
                return fail(format!("{what}:{label}:reused"), format!("{label} ({i}) is the same as {l2} ({j}), of {count}"));
            }
        }
        if count < 24 {
            continue;
        }
        // fills its range: half of it is missed by all of them with probability 2^-60 (a quarter of it, 2^-48)
        let k = if count < 60 { 2 } else { 1 };
        vensure!(
            ms.iter().any(|m| m.value.mag.shl(k) >= m.bound),
            format!("{what}:{label}:short"),
            "all of {count} values {label} stay in the lower part of the range they should fill (by {} bits)",
            ms.iter().map(|m| m.bound.bits() as i64 - m.value.mag.bits() as i64).min().expect("nonempty")
        );
        vensure!(
            !ms.iter().any(|m| m.bound.add(&m.bound.shr(2)) < m.value.mag),
            format!("{what}:{label}:wide"),
            "a value {label} is larger than the range it should come from"
        );
        if ms[0].signed && count >= 40 {
            let neg = ms.iter().filter(|m| m.value.neg).count();
            vensure!(neg > 0 && neg < count, format!("{what}:{label}:sign"), "{count} values {label} have the same sign");
        }
        // no part of it is constant
        let bits = ms.iter().map(|m| m.bound.bits()).min().expect("nonempty").saturating_sub(4);
        let constant: Vec<u32> = (0..bits)
            .filter(|i| {
                let b = ms[0].value.mag.bit(*i);
                ms.iter().all(|m| m.value.mag.bit(*i) == b)
            })
            .collect();
        vensure!(
            constant.len() <= slack,
            format!("{what}:{label}:constant"),
            "{} bits of {bits} are the same in {count} values {label}, starting with bit {}",
            constant.len(),
            constant[0]
        );
    }
    Ok(all.into_iter().map(|(l, m)| (l, m.len())).collect())
}
