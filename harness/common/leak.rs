//! Finds the digits of secrets in texts.
use std::format;
use std::prelude::v1::*;

use super::big::Big;

/// Every run of at least `n` digits of `v` (decimal or hex) occurring in `s`.
/// (except those that a `public` text, built without the secret, contains as well).
pub fn leaks(s: &str, v: &Big, public: &str) -> Option<String> {
    let public = public.to_lowercase();
    let low = s.to_lowercase();
    let nbits = v.bits();
    if nbits < 40 {
        return None;
    }
    let hex = v.to_hex();
    let hex = hex.trim_start_matches("0x");
    let mut needles: Vec<String> = (0..hex.len().saturating_sub(9)).step_by(5).map(|i| hex[i..i + 10].to_string()).collect();
    // limbs and bytes in decimal
    let be = v.to_be((nbits as usize).div_ceil(64) * 8);
    for ch in be.chunks(8) {
        let limb = u64::from_be_bytes(ch.try_into().expect("8"));
        if limb > 1 << 40 && limb < u64::MAX - (1 << 40) {
            needles.push(format!("{limb}"));
        }
        if ch.iter().any(|b| *b != 255 && *b != 0) {
            needles.push(ch[..4].iter().map(|b| b.to_string()).collect::<Vec<_>>().join(", "));
        }
    }
    needles.into_iter().find(|n| {
        // (sparse numbers look like any other)
        let digits: std::collections::BTreeSet<char> = n.chars().filter(|c| c.is_ascii_hexdigit()).collect();
        let flat = digits.len() < 5;
        !flat && low.contains(n.as_str()) && !public.contains(n.as_str())
    })
}
