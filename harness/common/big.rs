//! A small, independent arbitrary-precision integer library: the reference model for all number types.
//! Schoolbook algorithms only; nothing here uses `crypto-bigint`.
use std::cmp::Ordering;
use std::format;
use std::prelude::v1::*;
use std::vec;

use serde::{Deserialize, Deserializer, Serialize, Serializer};

/// Unsigned integer, little-endian limbs without trailing zeros.
#[derive(Clone, PartialEq, Eq, Default, Hash)]
pub struct Big(Vec<u64>);

impl std::fmt::Debug for Big {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "0x{}", self.to_hex())
    }
}

impl Big {
    pub fn zero() -> Self {
        Big(vec![])
    }
    pub fn one() -> Self {
        Big(vec![1])
    }
    pub fn from_u64(x: u64) -> Self {
        Big(vec![x]).norm()
    }
    pub fn pow2(e: u32) -> Self {
        Big::one().shl(e)
    }
    fn norm(mut self) -> Self {
        while self.0.last() == Some(&0) {
            self.0.pop();
        }
        self
    }
    pub fn from_be(bytes: &[u8]) -> Self {
        let mut v = vec![];
        for ch in bytes.rchunks(8) {
            let mut x = 0u64;
            for b in ch {
                x = (x << 8) | *b as u64;
            }
            v.push(x);
        }
        Big(v).norm()
    }
    /// Big-endian bytes padded to `len`; panics if it does not fit.
    pub fn to_be(&self, len: usize) -> Vec<u8> {
        let mut out = vec![0u8; len];
        for i in 0..len {
            let limb = i / 8;
            if limb < self.0.len() {
                out[len - 1 - i] = (self.0[limb] >> ((i % 8) * 8)) as u8;
            }
        }
        assert!(self.bits() as usize <= len * 8, "Big does not fit");
        out
    }
    pub fn from_hex(s: &str) -> Option<Self> {
        let s = if s.len() % 2 == 1 { format!("0{s}") } else { s.to_string() };
        let mut b = vec![];
        for i in (0..s.len()).step_by(2) {
            b.push(u8::from_str_radix(&s[i..i + 2], 16).ok()?);
        }
        Some(Big::from_be(&b))
    }
    pub fn to_hex(&self) -> String {
        if self.is_zero() {
            return "0".into();
        }
        let mut s = format!("{:x}", self.0.last().unwrap());
        for l in self.0.iter().rev().skip(1) {
            s += &format!("{l:016x}");
        }
        s
    }
    pub fn is_zero(&self) -> bool {
        self.0.is_empty()
    }
    pub fn is_one(&self) -> bool {
        self.0 == [1]
    }
    pub fn is_odd(&self) -> bool {
        self.0.first().map_or(false, |x| x & 1 == 1)
    }
    pub fn low_u64(&self) -> u64 {
        self.0.first().copied().unwrap_or(0)
    }
    pub fn bits(&self) -> u32 {
        match self.0.last() {
            None => 0,
            Some(x) => self.0.len() as u32 * 64 - x.leading_zeros(),
        }
    }
    pub fn bit(&self, i: u32) -> bool {
        self.0.get(i as usize / 64).map_or(false, |l| (l >> (i % 64)) & 1 == 1)
    }
    pub fn shl(&self, n: u32) -> Self {
        if self.is_zero() {
            return Big::zero();
        }
        let (w, b) = ((n / 64) as usize, n % 64);
        let mut v = vec![0u64; w];
        let mut carry = 0u64;
        for l in &self.0 {
            if b == 0 {
                v.push(*l);
            } else {
                v.push((l << b) | carry);
                carry = l >> (64 - b);
            }
        }
        v.push(carry);
        Big(v).norm()
    }
    pub fn shr(&self, n: u32) -> Self {
        let (w, b) = ((n / 64) as usize, n % 64);
        if w >= self.0.len() {
            return Big::zero();
        }
        let mut v = vec![];
        for i in w..self.0.len() {
            let hi = self.0.get(i + 1).copied().unwrap_or(0);
            v.push(if b == 0 { self.0[i] } else { (self.0[i] >> b) | (hi << (64 - b)) });
        }
        Big(v).norm()
    }
    pub fn low_bits(&self, n: u32) -> Self {
        let mut v: Vec<u64> = self.0.iter().copied().take((n as usize).div_ceil(64)).collect();
        if n % 64 != 0 && v.len() == (n as usize).div_ceil(64) {
            let last = v.len() - 1;
            v[last] &= (1u64 << (n % 64)) - 1;
        }
        Big(v).norm()
    }
    pub fn add(&self, o: &Big) -> Big {
        let n = self.0.len().max(o.0.len());
        let mut v = Vec::with_capacity(n + 1);
        let mut c = 0u128;
        for i in 0..n {
            c += self.0.get(i).copied().unwrap_or(0) as u128 + o.0.get(i).copied().unwrap_or(0) as u128;
            v.push(c as u64);
            c >>= 64;
        }
        v.push(c as u64);
        Big(v).norm()
    }
    /// Panics when negative.
    pub fn sub(&self, o: &Big) -> Big {
        assert!(*self >= *o, "Big::sub underflow");
        let mut v = Vec::with_capacity(self.0.len());
        let mut borrow = 0i128;
        for i in 0..self.0.len() {
            let mut d = self.0[i] as i128 - o.0.get(i).copied().unwrap_or(0) as i128 + borrow;
            borrow = 0;
            if d < 0 {
                d += 1i128 << 64;
                borrow = -1;
            }
            v.push(d as u64);
        }
        Big(v).norm()
    }
    pub fn mul(&self, o: &Big) -> Big {
        let mut v = vec![0u64; self.0.len() + o.0.len() + 1];
        for (i, a) in self.0.iter().enumerate() {
            let mut c = 0u128;
            for (j, b) in o.0.iter().enumerate() {
                c += *a as u128 * *b as u128 + v[i + j] as u128;
                v[i + j] = c as u64;
                c >>= 64;
            }
            let mut k = i + o.0.len();
            while c != 0 {
                c += v[k] as u128;
                v[k] = c as u64;
                c >>= 64;
                k += 1;
            }
        }
        Big(v).norm()
    }
    /// Knuth algorithm D.
    pub fn divrem(&self, d: &Big) -> (Big, Big) {
        assert!(!d.is_zero(), "division by zero");
        if *self < *d {
            return (Big::zero(), self.clone());
        }
        if d.0.len() == 1 {
            let mut q = vec![0u64; self.0.len()];
            let mut r = 0u128;
            for i in (0..self.0.len()).rev() {
                r = (r << 64) | self.0[i] as u128;
                q[i] = (r / d.0[0] as u128) as u64;
                r %= d.0[0] as u128;
            }
            return (Big(q).norm(), Big(vec![r as u64]).norm());
        }
        let s = d.0.last().unwrap().leading_zeros();
        let v = d.shl(s).0;
        let mut u = self.shl(s).0;
        let n = v.len();
        while u.len() < self.0.len() + 1 {
            u.push(0);
        }
        let m = u.len() - n - 1;
        let mut q = vec![0u64; m + 1];
        let base = 1u128 << 64;
        for j in (0..=m).rev() {
            let num = ((u[j + n] as u128) << 64) | u[j + n - 1] as u128;
            let mut qh = num / v[n - 1] as u128;
            let mut rh = num % v[n - 1] as u128;
            while qh >= base || qh * v[n - 2] as u128 > ((rh << 64) | u[j + n - 2] as u128) {
                qh -= 1;
                rh += v[n - 1] as u128;
                if rh >= base {
                    break;
                }
            }
            let mut borrow = 0i128;
            let mut carry = 0u128;
            for i in 0..n {
                carry += qh * v[i] as u128;
                let t = u[i + j] as i128 + borrow - (carry as u64) as i128;
                u[i + j] = t as u64;
                borrow = t >> 64;
                carry >>= 64;
            }
            let t = u[j + n] as i128 + borrow - carry as i128;
            u[j + n] = t as u64;
            if t < 0 {
                qh -= 1;
                let mut c = 0u128;
                for i in 0..n {
                    c += u[i + j] as u128 + v[i] as u128;
                    u[i + j] = c as u64;
                    c >>= 64;
                }
                u[j + n] = u[j + n].wrapping_add(c as u64);
            }
            q[j] = qh as u64;
        }
        (Big(q).norm(), Big(u).norm().shr(s))
    }
    pub fn rem(&self, d: &Big) -> Big {
        self.divrem(d).1
    }
    pub fn mulmod(&self, o: &Big, m: &Big) -> Big {
        self.mul(o).rem(m)
    }
    pub fn powmod(&self, e: &Big, m: &Big) -> Big {
        let mut r = Big::one().rem(m);
        let b = self.rem(m);
        // 4-bit windows
        let mut table = vec![r.clone()];
        for i in 0..15 {
            table.push(table[i].mulmod(&b, m));
        }
        let nw = (e.bits() + 3) / 4;
        for w in (0..nw).rev() {
            for _ in 0..4 {
                r = r.mulmod(&r, m);
            }
            let mut d = 0usize;
            for k in 0..4 {
                d |= (e.bit(w * 4 + k) as usize) << k;
            }
            if d != 0 {
                r = r.mulmod(&table[d], m);
            }
        }
        r
    }
    pub fn gcd(&self, o: &Big) -> Big {
        let (mut a, mut b) = (self.clone(), o.clone());
        while !b.is_zero() {
            let r = a.rem(&b);
            a = b;
            b = r;
        }
        a
    }
    pub fn invmod(&self, m: &Big) -> Option<Big> {
        // extended Euclid with signed coefficients
        let (mut r0, mut r1) = (m.clone(), self.rem(m));
        let (mut t0, mut t1) = (SBig::zero(), SBig::from(Big::one()));
        while !r1.is_zero() {
            let (q, r) = r0.divrem(&r1);
            let t = t0.sub(&SBig::from(q).mul(&t1));
            t0 = t1;
            t1 = t;
            r0 = r1;
            r1 = r;
        }
        if !r0.is_one() {
            return None;
        }
        Some(t0.modulo(m))
    }
    /// Exponentiation with a signed exponent; `None` if an inverse is needed and does not exist.
    pub fn powmod_signed(&self, e: &SBig, m: &Big) -> Option<Big> {
        let r = self.powmod(&e.mag, m);
        if e.neg {
            r.invmod(m)
        } else {
            Some(r)
        }
    }
    pub fn jacobi(&self, n: &Big) -> i32 {
        let mut a = self.rem(n);
        let mut n = n.clone();
        let mut r = 1;
        while !a.is_zero() {
            while !a.is_odd() {
                a = a.shr(1);
                let m = n.low_u64() & 7;
                if m == 3 || m == 5 {
                    r = -r;
                }
            }
            std::mem::swap(&mut a, &mut n);
            if a.low_u64() & 3 == 3 && n.low_u64() & 3 == 3 {
                r = -r;
            }
            a = a.rem(&n);
        }
        if n.is_one() {
            r
        } else {
            0
        }
    }
    pub fn is_prime(&self) -> bool {
        if self.bits() <= 1 {
            return false;
        }
        for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37] {
            let pb = Big::from_u64(p);
            if *self == pb {
                return true;
            }
            if self.rem(&pb).is_zero() {
                return false;
            }
        }
        let nm1 = self.sub(&Big::one());
        let mut s = 0;
        while !nm1.bit(s) {
            s += 1;
        }
        let d = nm1.shr(s);
        'outer: for p in [2u64, 3, 5, 7, 11, 13, 17, 19, 23, 29, 31, 37, 41, 43, 47, 53] {
            let mut x = Big::from_u64(p).powmod(&d, self);
            if x.is_one() || x == nm1 {
                continue;
            }
            for _ in 1..s {
                x = x.mulmod(&x, self);
                if x == nm1 {
                    continue 'outer;
                }
            }
            return false;
        }
        true
    }
    pub fn isqrt(&self) -> Big {
        if self.is_zero() {
            return Big::zero();
        }
        let mut x = Big::pow2(self.bits().div_ceil(2));
        loop {
            let y = x.add(&self.divrem(&x).0).shr(1);
            if y >= x {
                return x;
            }
            x = y;
        }
    }
    /// Uniform-ish below `m` from bytes of a seeded generator.
    pub fn random_below(rng: &mut impl rand_core::RngCore, m: &Big) -> Big {
        let mut b = vec![0u8; (m.bits() as usize).div_ceil(8) + 8];
        rng.fill_bytes(&mut b);
        Big::from_be(&b).rem(m)
    }
    pub fn random_bits(rng: &mut impl rand_core::RngCore, bits: u32) -> Big {
        let mut b = vec![0u8; (bits as usize).div_ceil(8)];
        rng.fill_bytes(&mut b);
        Big::from_be(&b).low_bits(bits)
    }
}

impl PartialOrd for Big {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for Big {
    fn cmp(&self, o: &Self) -> Ordering {
        self.0
            .len()
            .cmp(&o.0.len())
            .then_with(|| self.0.iter().rev().cmp(o.0.iter().rev()))
    }
}
impl Serialize for Big {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&self.to_hex())
    }
}
impl<'de> Deserialize<'de> for Big {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        Big::from_hex(&s).ok_or_else(|| serde::de::Error::custom("hex"))
    }
}

/// Signed integer.
#[derive(Clone, PartialEq, Eq, Hash)]
pub struct SBig {
    pub neg: bool,
    pub mag: Big,
}

impl std::fmt::Debug for SBig {
    fn fmt(&self, f: &mut std::fmt::Formatter<'_>) -> std::fmt::Result {
        write!(f, "{}{:?}", if self.neg { "-" } else { "" }, self.mag)
    }
}
impl From<Big> for SBig {
    fn from(mag: Big) -> Self {
        SBig { neg: false, mag }
    }
}
impl From<i64> for SBig {
    fn from(x: i64) -> Self {
        SBig::new(x < 0, Big::from_u64(x.unsigned_abs()))
    }
}
impl SBig {
    pub fn zero() -> Self {
        SBig { neg: false, mag: Big::zero() }
    }
    pub fn new(neg: bool, mag: Big) -> Self {
        SBig { neg: neg && !mag.is_zero(), mag }
    }
    pub fn neg(&self) -> Self {
        SBig::new(!self.neg, self.mag.clone())
    }
    pub fn add(&self, o: &SBig) -> SBig {
        if self.neg == o.neg {
            SBig::new(self.neg, self.mag.add(&o.mag))
        } else if self.mag >= o.mag {
            SBig::new(self.neg, self.mag.sub(&o.mag))
        } else {
            SBig::new(o.neg, o.mag.sub(&self.mag))
        }
    }
    pub fn sub(&self, o: &SBig) -> SBig {
        self.add(&o.neg())
    }
    pub fn mul(&self, o: &SBig) -> SBig {
        SBig::new(self.neg ^ o.neg, self.mag.mul(&o.mag))
    }
    /// Representative in [0, m).
    pub fn modulo(&self, m: &Big) -> Big {
        let r = self.mag.rem(m);
        if self.neg && !r.is_zero() {
            m.sub(&r)
        } else {
            r
        }
    }
    /// Representative with |x| <= m/2 (ties positive).
    pub fn balanced(&self, m: &Big) -> SBig {
        let r = self.modulo(m);
        if r > m.shr(1) {
            SBig::new(true, m.sub(&r))
        } else {
            SBig::from(r)
        }
    }
    /// Two's complement in `bits` bits.
    pub fn twos(&self, bits: u32) -> Big {
        self.modulo(&Big::pow2(bits))
    }
    pub fn from_twos(v: &Big, bits: u32) -> SBig {
        if v.bit(bits - 1) {
            SBig::new(true, Big::pow2(bits).sub(v))
        } else {
            SBig::from(v.clone())
        }
    }
    /// -2^(e-1)+1 <= x <= 2^(e-1)
    pub fn in_exponent_range(&self, e: u32) -> bool {
        let half = Big::pow2(e - 1);
        self.mag < half || (!self.neg && self.mag == half)
    }
}
impl Serialize for SBig {
    fn serialize<S: Serializer>(&self, s: S) -> Result<S::Ok, S::Error> {
        s.serialize_str(&format!("{}{}", if self.neg { "-" } else { "" }, self.mag.to_hex()))
    }
}
impl<'de> Deserialize<'de> for SBig {
    fn deserialize<D: Deserializer<'de>>(d: D) -> Result<Self, D::Error> {
        let s = String::deserialize(d)?;
        let (neg, h) = match s.strip_prefix('-') {
            Some(h) => (true, h),
            None => (false, &s[..]),
        };
        Big::from_hex(h).map(|m| SBig::new(neg, m)).ok_or_else(|| serde::de::Error::custom("hex"))
    }
}
impl PartialOrd for SBig {
    fn partial_cmp(&self, o: &Self) -> Option<Ordering> {
        Some(self.cmp(o))
    }
}
impl Ord for SBig {
    fn cmp(&self, o: &Self) -> Ordering {
        match (self.neg, o.neg) {
            (false, true) => Ordering::Greater,
            (true, false) => Ordering::Less,
            (false, false) => self.mag.cmp(&o.mag),
            (true, true) => o.mag.cmp(&self.mag),
        }
    }
}

/// Self-test of the reference (run at the start of every check binary; a failure is a harness error).
pub fn self_test() {
    let mut s = 0x1234_5678_9abc_def0u64;
    let mut next = move || {
        s ^= s << 13;
        s ^= s >> 7;
        s ^= s << 17;
        s
    };
    let mut rnd = |limbs: usize| {
        let v: Vec<u64> = (0..limbs)
            .map(|_| match next() % 4 {
                0 => u64::MAX,
                1 => 0,
                _ => next(),
            })
            .collect();
        Big(v).norm()
    };
    for i in 0..400 {
        let (a, b) = (rnd(1 + i % 9), rnd(1 + (i / 3) % 5));
        if b.is_zero() {
            continue;
        }
        let (q, r) = a.divrem(&b);
        assert!(r < b && q.mul(&b).add(&r) == a, "divrem");
        assert!(a.add(&b).sub(&b) == a);
        if let Some(inv) = a.invmod(&b) {
            assert!(b.is_one() || inv.mulmod(&a, &b).is_one());
        }
    }
    // (2^127-1) is prime, 2^128-1 is not
    assert!(Big::pow2(127).sub(&Big::one()).is_prime());
    assert!(!Big::pow2(128).sub(&Big::one()).is_prime());
}
