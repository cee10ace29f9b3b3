//! Key material for the checks: fixed primes, keys and ring-Pedersen parameters built from them.
use std::prelude::v1::*;
use std::sync::Arc;
use std::format;

use crypto_bigint::Integer;
use serde_json::{json, Value};

use super::big::Big;
use super::fixtures::*;
use super::util::*;
use crate::paillier::{PaillierParams, RPParams, RPParamsWire, SecretKeyPaillier, SecretKeyPaillierWire};

/// The reference view of a Paillier key.
#[derive(Clone, Debug)]
pub struct Key {
    pub p: Big,
    pub q: Big,
    pub n: Big,
    pub n2: Big,
    pub phi: Big,
}

impl Key {
    pub fn new(p: Big, q: Big) -> Self {
        let n = p.mul(&q);
        let one = Big::one();
        let phi = p.sub(&one).mul(&q.sub(&one));
        let n2 = n.mul(&n);
        Key { p, q, n, n2, phi }
    }
    /// `(1 + N)^m * r^N mod N^2`
    pub fn encrypt(&self, m: &super::big::SBig, r: &Big) -> Big {
        let m = m.modulo(&self.n);
        let a = Big::one().add(&m.mul(&self.n)).rem(&self.n2);
        a.mulmod(&r.rem(&self.n2).powmod(&self.n, &self.n2), &self.n2)
    }
    /// The inverse of [`encrypt`](Self::encrypt): the plaintext in `[0, N)`.
    pub fn decrypt(&self, c: &Big) -> Big {
        let t = c.powmod(&self.phi, &self.n2);
        let x = t.sub(&Big::one()).divrem(&self.n).0;
        x.mulmod(&self.phi.invmod(&self.n).expect("coprime"), &self.n)
    }
    pub fn randomizer(&self, c: &Big) -> Big {
        c.rem(&self.n).powmod(&self.n.invmod(&self.phi).expect("coprime"), &self.n)
    }
}

fn pool(bits: u32, safe: bool) -> &'static [&'static str] {
    match (bits, safe) {
        (128, false) => BLUM128,
        (128, true) => SAFE128,
        (1024, false) => BLUM1024,
        (1024, true) => SAFE1024,
        _ => panic!("no fixture for {bits} bits"),
    }
}

/// The reference key number `i` (an ordered pair of distinct primes from the pool).
pub fn key(bits: u32, safe: bool, i: usize) -> Key {
    let ps = pool(bits, safe);
    let n = ps.len();
    let a = i % n;
    let b = (a + 1 + (i / n) % (n - 1)) % n;
    Key::new(Big::from_hex(ps[a]).expect("hex"), Big::from_hex(ps[b]).expect("hex"))
}

pub fn hex_uint<T: crate::uint::BoxedEncoding + crypto_bigint::Bounded>(v: &Big) -> Value {
    serde_json::to_value(pub_uint::<T>(v)).expect("serializes")
}

pub fn secret_key<P: PaillierParams>(k: &Key) -> SecretKeyPaillier<P> {
    let w: SecretKeyPaillierWire<P> = serde_json::from_value(json!({"primes": {
        "p": hex_uint::<P::HalfUint>(&k.p), "q": hex_uint::<P::HalfUint>(&k.q)}}))
    .expect("the secret key decodes");
    w.into_precomputed()
}

type Cache<T> = std::sync::Mutex<std::collections::HashMap<(u32, bool, usize), Arc<T>>>;

/// Reference ring-Pedersen parameters over the safe-prime modulus number `i`: `t` is a square, `s = t^lambda`.
#[derive(Clone, Debug)]
pub struct Rp {
    pub key: Key,
    pub t: Big,
    pub s: Big,
    pub lambda: Big,
}

pub fn rp(bits: u32, i: usize) -> Arc<Rp> {
    static C: std::sync::LazyLock<Cache<Rp>> = std::sync::LazyLock::new(Default::default);
    if let Some(r) = C.lock().unwrap().get(&(bits, true, i)) {
        return r.clone();
    }
    let k = key(bits, true, i);
    let mut g = super::gens::rng(0x5150 + i as u64);
    let t = loop {
        let x = Big::random_below(&mut g, &k.n);
        if x.gcd(&k.n).is_one() {
            break x.mulmod(&x, &k.n);
        }
    };
    let lambda = Big::random_below(&mut g, &k.phi.shr(2));
    let s = t.powmod(&lambda, &k.n);
    let r = Arc::new(Rp { key: k, t, s, lambda });
    C.lock().unwrap().insert((bits, true, i), r.clone());
    r
}

pub fn rp_wire<P: PaillierParams>(n: &Big, t: &Big, s: &Big) -> RPParamsWire<P> {
    serde_json::from_value(json!({"modulus": hex_uint::<P::Uint>(n), "base_randomizer": hex_uint::<P::Uint>(t), "base_value": hex_uint::<P::Uint>(s)}))
        .expect("the ring-Pedersen parameters decode")
}

pub fn rp_params<P: PaillierParams>(i: usize) -> RPParams<P> {
    let r = rp(P::PRIME_BITS, i);
    rp_wire::<P>(&r.key.n, &r.t, &r.s).to_precomputed()
}

/// The integer inside a value that serializes to a single hex string (public integers and wrappers of one).
pub fn leaf(x: &impl serde::Serialize) -> Big {
    fn find(v: &Value) -> Option<Big> {
        match v {
            Value::String(s) => Some(Big::from_hex(s.trim_start_matches("0x")).expect("hex")),
            Value::Object(o) => o.values().find_map(find),
            Value::Array(a) => a.iter().find_map(find),
            _ => None,
        }
    }
    find(&serde_json::to_value(x).expect("serializes")).unwrap_or_else(|| panic!("no integer in {}", format!("{:?}", serde_json::to_value(x))))
}

pub fn mont<T: Integer + crate::uint::BoxedEncoding>(x: &T::Monty) -> Big
where
    T::Monty: crypto_bigint::modular::Retrieve<Output = T>,
{
    use crypto_bigint::modular::Retrieve;
    b(&x.retrieve())
}

