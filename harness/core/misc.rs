//! Transcripts and derived values (C16), wire encodings (C17), the secret wrapper (C19), secret sharing (E02).
use std::collections::BTreeMap;
use std::format;
use std::prelude::v1::*;
use std::vec;

use crypto_bigint::modular::Retrieve;
use crypto_bigint::subtle::{Choice, ConditionallyNegatable};
use crypto_bigint::{nlimbs, Bounded, Encoding, Integer, Monty, NonZero, Odd, Uint, WrappingAdd, WrappingMul, WrappingNeg, WrappingSub, U1024, U128, U2048, U256, U4096, U512, U64};
use digest::{ExtendableOutput, Update, XofReader};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use serde_json::Value;
use sha3::Shake256;

use super::common::big::{Big, SBig};
use super::common::gens::*;
use super::common::leak::leaks;
use super::common::runner::*;
use super::curve::*;
use super::keys::*;
use super::util::*;
use crate::curve::{Point, Scalar};
use crate::dev::TestParams;
use crate::k256::ProductionParams112 as K;
use crate::paillier::*;
use crate::params::chain_scheme_params;
use crate::tools::bitvec::BitVec;
use crate::tools::hashing::{Chain, HashOutput, Hasher};
use crate::tools::sss::*;
use crate::tools::Secret;
use crate::uint::{BoxedEncoding, FromXofReader, PublicSigned, PublicUint, SecretSigned, SecretUnsigned};
use crate::vensure;
use crate::zk::{SchCommitment, SchSecret};
use crate::SchemeParams;

type T = TestParams;

// ---------------------------------------------------------------- C16: transcripts

/// A "digest" that only records what was fed to it.
#[derive(Default, Clone)]
pub struct Rec(Vec<u8>);
pub struct RecReader(pub Vec<u8>, usize);
impl Update for Rec {
    fn update(&mut self, data: &[u8]) {
        self.0.extend_from_slice(data)
    }
}
impl XofReader for RecReader {
    fn read(&mut self, buffer: &mut [u8]) {
        for b in buffer {
            *b = self.0.get(self.1).copied().unwrap_or(0);
            self.1 += 1;
        }
    }
}
impl ExtendableOutput for Rec {
    type Reader = RecReader;
    fn finalize_xof(self) -> RecReader {
        RecReader(self.0, 0)
    }
}

fn stream(dst: &[u8], f: impl FnOnce(Hasher<Rec>) -> Hasher<Rec>) -> Vec<u8> {
    f(Hasher::<Rec>::new_with_dst(dst)).finalize_to_reader().0
}

fn feed_bytes<C: Chain>(mut c: C, items: &[Vec<u8>]) -> C {
    for i in items {
        c = c.chain_bytes(i);
    }
    c
}

type Script = (Vec<u8>, Vec<Vec<u8>>);

#[derive(Clone, Debug, Serialize, Deserialize)]
struct TwoScripts {
    a: Script,
    b: Script,
    kind: String,
}

/// Splits `body` at the given positions.
fn split_at(body: &[u8], cuts: &[u16]) -> Vec<Vec<u8>> {
    let mut cs: Vec<usize> = cuts.iter().map(|c| (*c as usize * (body.len() + 1)) >> 16).collect();
    cs.sort();
    let mut out = vec![];
    let mut last = 0;
    for c in cs {
        out.push(body[last..c].to_vec());
        last = c;
    }
    out.push(body[last..].to_vec());
    out
}

fn enc_len(n: usize, width: usize, le: bool) -> Vec<u8> {
    let mut v = (n as u64).to_be_bytes()[8 - width..].to_vec();
    if le {
        v.reverse();
    }
    v
}

fn scripts() -> BoxedStrategy<TwoScripts> {
    let small = || proptest::collection::vec(prop_oneof![Just(0u8), Just(1), Just(2), Just(8), any::<u8>()], 0..24);
    let cuts = || proptest::collection::vec(any::<u16>(), 0..4);
    let list = move || proptest::collection::vec(small(), 0..4);
    let mk = |a: Script, b: Script, kind: &str| TwoScripts { a, b, kind: kind.into() };
    prop_oneof![
        // the same bytes cut in two ways, the domain tag included
        4 => (small(), cuts(), cuts()).prop_map(move |(s, c1, c2)| {
            let (mut x, mut y) = (split_at(&s, &c1), split_at(&s, &c2));
            let (d1, d2) = (x.remove(0), y.remove(0));
            mk((d1, x), (d2, y), "the same bytes, cut differently")
        }),
        // unrelated small lists
        2 => (small(), list(), small(), list()).prop_map(move |(d1, x, d2, y)| mk((d1, x), (d2, y), "small lists")),
        // different domains only
        1 => (small(), small(), list()).prop_map(move |(d1, d2, x)| mk((d1, x.clone()), (d2, x), "two domains")),
        // an extra, missing, swapped or altered item
        4 => (small(), proptest::collection::vec(small(), 1..5), any::<u16>(), any::<u16>(), 0u8..6, any::<u8>()).prop_map(move |(d, x, i, j, op, byte)| {
            let mut y = x.clone();
            let i = i as usize % x.len();
            let j = j as usize % x.len();
            match op {
                0 => { y.remove(i); }
                1 => { y.insert(i, vec![]); }
                2 => y.swap(i, j),
                3 => { let e = y[i].clone(); y.insert(j, e); }
                4 => y[i].push(byte),
                _ => match y[i].last_mut() { Some(b) => *b ^= byte, None => y[i].push(byte) },
            }
            mk((d.clone(), x), (d, y), "one edit")
        }),
        // collisions that a truncated length (or one of another width) would allow
        3 => (small(), small(), prop_oneof![Just(1usize), Just(2), Just(4), Just(8)], any::<bool>(), 0u8..3).prop_map(move |(d, x, w, le, pos)| {
            // [x || len(b) || b] against [x, b], with the total length equal to that of x modulo 2^(8w)
            let total = match w { 1 => 256usize, 2 => 65536, _ => 0 };
            let (first, second);
            if total > 0 {
                let b = vec![7u8; total - w];
                let mut f = x.clone();
                f.extend(enc_len(b.len(), w, le));
                f.extend(&b);
                first = vec![f];
                second = vec![x, b];
            } else {
                let b = vec![7u8; 5];
                let mut f = x.clone();
                f.extend(enc_len(b.len(), w, le));
                f.extend(&b);
                first = vec![f];
                second = vec![x, b];
            }
            match pos {
                0 => {
                    let (mut f, mut s) = (first, second);
                    let (a, b) = (f.remove(0), s.remove(0));
                    mk((a, f), (b, s), "length forgery at the domain tag")
                }
                1 => mk((d.clone(), first), (d, second), "length forgery"),
                _ => {
                    let mut f = first;
                    let mut s = second;
                    f.push(vec![1]);
                    s.push(vec![1]);
                    mk((d.clone(), f), (d, s), "length forgery")
                }
            }
        }),
    ]
    .boxed()
}

fn run_scripts(c: &TwoScripts) -> R {
    let same = c.a == c.b;
    let s1 = stream(&c.a.0, |h| feed_bytes(h, &c.a.1));
    let s2 = stream(&c.b.0, |h| feed_bytes(h, &c.b.1));
    vensure!((s1 == s2) == same, "bytes/ambiguous", "{}: the transcripts of {:?} and {:?} are {}", c.kind, c.a, c.b, if same { "different" } else { "the same" });
    let h = |s: &Script, sec: usize| feed_bytes(Hasher::<Shake256>::new_with_dst(&s.0), &s.1).finalize(sec);
    for sec in [8usize, 16, 112, 128, 131] {
        let (x, y) = (h(&c.a, sec), h(&c.b, sec));
        let e = serde_json::to_value(&x).expect("ser");
        let len = hex_of(&e).len();
        vensure!(len * 8 >= 2 * sec, "digest/length", "{len} bytes for {sec} bits of security");
        vensure!(x == h(&c.a, sec), "digest/deterministic");
        if sec >= 112 || same {
            vensure!((x == y) == same, "digest/collision", "{:?} and {:?}", c.a, c.b);
        }
    }
    // the reader form carries the same transcript
    let rd = |s: &Script| {
        let mut out = [0u8; 40];
        feed_bytes(Hasher::<Shake256>::new_with_dst(&s.0), &s.1).finalize_to_reader().read(&mut out);
        out
    };
    vensure!((rd(&c.a) == rd(&c.b)) == same, "reader/collision", "{:?} and {:?}", c.a, c.b);
    Ok(obs(!same).tag(c.kind.clone()))
}

/// The bytes of the first (hex, maybe 0x-prefixed) string in a JSON value.
fn hex_of(v: &Value) -> Vec<u8> {
    match v {
        Value::String(s) => {
            let s = s.trim_start_matches("0x");
            (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).expect("hex")).collect()
        }
        Value::Object(o) => o.values().map(hex_of).find(|x| !x.is_empty()).unwrap_or_default(),
        Value::Array(a) => a.iter().map(hex_of).find(|x| !x.is_empty()).unwrap_or_default(),
        _ => vec![],
    }
}

/// A structured transcript item.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
enum Item {
    Bytes(Vec<u8>),
    Scalar(Big),
    Point(Big),
    Uint(Big),
    Signed(SBig, u32),
    Bits(Vec<bool>),
    U32(u32),
    Scalars(Vec<Big>),
    Points(Vec<Big>),
    Signeds(Vec<(SBig, u32)>),
    Nested(Vec<Vec<Big>>),
    Map(BTreeMap<u64, Big>),
    Pair(Big, Big),
    Opt(Option<Big>),
    Cipher(Big),
    Share(u32),
}

pub fn bitvec(bits: &[bool]) -> BitVec {
    let mut bytes = vec![0u8; bits.len().div_ceil(8)];
    for (i, b) in bits.iter().enumerate() {
        if *b {
            bytes[i / 8] |= 128 >> (i % 8);
        }
    }
    let v = BitVec::from_xof_reader(&mut FixedReader::new(bytes), bits.len());
    v
}

fn cipher_wire<P: PaillierParams>(v: &Big) -> CiphertextWire<P> {
    // any ciphertext serializes to a single wide integer; keep whatever shape the type has
    let w: CiphertextWire<P> = super::paillier::cipher::<P>(secret_key::<P>(&key(P::PRIME_BITS, false, 0)).public_key(), &Big::one()).to_wire();
    wire_from_leaf(&w, &pub_uint::<P::WideUint>(v))
}

/// Replaces the only hex string of a serialized value.
fn wire_from_leaf<W: Serialize + DeserializeOwned>(w: &W, leaf: &impl Serialize) -> W {
    fn go(v: &mut Value, l: &Value) {
        match v {
            Value::String(_) => *v = l.clone(),
            Value::Object(o) => o.values_mut().for_each(|x| go(x, l)),
            Value::Array(a) => a.iter_mut().for_each(|x| go(x, l)),
            _ => {}
        }
    }
    let mut v = serde_json::to_value(w).expect("ser");
    go(&mut v, &serde_json::to_value(leaf).expect("ser"));
    serde_json::from_value(v).expect("decodes")
}

fn feed_item<C: Chain>(c: C, i: &Item) -> C {
    let s = sc::<T>;
    let p = |k: &Big| s(k).mul_by_generator();
    match i {
        Item::Bytes(b) => c.chain_bytes(b),
        Item::Scalar(x) => c.chain(&s(x)),
        Item::Point(k) => c.chain(&p(k)),
        Item::Uint(x) => c.chain(&pub_uint::<U256>(x)),
        Item::Signed(x, b) => c.chain(&ps::<U256>(x, *b)),
        Item::Bits(b) => c.chain(&bitvec(b)),
        Item::U32(x) => c.chain(x),
        Item::Scalars(v) => c.chain(&v.iter().map(s).collect::<Vec<_>>()),
        Item::Points(v) => c.chain(&v.iter().map(p).collect::<Vec<_>>()),
        Item::Signeds(v) => c.chain(&v.iter().map(|(x, b)| ps::<U256>(x, *b)).collect::<Vec<_>>()),
        Item::Nested(v) => c.chain(&v.iter().map(|w| w.iter().map(s).collect::<Vec<_>>()).collect::<Vec<_>>()),
        Item::Map(m) => c.chain(&m.iter().map(|(k, v)| (*k, s(v))).collect::<BTreeMap<_, _>>()),
        Item::Pair(x, y) => c.chain(&(s(x), s(y))),
        Item::Opt(x) => c.chain(&x.as_ref().map(s)),
        Item::Cipher(x) => c.chain(&cipher_wire::<<T as SchemeParams>::Paillier>(x)),
        Item::Share(x) => c.chain(&ShareId::<T>::new(*x as u64)),
    }
}

fn signed_any() -> BoxedStrategy<(SBig, u32)> {
    prop_oneof![0u32..24, 0u32..255]
        .prop_flat_map(|b| (sbig_bits(b), Just(b)))
        .boxed()
}

fn item(kind: u8) -> BoxedStrategy<Item> {
    let n = || scalar_big::<T>();
    let tiny = || prop_oneof![(0u64..3).prop_map(Big::from_u64), scalar_big::<T>()];
    match kind {
        0 => proptest::collection::vec(any::<u8>(), 0..12).prop_map(Item::Bytes).boxed(),
        1 => n().prop_map(Item::Scalar).boxed(),
        2 => tiny().prop_map(Item::Point).boxed(),
        3 => big_bits(256).prop_map(Item::Uint).boxed(),
        4 => signed_any().prop_map(|(x, b)| Item::Signed(x, b)).boxed(),
        5 => proptest::collection::vec(any::<bool>(), 0..36).prop_map(Item::Bits).boxed(),
        6 => any::<u32>().prop_map(|x| Item::U32(x % 0xffff0f07)).boxed(),
        7 => proptest::collection::vec(tiny(), 0..4).prop_map(Item::Scalars).boxed(),
        8 => proptest::collection::vec(tiny(), 0..4).prop_map(Item::Points).boxed(),
        9 => proptest::collection::vec(signed_any(), 0..4).prop_map(Item::Signeds).boxed(),
        10 => proptest::collection::vec(proptest::collection::vec(tiny(), 0..3), 0..4).prop_map(Item::Nested).boxed(),
        11 => proptest::collection::btree_map(0u64..5, tiny(), 0..4).prop_map(Item::Map).boxed(),
        12 => (tiny(), tiny()).prop_map(|(a, b)| Item::Pair(a, b)).boxed(),
        13 => proptest::option::of(tiny()).prop_map(Item::Opt).boxed(),
        14 => big_bits(512).prop_map(Item::Cipher).boxed(),
        _ => any::<u32>().prop_map(|x| Item::Share(x % 0xffff0f07)).boxed(),
    }
}

/// A value of the same type that differs in one detail.
fn nudge(i: &Item, r: u64) -> Item {
    let n = &T::rc().n;
    let other = |x: &Big, m: &Big| {
        let m_bits = m.bits();
        let mut y = x.clone();
        let k = (r % m_bits as u64) as u32;
        y = if y.bit(k) { y.sub(&Big::pow2(k)) } else { y.add(&Big::pow2(k)) };
        y.rem(m)
    };
    let vec1 = |v: &Vec<Big>| {
        let mut v = v.clone();
        match r % 3 {
            0 if !v.is_empty() => {
                let k = (r >> 8) as usize % v.len();
                v[k] = other(&v[k], n)
            }
            1 if !v.is_empty() => {
                v.pop();
            }
            _ => v.push(Big::zero()),
        }
        v
    };
    match i {
        Item::Bytes(b) => {
            let mut b = b.clone();
            match r % 3 {
                0 if !b.is_empty() => {
                    let k = (r >> 8) as usize % b.len();
                    b[k] ^= 1 << (r >> 16 & 7)
                }
                1 if !b.is_empty() => {
                    b.pop();
                }
                _ => b.push(0),
            }
            Item::Bytes(b)
        }
        Item::Scalar(x) => Item::Scalar(other(x, n)),
        Item::Point(x) => Item::Point(if r % 2 == 0 { SBig::from(x.clone()).neg().modulo(n) } else { other(x, n) }),
        Item::Uint(x) => Item::Uint(other(x, &Big::pow2(256))),
        Item::Cipher(x) => Item::Cipher(other(x, &Big::pow2(512))),
        Item::Signed(x, b) => match r % 3 {
            0 if *b < 254 => Item::Signed(x.clone(), b + 1),
            1 => Item::Signed(x.neg(), *b),
            _ => Item::Signed(if *b == 0 { SBig::zero() } else { SBig::new(x.neg, other(&x.mag, &Big::pow2(*b))) }, *b),
        },
        Item::Bits(v) => {
            let mut v = v.clone();
            match r % 3 {
                0 if !v.is_empty() => {
                    let k = (r >> 8) as usize % v.len();
                    v[k] = !v[k]
                }
                1 if !v.is_empty() => {
                    v.pop();
                }
                _ => v.push(false),
            }
            Item::Bits(v)
        }
        Item::U32(x) => Item::U32((x ^ (1 << (r % 32))) % 0xffff0f07),
        Item::Share(x) => Item::Share((x ^ (1 << (r % 32))) % 0xffff0f07),
        Item::Scalars(v) => Item::Scalars(vec1(v)),
        Item::Points(v) => Item::Points(vec1(v)),
        Item::Signeds(v) => {
            let mut v = v.clone();
            if let Some(l) = v.last_mut() {
                *l = (l.0.neg(), l.1)
            } else {
                v.push((SBig::zero(), 0))
            }
            Item::Signeds(v)
        }
        Item::Nested(v) => {
            let mut v = v.clone();
            // move an element over a boundary
            if v.len() >= 2 && !v[1].is_empty() {
                let x = v[1].remove(0);
                v[0].push(x);
            } else {
                v.push(vec![]);
            }
            Item::Nested(v)
        }
        Item::Map(m) => {
            let mut m = m.clone();
            if let Some((k, v)) = m.pop_first() {
                m.insert(k + 1, v);
            } else {
                m.insert(0, Big::zero());
            }
            Item::Map(m)
        }
        Item::Pair(a, b) => Item::Pair(b.clone(), a.clone()),
        Item::Opt(x) => Item::Opt(if x.is_some() { None } else { Some(Big::zero()) }),
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ItemCase {
    dst: Vec<u8>,
    items: Vec<Item>,
    other: Vec<Item>,
    nudge: u64,
    at: u16,
    how: u8,
}

fn item_case() -> BoxedStrategy<ItemCase> {
    proptest::collection::vec(0u8..16, 1..5)
        .prop_flat_map(|kinds| {
            let a: Vec<_> = kinds.iter().map(|k| item(*k)).collect();
            let b: Vec<_> = kinds.iter().map(|k| item(*k)).collect();
            (proptest::collection::vec(any::<u8>(), 0..6), a, b, any::<u64>(), any::<u16>(), 0u8..4)
        })
        .prop_map(|(dst, items, other, nudge, at, how)| ItemCase { dst, items, other, nudge, at, how })
        .boxed()
}

fn run_items(c: &ItemCase) -> R {
    let k = c.at as usize % c.items.len();
    let mut b = c.items.clone();
    match c.how {
        0 | 1 => b[k] = nudge(&c.items[k], c.nudge),
        2 => b[k] = c.other[k].clone(),
        _ => b = c.other.clone(),
    }
    let fd = |items: &[Item]| {
        stream(&c.dst, |mut h| {
            for i in items {
                h = feed_item(h, i);
            }
            h
        })
    };
    let same = c.items == b;
    let (s1, s2) = (fd(&c.items), fd(&b));
    vensure!((s1 == s2) == same, "items/ambiguous", "{:?} and {:?} give {} transcripts", c.items, b, if same { "different" } else { "equal" });
    if !same {
        vensure!(!s1.starts_with(&s2) && !s2.starts_with(&s1), "items/prefix", "the transcript of one of {:?}, {:?} begins the other's", c.items, b);
    }
    let sh = |items: &[Item]| {
        let mut h = Hasher::<Shake256>::new_with_dst(&c.dst);
        for i in items {
            h = feed_item(h, i);
        }
        h.finalize(128)
    };
    vensure!((sh(&c.items) == sh(&b)) == same, "items/digest");
    // dropping or repeating the last item never goes unnoticed
    let mut short = c.items.clone();
    short.pop();
    let mut long = c.items.clone();
    long.push(c.items[c.items.len() - 1].clone());
    vensure!(sh(&short) != sh(&c.items) && sh(&long) != sh(&c.items), "items/count");
    Ok(obs(!same).tag_if(c.how < 2, "minimal edit"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct XofCase {
    bytes: Vec<u8>,
    bits: u32,
    key: u16,
}

fn flips<V: PartialEq + std::fmt::Debug>(c: &XofCase, used: usize, masked: usize, what: &str, f: impl Fn(&[u8]) -> V) -> R {
    let base = f(&c.bytes);
    vensure!(f(&c.bytes) == base, format!("{what}/deterministic"));
    let mut dead = 0;
    let mut seen: Vec<V> = vec![];
    for i in 0..used * 8 {
        let mut b = c.bytes.clone();
        b[i / 8] ^= 1 << (i % 8);
        let v = f(&b);
        if v == base {
            dead += 1;
        } else {
            if seen.len() < 80 {
                vensure!(!seen.contains(&v), format!("{what}/not injective"), "two different one-bit changes of the stream give {v:?}");
                seen.push(v);
            }
        }
    }
    vensure!(dead == masked, format!("{what}/dead bits"), "{dead} bits of the stream do not matter, expected {masked}");
    good()
}

fn run_xof_uint<U: BoxedEncoding + Integer + Bounded>(c: &XofCase) -> R {
    let bits = c.bits.min(U::BITS);
    let v = |x: &[u8]| b(&U::from_xof_reader(&mut FixedReader::new(x.to_vec()), bits));
    let got = v(&c.bytes);
    vensure!(got.bits() <= bits, "uint/range", "{got:?} for {bits} bits");
    let used = bits.div_ceil(8) as usize;
    if used > 40 {
        return good();
    }
    flips(c, used, used * 8 - bits as usize, "uint", v)
}

fn run_xof_signed<U: BoxedEncoding + Integer + Bounded>(c: &XofCase) -> R {
    let exp = c.bits.clamp(1, U::BITS - 1);
    let f = |x: &[u8]| psv(&PublicSigned::<U>::from_xof_reader_in_exponent_range(&mut FixedReader::new(x.to_vec()), exp));
    let got = f(&c.bytes);
    let (lo, hi) = (SBig::new(true, Big::pow2(exp - 1).sub(&Big::one())), SBig::from(Big::pow2(exp - 1)));
    vensure!(got >= lo && got <= hi, "signed/range", "{got:?} for exponent {exp}");
    let full = PublicSigned::<U>::from_xof_reader_in_exponent_range(&mut FixedReader::new(c.bytes.clone()), exp);
    vensure!(full.is_in_exponent_range(exp), "signed/range check disagrees", "{got:?} for exponent {exp}");
    vensure!(full.bound() >= got.mag.bits() && full.bound() <= exp, "signed/bound", "{} for exponent {exp}", full.bound());
    // both ends are reachable
    let zeros = f(&vec![0; 1024]);
    let ones = f(&vec![255; 1024]);
    vensure!((zeros == lo && ones == hi) || (zeros == hi && ones == lo), "signed/ends", "{zeros:?} {ones:?} for exponent {exp}");
    let used = exp.div_ceil(8) as usize;
    if used > 40 {
        return good();
    }
    flips(c, used, used * 8 - exp as usize, "signed", f)
}

fn run_xof_small(c: &XofCase) -> R {
    // every value of a small range, exactly equally often
    let bits = c.bits % 11 + 1;
    let nb = bits.div_ceil(8) as usize;
    let mut cu: BTreeMap<String, usize> = BTreeMap::new();
    let mut cs: BTreeMap<String, usize> = BTreeMap::new();
    for x in 0..1u32 << (8 * nb) {
        let bytes = x.to_be_bytes()[4 - nb..].to_vec();
        let u = b(&U64::from_xof_reader(&mut FixedReader::new(bytes.clone()), bits));
        let s = psv(&PublicSigned::<U128>::from_xof_reader_in_exponent_range(&mut FixedReader::new(bytes), bits));
        *cu.entry(format!("{u:?}")).or_default() += 1;
        *cs.entry(format!("{s:?}")).or_default() += 1;
    }
    let each = (1usize << (8 * nb)) >> bits;
    vensure!(cu.len() == 1 << bits && cu.values().all(|n| *n == each), "uint/uniform", "{bits} bits");
    vensure!(cs.len() == 1 << bits && cs.values().all(|n| *n == each), "signed/uniform", "{bits} bits");
    good()
}

fn run_xof_scalar<P: Inst>(c: &XofCase) -> R {
    let n = &P::rc().n;
    // how much of the stream is consumed
    let mut r = FixedReader::new(c.bytes.clone());
    let s0 = Scalar::<P>::from_xof_reader(&mut r);
    vensure!(scv(&s0) < *n, "scalar/range");
    let used = r.pos;
    vensure!(used * 8 >= n.bits() as usize + 30, "scalar/bias", "only {used} bytes of the stream are used");
    flips(c, used, 0, "scalar", |x| scv(&Scalar::<P>::from_xof_reader(&mut FixedReader::new(x.to_vec()))))
}

fn run_xof_bits(c: &XofCase) -> R {
    let bits = c.bits as usize % 200;
    let f = |x: &[u8]| BitVec::from_xof_reader(&mut FixedReader::new(x.to_vec()), bits).bits().to_vec();
    vensure!(f(&c.bytes).len() == bits, "bits/length");
    let used = bits.div_ceil(8);
    flips(c, used, used * 8 - bits, "bits", f)
}

fn run_xof_residue<P: PaillierParams>(c: &XofCase) -> R {
    let k = key(P::PRIME_BITS, false, c.key as usize);
    let sk = secret_key::<P>(&k);
    let f = |x: &[u8]| b(&sk.public_key().invertible_residue_from_xof_reader(&mut FixedReader::new(x.to_vec())));
    let got = f(&c.bytes);
    vensure!(got < k.n && got.gcd(&k.n).is_one(), "residue/range");
    vensure!(got == f(&c.bytes), "residue/deterministic");
    // the bytes that produced the result (after those of rejected candidates) all matter
    let mut r = FixedReader::new(c.bytes.clone());
    sk.public_key().invertible_residue_from_xof_reader(&mut r);
    let chunk = (k.n.bits() as usize).div_ceil(8);
    vensure!(r.pos >= chunk, "residue/short", "only {} bytes of the stream are used", r.pos);
    let last = r.pos - chunk;
    // (in a periodic stream the next candidate is the same again)
    if r.pos <= c.bytes.len() && c.bytes.iter().any(|b| *b != c.bytes[0]) {
        for i in [0usize, 1, 7, 8, 100, 129, 200, 8 * chunk - 1] {
            let mut x = c.bytes.clone();
            x[last + i / 8] ^= 1 << (i % 8);
            vensure!(f(&x) != got, "residue/ignores input", "bit {i}");
        }
    }
    good()
}

// Parameter sets that differ from the test ones in a single constant each.
macro_rules! variants {
    ($($name:ident { $curve:ty, $pail:ty, $($over:tt)* })*) => {
        $(
            #[derive(Debug, Copy, Clone, PartialEq, Eq, PartialOrd, Ord)]
            struct $name;
            impl SchemeParams for $name {
                type Curve = $curve;
                type Digest = Shake256;
                type Paillier = $pail;
                type ExtraWideUint = Uint<{ nlimbs!(128 * 5) }>;
                $($over)*
            }
        )*
        fn variant_streams(dst: &[u8]) -> Vec<(&'static str, Vec<u8>, Vec<u8>)> {
            vec![$((stringify!($name), stream(dst, |h| chain_scheme_params::<$name, _>(h)), {
                let h = chain_scheme_params::<$name, _>(Hasher::<Shake256>::new_with_dst(dst)).finalize(128);
                hex_of(&serde_json::to_value(&h).expect("ser"))
            })),*]
        }
    };
}
#[derive(Debug, Copy, Clone, PartialEq, Eq, Serialize, Deserialize)]
struct Pail127;
impl PaillierParams for Pail127 {
    const PRIME_BITS: u32 = 127;
    type HalfUint = U128;
    type Uint = U256;
    type WideUint = U512;
}
type PT = <T as SchemeParams>::Paillier;
type C32 = tiny_curve::TinyCurve32;
type C64 = tiny_curve::TinyCurve64;
variants! {
    V0 { C32, PT, const SECURITY_BITS: usize = 16; }
    V1 { C32, PT, const SECURITY_BITS: usize = 17; }
    V2 { C32, PT, const SECURITY_BITS: usize = 272; }
    V3 { C32, PT, const SECURITY_BITS: usize = 16; const SECURITY_PARAMETER: usize = 31; const L_BOUND: u32 = 32; }
    V4 { C32, PT, const SECURITY_BITS: usize = 16; const L_BOUND: u32 = 33; const LP_BOUND: u32 = 160; const EPS_BOUND: u32 = 64; }
    V5 { C32, PT, const SECURITY_BITS: usize = 16; const LP_BOUND: u32 = 161; }
    V6 { C32, PT, const SECURITY_BITS: usize = 16; const EPS_BOUND: u32 = 65; }
    V7 { C32, Pail127, const SECURITY_BITS: usize = 16; const LP_BOUND: u32 = 160; const EPS_BOUND: u32 = 64; }
    V8 { C64, PT, const SECURITY_BITS: usize = 16; const SECURITY_PARAMETER: usize = 32; }
    V9 { C32, PT, const SECURITY_BITS: usize = 16; const LP_BOUND: u32 = 64; const EPS_BOUND: u32 = 160; }
}

fn run_params(dst: &Vec<u8>) -> R {
    let v = variant_streams(dst);
    for (i, (n1, s1, h1)) in v.iter().enumerate() {
        for (n2, s2, h2) in v.iter().skip(i + 1) {
            vensure!(s1 != s2 && h1 != h2, "params/collision", "the parameter sets {n1} and {n2} are hashed identically");
        }
    }
    vensure!(v == variant_streams(dst), "params/deterministic");
    good()
}

pub fn c16(ctx: &Ctx) {
    ctx.check("byte_strings", "two different lists of byte strings (cut differently, edited, forged lengths) under domain tags", ctx.n(60_000, 1_000_000), scripts, run_scripts);
    ctx.check("structured_items", "two lists of serializable items of the same types, differing", ctx.n(60_000, 1_000_000), item_case, run_items);
    let xof = |min: usize, max_bits: u32| {
        move || {
            (prop_oneof![6 => proptest::collection::vec(any::<u8>(), min), 1 => any::<u8>().prop_map(move |b| vec![b | 1; min])], 0..=max_bits, any::<u16>())
                .prop_map(|(bytes, bits, key)| XofCase { bytes, bits, key })
                .boxed()
        }
    };
    ctx.check("xof_uint/64", "a stream and a bit size", ctx.n(8_000, 200_000), xof(1024, 64), run_xof_uint::<U64>);
    ctx.check("xof_uint/256", "a stream and a bit size", ctx.n(8_000, 200_000), xof(1024, 256), run_xof_uint::<U256>);
    ctx.check("xof_uint/2048", "a stream and a bit size", ctx.n(8_000, 200_000), xof(1024, 2048), run_xof_uint::<U2048>);
    ctx.check("xof_signed/128", "a stream and an exponent", ctx.n(8_000, 200_000), xof(1024, 127), run_xof_signed::<U128>);
    ctx.check("xof_signed/256", "a stream and an exponent", ctx.n(8_000, 200_000), xof(1024, 255), run_xof_signed::<U256>);
    ctx.check("xof_signed/2048", "a stream and an exponent", ctx.n(8_000, 200_000), xof(1024, 2047), run_xof_signed::<U2048>);
    ctx.check("xof_small", "every stream for a range of at most 11 bits", ctx.n(24, 100), xof(1, 100), run_xof_small);
    ctx.check("xof_scalar/tiny", "a stream", ctx.n(6_000, 100_000), xof(1024, 1), run_xof_scalar::<T>);
    ctx.check("xof_scalar/k256", "a stream", ctx.n(4_000, 60_000), xof(1024, 1), run_xof_scalar::<K>);
    ctx.check("xof_bits", "a stream and a length", ctx.n(8_000, 200_000), xof(1024, 199), run_xof_bits);
    ctx.check("xof_residue/tiny", "a stream and a modulus", ctx.n(3_000, 60_000), xof(1024, 1), run_xof_residue::<PT>);
    ctx.check("xof_residue/k256", "a stream and a modulus", ctx.n(60, 1_000), xof(4096, 1), run_xof_residue::<<K as SchemeParams>::Paillier>);
    ctx.check("scheme_params", "ten parameter sets that differ in one constant each, under a domain tag", ctx.n(400, 4_000), || bytes(20), run_params);
}

// ---------------------------------------------------------------- C17: wire encodings

/// Round trips through JSON and bincode; the decoded objects re-encode to the same bytes and satisfy `same`.
pub fn wire<W: Serialize + DeserializeOwned>(what: &str, x: &W, same: impl Fn(&W) -> bool) -> Result<(Value, Vec<u8>), Fail> {
    let j = serde_json::to_value(x).map_err(|e| Fail { sig: format!("{what}/json encode"), msg: format!("{e}") })?;
    let js = serde_json::to_string(x).expect("encodes");
    let bc = bincode::serialize(x).map_err(|e| Fail { sig: format!("{what}/binary encode"), msg: format!("{e}") })?;
    let xj: W = serde_json::from_str(&js).map_err(|e| Fail { sig: format!("{what}/json decode"), msg: format!("{e}: {js}") })?;
    let xb: W = bincode::deserialize(&bc).map_err(|e| Fail { sig: format!("{what}/binary decode"), msg: format!("{e}: {j}") })?;
    for (name, y) in [("json", &xj), ("binary", &xb)] {
        vensure!(same(y), format!("{what}/{name} changed the value"), "{j}");
        vensure!(serde_json::to_value(y).expect("encodes") == j, format!("{what}/{name} re-encodes differently"), "{j}");
        vensure!(bincode::serialize(y).expect("encodes") == bc, format!("{what}/{name} re-encodes differently (binary)"), "{j}");
    }
    Ok((j, bc))
}

fn leafs(x: &impl Serialize) -> Value {
    serde_json::to_value(x).expect("encodes")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct WireCase {
    v: Big,
    w: Big,
    s: SBig,
    bound: u32,
    k: Big,
    ks: Vec<Big>,
    bits: Vec<bool>,
    bytes: Vec<u8>,
    key: u16,
}

fn wire_case<P: Inst>() -> BoxedStrategy<WireCase> {
    let nb = <P::Paillier as PaillierParams>::MODULUS_BITS;
    (
        (big_bits(nb), big_bits(2 * nb)),
        prop_oneof![0u32..40, 0..nb].prop_flat_map(|b| (sbig_bits(b), Just(b))),
        scalar_big::<P>(),
        proptest::collection::vec(scalar_big::<P>(), 1..5),
        proptest::collection::vec(any::<bool>(), 0..70),
        bytes(40),
        any::<u16>(),
    )
        .prop_map(|((v, w), (s, bound), k, ks, bits, bytes, key)| WireCase { v, w, s, bound, k, ks, bits, bytes, key })
        .boxed()
}

type U_<P> = <<P as SchemeParams>::Paillier as PaillierParams>::Uint;
type W_<P> = <<P as SchemeParams>::Paillier as PaillierParams>::WideUint;
type H_<P> = <<P as SchemeParams>::Paillier as PaillierParams>::HalfUint;

fn run_wire<P: Inst>(c: &WireCase) -> R {
    let nb = <P::Paillier as PaillierParams>::MODULUS_BITS;
    let x = pub_uint::<U_<P>>(&c.v);
    wire("uint", &x, |y| *y == x)?;
    vensure!(leaf(&x) == c.v, "uint/value");
    let x = pub_uint::<W_<P>>(&c.w);
    wire("wide uint", &x, |y| *y == x)?;
    let h = c.v.low_bits(nb / 2);
    let x = pub_uint::<H_<P>>(&h);
    wire("half uint", &x, |y| *y == x)?;
    let x = ps::<U_<P>>(&c.s, c.bound);
    wire("signed", &x, |y| psv(y) == c.s && y.bound() == c.bound && *y == x)?;
    let x = ps::<W_<P>>(&c.s, c.bound + 3);
    wire("wide signed", &x, |y| psv(y) == c.s && y.bound() == c.bound + 3 && *y == x)?;
    let sx: PublicSigned<P::ExtraWideUint> = ps::<P::ExtraWideUint>(&c.s, c.bound + 3);
    wire("extra wide signed", &sx, |y| psv(y) == c.s && y.bound() == c.bound + 3)?;
    let x = sec(u::<U_<P>>(&c.v));
    wire("secret uint", &x, |y| b(y.expose_secret()) == c.v)?;
    let x = ssc::<P>(&c.k);
    wire("secret scalar", &x, |y| scv(y.expose_secret()) == c.k)?;
    let x = sc::<P>(&c.k);
    wire("scalar", &x, |y| *y == x)?;
    let x = sc::<P>(&c.k).mul_by_generator();
    wire("point", &x, |y| *y == x)?;
    wire("identity", &Point::<P>::identity(), |y| *y == Point::identity())?;
    let x = bitvec(&c.bits);
    wire("bit string", &x, |y| y.bits() == c.bits)?;
    let x = Hasher::<Shake256>::new_with_dst(&c.bytes).finalize(c.bits.len());
    wire("digest", &x, |y| *y == x)?;
    let x = cipher_wire::<P::Paillier>(&c.w);
    wire("ciphertext", &x, |y| leaf(y) == c.w)?;
    let (n, t) = odd_and_unit(&c.v, &c.v.low_bits(nb - 1));
    let x = rp_wire::<P::Paillier>(&n, &t, &Big::one());
    wire("ring-pedersen parameters", &x, |y| b(y.modulus()) == n)?;
    let x = ShareId::<P>::new(c.key as u64);
    wire("share id", &x, |y| *y == x)?;
    let xs: Vec<Point<P>> = c.ks.iter().map(|k| sc::<P>(k).mul_by_generator()).collect();
    let pp: PublicPolynomial<P> = serde_json::from_value(serde_json::to_value(&xs).expect("ser")).expect("a polynomial is a list of points");
    wire("public polynomial", &pp, |y| serde_json::to_value(y).ok() == serde_json::to_value(&xs).ok())?;
    let scom = SchCommitment::new(&SchSecret::<P>::random(&mut rng(c.key as u64)));
    wire("schnorr commitment", &scom, |y| leafs(y) == leafs(&scom))?;
    // keys and things made with them
    let r = key(nb / 2, false, c.key as usize);
    let skw: SecretKeyPaillierWire<P::Paillier> = secret_key::<P::Paillier>(&r).into_wire();
    wire("secret key", &skw, |y| b(y.public_key().modulus()) == r.n)?;
    let pkw = skw.public_key();
    wire("public key", &pkw, |y| *y == pkw && b(y.modulus()) == r.n)?;
    Ok(obs(true).tag_if(c.s.neg, "negative").tag_if(c.bits.len() % 8 != 0, "partial byte").tag_if(c.bound % 8 != 0, "partial byte bound"))
}

fn run_wire_paillier<P: Inst>(c: &WireCase) -> R {
    // objects that only exist in some relation to a key
    let nb = <P::Paillier as PaillierParams>::MODULUS_BITS;
    let rpp = rp_params::<P::Paillier>(c.key as usize % 8);
    let com = rpp.commit(&ss::<U_<P>>(&c.s, c.bound), &ss::<U_<P>>(&SBig::from(c.v.low_bits(20)), 20)).to_wire();
    wire("commitment", &com, |y| leaf(y) == leaf(&com) && y.to_precomputed(&rpp) == com.to_precomputed(&rpp))?;
    wire("ring-pedersen parameters", &rpp.to_wire(), |y| y.to_precomputed().modulus() == rpp.modulus() && y.to_precomputed().base_value() == rpp.base_value() && y.to_precomputed().base_randomizer() == rpp.base_randomizer())?;
    let r = key(nb / 2, false, c.key as usize);
    let sk = secret_key::<P::Paillier>(&r);
    let rho = Randomizer::<P::Paillier>::random(&mut rng(c.key as u64), sk.public_key());
    let ct = Ciphertext::new_with_randomizer(sk.public_key(), &ss::<U_<P>>(&SBig::from(c.v.low_bits(nb - 2)), nb - 2), &rho);
    wire("ciphertext", &ct.to_wire(), |y| y.to_precomputed(sk.public_key()) == ct)?;
    let skw = sk.clone().into_wire();
    wire("secret key", &skw, |y| {
        let s2 = y.clone().into_precomputed();
        *s2.public_key() == *sk.public_key() && psv(&ct.decrypt(&s2).to_public()) == psv(&ct.decrypt(&sk).to_public())
    })?;
    good()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ForgeCase {
    s: SBig,
    bound: u32,
    abs: Vec<u8>,
    len: u32,
    new_bound: u32,
    neg: bool,
}

/// Where the leaves of a serialized flat object are, by their JSON type.
fn with_leaves(v: &Value, num: Option<u64>, boolean: Option<bool>, string: Option<String>) -> Value {
    match v {
        Value::Number(_) => num.map(|n| n.into()).unwrap_or(v.clone()),
        Value::Bool(_) => boolean.map(|n| n.into()).unwrap_or(v.clone()),
        Value::String(_) => string.clone().map(|n| n.into()).unwrap_or(v.clone()),
        Value::Array(a) => a.iter().map(|x| with_leaves(x, num, boolean, string.clone())).collect::<Vec<_>>().into(),
        Value::Object(o) => Value::Object(o.iter().map(|(k, x)| (k.clone(), with_leaves(x, num, boolean, string.clone()))).collect()),
        Value::Null => Value::Null,
    }
}

fn string_of(v: &Value) -> String {
    match v {
        Value::String(s) => s.clone(),
        Value::Object(o) => o.values().map(string_of).find(|s| !s.is_empty()).unwrap_or_default(),
        Value::Array(o) => o.iter().map(string_of).find(|s| !s.is_empty()).unwrap_or_default(),
        _ => String::new(),
    }
}

fn hex_str(b: &[u8]) -> String {
    b.iter().map(|x| format!("{x:02x}")).collect()
}

fn forge_case(bits: u32) -> BoxedStrategy<ForgeCase> {
    let b = prop_oneof![Just(8u32), 1u32..40, 1..bits];
    b.prop_flat_map(move |b| {
        (
            sbig_bits(b),
            Just(b),
            prop_oneof![4 => big_bits(b + 2).prop_map(|x| x.to_be(((x.bits() as usize).div_ceil(8)).max(1))), 1 => proptest::collection::vec(any::<u8>(), 0..(bits as usize / 8 + 3))],
            prop_oneof![3 => Just(0u32), 1 => 0u32..3],
            prop_oneof![4 => Just(b), 2 => (0u32..4).prop_map(move |d| (b + d).saturating_sub(2)), 1 => bits - 3..bits + 3, 1 => Just(u32::MAX), 1 => any::<u32>()],
            any::<bool>(),
        )
    })
    .prop_map(|(s, bound, abs, len, new_bound, neg)| ForgeCase { s, bound, abs, len, new_bound, neg })
    .boxed()
}

/// Signed integers with a forged magnitude or bound.
fn run_forge<U: BoxedEncoding + Integer + Bounded>(c: &ForgeCase) -> R {
    let orig = ps::<U>(&c.s, c.bound);
    let j = serde_json::to_value(&orig).expect("ser");
    let prefix = if string_of(&j).starts_with("0x") { "0x" } else { "" };
    // pad to the expected length most of the time
    let abs = Big::from_be(&c.abs);
    let want = (c.new_bound as usize).div_ceil(8);
    let mut raw = c.abs.clone();
    if c.len == 0 && want >= (abs.bits() as usize).div_ceil(8) && want <= U::BITS as usize / 8 + 1 {
        raw = abs.to_be(want);
    }
    let forged = with_leaves(&j, Some(c.new_bound as u64), Some(c.neg), Some(format!("{prefix}{}", hex_str(&raw))));
    let valid = c.new_bound < U::BITS && abs.bits() <= c.new_bound;
    let canonical = valid && raw.len() == want;
    let expect = SBig::new(c.neg, abs.clone());
    let check = |r: Option<PublicSigned<U>>, how: &str| -> Result<bool, Fail> {
        match r {
            Some(y) => {
                vensure!(valid, format!("{how}/accepted out of bound"), "|x| has {} bits, declared bound {}, type {} bits", abs.bits(), c.new_bound, U::BITS);
                vensure!(psv(&y) == expect && y.bound() == c.new_bound, format!("{how}/value"), "{:?} decoded from {forged}", psv(&y));
                let again: PublicSigned<U> = serde_json::from_value(serde_json::to_value(&y).expect("ser")).expect("own encoding decodes");
                vensure!(again == y, format!("{how}/unstable"));
                Ok(true)
            }
            None => {
                vensure!(!canonical, format!("{how}/refused"), "a well-formed integer {expect:?} with bound {} is refused", c.new_bound);
                Ok(false)
            }
        }
    };
    let a1 = check(serde_json::from_value(forged.clone()).ok(), "json")?;
    // the binary form, patched through the same positions: bound (4 bytes), sign, length-prefixed bytes
    #[derive(Serialize)]
    struct Mirror<'a> {
        bound: u32,
        neg: bool,
        #[serde(with = "bytes_mod")]
        abs: &'a [u8],
    }
    mod bytes_mod {
        pub fn serialize<S: serde::Serializer>(b: &&[u8], s: S) -> Result<S::Ok, S::Error> {
            s.serialize_bytes(b)
        }
    }
    let own = {
        let h = hex_of(&j);
        bincode::serialize(&Mirror { bound: c.bound, neg: c.s.neg, abs: &h }).expect("ser")
    };
    let mut tag = "json";
    if own == bincode::serialize(&orig).expect("ser") {
        tag = "json and binary";
        let forged = bincode::serialize(&Mirror { bound: c.new_bound, neg: c.neg, abs: &raw }).expect("ser");
        let a2 = check(bincode::deserialize(&forged).ok(), "binary")?;
        vensure!(a1 == a2, "encodings disagree");
    }
    Ok(obs(true).tag(tag).tag(if a1 { "accepted" } else { "refused" }).tag_if(canonical, "well-formed"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BitForge {
    bits: Vec<bool>,
    len: u32,
}

fn run_bit_forge(c: &BitForge) -> R {
    let x = bitvec(&c.bits);
    let j = serde_json::to_value(&x).expect("ser");
    let nbytes = c.bits.len().div_ceil(8);
    for (how, r) in [("json", serde_json::from_value::<BitVec>(with_leaves(&j, Some(c.len as u64), None, None)).ok()), {
        let mut b = bincode::serialize(&x).expect("ser");
        if b[..4] == (c.bits.len() as u32).to_le_bytes() {
            b[..4].copy_from_slice(&c.len.to_le_bytes());
        }
        ("binary", bincode::deserialize::<BitVec>(&b).ok())
    }] {
        match r {
            Some(y) => {
                vensure!(c.len as usize <= nbytes * 8, format!("{how}/accepted a length beyond its bytes"), "{} bits in {nbytes} bytes", c.len);
                vensure!(y.bits().len() == c.len as usize, format!("{how}/length"));
                let k = c.bits.len().min(c.len as usize);
                vensure!(y.bits()[..k] == c.bits[..k] && y.bits()[k..].iter().all(|b| !b), format!("{how}/value"));
            }
            None => vensure!(c.len as usize != c.bits.len(), format!("{how}/refused its own encoding")),
        }
    }
    Ok(obs(true).tag(if (c.len as usize) > nbytes * 8 { "too long" } else { "fits" }))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RawCase {
    which: u8,
    seed: u64,
    edits: Vec<(u16, u8)>,
    /// extreme integers written over four or eight bytes, preferably near the start
    #[serde(default)]
    ints: Vec<(u16, u8)>,
    cut: u16,
    raw: Option<Vec<u8>>,
}

/// Whatever the bytes: no panic, and what decodes is stable.
fn stable<W: Serialize + DeserializeOwned>(bytes: &[u8]) -> Result<bool, Fail> {
    let r = no_panic(|| bincode::deserialize::<W>(bytes).ok());
    match r {
        Err(p) => fail(panic_site(&p), p),
        Ok(None) => Ok(false),
        Ok(Some(x)) => {
            let e = bincode::serialize(&x).map_err(|e| Fail { sig: "re-encode".into(), msg: format!("{e}") })?;
            let y: W = bincode::deserialize(&e).map_err(|e| Fail { sig: "own encoding refused".into(), msg: format!("{e}") })?;
            vensure!(bincode::serialize(&y).expect("ser") == e, "unstable encoding");
            let j = serde_json::to_string(&x).map_err(|e| Fail { sig: "json".into(), msg: format!("{e}") })?;
            let z: W = serde_json::from_str(&j).map_err(|e| Fail { sig: "own json refused".into(), msg: format!("{e}") })?;
            vensure!(bincode::serialize(&z).expect("ser") == e, "json and binary disagree");
            Ok(true)
        }
    }
}

/// An odd number near the first one (at least 3), and the first invertible element not less than the second one.
fn odd_and_unit(v: &Big, t: &Big) -> (Big, Big) {
    let n = v.shr(1).shl(1).add(&Big::one());
    let n = if n.is_one() { Big::from_u64(3) } else { n };
    let mut t = t.clone();
    while !t.gcd(&n).is_one() {
        t = t.add(&Big::one());
    }
    (n, t)
}

fn run_raw<P: Inst>(c: &RawCase) -> R {
    let mut g = rng(c.seed);
    let k = Big::random_below(&mut g, &P::rc().n);
    let nb = <P::Paillier as PaillierParams>::MODULUS_BITS;
    let v = Big::random_below(&mut g, &Big::pow2(nb));
    let w = Big::random_below(&mut g, &Big::pow2(2 * nb));
    let sv = ps::<U_<P>>(&SBig::new(c.seed & 1 == 1, v.low_bits(77)), 77);
    macro_rules! types {
        ($($n:literal => $t:ty = $e:expr),* $(,)?) => {{
            match c.which % 16 {
                $($n => { let x: $t = $e; (bincode::serialize(&x).expect("ser"), stable::<$t> as fn(&[u8]) -> Result<bool, Fail>) })*
                _ => unreachable!(),
            }
        }};
    }
    let (mut b, f) = types! {
        0 => PublicUint<U_<P>> = pub_uint(&v),
        1 => PublicSigned<U_<P>> = sv,
        2 => Secret<U_<P>> = sec(u(&v)),
        3 => Secret<Scalar<P>> = ssc(&k),
        4 => Scalar<P> = sc(&k),
        5 => Point<P> = sc::<P>(&k).mul_by_generator(),
        6 => BitVec = bitvec(&(0..29).map(|i| v.bit(i)).collect::<Vec<_>>()),
        7 => HashOutput = Hasher::<Shake256>::new_with_dst(b"x").chain_bytes(&c.seed.to_be_bytes()).finalize(60),
        8 => CiphertextWire<P::Paillier> = cipher_wire(&w),
        9 => RPParamsWire<P::Paillier> = { let (n, t) = odd_and_unit(&v, &v.shr(1)); rp_wire(&n, &t, &t) },
        10 => RPCommitmentWire<P::Paillier> = rp_params::<P::Paillier>(0).commit_zero_value(&ss::<U_<P>>(&SBig::from(Big::one()), 1)).to_wire(),
        11 => PublicKeyPaillierWire<P::Paillier> = secret_key::<P::Paillier>(&key(nb / 2, false, 0)).public_key().clone().into_wire(),
        12 => PublicPolynomial<P> = Polynomial::<P>::random(&mut g, ssc(&k), 3).public(),
        13 => ShareId<P> = ShareId::new(c.seed % 1000),
        14 => SchCommitment<P> = SchCommitment::new(&SchSecret::<P>::random(&mut g)),
        15 => Vec<PublicSigned<W_<P>>> = vec![ps(&SBig::from(Big::one()), 9), ps(&SBig::zero(), 0)],
    };
    match &c.raw {
        Some(r) => b = r.clone(),
        None => {
            for (i, x) in &c.edits {
                let l = b.len();
                b[*i as usize % l] ^= x;
            }
            for (at, what) in &c.ints {
                let at = if *at & 1 == 0 { (*at as usize / 2) % 24 } else { *at as usize / 2 };
                let x: u64 = [u64::MAX, u64::MAX - 6, u32::MAX as u64, u32::MAX as u64 - 6, 1 << 31, (1 << 31) - 1, 1 << 63, 1 << 40, 1 << 20, 0, 1, 0xffff][*what as usize / 4 % 12];
                let x = x.wrapping_sub((*what as u64) & 1);
                let w = if what & 2 == 0 { 4 } else { 8 };
                for (d, s) in b.iter_mut().skip(at).zip(&x.to_le_bytes()[..w]) {
                    *d = *s;
                }
            }
            if c.cut < 20 {
                b.truncate(b.len().saturating_sub(c.cut as usize));
            }
        }
    }
    let ok = f(&b)?;
    Ok(obs(true).tag(if ok { "decoded" } else { "refused" }))
}

fn bit_forges() -> BoxedStrategy<BitForge> {
    let len = prop_oneof![4 => 0u32..70, 1 => (0u32..20).prop_map(|x| u32::MAX - x), 1 => (0u32..20, 5u32..32).prop_map(|(x, k)| (1u32 << k).wrapping_add(x).wrapping_sub(10))];
    (proptest::collection::vec(any::<bool>(), 0..50), len).prop_map(|(bits, len)| BitForge { bits, len }).boxed()
}

fn raw_case() -> BoxedStrategy<RawCase> {
    (
        any::<u8>(),
        any::<u64>(),
        proptest::collection::vec((any::<u16>(), any::<u8>()), 0..4),
        prop_oneof![2 => Just(vec![]), 1 => proptest::collection::vec((0u16..400, any::<u8>()), 1..3)],
        prop_oneof![1 => 0u16..20, 2 => Just(100u16)],
        proptest::option::weighted(0.2, proptest::collection::vec(any::<u8>(), 0..90)),
    )
        .prop_map(|(which, seed, edits, ints, cut, raw)| RawCase { which, seed, edits, ints, cut, raw })
        .boxed()
}

/// The part of C15 about wire types other than proofs.
pub fn c15_wire(ctx: &Ctx) {
    let r = "random or damaged bytes, or bytes with extreme counts written over them, were given to the decoder of one wire type";
    ctx.check("wire_bytes/tiny", r, ctx.n(60_000, 1_000_000), raw_case, run_raw::<T>);
    ctx.check("wire_bytes/k256", r, ctx.n(6_000, 100_000), raw_case, run_raw::<K>);
    ctx.check("wire_bits", "a bit string whose declared length was replaced", ctx.n(40_000, 800_000), bit_forges, run_bit_forge);
    let r = "a signed integer whose encoded magnitude, length, sign or bound was replaced";
    ctx.check("wire_signed/256", r, ctx.n(20_000, 400_000), || forge_case(256), run_forge::<U256>);
    ctx.check("wire_signed/2048", r, ctx.n(5_000, 100_000), || forge_case(2048), run_forge::<U2048>);
}

pub fn c17(ctx: &Ctx) {
    ctx.check("round_trip/tiny", "one value of each wire type", ctx.n(6_000, 150_000), wire_case::<T>, run_wire::<T>);
    ctx.check("round_trip/k256", "one value of each wire type", ctx.n(800, 20_000), wire_case::<K>, run_wire::<K>);
    ctx.check("round_trip_keyed/tiny", "commitments, ciphertexts, keys made with a key", ctx.n(3_000, 60_000), wire_case::<T>, run_wire_paillier::<T>);
    ctx.check("round_trip_keyed/k256", "commitments, ciphertexts, keys made with a key", ctx.n(16, 300), wire_case::<K>, run_wire_paillier::<K>);
    let r = "a signed integer whose encoded magnitude, length, sign or bound was replaced";
    ctx.check("forged_signed/128", r, ctx.n(40_000, 800_000), || forge_case(128), run_forge::<U128>);
    ctx.check("forged_signed/256", r, ctx.n(40_000, 800_000), || forge_case(256), run_forge::<U256>);
    ctx.check("forged_signed/2048", r, ctx.n(10_000, 200_000), || forge_case(2048), run_forge::<U2048>);
    let bf = bit_forges;
    ctx.check("forged_bits", "a bit string whose declared length was replaced", ctx.n(40_000, 800_000), bf, run_bit_forge);
    ctx.check("raw_bytes/tiny", "random or damaged bytes for one wire type", ctx.n(60_000, 1_000_000), raw_case, run_raw::<T>);
    ctx.check("raw_bytes/k256", "random or damaged bytes for one wire type", ctx.n(12_000, 200_000), raw_case, run_raw::<K>);
    super::zkc::c17_proofs(ctx);
}

// ---------------------------------------------------------------- C19: the secret wrapper

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SecCase {
    a: Big,
    b: Big,
    m: Big,
    e: SBig,
    k: Big,
    l: Big,
    ks: Vec<Big>,
}

fn sec_case(bits: u32) -> BoxedStrategy<SecCase> {
    (
        big_bits(bits),
        prop_oneof![big_bits(bits), big_bits(bits / 2)],
        prop_oneof![3 => big_bits(bits), 1 => big_bits(bits / 2), 1 => big_bits(20)],
        sbig_bits(60),
        scalar_big::<K>(),
        scalar_big::<K>(),
        proptest::collection::vec(scalar_big::<K>(), 0..5),
    )
        .prop_map(|(a, b, m, e, k, l, ks)| SecCase { a, b, m, e, k, l, ks })
        .boxed()
}

/// The operations the wrapper offers on plain integers.
fn run_sec_uint<const L: usize, const W: usize>(c: &SecCase) -> R
where
    Uint<L>: BoxedEncoding + crate::uint::Extendable<Uint<W>> + crypto_bigint::ConcatMixed<Uint<L>>,
    Uint<W>: BoxedEncoding,
{
    let bits = Uint::<L>::BITS;
    let mask = Big::pow2(bits);
    let v = |x: &Big| u::<Uint<L>>(x);
    let s = |x: &Big| sec(u::<Uint<L>>(x));
    let g = |x: &Secret<Uint<L>>| b(x.expose_secret());
    let (a, bb) = (&c.a, &c.b);
    let (sa, sb) = (s(a), s(bb));
    vensure!(g(&sa) == *a && g(&sa.clone()) == *a, "init");
    vensure!(b(sa.to_wide::<Uint<W>>().expose_secret()) == *a, "to_wide");
    vensure!(g(&sa.wrapping_add(&sb)) == a.add(bb).rem(&mask), "wrapping_add");
    vensure!(g(&sa.wrapping_sub(&sb)) == a.add(&mask).sub(bb).rem(&mask), "wrapping_sub");
    vensure!(g(&sa.wrapping_mul(&sb)) == a.mul(bb).rem(&mask), "wrapping_mul");
    vensure!(g(&sa.wrapping_neg()) == mask.sub(a).rem(&mask), "wrapping_neg");
    if a.add(bb) < mask {
        let e = a.add(bb);
        let vb = v(bb);
        let mut x = sa.clone();
        x += &vb;
        let mut y = sa.clone();
        y += sb.clone();
        vensure!([g(&(sa.clone() + &vb)), g(&(&sa + &vb)), g(&(sa.clone() + sb.clone())), g(&(sa.clone() + &sb)), g(&(&sa + sb.clone())), g(&(&sa + &sb)), g(&x), g(&y)].iter().all(|z| *z == e), "add");
    }
    if a >= bb {
        let e = a.sub(bb);
        vensure!([g(&(sa.clone() - &v(bb))), g(&(sa.clone() - sb.clone()))].iter().all(|z| *z == e), "sub");
    }
    if a.mul(bb) < mask {
        let e = a.mul(bb);
        let vb = v(bb);
        let mut x = sa.clone();
        x *= &vb;
        vensure!([g(&(sa.clone() * &vb)), g(&(&sa * &vb)), g(&(&sa * vb)), g(&(sa.clone() * vb)), g(&(sa.clone() * sb.clone())), g(&(sa.clone() * &sb)), g(&(&sa * &sb)), g(&x)].iter().all(|z| *z == e), "mul");
    }
    if !c.m.is_zero() {
        let nz = NonZero::new(v(&c.m)).expect("nonzero");
        let (q, r) = a.divrem(&c.m);
        let mut x = sa.clone();
        x /= &nz;
        let mut y = sa.clone();
        y %= &nz;
        vensure!(g(&(sa.clone() / nz)) == q && g(&x) == q, "div");
        vensure!(g(&(&sa % &nz)) == r && g(&y) == r, "rem");
    }
    for ch in [0u8, 1] {
        let z = Secret::conditional_select(&sa, &sb, Choice::from(ch));
        vensure!(g(&z) == if ch == 0 { a.clone() } else { bb.clone() }, "select");
    }
    let mut x = sa.clone();
    *x.expose_secret_mut() = v(bb);
    vensure!(g(&x) == *bb && g(&sa) == *a, "clone is independent");
    let t: Result<Secret<Uint<L>>, ()> = Secret::try_init_with(|| Err(()));
    vensure!(t.is_err(), "try_init_with/err");
    let t: Result<Secret<Uint<L>>, ()> = Secret::try_init_with(|| Ok(v(a)));
    vensure!(t.is_ok_and(|x| g(&x) == *a), "try_init_with/ok");
    // what is printed does not depend on the contents
    vensure!(format!("{sa:?}") == format!("{sb:?}") && format!("{sa:#?}") == format!("{sb:#?}"), "debug", "{sa:?} {sb:?}");
    Ok(obs(true))
}

/// Modular arithmetic through the wrapper.
fn run_sec_monty<P: PaillierParams>(c: &SecCase) -> R {
    type M<P> = <<P as PaillierParams>::Uint as Integer>::Monty;
    let m = if c.m.is_odd() { c.m.clone() } else { c.m.add(&Big::one()) };
    if m.is_one() {
        return Ok(obs(false));
    }
    let params = <M<P> as Monty>::new_params_vartime(Odd::new(u::<P::Uint>(&m)).expect("odd"));
    let (a, bb) = (c.a.rem(&m), c.b.rem(&m));
    let sa = sec(u::<P::Uint>(&a)).to_montgomery(&params);
    let sb = sec(u::<P::Uint>(&bb)).to_montgomery(&params);
    let g = |x: &Secret<M<P>>| b(x.retrieve().expose_secret());
    vensure!(g(&sa) == a, "retrieve");
    vensure!(g(&(&sa + &sb)) == a.add(&bb).rem(&m), "monty/add");
    vensure!(g(&(sa.clone() - sb.clone())) == a.add(&m).sub(&bb).rem(&m), "monty/sub");
    vensure!(g(&(&sa * &sb)) == a.mulmod(&bb, &m), "monty/mul");
    vensure!(g(&-&sa) == m.sub(&a).rem(&m), "monty/neg");
    for ch in [0u8, 1] {
        let wp = <<P::WideUint as Integer>::Monty as Monty>::new_params_vartime(Odd::new(u::<P::WideUint>(&m)).expect("odd"));
        let mut x = sec(u::<P::WideUint>(&a)).to_montgomery(&wp);
        x.conditional_negate(Choice::from(ch));
        vensure!(b(x.retrieve().expose_secret()) == if ch == 0 { a.clone() } else { m.sub(&a).rem(&m) }, "monty/conditional_negate");
    }
    let un = su::<P::Uint>(&c.e.mag, 60);
    vensure!(g(&sa.pow(&un)) == a.powmod(&c.e.mag, &m), "monty/pow_unsigned");
    // for secret signed exponents the base has to be invertible
    if a.gcd(&m).is_one() {
        let inv = a.invmod(&m).expect("coprime");
        let e = if c.e.neg { inv.powmod(&c.e.mag, &m) } else { a.powmod(&c.e.mag, &m) };
        vensure!(g(&sa.pow(&ss::<P::Uint>(&c.e, 60))) == e, "monty/pow_secret_signed");
        vensure!(g(&sa.pow(&ps::<P::Uint>(&c.e, 60))) == e, "monty/pow_public_signed");
    }
    vensure!(format!("{sa:?}") == format!("{sb:?}"), "debug");
    good()
}

fn run_sec_scalar<P: Inst>(c: &SecCase) -> R {
    let n = &P::rc().n;
    let (k, l) = (c.k.rem(n), c.l.rem(n));
    let (sk, sl) = (ssc::<P>(&k), ssc::<P>(&l));
    let (pk_, pl) = (sc::<P>(&k), sc::<P>(&l));
    let g = |x: &Secret<Scalar<P>>| scv(x.expose_secret());
    let sum = k.add(&l).rem(n);
    let prod = k.mulmod(&l, n);
    vensure!([g(&(&sk + &sl)), g(&(sk.clone() + sl.clone())), g(&(sk.clone() + &pl)), g(&(&sk + &pl)), g(&(&sk + sl.clone())), g(&(sk.clone() + &sl))].iter().all(|x| *x == sum), "scalar/add");
    vensure!([g(&(sk.clone() - sl.clone())), g(&(sk.clone() - &pl))].iter().all(|x| *x == k.add(n).sub(&l).rem(n)), "scalar/sub");
    vensure!([g(&(&sk * &sl)), g(&(sk.clone() * sl.clone())), g(&(&sk * pl)), g(&(sk.clone() * pl)), g(&(&sk * &pl)), g(&(sk.clone() * &pl)), g(&(sk.clone() * &sl))].iter().all(|x| *x == prod), "scalar/mul");
    vensure!(g(&-&sk) == n.sub(&k).rem(n), "scalar/neg");
    let ks: Vec<Secret<Scalar<P>>> = c.ks.iter().map(|x| ssc::<P>(&x.rem(n))).collect();
    let e = c.ks.iter().fold(Big::zero(), |s, x| s.add(x).rem(n));
    vensure!(g(&ks.iter().sum::<Secret<Scalar<P>>>()) == e && g(&ks.iter().cloned().sum::<Secret<Scalar<P>>>()) == e, "scalar/sum");
    vensure!(sk.mul_by_generator() == pk_.mul_by_generator(), "scalar/mul_by_generator");
    let p = pl.mul_by_generator();
    vensure!(p * sk.clone() == p * pk_ && p * &sk == p * pk_ && &p * sk.clone() == p * pk_ && &p * &sk == p * pk_, "scalar/point mul");
    for ch in [0u8, 1] {
        vensure!(g(&Secret::conditional_select(&sk, &sl, Choice::from(ch))) == if ch == 0 { k.clone() } else { l.clone() }, "scalar/select");
    }
    // a signing key for every non-zero scalar
    let key = sk.to_signing_key();
    vensure!(key.is_some() == !k.is_zero(), "scalar/signing key");
    if let Some(key) = key {
        vensure!(Point::<P>::from_verifying_key(key.verifying_key()) == pk_.mul_by_generator(), "scalar/signing key value");
    }
    vensure!(format!("{sk:?}") == format!("{sl:?}") && format!("{sk:#?}") == format!("{sl:#?}"), "debug", "{sk:?}");
    Ok(obs(true).tag_if(k.is_zero() || l.is_zero(), "zero operand"))
}

fn run_sec_debug<P: Inst>(c: &SecCase) -> R {
    let nb = <P::Paillier as PaillierParams>::MODULUS_BITS;
    let i = c.a.low_bits(12).to_be(8)[7] as usize;
    let r = key(nb / 2, false, i);
    let sk = secret_key::<P::Paillier>(&r);
    // (the upper half of the totient is that of the public modulus)
    let mut secrets = vec![r.p.clone(), r.q.clone(), r.phi.low_bits(nb / 2 - 8), r.phi.invmod(&r.n).expect("coprime"), r.n.invmod(&r.phi).expect("coprime")];
    let mut texts = vec![("SecretKeyPaillier", format!("{sk:?} {sk:#?}")), ("SecretKeyPaillierWire", format!("{:?}", sk.clone().into_wire()))];
    secrets.push(c.a.clone());
    let v = c.a.low_bits(nb - 2);
    texts.push(("SecretSigned", format!("{:?}", ss::<U_<P>>(&SBig::from(v.clone()), nb - 2))));
    texts.push(("SecretUnsigned", format!("{:?}", su::<U_<P>>(&v, nb - 2))));
    secrets.push(v);
    let k = c.k.rem(&P::rc().n);
    if P::rc().n.bits() > 40 {
        secrets.push(k.clone());
    }
    texts.push(("Secret<Scalar>", format!("{:?} {:#?}", ssc::<P>(&k), ssc::<P>(&k))));
    let rho = Randomizer::<P::Paillier>::random(&mut rng(i as u64 + 77), sk.public_key());
    texts.push(("Randomizer", format!("{rho:?}")));
    secrets.push(super::paillier::rval(&rho));
    let sch = SchSecret::<P>::random(&mut rng(i as u64 + 78));
    let sch2 = SchSecret::<P>::random(&mut rng(i as u64 + 79));
    vensure!(format!("{sch:?}") == format!("{sch2:?}"), "debug/schnorr secret");
    let (p1, p2) = (Polynomial::<P>::random(&mut rng(1), ssc::<P>(&k), 3), Polynomial::<P>::random(&mut rng(2), ssc::<P>(&Big::one()), 3));
    vensure!(format!("{p1:?}") == format!("{p2:?}"), "debug/polynomial");
    let public = format!("{:?}", sk.public_key().clone().into_wire().into_precomputed());
    for (name, t) in &texts {
        for s in &secrets {
            if let Some(n) = leaks(t, s, &public) {
                return fail(format!("debug/{name}"), format!("the debug output contains {n}: {}", t.chars().take(600).collect::<String>()));
            }
        }
    }
    good()
}

pub fn c19(ctx: &Ctx) {
    ctx.check("integers/256", "two operands and a modulus", ctx.n(60_000, 1_000_000), || sec_case(256), run_sec_uint::<{ U256::LIMBS }, { U512::LIMBS }>);
    ctx.check("integers/2048", "two operands and a modulus", ctx.n(10_000, 200_000), || sec_case(2048), run_sec_uint::<{ U2048::LIMBS }, { U4096::LIMBS }>);
    ctx.check("modular/256", "two residues, an odd modulus, an exponent", ctx.n(30_000, 500_000), || sec_case(256), run_sec_monty::<PT>);
    ctx.check("modular/2048", "two residues, an odd modulus, an exponent", ctx.n(3_000, 50_000), || sec_case(2048), run_sec_monty::<<K as SchemeParams>::Paillier>);
    ctx.check("scalars/tiny", "two scalars and a list", ctx.n(30_000, 500_000), || sec_case(256), run_sec_scalar::<T>);
    ctx.check("scalars/k256", "two scalars and a list", ctx.n(3_000, 50_000), || sec_case(256), run_sec_scalar::<K>);
    ctx.check("debug/tiny", "a key, an integer, a scalar, a randomizer", ctx.n(2_000, 40_000), || sec_case(256), run_sec_debug::<T>);
    ctx.check("debug/k256", "a key, an integer, a scalar, a randomizer", ctx.n(30, 300), || sec_case(2048), run_sec_debug::<K>);
}

// ---------------------------------------------------------------- E02: secret sharing

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ShareCase {
    secret: Big,
    seed: u64,
    threshold: usize,
    ids: Vec<u64>,
    pick: u64,
    coeffs: Vec<Big>,
    x: u64,
}

fn share_case<P: Inst>() -> BoxedStrategy<ShareCase> {
    let lim = 0xffff0f07u64;
    let id = prop_oneof![4 => 1u64..12, 2 => 1..lim, 1 => lim - 5..lim];
    (
        scalar_big::<P>(),
        any::<u64>(),
        1usize..7,
        proptest::collection::vec(id, 1..9),
        any::<u64>(),
        proptest::collection::vec(scalar_big::<P>(), 1..7),
        prop_oneof![0u64..12, 0..lim],
    )
        .prop_map(|(secret, seed, threshold, ids, pick, coeffs, x)| {
            let mut seen = std::collections::BTreeSet::new();
            let mut ids: Vec<u64> = ids.into_iter().filter(|i| seen.insert(*i)).collect();
            let mut k = 1;
            while ids.len() < threshold {
                if seen.insert(k) {
                    ids.push(k);
                }
                k += 1;
            }
            ShareCase { secret, seed, threshold, ids, pick, coeffs, x }
        })
        .boxed()
}

/// The value at 0 of the polynomial through the given points.
fn ref_interpolate(n: &Big, pts: &[(Big, Big)]) -> Big {
    let mut sum = Big::zero();
    for (i, (xi, yi)) in pts.iter().enumerate() {
        let (mut num, mut den) = (Big::one(), Big::one());
        for (j, (xj, _)) in pts.iter().enumerate() {
            if i != j {
                num = num.mulmod(xj, n);
                den = den.mulmod(&SBig::from(xj.clone()).sub(&SBig::from(xi.clone())).modulo(n), n);
            }
        }
        sum = sum.add(&yi.mulmod(&num.mulmod(&den.invmod(n).expect("distinct"), n), n)).rem(n);
    }
    sum
}

fn run_share<P: Inst>(c: &ShareCase) -> R {
    let n = &P::rc().n;
    let t = c.threshold;
    let ids: Vec<ShareId<P>> = c.ids.iter().map(|i| ShareId::new(*i)).collect();
    let idv: Vec<Big> = c.ids.iter().map(|i| Big::from_u64(*i)).collect();
    let shares = shamir_split(&mut rng(c.seed), ssc::<P>(&c.secret), t, &ids);
    vensure!(shares.len() == ids.len() && ids.iter().all(|i| shares.contains_key(i)), "split/ids");
    let val = |i: usize| scv(shares[&ids[i]].expose_secret());
    // a random subset
    let mut g = rng(c.pick);
    let order = {
        let mut o: Vec<usize> = (0..ids.len()).collect();
        for i in (1..o.len()).rev() {
            let j = (Big::random_below(&mut g, &Big::from_u64(i as u64 + 1))).to_be(8)[7] as usize;
            o.swap(i, j);
        }
        o
    };
    for size in t - 1..=ids.len() {
        if size == 0 {
            continue;
        }
        let sub = &order[..size];
        let pairs: BTreeMap<_, _> = sub.iter().map(|i| (ids[*i], shares[&ids[*i]].clone())).collect();
        let pts: Vec<(Big, Big)> = sub.iter().map(|i| (idv[*i].clone(), val(*i))).collect();
        let joined = scv(shamir_join_scalars(pairs).expose_secret());
        vensure!(joined == ref_interpolate(n, &pts), "join/reference", "{size} shares of a threshold {t} sharing");
        if size >= t {
            vensure!(joined == c.secret, "join/secret", "{size} shares of a threshold {t} sharing give another secret");
        } else {
            vensure!(joined != c.secret, "join/below threshold", "{size} shares of a threshold {t} sharing determine the secret");
        }
        let pp: BTreeMap<_, Point<P>> = sub.iter().map(|i| (ids[*i], shares[&ids[*i]].mul_by_generator())).collect();
        vensure!(shamir_join_points(&pp) == sc::<P>(&joined).mul_by_generator(), "join/points");
        // the coefficients alone
        let set: Vec<ShareId<P>> = sub.iter().map(|i| ids[*i]).collect();
        let e = sub.iter().fold(Big::zero(), |s, i| s.add(&val(*i).mulmod(&scv(&interpolation_coeff(set.iter(), &ids[*i])), n)).rem(n));
        vensure!(e == joined, "interpolation_coeff");
    }
    // the other shares follow from any t of them: degree t - 1 exactly
    if t > 1 && ids.len() > t {
        let pts: Vec<(Big, Big)> = order[..t].iter().map(|i| {
            // shift so that the missing identifier is at 0
            (SBig::from(idv[*i].clone()).sub(&SBig::from(idv[order[t]].clone())).modulo(n), val(*i))
        }).collect();
        vensure!(ref_interpolate(n, &pts) == val(order[t]), "split/degree", "the shares are not on a polynomial of degree {}", t - 1);
    }
    let ev = shamir_evaluation_points::<P>(t + 3);
    vensure!(ev.len() == t + 3 && ev.iter().collect::<std::collections::BTreeSet<_>>().len() == t + 3, "evaluation points/distinct");
    vensure!(ev.iter().all(|e| *e != ShareId::new(0)), "evaluation points/zero");
    Ok(obs(t > 1).tag(format!("threshold {t}")).tag_if(ids.len() > t, "spare shares").tag_if(c.secret.is_zero(), "zero secret"))
}

fn run_poly<P: Inst>(c: &ShareCase) -> R {
    let n = &P::rc().n;
    let x = Big::from_u64(c.x);
    let id = ShareId::<P>::new(c.x);
    // a secret polynomial and its public counterpart
    let deg = c.threshold;
    let poly = Polynomial::<P>::random(&mut rng(c.seed), ssc::<P>(&c.secret), deg);
    let public = poly.public();
    let e = poly.evaluate(&id);
    vensure!(public.evaluate(&id) == e.mul_by_generator(), "public evaluation", "at {} (degree {})", c.x, deg - 1);
    vensure!(public.coeff0().is_ok_and(|p| *p == sc::<P>(&c.secret).mul_by_generator()), "coeff0");
    vensure!(scv(poly.evaluate(&ShareId::new(0)).expose_secret()) == c.secret, "value at zero");
    let zero = public.evaluate(&ShareId::new(0));
    vensure!(zero == sc::<P>(&c.secret).mul_by_generator(), "public value at zero");
    // no coefficient is a function of the others (the same simple relation under unrelated randomness)
    let coeffs_of = |k: u64| -> Vec<Point<P>> {
        let p = Polynomial::<P>::random(&mut rng(c.seed ^ k.wrapping_mul(0x9E37_79B9_7F4A_7C15)), ssc::<P>(&c.secret), deg);
        serde_json::from_value(serde_json::to_value(p.public()).expect("ser")).expect("a list of points")
    };
    let runs: Vec<Vec<Point<P>>> = (0..4).map(coeffs_of).collect();
    vensure!(runs.iter().all(|r| r.len() == deg), "number of coefficients", "asked for {deg}: {:?}", runs.iter().map(Vec::len).collect::<Vec<_>>());
    let mult: Vec<Big> = (1u64..6).map(Big::from_u64).flat_map(|k| [k.clone(), n.sub(&k)]).collect();
    for i in 0..deg {
        for j in 0..deg {
            for k in &mult {
                if i != j && runs.iter().all(|r| r[i] * sc::<P>(k) == r[j]) && !(i.min(j) == 0 && c.secret.is_zero()) {
                    return fail("dependent coefficients", format!("coefficient {j} is always {k:?} times coefficient {i}"));
                }
            }
        }
        vensure!(i == 0 || runs.iter().any(|r| r[i] != runs[0][i]), "fixed coefficient", "coefficient {i} does not depend on the randomness");
    }
    // chosen coefficients (zeros included): schoolbook evaluation in the exponent
    let pts: Vec<Point<P>> = c.coeffs.iter().map(|k| sc::<P>(k).mul_by_generator()).collect();
    let pp: PublicPolynomial<P> = serde_json::from_value(serde_json::to_value(&pts).expect("ser")).expect("a list of points");
    let mut acc = Big::zero();
    let mut pw = Big::one();
    for k in &c.coeffs {
        acc = acc.add(&k.mulmod(&pw, n)).rem(n);
        pw = pw.mulmod(&x, n);
    }
    vensure!(pp.evaluate(&id) == sc::<P>(&acc).mul_by_generator(), "schoolbook", "at {}", c.x);
    vensure!(pp.coeff0().is_ok_and(|p| *p == pts[0]), "coeff0/chosen");
    // the degree: deg + 1 values at consecutive points satisfy exactly the degree-(deg-1) recurrence
    let vals: Vec<Big> = (0..=deg as u64).map(|i| scv(poly.evaluate(&ShareId::new(i + 1)).expose_secret())).collect();
    let mut d: Vec<SBig> = vals.into_iter().map(SBig::from).collect();
    let mut lead = SBig::zero();
    for level in 0..deg {
        if level == deg - 1 {
            lead = SBig::from(d[0].modulo(n));
        }
        d = d.windows(2).map(|w| w[1].sub(&w[0])).collect();
    }
    vensure!(d[0].modulo(n).is_zero(), "degree/too high", "asked for {deg} coefficients");
    vensure!(deg == 1 || !lead.mag.is_zero(), "degree/too low", "asked for {deg} coefficients");
    Ok(obs(true).tag(format!("{deg} coefficients")).tag_if(c.coeffs.iter().any(|k| k.is_zero()), "zero coefficient").tag_if(c.coeffs.len() == 1, "constant"))
}

pub fn e02(ctx: &Ctx) {
    ctx.check("sharing/tiny", "a secret, distinct identifiers, every subset size around the threshold", ctx.n(12_000, 300_000), share_case::<T>, run_share::<T>);
    ctx.check("sharing/k256", "a secret, distinct identifiers, every subset size around the threshold", ctx.n(600, 12_000), share_case::<K>, run_share::<K>);
    ctx.check("polynomials/tiny", "a polynomial and an evaluation point", ctx.n(12_000, 400_000), share_case::<T>, run_poly::<T>);
    ctx.check("polynomials/k256", "a polynomial and an evaluation point", ctx.n(1_500, 20_000), share_case::<K>, run_poly::<K>);
}
