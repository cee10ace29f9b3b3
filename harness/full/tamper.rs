//! P06 one corrupted party, P07 (first half) the evidence against it.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::format;
use std::prelude::v1::*;
use std::sync::{Arc, LazyLock, Mutex};
use std::vec;

use manul::engine::{Network, Outcome, Run};
use manul::protocol::{
    BoxedFormat, DirectMessage, EchoBroadcast, EntryPoint, NormalBroadcast, Protocol, ProtocolError, ProtocolMessage,
};
use manul::session::FormatKind;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rand_core::RngCore;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use super::common::big::Big;
use super::common::ecref::*;
use super::common::gens::rng;
use super::common::keys::{hex_uint, leaf};
use super::common::runner::*;
use super::keygen::*;
use super::net::*;
use super::sign::*;
use crate::curve::Point;
use crate::dev::TestParams as T;
use crate::entities::Sid;
use crate::tools::bitvec::BitVec;
use crate::tools::hashing::{Chain, HashOutput, Hasher};
use crate::vensure;
use crate::paillier::{PaillierParams, RPParams, RPSecret};
use crate::zk::PrmProof;
use crate::{
    AuxGen, AuxGenAssociatedData, AuxInfo, InteractiveSigning, InteractiveSigningAssociatedData, KeyInit, KeyInitAssociatedData, KeyRefresh,
    KeyRefreshAssociatedData, KeyResharing, KeyShare, NewHolder, OldHolder, SchemeParams, ThresholdKeyShare,
};

type PP = <T as SchemeParams>::Paillier;

/// Everything that determines an honest run, from a small set so that honest runs can be kept.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Setup {
    pub n: u8,
    pub q: u8,
    /// which party is corrupted
    pub bad: u8,
    pub json: bool,
}
impl Setup {
    pub fn basic(&self) -> BTreeSet<Id> {
        let spread = [7u8, 100, 201, 255, 31, 0];
        (0..self.n).map(|i| id(if self.q % 2 == 0 { i } else { spread[i as usize] })).collect()
    }
    pub fn sid(&self) -> Vec<u8> {
        let mut g = rng(1000 + self.q as u64);
        let mut b = vec![0u8; if self.q % 5 == 4 { 3 } else { 32 }];
        g.fill_bytes(&mut b);
        b
    }
    pub fn other_sid(&self) -> Vec<u8> {
        let mut s = self.sid();
        s[0] ^= 1;
        s
    }
    pub fn seed(&self) -> u64 {
        0xABCD_0000 + 31 * self.q as u64 + self.n as u64
    }
    pub fn format(&self) -> FormatKind {
        if self.json {
            FormatKind::Json
        } else {
            FormatKind::Binary
        }
    }
    pub fn bad_of(&self, all: &BTreeSet<Id>) -> Id {
        ids(all)[self.bad as usize % all.len()]
    }
}

pub type Res<A> = <<<A as Arena>::EP as EntryPoint<Id>>::Protocol as Protocol<Id>>::Result;
pub type Err<A> = <<<A as Arena>::EP as EntryPoint<Id>>::Protocol as Protocol<Id>>::ProtocolError;
pub type Assoc<A> = <Err<A> as ProtocolError<Id>>::AssociatedData;

pub trait Arena: 'static {
    type EP: EntryPoint<Id>;
    const NAME: &'static str;
    const ROUNDS: u8;
    /// how many kinds of wrong inputs `entry` knows (0 is none)
    const FAULTS: u8;
    const SETUPS: u8;
    fn all(s: &Setup) -> BTreeSet<Id> {
        s.basic()
    }
    fn entry(s: &Setup, i: &Id, fault: u8) -> Option<Self::EP>;
    fn assoc(s: &Setup) -> Assoc<Self>;
    fn show(r: &Res<Self>) -> Value;
    fn judge(s: &Setup, results: &BTreeMap<Id, Res<Self>>, main: &Pass, alt: &dyn Fn() -> Arc<Pass>) -> Result<(), Fail>;
    /// The commitment of round 1 to what the corrupted party sends in round 2.
    fn commitment(_sid: &[u8], _all: &BTreeSet<Id>, _who: &Id, _echo: &Value, _normal: &Value) -> Option<HashOutput> {
        None
    }
}

/// What an honest run sent and gave.
pub struct Pass {
    pub sent: BTreeMap<(Id, Id, u8), ProtocolMessage>,
    pub results: BTreeMap<Id, Value>,
}
#[derive(Clone, Copy, PartialEq, Eq, Hash, Debug)]
pub enum Kind {
    Main,
    /// the corrupted party has other randomness
    Alt,
    /// another session
    Other,
}
type Key = (&'static str, u8, u8, u8, bool, Kind);
static PASSES: LazyLock<Mutex<HashMap<Key, Arc<Pass>>>> = LazyLock::new(Default::default);

pub fn pass<A: Arena>(s: &Setup, kind: Kind) -> Arc<Pass> {
    let all = A::all(s);
    let k = (A::NAME, s.n, s.q, if kind == Kind::Alt { s.bad % all.len() as u8 } else { 0 }, s.json, kind);
    if let Some(x) = PASSES.lock().unwrap().get(&k) {
        return x.clone();
    }
    let bad = s.bad_of(&all);
    let parties = all
        .iter()
        .map(|i| {
            let seed = if kind == Kind::Alt && *i == bad { s.seed() ^ 0x77 } else { s.seed() };
            (*i, A::entry(s, i, 0).expect("good inputs"), party_rng(seed, i))
        })
        .collect();
    let sid = if kind == Kind::Other { s.other_sid() } else { s.sid() };
    let run = quiet(|| manul::engine::run(s.format(), &sid, parties, &mut manul::engine::Honest));
    let sent = run.sent.iter().map(|(f, t, r, m)| ((*f, *t, *r), m.clone())).collect();
    let results = run
        .reports
        .into_iter()
        .map(|(i, r)| match r.outcome {
            Outcome::Result(x) => (i, A::show(&x)),
            o => panic!("an honest run of {} fails: {i:?}: {o:?} {:?} {:?}", A::NAME, r.provable_errors, r.unprovable_errors),
        })
        .collect();
    let x = Arc::new(Pass { sent, results });
    PASSES.lock().unwrap().insert(k, x.clone());
    x
}

// ------------------------------------------------------------------ what is done to the messages

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Edit {
    pub round: u8,
    /// 0 what the corrupted party sends, 1 what it receives, 2 its echo of the others' broadcasts
    pub at: u8,
    /// which part of the message
    pub part: u8,
    /// which receivers
    pub who: u8,
    pub op: u8,
    pub path: Vec<u16>,
    pub val: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    pub setup: Setup,
    pub plan: Plan,
    pub edits: Vec<Edit>,
    /// the commitment of round 1 is to what is really sent in round 2
    pub commit: bool,
    /// bring signing into an error round
    pub drive: u8,
    /// wrong inputs of the corrupted party
    pub input: u8,
    /// it is another corrupted party that brings signing into an error round
    #[serde(default)]
    pub accomplice: bool,
}

const HEX: &[u8] = b"0123456789abcdef";

fn is_hex(s: &str) -> bool {
    s.len() >= 2 && s.bytes().all(|c| c.is_ascii_hexdigit())
}

fn leaves<'a>(v: &'a Value, out: &mut Vec<&'a Value>) {
    match v {
        Value::Array(a) => a.iter().for_each(|x| leaves(x, out)),
        Value::Object(o) => o.values().for_each(|x| leaves(x, out)),
        x => out.push(x),
    }
}

fn leaf_op(v: &Value, op: u8, val: u64, whole: &Value, donor: Option<&Value>) -> Value {
    match v {
        Value::String(s) => {
            let mut g = rng(val);
            let mut b = s.clone().into_bytes();
            let hex = is_hex(s);
            let start = if s.starts_with("0x") { 2 } else { 0 };
            let body = b.len() - start;
            if body == 0 {
                return json!("00");
            }
            let digits: &[u8] = if hex || start == 2 { HEX } else { b"ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/" };
            let turn = |c: u8, k: usize| match digits.iter().position(|d| *d == c.to_ascii_lowercase() || *d == c) {
                Some(p) => digits[(p + k) % digits.len()],
                None => c,
            };
            match op {
                0 => {
                    let i = start + (val as usize) % body;
                    b[i] = turn(b[i], 1 + (val >> 32) as usize % (digits.len() - 1));
                }
                1 => b[start..].fill(digits[0]),
                2 => b[start + 1] = turn(b[(start + 1).min(start + body - 1)], if val % 2 == 0 { 1 } else { 15 }),
                3 => {
                    let last = b.len() - 1;
                    b[last] = turn(b[last], if val % 2 == 0 { 1 } else { 15 });
                }
                4 => b[start..].iter_mut().for_each(|c| {
                    if digits.contains(c) {
                        *c = digits[g.next_u32() as usize % digits.len()];
                    }
                }),
                5 => {
                    let mut all = vec![];
                    leaves(whole, &mut all);
                    let same: Vec<&Value> = all.into_iter().filter(|x| matches!(x, Value::String(t) if t.len() == s.len() && t != s)).collect();
                    if !same.is_empty() {
                        return same[val as usize % same.len()].clone();
                    }
                    b[start..].reverse();
                }
                6 => {
                    if let Some(d) = donor {
                        return d.clone();
                    }
                }
                7 => b.truncate(b.len() - 1 - (val as usize % body)),
                8 => b.extend(std::iter::repeat(digits[0]).take(1 + val as usize % 20)),
                9 => return Value::Null,
                10 => {
                    // the other point with the same abscissa, or a value with the leading digits at their most
                    if hex && (s.starts_with("02") || s.starts_with("03")) {
                        b[1] ^= 1;
                    } else {
                        let k = start + (1 + val as usize % 4).min(body);
                        b[start..k].fill(digits[digits.len() - 1]);
                    }
                }
                _ => return json!(val % 3),
            }
            Value::String(String::from_utf8(b).expect("ascii"))
        }
        Value::Number(n) => {
            let x = n.as_u64().unwrap_or(0);
            match op {
                0 | 2 => json!(x.wrapping_add(1)),
                3 => json!(x.wrapping_sub(1)),
                1 => json!(0),
                6 => donor.cloned().unwrap_or(json!(1)),
                7 => json!(x / 2),
                8 => json!(x * 2),
                9 => Value::Null,
                _ => json!(val),
            }
        }
        Value::Bool(b) => json!(!b),
        Value::Null => donor.cloned().unwrap_or(json!("00")),
        _ => v.clone(),
    }
}

fn shape_op(v: &mut Value, op: u8, val: u64, donor: Option<&Value>) {
    let k = val as usize;
    match (op, &mut *v) {
        (16, _) => {
            if let Some(d) = donor {
                *v = d.clone();
            }
        }
        (_, Value::Array(a)) => {
            let n = a.len();
            match op {
                11 if n > 0 => {
                    a.remove(k % n);
                }
                12 if n > 0 => {
                    let x = a[k % n].clone();
                    a.insert((k >> 16) % (n + 1), x);
                }
                13 if n > 1 => a.swap(k % n, (k >> 16) % n),
                14 => a.clear(),
                15 => a.push(match a.first() {
                    // an entry of a map, under another key
                    Some(Value::Array(p)) if p.len() == 2 => json!([val % 256, p[1]]),
                    Some(x) => x.clone(),
                    None => json!(0),
                }),
                _ => {}
            }
        }
        (_, Value::Object(o)) => {
            let keys: Vec<String> = o.keys().cloned().collect();
            let n = keys.len();
            match op {
                11 if n > 0 => {
                    o.remove(&keys[k % n]);
                }
                12 => {
                    o.insert("extra".into(), json!(1));
                }
                13 if n > 1 => {
                    let (x, y) = (keys[k % n].clone(), keys[(k >> 16) % n].clone());
                    let (p, q) = (o[&x].clone(), o[&y].clone());
                    o.insert(x, q);
                    o.insert(y, p);
                }
                14 => o.clear(),
                15 if n > 0 => {
                    let x = o.remove(&keys[k % n]).expect("there");
                    o.insert(format!("{}_", keys[k % n]), x);
                }
                _ => {}
            }
        }
        _ => {}
    }
}

fn children(v: &Value) -> usize {
    match v {
        Value::Array(a) => a.len(),
        Value::Object(o) => o.len(),
        _ => 0,
    }
}
fn child(v: &Value, i: usize) -> Option<&Value> {
    match v {
        Value::Array(a) => a.get(i),
        Value::Object(o) => o.values().nth(i),
        _ => None,
    }
}
fn child_mut(v: &mut Value, i: usize) -> &mut Value {
    match v {
        Value::Array(a) => &mut a[i],
        Value::Object(o) => o.values_mut().nth(i).expect("in range"),
        _ => unreachable!(),
    }
}

/// Applies an operation at a place of a message part.
pub fn mutate(v: &mut Value, e: &Edit, donor: Option<&Value>) {
    let whole = v.clone();
    let to_leaf = e.op <= 10;
    let mut cur = v;
    let mut donor = donor;
    let mut k = 0;
    loop {
        let n = children(cur);
        if n == 0 || (!to_leaf && k >= e.path.len()) {
            break;
        }
        let at = e.path.get(k).map(|x| *x as usize).unwrap_or((e.val >> (8 * (k % 8))) as usize) % n;
        // do not end up in an empty container or a leaf when shapes are to be altered
        if !to_leaf && e.op != 16 && children(child(cur, at).expect("in range")) == 0 {
            break;
        }
        donor = donor.and_then(|d| child(d, at));
        cur = child_mut(cur, at);
        k += 1;
    }
    if children(cur) == 0 && !cur.is_object() && !cur.is_array() {
        *cur = leaf_op(cur, e.op, e.val, &whole, donor);
    } else {
        shape_op(cur, e.op, e.val, donor);
    }
}

fn raw_op(b: &mut Vec<u8>, op: u8, val: u64, donor: Option<&Vec<u8>>) {
    let n = b.len();
    let k = (val >> 8) as usize;
    match op % 9 {
        0 if n > 0 => b[k % n] ^= 1 << (val % 8),
        1 if n > 0 => b[k % n] = val as u8,
        2 if n > 0 => b.truncate(k % n),
        3 => b.extend([val as u8; 3]),
        4 => {
            let mut g = rng(val);
            g.fill_bytes(b);
        }
        5 => b.clear(),
        6 if n > 0 => {
            // copy a stretch of a related message
            if let Some(d) = donor.filter(|d| d.len() == n) {
                let from = k % n;
                let len = (1 + (val % 256) as usize).min(n - from);
                b[from..from + len].copy_from_slice(&d[from..from + len]);
            }
        }
        7 if n > 8 => {
            let at = (k % (n - 7)) & !7;
            b[at..at + 8].copy_from_slice(&(val >> 40).to_le_bytes());
        }
        _ if n > 0 => b[k % n] = b[k % n].wrapping_add(1),
        _ => {}
    }
}

fn parts(m: &mut ProtocolMessage) -> [&mut Option<Vec<u8>>; 3] {
    [&mut m.echo_broadcast.0, &mut m.normal_broadcast.0, &mut m.direct_message.0]
}

/// How many bits the modulus of an operation 23 has.
fn weak_bits(val: u64) -> u32 {
    let full = <PP as PaillierParams>::MODULUS_BITS;
    match val % 8 {
        0 | 1 => full - 3,
        2 => full - 4,
        3 => full / 2,
        4 => 2 + (val >> 8) as u32 % (full - 4),
        5 => full - 3 - (val >> 8) as u32 % 20,
        6 => 64,
        // large enough
        _ => full - 1,
    }
}
fn odd_of_bits(bits: u32, seed: u64) -> Value {
    let top = Big::pow2(bits - 1);
    let x = Big::random_below(&mut rng(seed), &top).add(&top);
    let x = if x.is_odd() { x } else { x.add(&Big::one()) };
    hex_uint::<<PP as PaillierParams>::Uint>(&x)
}

/// Primes of another size in integers of the usual size.
#[derive(Debug, Clone, Copy, PartialEq, Eq, PartialOrd, Ord)]
struct Sized<const BITS: u32>;
impl<const BITS: u32> PaillierParams for Sized<BITS> {
    const PRIME_BITS: u32 = BITS;
    type HalfUint = <PP as PaillierParams>::HalfUint;
    type Uint = <PP as PaillierParams>::Uint;
    type WideUint = <PP as PaillierParams>::WideUint;
}
impl<const BITS: u32> SchemeParams for Sized<BITS> {
    type Curve = <T as SchemeParams>::Curve;
    type Digest = <T as SchemeParams>::Digest;
    const SECURITY_BITS: usize = T::SECURITY_BITS;
    type Paillier = Self;
    type ExtraWideUint = <T as SchemeParams>::ExtraWideUint;
}
fn rp_of<const BITS: u32>(val: u64, sid: &Sid, who: &Id) -> (Value, Value) {
    let mut g = rng(BITS as u64 ^ (val >> 8) % 4);
    let secret = RPSecret::<Sized<BITS>>::random(&mut g);
    let params = RPParams::<Sized<BITS>>::random_with_secret(&mut g, &secret);
    let psi = PrmProof::<Sized<BITS>>::new(&mut g, &secret, &params, &(sid, who));
    (serde_json::to_value(params.to_wire()).expect("serializes"), serde_json::to_value(psi).expect("serializes"))
}
/// Ring-Pedersen parameters whose modulus has at most twice these bits.
const RP_BITS: [u32; 5] = [126, 120, 96, 70, 128];
fn other_rp(val: u64, sid: &Sid, who: &Id) -> (Value, Value) {
    match RP_BITS[val as usize % RP_BITS.len()] {
        126 => rp_of::<126>(val, sid, who),
        120 => rp_of::<120>(val, sid, who),
        96 => rp_of::<96>(val, sid, who),
        70 => rp_of::<70>(val, sid, who),
        _ => rp_of::<128>(val, sid, who),
    }
}

pub struct Tamper<'a> {
    case: &'a Case,
    all: Vec<Id>,
    bad: Id,
    /// who brings signing into an error round
    driver: Id,
    schedule: Schedule,
    /// messages of honest runs, for replays
    donor: &'a dyn Fn(Kind) -> Arc<Pass>,
    commitment: &'a dyn Fn(&Value, &Value) -> Option<HashOutput>,
    /// echo broadcasts as the corrupted party really received them
    originals: BTreeMap<(Id, Id, u8), EchoBroadcast>,
    /// echo broadcasts as the corrupted party's code knows them (its own and the altered ones)
    believed: BTreeMap<(Id, Id, u8), EchoBroadcast>,
    pub changed: bool,
    /// the corrupted party received something else than what was sent to it
    pub misled: bool,
    pub withheld: bool,
    /// normal broadcasts that are not the same for all (nothing makes the parties compare these)
    pub uneven: bool,
    broadcasts: BTreeMap<u8, Option<Vec<u8>>>,
    /// which fields of which messages were altered on the way out
    touched: Vec<(u8, Id, String)>,
    pub log: BTreeSet<String>,
}

/// The names of the fields that differ.
fn differing(a: &ProtocolMessage, b: &ProtocolMessage) -> Vec<String> {
    let (mut a, mut b) = (a.clone(), b.clone());
    let mut out = vec![];
    for (k, (x, y)) in parts(&mut a).into_iter().zip(parts(&mut b)).enumerate() {
        if x == y {
            continue;
        }
        let part = ["echo", "normal", "direct"][k];
        let v = |b: &Option<Vec<u8>>| b.as_ref().and_then(|b| serde_json::from_slice::<Value>(b).ok());
        match (v(x), v(y)) {
            (Some(Value::Object(x)), Some(Value::Object(y))) if x.keys().eq(y.keys()) => {
                out.extend(x.iter().filter(|(k, v)| y[*k] != **v).map(|(k, _)| format!("{part}.{k}")))
            }
            _ => out.push(part.to_string()),
        }
    }
    out
}

impl<'a> Tamper<'a> {
    fn source(&self, e: &Edit, from: &Id, to: &Id, round: u8) -> Option<ProtocolMessage> {
        let others: Vec<Id> = self.all.iter().filter(|i| *i != from && *i != to).cloned().collect();
        let pick = |v: &[Id]| v.get((e.val >> 8) as usize % v.len().max(1)).cloned();
        let m = (self.donor)(Kind::Main);
        match e.val % 6 {
            0 => m.sent.get(&(pick(&others)?, *to, round)).cloned(),
            1 => m.sent.get(&(*from, pick(&others)?, round)).cloned(),
            2 => (self.donor)(Kind::Alt).sent.get(&(*from, *to, round)).cloned(),
            3 => (self.donor)(Kind::Other).sent.get(&(*from, *to, round)).cloned(),
            4 => m.sent.get(&(*from, *to, 1 + ((e.val >> 8) % 4) as u8)).cloned(),
            // what the receiver itself sends
            _ => m.sent.get(&(*to, *from, round)).cloned(),
        }
    }

    fn edit(&mut self, e: &Edit, from: &Id, to: &Id, round: u8, msg: &mut ProtocolMessage) -> bool {
        if e.op == 17 {
            return false;
        }
        let donor = self.source(e, from, to, round);
        let json = self.case.setup.json;
        let present: Vec<usize> = parts(msg).iter().enumerate().filter(|(_, p)| p.is_some()).map(|(k, _)| k).collect();
        let absent: Vec<usize> = (0..3).filter(|k| !present.contains(k)).collect();
        if e.op == 21 {
            if !absent.is_empty() {
                let k = absent[e.part as usize % absent.len()];
                let mut d = donor;
                let bytes = d.as_mut().and_then(|d| parts(d).into_iter().flatten().next().cloned()).unwrap_or_else(|| b"{}".to_vec());
                *parts(msg)[k] = Some(bytes);
            }
            return true;
        }
        if present.is_empty() {
            return true;
        }
        let k = present[e.part as usize % present.len()];
        let d = donor.and_then(|mut d| parts(&mut d)[k].clone());
        let mut ps = parts(msg);
        let slot = &mut *ps[k];
        match e.op {
            18 => *slot = None,
            20 => {
                if d.is_some() {
                    *slot = d;
                }
            }
            22 if json => {
                // every ElGamal key is one whose secret is known
                let mut v: Value = serde_json::from_slice(slot.as_ref().expect("present")).unwrap_or(Value::Null);
                if let Some(a) = v.get_mut("cap_ys").and_then(|a| a.as_array_mut()) {
                    let p = serde_json::to_value(pt::<T>(&T::rc().gmul(&Big::from_u64(2)))).expect("serializes");
                    a.iter_mut().for_each(|x| x[1] = p.clone());
                    *slot = Some(serde_json::to_vec(&v).expect("serializes"));
                }
            }
            23 if json => {
                // a Paillier modulus of another size
                let mut v: Value = serde_json::from_slice(slot.as_ref().expect("present")).unwrap_or(Value::Null);
                if let Some(m) = v.get_mut("paillier_pk").and_then(|m| m.get_mut("modulus")) {
                    *m = odd_of_bits(weak_bits(e.val), e.val);
                    *slot = Some(serde_json::to_vec(&v).expect("serializes"));
                }
            }
            24 if json => {
                // ring-Pedersen parameters of another size, with the proof that they are well-formed
                let mut v: Value = serde_json::from_slice(slot.as_ref().expect("present")).unwrap_or(Value::Null);
                let sid = Sid::new::<T, Id>(&self.case.setup.sid(), &self.all.iter().cloned().collect());
                let (rp, psi) = other_rp(e.val, &sid, from);
                for (f, x) in [("rp_params", rp), ("psi", psi)] {
                    if let Some(y) = v.get_mut(f).filter(|_| round == 2) {
                        *y = x;
                    }
                }
                *slot = Some(serde_json::to_vec(&v).expect("serializes"));
            }
            op if op == 19 || !json => raw_op(slot.as_mut().expect("present"), op.wrapping_add((e.val >> 50) as u8), e.val, d.as_ref()),
            _ => {
                if let Ok(old) = serde_json::from_slice::<Value>(slot.as_ref().expect("present")) {
                    let mut v = old.clone();
                    let dv = d.and_then(|d| serde_json::from_slice::<Value>(&d).ok());
                    mutate(&mut v, e, dv.as_ref());
                    if v != old {
                        *slot = Some(serde_json::to_vec(&v).expect("serializes"));
                    }
                }
            }
        }
        true
    }

    fn applies(&self, e: &Edit, at: u8, round: u8, other: &Id) -> bool {
        let k = self.all.iter().position(|i| i == other).unwrap_or(0);
        e.at == at && e.round == round && e.who >> k & 1 == 1
    }

    /// What turns signing to an error round: sent to all, and received from an honest party.
    fn drive(&self, round: u8, outgoing: bool, msg: &mut ProtocolMessage) {
        if self.case.drive == 0 || round != 3 || !self.case.setup.json {
            return;
        }
        let rc = T::rc();
        let shift = |v: &mut Value, f: &mut dyn FnMut(Value) -> Value| *v = f(v.take());
        let d = Big::from_u64(if outgoing { 12345 } else { 54321 });
        let alter = |b: &mut Vec<u8>, name: &str, f: &mut dyn FnMut(Value) -> Value| {
            let mut v: Value = serde_json::from_slice(b).expect("json");
            shift(&mut v[name], f);
            *b = serde_json::to_vec(&v).expect("serializes");
        };
        let mut scalar = |v: Value| {
            let x: crate::curve::Scalar<T> = serde_json::from_value(v).expect("a scalar");
            serde_json::to_value(ssc::<T>(&scv::<T>(&x).add(&d).rem(&rc.n))).expect("serializes")
        };
        let mut point = |v: Value| {
            let x: Point<T> = serde_json::from_value(v).expect("a point");
            serde_json::to_value(pt::<T>(&rc.add(&ptv::<T>(&x), &rc.gmul(&d)))).expect("serializes")
        };
        if self.case.drive == 1 {
            alter(msg.echo_broadcast.0.as_mut().expect("delta"), "delta", &mut scalar);
        } else {
            alter(msg.normal_broadcast.0.as_mut().expect("S"), "cap_s", &mut point);
        }
    }
}

impl Network<Id> for Tamper<'_> {
    fn on_send(&mut self, _f: &BoxedFormat, from: &Id, to: &Id, round: u8, msg: &mut ProtocolMessage) -> bool {
        if *from != self.bad && *from != self.driver {
            return true;
        }
        let before = msg.clone();
        self.believed.insert((*from, *from, round), before.echo_broadcast.clone());
        if *from == self.driver {
            self.drive(round, true, msg);
            self.changed |= *msg != before;
        }
        if *from != self.bad {
            return true;
        }
        let case = self.case;
        for e in &case.edits {
            if self.applies(e, 0, round, to) && !self.edit(e, from, to, round, msg) {
                self.withheld = true;
                self.changed = true;
                return false;
            }
        }
        if round == 1 && case.commit && case.setup.json {
            // what will be sent in round 2
            if let Some(mut m2) = (self.donor)(Kind::Main).sent.get(&(*from, *to, 2)).cloned() {
                let untouched = m2.clone();
                for e in &case.edits {
                    if self.applies(e, 0, 2, to) {
                        self.edit(e, from, to, 2, &mut m2);
                    }
                }
                if m2 != untouched {
                    let v = |b: &Option<Vec<u8>>| b.as_ref().and_then(|b| serde_json::from_slice::<Value>(b).ok());
                    if let (Some(e), Some(n), Some(e0), Some(n0)) =
                        (v(&m2.echo_broadcast.0), v(&m2.normal_broadcast.0), v(&untouched.echo_broadcast.0), v(&untouched.normal_broadcast.0))
                    {
                        // (only if we know how the commitment is made)
                        let known = (self.commitment)(&e0, &n0).map(|h| json!({"cap_v": h})) == v(&before.echo_broadcast.0);
                        self.log.insert(if known { "commitment reproduced" } else { "commitment not reproduced" }.into());
                        if let Some(h) = (self.commitment)(&e, &n).filter(|_| known) {
                            msg.echo_broadcast.0 = Some(serde_json::to_vec(&json!({"cap_v": h})).expect("serializes"));
                            self.log.insert("recommitted".into());
                        }
                    }
                }
            }
        }
        if *msg != before {
            self.changed = true;
            self.touched.extend(differing(&before, msg).into_iter().map(|f| (round, *to, f)));
        }
        let nb = msg.normal_broadcast.0.clone();
        self.uneven |= *self.broadcasts.entry(round).or_insert_with(|| nb.clone()) != nb;
        true
    }
    fn on_receive(&mut self, _f: &BoxedFormat, from: &Id, to: &Id, round: u8, msg: &mut ProtocolMessage) {
        if *to != self.bad && *to != self.driver {
            return;
        }
        let before = msg.clone();
        if *to == self.driver && self.all.iter().find(|i| **i != self.bad && **i != self.driver) == Some(from) {
            self.drive(round, false, msg);
        }
        let driven = msg.clone();
        if *to == self.bad {
            let case = self.case;
            for e in &case.edits {
                if e.op != 17 && self.applies(e, 1, round, from) {
                    self.edit(e, from, to, round, msg);
                }
            }
        }
        self.misled |= *msg != driven;
        if msg.echo_broadcast != before.echo_broadcast {
            self.believed.insert((*to, *from, round), msg.echo_broadcast.clone());
            self.originals.insert((*to, *from, round), before.echo_broadcast);
        }
    }
    fn on_receive_echo(&mut self, _from: &Id, to: &Id, round: u8, echos: &mut BTreeMap<Id, EchoBroadcast>) {
        // the code run by the corrupted party must not stop because of what was altered on its behalf
        if *to == self.bad || *to == self.driver {
            for (i, e) in echos.iter_mut() {
                if let Some(b) = self.believed.get(&(*to, *i, round)) {
                    *e = b.clone();
                }
            }
        }
    }
    fn on_echo(&mut self, from: &Id, to: &Id, round: u8, echos: &mut BTreeMap<Id, EchoBroadcast>) -> bool {
        if *from != self.bad && *from != self.driver {
            return true;
        }
        for (i, e) in echos.iter_mut() {
            if let Some(o) = self.originals.get(&(*from, *i, round)) {
                *e = o.clone();
            }
        }
        if *from != self.bad {
            return true;
        }
        let case = self.case;
        for e in &case.edits {
            if self.applies(e, 2, round, to) {
                self.changed = true;
                if e.op % 2 == 0 {
                    self.withheld = true;
                    return false;
                }
                let keys: Vec<Id> = echos.keys().cloned().collect();
                if !keys.is_empty() {
                    echos.remove(&keys[e.val as usize % keys.len()]);
                }
            }
        }
        true
    }
    fn pick(&mut self, n: usize) -> usize {
        self.schedule.pick(n)
    }
    fn duplicate(&mut self) -> bool {
        self.schedule.duplicate()
    }
}

pub struct Ran<A: Arena> {
    pub run: Run<Id, <A::EP as EntryPoint<Id>>::Protocol>,
    pub all: BTreeSet<Id>,
    pub bad: Id,
    /// all who are corrupted
    pub corrupted: BTreeSet<Id>,
    pub changed: bool,
    pub misled: bool,
    pub withheld: bool,
    pub uneven: bool,
    pub touched: Vec<(u8, Id, String)>,
    pub log: BTreeSet<String>,
}

pub fn run_case<A: Arena>(c: &Case) -> Ran<A> {
    let s = &c.setup;
    let all = A::all(s);
    let bad = s.bad_of(&all);
    let driver = if c.accomplice { all.iter().cloned().find(|i| *i != bad).expect("two parties") } else { bad };
    let mut changed = false;
    let mut parties = vec![];
    for i in &all {
        let fault = if *i == bad { c.input % (A::FAULTS + 1) } else { 0 };
        changed |= fault > 0;
        if let Some(ep) = A::entry(s, i, fault) {
            parties.push((*i, ep, party_rng(s.seed(), i)));
        }
    }
    let sid = s.sid();
    let (all2, sid2) = (all.clone(), sid.clone());
    let donor = |k: Kind| pass::<A>(s, k);
    let commitment = move |e: &Value, n: &Value| A::commitment(&sid2, &all2, &bad, e, n);
    let mut net = Tamper {
        case: c,
        all: ids(&all),
        bad,
        driver,
        schedule: Schedule::new(&c.plan),
        donor: &donor,
        commitment: &commitment,
        originals: BTreeMap::new(),
        believed: BTreeMap::new(),
        changed,
        misled: false,
        withheld: false,
        uneven: false,
        broadcasts: BTreeMap::new(),
        touched: vec![],
        log: BTreeSet::new(),
    };
    let run = quiet(|| manul::engine::run(s.format(), &sid, parties, &mut net));
    Ran { run, all, bad, corrupted: [bad, driver].into(), changed: net.changed, misled: net.misled, withheld: net.withheld, uneven: net.uneven, touched: net.touched, log: net.log }
}

/// An error message without what varies.
pub fn gist(s: &str) -> String {
    let s = s.split("Deserialization error").next().unwrap_or(s);
    let k = s.find("Round ").map(|i| i + 6);
    let s: String = s.char_indices().map(|(i, c)| if c.is_ascii_digit() && Some(i) != k { '#' } else { c }).collect();
    let mut out = String::new();
    for c in s.chars().take(90) {
        if !(c == '#' && out.ends_with('#')) {
            out.push(c);
        }
    }
    out
}

/// P06: nobody panics, nobody honest is blamed, results are right.
pub fn survives<A: Arena>(c: &Case) -> R {
    let ran = run_case::<A>(c);
    let (all, bad) = (&ran.all, &ran.corrupted);
    let mut o = obs(ran.changed);
    for l in &ran.log {
        o = o.tag(l.clone());
    }
    let mut results = BTreeMap::new();
    let mut blamed = false;
    for (i, r) in ran.run.reports {
        if bad.contains(&i) {
            continue;
        }
        for (g, e) in &r.provable_errors {
            vensure!(bad.contains(g), "honest party blamed", "{i:?} accuses {g:?} (corrupted: {bad:?}): {e:?}");
            o = o.tag(format!("proved: {}", gist(&e.description())));
            blamed = true;
        }
        for (g, e) in &r.unprovable_errors {
            vensure!(bad.contains(g), "honest party blamed", "{i:?} reports {g:?} (corrupted: {bad:?}): {e}");
            o = o.tag(format!("reported: {}", gist(e)));
            blamed = true;
        }
        match r.outcome {
            Outcome::Result(x) => {
                results.insert(i, x);
            }
            Outcome::Panicked(e) => return fail(format!("panic:{}", gist(&e)), format!("{i:?} panics: {e}")),
            Outcome::LocalError(e) => o = o.tag(format!("local error: {}", gist(&e))),
            Outcome::Stalled(r) => o = o.tag(format!("stalled in round {r}")),
        }
    }
    let finished = results.len();
    if finished > 0 {
        let main = pass::<A>(&c.setup, Kind::Main);
        A::judge(&c.setup, &results, &main, &|| pass::<A>(&c.setup, Kind::Alt))?;
    }
    let honest = all.len() - bad.len();
    o = o.tag(match (finished, blamed) {
        (0, false) => "none finish, none blamed",
        (0, true) => "none finish, corrupted party blamed",
        (k, _) if k == honest => "all honest finish",
        _ => "some honest finish",
    });
    if !ran.changed && !ran.misled {
        vensure!(finished == honest && !blamed, "unaltered run fails", "finished: {finished} of {honest}");
    }
    Ok(o)
}

/// P11: a run that fails although everybody sends everything ends with the corrupted party named.
pub fn answers<A: Arena>(c: &Case) -> R {
    let ran = run_case::<A>(c);
    let bad = &ran.corrupted;
    let mut o = obs(false);
    if !ran.changed || ran.withheld || ran.uneven || ran.misled {
        return Ok(o.tag("does not count"));
    }
    let (mut finished, mut named, mut left, mut how) = (0, 0, false, vec![]);
    for (i, r) in &ran.run.reports {
        if bad.contains(i) {
            continue;
        }
        let names = r.provable_errors.iter().map(|(g, _)| g).chain(r.unprovable_errors.iter().map(|(g, _)| g)).any(|g| bad.contains(g));
        named += names as usize;
        finished += matches!(r.outcome, Outcome::Result(_)) as usize;
        how.push(match &r.outcome {
            Outcome::Result(_) => "finishes".into(),
            Outcome::Stalled(k) => {
                // its code took another way, or stopped
                left |= bad.iter().any(|b| !ran.run.sent.iter().any(|(f, t, n, _)| f == b && t == i && n == k));
                format!("waits in round {k}")
            }
            Outcome::LocalError(e) => format!("local error {e}"),
            Outcome::Panicked(e) => format!("panic {e}"),
        });
        for (_, e) in &r.provable_errors {
            o = o.tag(gist(&e.description()));
        }
    }
    let honest = ran.all.len() - bad.len();
    if finished < honest && named == 0 && left {
        return Ok(o.tag("the corrupted party leaves"));
    }
    o.nontrivial = finished < honest;
    if finished < honest && named == 0 {
        return fail(format!("nobody named:{}", gist(&how.join(", "))), format!("{} of {honest} finish, nobody is named: {}", finished, how.join("; ")));
    }
    Ok(o.tag(if finished == honest { "all finish" } else if named > 0 { "named" } else { "nobody named" }))
}

/// P13: an honest party stops at the message that is wrong.
pub fn halts<A: Arena>(c: &Case) -> R {
    let ran = run_case::<A>(c);
    let recommitted = ran.log.contains("recommitted");
    let size = c.edits.iter().any(|e| e.op == 23 || e.op == 24);
    let proof = |f: &str| f == "normal.psi" || f == "echo.rp_params";
    let mut o = obs(false);
    for (i, rep) in &ran.run.reports {
        if ran.corrupted.contains(i) {
            continue;
        }
        let altered = |r: u8| -> BTreeSet<&str> { ran.touched.iter().filter(|t| t.0 == r && t.1 == *i).map(|t| t.2.as_str()).collect() };
        // with the commitment adjusted, it is the next message that is wrong
        let Some(at) = (1 + recommitted as u8..=6).find(|r| !altered(*r).is_empty()) else { continue };
        let fields = altered(at);
        if matches!(rep.outcome, Outcome::Result(_)) {
            // (immaterial changes are left to P06)
            o = o.tag("finishes");
            continue;
        }
        let last = ran.run.sent.iter().filter(|(f, ..)| f == i).map(|x| x.2).max().unwrap_or(0);
        let what = format!("{} r{at} {}", A::NAME, fields.iter().cloned().collect::<Vec<_>>().join(" "));
        // what can only be seen with the next message: the commitment itself, and values that may be chosen at will
        let open = fields.contains("echo.cap_v") || (recommitted && !size && !fields.iter().any(|f| proof(f)));
        let errors = A::NAME == Sign::NAME && at == 3 && fields.iter().all(|f| ["echo.delta", "normal.cap_delta", "normal.cap_s"].contains(f));
        let fine = last <= at || (open && last == at + 1) || (errors && (last == 5 || last == 6));
        vensure!(fine, "goes on", "{i:?} received {what} altered by {:?} (recommitted: {recommitted}), and sent messages up to round {last}; {:?} {:?} {:?}", ran.bad, rep.outcome, rep.provable_errors, rep.unprovable_errors);
        o.nontrivial |= !open && at < A::ROUNDS;
        o = o.tag(what).tag_if(recommitted, "recommitted");
    }
    Ok(o)
}

/// P13: moduli that are too small are refused before they are used, those of the right size are not.
pub fn sized<A: Arena>(c: &Case) -> R {
    let ran = run_case::<A>(c);
    if !ran.log.contains("recommitted") {
        return Ok(obs(false).tag("not recommitted"));
    }
    let e = &c.edits[0];
    let full = <PP as PaillierParams>::MODULUS_BITS;
    let (name, bits) = if e.op == 23 { ("Paillier", weak_bits(e.val)) } else { ("ring-Pedersen", 2 * RP_BITS[e.val as usize % RP_BITS.len()]) };
    let small = bits < full - 2;
    let assoc = A::assoc(&c.setup);
    for (i, rep) in &ran.run.reports {
        if ran.corrupted.contains(i) {
            continue;
        }
        let last = ran.run.sent.iter().filter(|(f, ..)| f == i).map(|x| x.2).max().unwrap_or(0);
        if !small {
            vensure!(last > 2, "size refused", "{i:?} stops at a {name} modulus of {bits} bits: {:?} {:?} {:?}", rep.outcome, rep.provable_errors, rep.unprovable_errors);
            continue;
        }
        vensure!(last <= 2, "small modulus used", "{i:?} sends a message of round {last} after a {name} modulus of {bits} bits");
        let proof = rep.provable_errors.get(&ran.bad);
        vensure!(proof.is_some(), "small modulus not proven", "{i:?} got a {name} modulus of {bits} bits: {:?} {:?}", rep.outcome, rep.unprovable_errors);
        let v = no_panic(|| proof.expect("there").verify(&assoc));
        vensure!(matches!(v, Ok(Ok(()))), "evidence refused", "{i:?} got a {name} modulus of {bits} bits: {proof:?}: {v:?}");
    }
    Ok(obs(small).tag(format!("{name} {}", if small { "small" } else { "large enough" })))
}

/// One value of round 2 replaced, with the commitment adjusted.
fn resized<A: Arena>(ns: std::ops::RangeInclusive<u8>) -> BoxedStrategy<Case> {
    (setup::<A>(ns), plan(), any::<u64>(), 23u8..=24)
        .prop_map(|(mut setup, plan, val, op)| {
            setup.json = true;
            // (the parts of round 2 are the echo and the normal broadcast; operation 24 is on both)
            let edit = |part| Edit { round: 2, at: 0, part, who: 255, op, path: vec![], val };
            let edits = if op == 23 { vec![edit(1)] } else { vec![edit(0), edit(1)] };
            Case { plan: Plan { json: true, ..plan }, setup, edits, commit: true, drive: 0, input: 0, accomplice: false }
        })
        .boxed()
}

/// P07: what an honest party can prove, it can prove to others.
pub fn convinces<A: Arena>(c: &Case) -> R {
    let ran = run_case::<A>(c);
    let assoc = A::assoc(&c.setup);
    let mut o = obs(false);
    for (i, r) in &ran.run.reports {
        if ran.corrupted.contains(i) {
            continue;
        }
        for (g, e) in &r.provable_errors {
            o.nontrivial = true;
            o = o.tag(gist(&e.description()));
            let v = no_panic(|| e.verify(&assoc));
            match v {
                Ok(Ok(())) => {}
                Ok(Err(x)) => return fail(format!("evidence refused:{}", gist(&e.description())), format!("{i:?} on {g:?} (corrupted: {:?}), {e:?}: {x}", ran.bad)),
                Err(p) => return fail(format!("evidence panics:{}", gist(&e.description())), format!("{i:?} on {g:?}, {e:?}: {p}")),
            }
        }
    }
    Ok(o)
}

// ------------------------------------------------------------------ judging results

/// The parts of a result that cannot be mixed.
fn units(v: &Value, at: &str, out: &mut BTreeMap<String, Value>) {
    match v {
        _ if at.ends_with("rp_params") || at.ends_with("paillier_pk") => {
            out.insert(at.to_string(), v.clone());
        }
        Value::Array(a) => a.iter().enumerate().for_each(|(i, x)| units(x, &format!("{at}/{i}"), out)),
        Value::Object(o) => o.iter().for_each(|(k, x)| units(x, &format!("{at}/{k}"), out)),
        x => {
            out.insert(at.to_string(), x.clone());
        }
    }
}

/// Every value in a result is one the corrupted party could have brought about honestly.
fn from_honest_runs(results: &BTreeMap<Id, Value>, main: &Pass, alt: &dyn Fn() -> Arc<Pass>) -> Result<(), Fail> {
    for (i, r) in results {
        if *r == main.results[i] {
            continue;
        }
        let (mut a, mut b, mut c) = (BTreeMap::new(), BTreeMap::new(), BTreeMap::new());
        units(r, "", &mut a);
        units(&main.results[i], "", &mut b);
        units(&alt().results[i], "", &mut c);
        for (k, x) in &a {
            vensure!(b.get(k) == Some(x) || c.get(k) == Some(x), "altered result", "{i:?} finishes with {k} = {x}, which is in neither honest run ({:?}, {:?})", b.get(k), c.get(k));
        }
        vensure!(a.len() == b.len(), "altered result", "{i:?} finishes with {} values, not {}", a.len(), b.len());
    }
    Ok(())
}

fn agree<'a>(what: &str, xs: impl Iterator<Item = (&'a Id, Value)>) -> Result<(), Fail> {
    let mut first: Option<(Id, Value)> = None;
    for (i, v) in xs {
        match &first {
            None => first = Some((*i, v)),
            Some((f, w)) => vensure!(v == *w, "honest parties disagree", "{what} of {i:?} and {f:?}: {v} and {w}"),
        }
    }
    Ok(())
}

fn json_of<X: DeserializeOwned>(v: &Value, f: &str) -> Option<X> {
    serde_json::from_value(v.get(f)?.clone()).ok()
}
fn map_of<X: DeserializeOwned>(v: &Value, f: &str) -> Option<BTreeMap<Id, X>> {
    json_of::<Vec<(Id, X)>>(v, f).map(|x| x.into_iter().collect())
}

fn shares_ok(all: &BTreeSet<Id>, results: &BTreeMap<Id, KeyShare<T, Id>>) -> Result<(), Fail> {
    let rc = T::rc();
    agree("public shares", results.iter().map(|(i, r)| (i, text(r.public()))))?;
    for (i, r) in results {
        vensure!(r.owner() == i && r.all_parties() == *all, "share of others", "{i:?}: {:?} of {:?}", r.owner(), r.all_parties());
        let x = scv::<T>(r.secret_share().expose_secret());
        vensure!(r.public_shares().get(i).map(|p| ptv::<T>(p)) == Some(rc.gmul(&x)), "secret does not match public", "{i:?}");
        let sum = r.public_shares().values().map(|p| ptv::<T>(p)).reduce(|a, b| rc.add(&a, &b)).expect("parties");
        vensure!(sum == ptv::<T>(&Point::<T>::from_verifying_key(&r.verifying_key())), "wrong key", "{i:?}: public shares do not sum to the verifying key");
    }
    Ok(())
}

fn aux_ok(all: &BTreeSet<Id>, results: &BTreeMap<Id, &AuxInfo<T, Id>>) -> Result<(), Fail> {
    agree("public auxiliary data", results.iter().map(|(i, r)| (i, text(&r.public))))?;
    for (i, r) in results {
        let listed: BTreeSet<Id> = r.public.as_map().keys().cloned().collect();
        vensure!(r.owner() == i && listed == *all, "data of others", "{i:?}: {:?} of {listed:?}", r.owner());
        let k = aux_key::<T>(r)?;
        vensure!(k.n == leaf(&r.public.as_map()[i].paillier_pk), "secret does not match public", "{i:?}");
    }
    Ok(())
}

fn shown<A: Arena>(results: &BTreeMap<Id, Res<A>>) -> BTreeMap<Id, Value> {
    results.iter().map(|(i, r)| (*i, A::show(r))).collect()
}

fn with_stranger(all: &BTreeSet<Id>) -> BTreeSet<Id> {
    let mut x = all.clone();
    x.insert(id(250));
    x
}

pub struct Init;
impl Arena for Init {
    type EP = KeyInit<T, Id>;
    const NAME: &'static str = "key-init";
    const ROUNDS: u8 = 3;
    const FAULTS: u8 = 1;
    const SETUPS: u8 = 24;
    fn entry(s: &Setup, _i: &Id, fault: u8) -> Option<Self::EP> {
        let all = Self::all(s);
        KeyInit::new(if fault == 1 { with_stranger(&all) } else { all }).ok()
    }
    fn assoc(s: &Setup) -> Assoc<Self> {
        KeyInitAssociatedData { ids: Self::all(s) }
    }
    fn show(r: &Res<Self>) -> Value {
        text(r)
    }
    fn judge(s: &Setup, results: &BTreeMap<Id, Res<Self>>, main: &Pass, alt: &dyn Fn() -> Arc<Pass>) -> Result<(), Fail> {
        shares_ok(&Self::all(s), results)?;
        from_honest_runs(&shown::<Self>(results), main, alt)
    }
    fn commitment(sid: &[u8], all: &BTreeSet<Id>, who: &Id, e: &Value, n: &Value) -> Option<HashOutput> {
        let h = Hasher::<<T as SchemeParams>::Digest>::new_with_dst(b"KeyInit")
            .chain(&Sid::new::<T, Id>(sid, all))
            .chain(who)
            .chain(&json_of::<Point<T>>(n, "cap_x")?)
            .chain(&json_of::<crate::zk::SchCommitment<T>>(n, "cap_a")?)
            .chain(&json_of::<BitVec>(e, "rho")?)
            .chain(&json_of::<BitVec>(n, "u")?);
        Some(h.finalize(T::SECURITY_BITS))
    }
}

pub struct Refresh;
impl Arena for Refresh {
    type EP = KeyRefresh<T, Id>;
    const NAME: &'static str = "key-refresh";
    const ROUNDS: u8 = 3;
    const FAULTS: u8 = 1;
    const SETUPS: u8 = 8;
    fn entry(s: &Setup, _i: &Id, fault: u8) -> Option<Self::EP> {
        let all = Self::all(s);
        KeyRefresh::new(if fault == 1 { with_stranger(&all) } else { all }).ok()
    }
    fn assoc(s: &Setup) -> Assoc<Self> {
        KeyRefreshAssociatedData { ids: Self::all(s) }
    }
    fn show(r: &Res<Self>) -> Value {
        json!([text(&r.0), text(&r.1)])
    }
    fn judge(s: &Setup, results: &BTreeMap<Id, Res<Self>>, main: &Pass, alt: &dyn Fn() -> Arc<Pass>) -> Result<(), Fail> {
        let all = Self::all(s);
        let rc = T::rc();
        aux_ok(&all, &results.iter().map(|(i, r)| (*i, &r.1)).collect())?;
        agree("public share changes", results.iter().map(|(i, r)| (i, text(&r.0.public_share_changes))))?;
        for (i, (c, _)) in results {
            let listed: BTreeSet<Id> = c.public_share_changes.keys().cloned().collect();
            vensure!(c.owner == *i && listed == all, "change of others", "{i:?}: {:?} of {listed:?}", c.owner);
            let x = scv::<T>(c.secret_share_change.expose_secret());
            vensure!(c.public_share_changes.get(i).map(|p| ptv::<T>(p)) == Some(rc.gmul(&x)), "change does not match public", "{i:?}");
            let sum = c.public_share_changes.values().map(|p| ptv::<T>(p)).reduce(|a, b| rc.add(&a, &b)).expect("parties");
            vensure!(sum == rc.gmul(&Big::zero()), "changes do not cancel", "{i:?}: the public share changes sum to {sum:?}");
        }
        from_honest_runs(&shown::<Self>(results), main, alt)
    }
    fn commitment(sid: &[u8], all: &BTreeSet<Id>, who: &Id, e: &Value, n: &Value) -> Option<HashOutput> {
        let h = Hasher::<<T as SchemeParams>::Digest>::new_with_dst(b"KeyInit")
            .chain(&Sid::new::<T, Id>(sid, all))
            .chain(who)
            .chain(&map_of::<Point<T>>(n, "cap_xs")?)
            .chain(&map_of::<Point<T>>(e, "cap_ys")?)
            .chain(&map_of::<crate::zk::SchCommitment<T>>(n, "cap_as")?)
            .chain(&json_of::<crate::paillier::PublicKeyPaillierWire<PP>>(n, "paillier_pk")?)
            .chain(&json_of::<crate::paillier::RPParamsWire<PP>>(e, "rp_params")?)
            .chain(&json_of::<crate::zk::PrmProof<T>>(n, "psi")?)
            .chain(&json_of::<BitVec>(e, "rid")?)
            .chain(&json_of::<BitVec>(n, "u")?);
        Some(h.finalize(T::SECURITY_BITS))
    }
}

pub struct Aux;
impl Arena for Aux {
    type EP = AuxGen<T, Id>;
    const NAME: &'static str = "aux-gen";
    const ROUNDS: u8 = 3;
    const FAULTS: u8 = 1;
    const SETUPS: u8 = 8;
    fn entry(s: &Setup, _i: &Id, fault: u8) -> Option<Self::EP> {
        let all = Self::all(s);
        AuxGen::new(if fault == 1 { with_stranger(&all) } else { all }).ok()
    }
    fn assoc(s: &Setup) -> Assoc<Self> {
        AuxGenAssociatedData { ids: Self::all(s) }
    }
    fn show(r: &Res<Self>) -> Value {
        text(r)
    }
    fn judge(s: &Setup, results: &BTreeMap<Id, Res<Self>>, main: &Pass, alt: &dyn Fn() -> Arc<Pass>) -> Result<(), Fail> {
        aux_ok(&Self::all(s), &results.iter().map(|(i, r)| (*i, r)).collect())?;
        from_honest_runs(&shown::<Self>(results), main, alt)
    }
    fn commitment(sid: &[u8], all: &BTreeSet<Id>, who: &Id, e: &Value, n: &Value) -> Option<HashOutput> {
        let h = Hasher::<<T as SchemeParams>::Digest>::new_with_dst(b"KeyInit")
            .chain(&Sid::new::<T, Id>(sid, all))
            .chain(who)
            .chain(&json_of::<crate::paillier::PublicKeyPaillierWire<PP>>(n, "paillier_pk")?)
            .chain(&json_of::<crate::paillier::RPParamsWire<PP>>(e, "rp_params")?)
            .chain(&json_of::<crate::zk::PrmProof<T>>(n, "psi")?)
            .chain(&json_of::<BitVec>(e, "rid")?)
            .chain(&json_of::<BitVec>(n, "u")?);
        Some(h.finalize(T::SECURITY_BITS))
    }
}

pub struct Sign;
impl Sign {
    pub fn key(s: &Setup) -> Big {
        Big::from_u64(1 + (s.seed() * 0x1_0001) % 0xffff_0000)
    }
    pub fn msg(s: &Setup) -> Vec<u8> {
        let mut b = vec![0u8; T::rc().flen];
        rng(s.seed()).fill_bytes(&mut b);
        b
    }
    pub fn shares(s: &Setup) -> BTreeMap<Id, KeyShare<T, Id>> {
        dealt::<T>(&Self::all(s), &Self::key(s), s.seed())
    }
    pub fn aux(s: &Setup) -> Arc<BTreeMap<Id, AuxInfo<T, Id>>> {
        <T as AuxPool>::aux(&Self::all(s), s.q as usize % 2)
    }
}
impl Arena for Sign {
    type EP = InteractiveSigning<T, Id>;
    const NAME: &'static str = "signing";
    const ROUNDS: u8 = 4;
    const FAULTS: u8 = 5;
    const SETUPS: u8 = 4;
    fn entry(s: &Setup, i: &Id, fault: u8) -> Option<Self::EP> {
        let all = Self::all(s);
        let mut share = Self::shares(s)[i].clone();
        let mut aux = Self::aux(s)[i].clone();
        let mut msg = Self::msg(s);
        match fault {
            1 => {
                let x = scv::<T>(share.secret_share().expose_secret()).add(&Big::one()).rem(&T::rc().n);
                share = KeyShare::new(*i, ssc::<T>(&x), share.public_shares().clone()).ok()?;
            }
            2 => aux.secret = <T as AuxPool>::aux(&all, 3)[i].secret.clone(),
            3 => msg[0] ^= 1,
            4 => share = dealt::<T>(&all, &Self::key(s), s.seed() + 1)[i].clone(),
            5 => aux = <T as AuxPool>::aux(&all, 3)[i].clone(),
            _ => {}
        }
        InteractiveSigning::new(prehash::<T>(&msg), share, aux).ok()
    }
    fn assoc(s: &Setup) -> Assoc<Self> {
        let shares = Self::shares(s);
        let aux = Self::aux(s);
        let (a, b) = (shares.values().next().expect("a party"), aux.values().next().expect("a party"));
        InteractiveSigningAssociatedData::new(prehash::<T>(&Self::msg(s)), a.public().clone(), b.public().clone()).expect("same parties")
    }
    fn show(r: &Res<Self>) -> Value {
        let (s, i) = r.clone().to_backend();
        json!([s.to_bytes().to_vec(), i.to_byte()])
    }
    fn judge(s: &Setup, results: &BTreeMap<Id, Res<Self>>, _main: &Pass, _alt: &dyn Fn() -> Arc<Pass>) -> Result<(), Fail> {
        agree("signatures", results.iter().map(|(i, r)| (i, Self::show(r))))?;
        for r in results.values() {
            check_signature::<T>(&Self::key(s), &Self::msg(s), r.clone())?;
        }
        Ok(())
    }
}

pub struct Reshare;
impl Reshare {
    pub fn t_old(s: &Setup) -> usize {
        (s.n as usize - 1).max(1)
    }
    pub fn t_new(s: &Setup) -> usize {
        1 + (s.q as usize / 3) % Self::new_holders(s).len().min(3)
    }
    pub fn new_holders(s: &Setup) -> BTreeSet<Id> {
        let all = s.basic();
        let list = ids(&all);
        match s.q % 3 {
            0 => all,
            1 => list[1..].iter().cloned().chain([id(60), id(61)]).collect(),
            _ => [id(50), id(60), id(61)].into(),
        }
    }
    pub fn key(s: &Setup) -> Big {
        Big::from_u64(1 + (s.seed() * 0x1_0007) % 0xffff_0000)
    }
}
impl Arena for Reshare {
    type EP = KeyResharing<T, Id>;
    const NAME: &'static str = "resharing";
    const ROUNDS: u8 = 1;
    const FAULTS: u8 = 3;
    const SETUPS: u8 = 18;
    fn all(s: &Setup) -> BTreeSet<Id> {
        s.basic().union(&Self::new_holders(s)).cloned().collect()
    }
    fn entry(s: &Setup, i: &Id, fault: u8) -> Option<Self::EP> {
        let old = s.basic();
        let new = Self::new_holders(s);
        let key = Self::key(s);
        let seed = if fault == 1 { s.seed() + 1 } else { s.seed() };
        let mut shares = ThresholdKeyShare::<T, Id>::new_centralized(&mut rng(seed), &old, Self::t_old(s), Some(&signing_key::<T>(&key))).ok()?;
        let vk = shares.values().next()?.verifying_key().ok()?;
        let o = shares.remove(i).map(|mut key_share| {
            if fault == 2 {
                let x = scv::<T>(key_share.secret_share.expose_secret()).add(&Big::one()).rem(&T::rc().n);
                key_share.secret_share = ssc::<T>(&x);
            }
            OldHolder { key_share }
        });
        let n = new.contains(i).then(|| NewHolder { verifying_key: vk, old_threshold: Self::t_old(s), old_holders: old.clone() });
        let t = Self::t_new(s);
        Some(KeyResharing::new(o, n, new.clone(), if fault == 3 { 1 + t % new.len() } else { t }))
    }
    fn assoc(_s: &Setup) -> Assoc<Self> {}
    fn show(r: &Res<Self>) -> Value {
        text(r)
    }
    fn judge(s: &Setup, results: &BTreeMap<Id, Res<Self>>, _main: &Pass, _alt: &dyn Fn() -> Arc<Pass>) -> Result<(), Fail> {
        let rc = T::rc();
        let new = Self::new_holders(s);
        for (i, r) in results {
            vensure!(r.is_some() == new.contains(i), "wrong holders", "{i:?}");
        }
        let got: BTreeMap<Id, &ThresholdKeyShare<T, Id>> = results.iter().filter_map(|(i, r)| r.as_ref().map(|r| (*i, r))).collect();
        agree("public shares", got.iter().map(|(i, r)| (i, json!([text(&r.public_shares), text(&r.share_ids), r.threshold()]))))?;
        let t = Self::t_new(s);
        let q = rc.gmul(&Self::key(s));
        for (i, r) in &got {
            vensure!(r.owner == *i && r.threshold() == t, "wrong share", "{i:?}: owner {:?}, threshold {}", r.owner, r.threshold());
            let listed: BTreeSet<Id> = r.public_shares.keys().cloned().collect();
            vensure!(listed == new, "wrong holders", "{i:?} lists {listed:?}");
            let x = scv::<T>(r.secret_share.expose_secret());
            vensure!(r.public_shares.get(i).map(|p| ptv::<T>(p)) == Some(rc.gmul(&x)), "secret does not match public", "{i:?}");
            vensure!(r.verifying_key().ok().map(|v| ptv::<T>(&Point::<T>::from_verifying_key(&v))) == Some(q.clone()), "key changed", "{i:?}");
            for sub in super::entities::subsets(&ids(&new), t, 4, s.seed()) {
                // the public shares of any t new holders
                let xs: Vec<(Big, Aff)> = sub
                    .iter()
                    .map(|j| (super::entities::share_number::<T>(r.share_ids.get(j).expect("listed")), ptv::<T>(r.public_shares.get(j).expect("listed"))))
                    .collect();
                let mut sum = rc.gmul(&Big::zero());
                for (a, (x, p)) in xs.iter().enumerate() {
                    let mut l = Big::one();
                    for (b, (z, _)) in xs.iter().enumerate() {
                        if a != b {
                            let den = z.add(&rc.n).sub(x).rem(&rc.n).invmod(&rc.n).expect("distinct");
                            l = l.mulmod(z, &rc.n).mulmod(&den, &rc.n);
                        }
                    }
                    sum = rc.add(&sum, &rc.mul(&l, p));
                }
                vensure!(sum == q, "key changed", "{i:?}: the public shares of {sub:?} interpolate to {sum:?}, not {q:?}");
            }
        }
        Ok(())
    }
}

// ------------------------------------------------------------------ cases

pub fn setup<A: Arena>(ns: std::ops::RangeInclusive<u8>) -> BoxedStrategy<Setup> {
    (ns, 0..A::SETUPS, 0u8..8, prop_oneof![3 => Just(true), 1 => Just(false)]).prop_map(|(n, q, bad, json)| Setup { n, q, bad, json }).boxed()
}
pub fn edit(rounds: std::ops::RangeInclusive<u8>) -> BoxedStrategy<Edit> {
    let op = prop_oneof![
        12 => 0u8..=10,
        2 => Just(6u8),
        4 => 11u8..=15,
        2 => Just(16u8),
        1 => Just(17u8),
        1 => Just(18u8),
        2 => Just(19u8),
        2 => Just(20u8),
        1 => Just(21u8),
    ];
    let at = prop_oneof![10 => Just(0u8), 2 => Just(1u8), 1 => Just(2u8)];
    let who = prop_oneof![2 => Just(255u8), 1 => any::<u8>()];
    (rounds, at, 0u8..3, who, op, proptest::collection::vec(any::<u16>(), 0..6), any::<u64>())
        .prop_map(|(round, at, part, who, op, path, val)| Edit { round, at, part, who, op, path, val })
        .boxed()
}
pub fn case<A: Arena>(ns: std::ops::RangeInclusive<u8>) -> BoxedStrategy<Case> {
    let edits = prop_oneof![
        6 => proptest::collection::vec(edit(1..=A::ROUNDS), 1),
        2 => proptest::collection::vec(edit(1..=A::ROUNDS), 2),
        1 => proptest::collection::vec(edit(1..=A::ROUNDS), 0..6),
    ];
    let input = prop_oneof![7 => Just(0u8), 1 => 0u8..=A::FAULTS];
    (setup::<A>(ns), plan(), edits, any::<bool>(), input)
        .prop_map(|(setup, plan, edits, commit, input)| Case { plan: Plan { json: setup.json, ..plan }, setup, edits, commit, drive: 0, input, accomplice: false })
        .boxed()
}
/// One change of one field to something that can still be read (a related value, another number of the same form, an
/// entry more or less), with the commitments made to fit: so that the later checks of each round are reached.
pub fn aimed<A: Arena>(ns: std::ops::RangeInclusive<u8>) -> BoxedStrategy<Case> {
    let op = prop_oneof![
        3 => prop_oneof![Just(2u8), Just(3u8), Just(10u8)],
        3 => prop_oneof![Just(5u8), Just(6u8)],
        2 => Just(16u8),
        2 => prop_oneof![Just(11u8), Just(13u8), Just(15u8)],
        1 => prop_oneof![Just(7u8), Just(8u8), Just(1u8)],
    ];
    let who = prop_oneof![3 => Just(255u8), 1 => any::<u8>()];
    let edit = (1..=A::ROUNDS, 0u8..3, who, op, proptest::collection::vec(any::<u16>(), 1..5), any::<u64>()).prop_map(|(round, part, who, op, mut path, val)| {
        if op > 10 && op != 16 {
            path.truncate(1);
        }
        Edit { round, at: 0, part, who, op, path, val }
    });
    (setup::<A>(ns), plan(), edit)
        .prop_map(|(mut setup, plan, e)| {
            setup.json = true;
            Case { plan: Plan { json: true, ..plan }, setup, edits: vec![e], commit: true, drive: 0, input: 0, accomplice: false }
        })
        .boxed()
}
/// Runs of signing that end in an error round.
pub fn driven() -> BoxedStrategy<Case> {
    let edits = prop_oneof![
        3 => proptest::collection::vec(edit(3..=6), 0..3),
        1 => proptest::collection::vec(edit(1..=2), 1),
        // values that no proof covers until the error rounds
        1 => (any::<u16>(), any::<u16>(), any::<u64>(), prop_oneof![3 => Just(0u8), 1 => 1u8..=10]).prop_map(|(a, b, val, op)| {
            vec![Edit { round: 2, at: 0, part: 0, who: 255, op, path: vec![a, b, 1], val }]
        }),
        // the proofs about single ciphertexts
        2 => (any::<u16>(), proptest::collection::vec(any::<u16>(), 3), any::<u64>(), prop_oneof![Just(2u8), Just(3u8), Just(5u8), Just(0u8)]).prop_map(|(a, more, val, op)| {
            let mut path = vec![1, a, 1];
            path.extend(more);
            vec![Edit { round: 5, at: 0, part: 0, who: 255, op, path, val }]
        }),
        1 => (any::<u16>(), any::<u64>(), prop_oneof![Just(11u8), Just(13u8), Just(15u8), Just(16u8)]).prop_map(|(a, val, op)| {
            vec![Edit { round: 5, at: 0, part: 0, who: 255, op, path: vec![a], val }]
        }),
    ];
    (setup::<Sign>(2..=4), plan(), edits, 1u8..=2, prop_oneof![2 => Just(true), 1 => Just(false)])
        .prop_map(|(mut setup, plan, mut edits, drive, accomplice)| {
            setup.json = true;
            let accomplice = accomplice && setup.n > 2;
            for e in &mut edits {
                if e.round == 5 || e.round == 6 || e.round == 4 {
                    e.round = 4 + drive;
                }
            }
            Case { plan: Plan { json: true, ..plan }, setup, edits, commit: false, drive, input: 0, accomplice }
        })
        .boxed()
}

/// Everything is sent, to everybody alike.
fn loud(c: BoxedStrategy<Case>) -> BoxedStrategy<Case> {
    c.prop_map(|mut c| {
        c.edits.retain(|e| e.at == 0 && e.op != 17);
        c.edits.iter_mut().for_each(|e| e.who = 255);
        c.input = 0;
        c
    })
    .boxed()
}

pub fn p11(ctx: &Ctx) {
    let rule = "a corrupted party sends something else, to everybody alike, and not all honest parties finish";
    ctx.check("key-init", rule, ctx.n(1000, 40_000), || loud(case::<Init>(2..=4)), answers::<Init>);
    ctx.check("key-refresh", rule, ctx.n(200, 8_000), || loud(case::<Refresh>(2..=3)), answers::<Refresh>);
    ctx.check("aux-gen", rule, ctx.n(200, 8_000), || loud(case::<Aux>(2..=3)), answers::<Aux>);
    ctx.check("signing", rule, ctx.n(300, 10_000), || loud(case::<Sign>(2..=3)), answers::<Sign>);
    ctx.check("signing-error-rounds", rule, ctx.n(200, 8_000), || loud(driven()), answers::<Sign>);
    ctx.check("aimed/key-init", rule, ctx.n(1500, 60_000), || loud(aimed::<Init>(2..=4)), answers::<Init>);
    ctx.check("aimed/key-refresh", rule, ctx.n(400, 10_000), || loud(aimed::<Refresh>(2..=3)), answers::<Refresh>);
    ctx.check("aimed/aux-gen", rule, ctx.n(400, 10_000), || loud(aimed::<Aux>(2..=3)), answers::<Aux>);
    ctx.check("aimed/signing", rule, ctx.n(500, 12_000), || loud(aimed::<Sign>(2..=3)), answers::<Sign>);
}

pub fn p13(ctx: &Ctx) {
    let rule = "a message that an honest party received before the last round was altered, and it did not finish";
    ctx.check("key-init", rule, ctx.n(3000, 100_000), || aimed::<Init>(2..=4), halts::<Init>);
    ctx.check("key-refresh", rule, ctx.n(700, 15_000), || aimed::<Refresh>(2..=3), halts::<Refresh>);
    ctx.check("aux-gen", rule, ctx.n(700, 15_000), || aimed::<Aux>(2..=3), halts::<Aux>);
    ctx.check("signing", rule, ctx.n(1000, 20_000), || aimed::<Sign>(2..=3), halts::<Sign>);
    let rule = "honest parties received a modulus that is too small";
    ctx.check("sizes/key-refresh", rule, ctx.n(150, 4_000), || resized::<Refresh>(2..=3), sized::<Refresh>);
    ctx.check("sizes/aux-gen", rule, ctx.n(150, 4_000), || resized::<Aux>(2..=3), sized::<Aux>);
}

pub fn p06(ctx: &Ctx) {
    let rule = "a message delivered to an honest party differs from what the corrupted party's code made, or its inputs are wrong";
    ctx.check("key-init", rule, ctx.n(8000, 300_000), || case::<Init>(2..=4), survives::<Init>);
    ctx.check("key-refresh", rule, ctx.n(600, 20_000), || case::<Refresh>(2..=3), survives::<Refresh>);
    ctx.check("aux-gen", rule, ctx.n(800, 25_000), || case::<Aux>(2..=3), survives::<Aux>);
    ctx.check("signing", rule, ctx.n(900, 30_000), || case::<Sign>(2..=3), survives::<Sign>);
    ctx.check("signing-error-rounds", rule, ctx.n(300, 10_000), driven, survives::<Sign>);
    ctx.check("aimed/key-init", rule, ctx.n(2000, 100_000), || aimed::<Init>(2..=4), survives::<Init>);
    ctx.check("aimed/key-refresh", rule, ctx.n(500, 15_000), || aimed::<Refresh>(2..=3), survives::<Refresh>);
    ctx.check("aimed/aux-gen", rule, ctx.n(400, 15_000), || aimed::<Aux>(2..=3), survives::<Aux>);
    ctx.check("aimed/signing", rule, ctx.n(500, 15_000), || aimed::<Sign>(2..=3), survives::<Sign>);
    ctx.check("aimed/resharing", rule, ctx.n(1500, 50_000), || aimed::<Reshare>(2..=4), survives::<Reshare>);
    ctx.check("resharing", rule, ctx.n(5000, 150_000), || case::<Reshare>(2..=4), survives::<Reshare>);
}

