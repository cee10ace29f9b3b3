//! P08: what a party sent in one run is not accepted in another.
//!
//! Two runs are made with the same randomness, so that they differ only where the session, the parties, the
//! parameters, the keys or the sender enter. Everything of the sender's messages that does differ is something that is
//! bound to them, and presenting it in the other run must not let the receivers finish.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::v1::*;
use std::vec;

use manul::engine::{Network, Outcome};
use manul::protocol::{BoxedFormat, EchoBroadcast, EntryPoint, ProtocolMessage};
use manul::session::FormatKind;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rand_core::CryptoRngCore;
use serde::{Deserialize, Serialize};
use serde_json::{json, Value};

use super::common::big::Big;
use super::common::ecref::*;
use super::common::gens::rng;
use super::common::runner::*;
use super::net::*;
use super::sign::{chosen_aux, prehash};
use super::tamper::{gist, Arena, Aux, Init, Refresh, Sign};
use crate::dev::TestParams as T;
use crate::params::SchemeParams;
use crate::{vensure, AuxGen, InteractiveSigning, KeyInit, KeyRefresh, KeyShare};

macro_rules! params {
    ($name:ident, { $($extra:tt)* }) => {
        #[derive(Debug, Copy, Clone, PartialEq, Eq, Serialize, Deserialize, PartialOrd, Ord)]
        pub struct $name;
        impl SchemeParams for $name {
            type Curve = <T as SchemeParams>::Curve;
            type Digest = <T as SchemeParams>::Digest;
            type Paillier = <T as SchemeParams>::Paillier;
            type ExtraWideUint = <T as SchemeParams>::ExtraWideUint;
            $($extra)*
        }
        impl Inst for $name {
            const TINY: bool = true;
            fn rc() -> &'static RefCurve {
                T::rc()
            }
        }
    };
}
// the hashes come out equally long
params!(FewerBits, {
    const SECURITY_BITS: usize = 15;
});
params!(WiderMasks, {
    const SECURITY_BITS: usize = 16;
    const LP_BOUND: u32 = 168;
});

/// One run, by position of the parties.
#[derive(Clone, Debug)]
pub struct World {
    pub ids: Vec<u8>,
    pub sid: Vec<u8>,
    pub seeds: Vec<u64>,
    pub shares: Vec<u64>,
    /// Paillier key and ring-Pedersen parameters
    pub aux: Vec<(usize, usize)>,
    pub msg: u64,
}
impl World {
    fn all(&self) -> BTreeSet<Id> {
        set(&self.ids)
    }
    fn id(&self, k: usize) -> Id {
        id(self.ids[k])
    }
}

pub trait Play {
    type EP<P: Inst>: EntryPoint<Id>;
    /// the same protocol over `TestParams`, which knows the commitments
    type Known: Arena;
    const ROUNDS: u8;
    const KEYED: bool;
    fn entries<P: Inst>(w: &World) -> Vec<Self::EP<P>>;
}
impl Play for Init {
    type EP<P: Inst> = KeyInit<P, Id>;
    type Known = Init;
    const ROUNDS: u8 = 3;
    const KEYED: bool = false;
    fn entries<P: Inst>(w: &World) -> Vec<Self::EP<P>> {
        w.ids.iter().map(|_| KeyInit::new(w.all()).expect("good inputs")).collect()
    }
}
impl Play for Refresh {
    type EP<P: Inst> = KeyRefresh<P, Id>;
    type Known = Refresh;
    const ROUNDS: u8 = 3;
    const KEYED: bool = false;
    fn entries<P: Inst>(w: &World) -> Vec<Self::EP<P>> {
        w.ids.iter().map(|_| KeyRefresh::new(w.all()).expect("good inputs")).collect()
    }
}
impl Play for Aux {
    type EP<P: Inst> = AuxGen<P, Id>;
    type Known = Aux;
    const ROUNDS: u8 = 3;
    const KEYED: bool = false;
    fn entries<P: Inst>(w: &World) -> Vec<Self::EP<P>> {
        w.ids.iter().map(|_| AuxGen::new(w.all()).expect("good inputs")).collect()
    }
}
impl Play for Sign {
    type EP<P: Inst> = InteractiveSigning<P, Id>;
    type Known = Sign;
    const ROUNDS: u8 = 4;
    const KEYED: bool = true;
    fn entries<P: Inst>(w: &World) -> Vec<Self::EP<P>> {
        let rc = P::rc();
        let all = w.all();
        let aux = chosen_aux::<P>(&all, &w.aux);
        let xs: Vec<Big> = w.shares.iter().map(|x| Big::from_u64(*x).rem(&rc.n)).collect();
        let public: BTreeMap<Id, crate::curve::Point<P>> = w.ids.iter().zip(&xs).map(|(i, x)| (id(*i), pt::<P>(&rc.gmul(x)))).collect();
        let mut m = vec![0u8; rc.flen];
        rand_core::RngCore::fill_bytes(&mut rng(w.msg), &mut m);
        w.ids
            .iter()
            .zip(&xs)
            .map(|(i, x)| {
                let share = KeyShare::new(id(*i), ssc::<P>(x), public.clone()).expect("not zero");
                InteractiveSigning::new(prehash::<P>(&m), share, aux[&id(*i)].clone()).expect("good inputs")
            })
            .collect()
    }
}

/// Messages by position of sender and receiver, and round.
pub type Sent = BTreeMap<(usize, usize, u8), [Option<Value>; 3]>;

pub fn values(m: &ProtocolMessage) -> [Option<Value>; 3] {
    let v = |b: &Option<Vec<u8>>| b.as_ref().map(|b| serde_json::from_slice(b).expect("json"));
    [v(&m.echo_broadcast.0), v(&m.normal_broadcast.0), v(&m.direct_message.0)]
}

pub struct Ran {
    pub sent: Sent,
    pub finished: BTreeSet<usize>,
    pub notes: BTreeSet<String>,
}

pub fn play<A: Play, P: Inst>(w: &World, net: &mut dyn Network<Id>) -> Ran {
    let parties: Vec<(Id, A::EP<P>, Box<dyn CryptoRngCore>)> = w
        .ids
        .iter()
        .zip(A::entries::<P>(w))
        .zip(&w.seeds)
        .map(|((i, ep), s)| (id(*i), ep, Box::new(rng(*s)) as Box<dyn CryptoRngCore>))
        .collect();
    let run = quiet(|| manul::engine::run(FormatKind::Json, &w.sid, parties, net));
    let at = |i: &Id| w.ids.iter().position(|x| id(*x) == *i).expect("a party");
    let mut notes = BTreeSet::new();
    let mut finished = BTreeSet::new();
    for (i, r) in &run.reports {
        for e in r.provable_errors.values() {
            notes.insert(gist(&e.description()));
        }
        for e in r.unprovable_errors.values() {
            notes.insert(format!("unprovable: {}", gist(e)));
        }
        match &r.outcome {
            Outcome::Result(_) => {
                finished.insert(at(i));
            }
            Outcome::Stalled(_) => {}
            o => {
                notes.insert(gist(&format!("{o:?}")));
            }
        }
    }
    let sent = run.sent.iter().map(|(f, t, r, m)| ((at(f), at(t), *r), values(m))).collect();
    Ran { sent, finished, notes }
}

/// Puts the identifiers of one run in the place of those of another.
fn rename(v: &mut Value, map: &BTreeMap<u64, u64>) {
    match v {
        Value::Array(a) => {
            let pairs = a.iter().all(|x| x.as_array().is_some_and(|p| p.len() == 2 && p[0].is_u64())) && !a.is_empty();
            if pairs {
                for p in a.iter_mut() {
                    if let Some(k) = map.get(&p[0].as_u64().expect("a number")) {
                        p[0] = json!(k);
                    }
                }
                a.sort_by_key(|p| p[0].as_u64());
            }
            a.iter_mut().for_each(|x| {
                if let (true, Some(p)) = (pairs, x.as_array_mut()) {
                    rename(&mut p[1], map)
                } else {
                    rename(x, map)
                }
            });
        }
        Value::Object(o) => o.values_mut().for_each(|x| rename(x, map)),
        _ => {}
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Replay {
    pub n: u8,
    pub spread: u8,
    /// what differs between the runs
    pub kind: u8,
    pub sender: u8,
    pub other: u8,
    pub seed: u64,
    /// how much is taken from the other run
    pub mode: u8,
    pub pick: u64,
    /// round 1 commits to what is sent in round 2
    pub commit: bool,
}

struct Inject<'a> {
    w: &'a World,
    sender: usize,
    /// (receiver, round, part) to replaced fields
    put: &'a BTreeMap<(usize, u8, usize), BTreeMap<String, Value>>,
    altered: BTreeSet<usize>,
    /// what the sender's code broadcast
    own: BTreeMap<u8, EchoBroadcast>,
}
impl Network<Id> for Inject<'_> {
    fn on_send(&mut self, _f: &BoxedFormat, from: &Id, to: &Id, round: u8, msg: &mut ProtocolMessage) -> bool {
        if *from != self.w.id(self.sender) {
            return true;
        }
        let to = self.w.ids.iter().position(|x| id(*x) == *to).expect("a party");
        let before = values(msg);
        self.own.insert(round, msg.echo_broadcast.clone());
        for (k, slot) in [&mut msg.echo_broadcast.0, &mut msg.normal_broadcast.0, &mut msg.direct_message.0].into_iter().enumerate() {
            let Some(put) = self.put.get(&(to, round, k)) else { continue };
            let Some(mut v) = before[k].clone() else { continue };
            for (f, x) in put {
                v[f] = x.clone();
            }
            if Some(&v) != before[k].as_ref() {
                *slot = Some(serde_json::to_vec(&v).expect("serializes"));
                self.altered.insert(to);
            }
        }
        true
    }
    fn on_receive_echo(&mut self, _from: &Id, to: &Id, round: u8, echos: &mut BTreeMap<Id, EchoBroadcast>) {
        // the sender's code must not stop because of what was altered on its behalf
        if *to == self.w.id(self.sender) {
            if let (Some(e), Some(b)) = (echos.get_mut(to), self.own.get(&round)) {
                *e = b.clone();
            }
        }
    }
}

fn presented<A: Play>(c: &Replay) -> R {
    let n = c.n as usize;
    let base: [u8; 5] = match c.spread % 3 {
        0 => [1, 3, 5, 7, 9],
        1 => [0, 17, 130, 200, 255],
        _ => [10, 20, 30, 40, 50],
    };
    let mut g = rng(c.seed);
    let mut next = || rand_core::RngCore::next_u64(&mut g);
    let mut b = World {
        ids: base[..n].to_vec(),
        sid: next().to_be_bytes().repeat(1 + c.spread as usize % 4),
        seeds: (0..n).map(|_| next()).collect(),
        shares: (0..n).map(|_| 1 + next() % 0xffff_0000).collect(),
        aux: (0..n).map(|i| (7 * i + (c.seed % 7) as usize, i + (c.seed % 5) as usize)).collect(),
        msg: next(),
    };
    let sender = c.sender as usize % n;
    // another party than the sender
    let third = (sender + 1 + c.other as usize % (n - 1)) % n;
    let mut names = BTreeMap::new();
    let kinds: &[u8] = if A::KEYED { &[0, 1, 2, 3, 4, 5, 6, 7] } else { &[0, 1, 2, 3, 4] };
    let kind = kinds[c.kind as usize % kinds.len()];
    let mut source = sender;
    if kind == 2 {
        // the other party sent it: a neighbour who has the same secrets and randomness
        source = if sender + 1 < n && (c.other % 2 == 0 || sender == 0) { sender + 1 } else { sender - 1 };
        b.seeds[source] = b.seeds[sender];
        b.shares[source] = b.shares[sender];
        b.aux[source] = b.aux[sender];
        names.insert(b.ids[source] as u64, b.ids[sender] as u64);
        names.insert(b.ids[sender] as u64, b.ids[source] as u64);
    }
    let mut a = b.clone();
    let what = match kind {
        0 => {
            let k = c.other as usize % a.sid.len();
            a.sid[k] ^= 1 << (c.pick % 8);
            "session identifier"
        }
        1 => {
            // (order is kept)
            let up = a.ids[third] < 255;
            a.ids[third] = if up { a.ids[third] + 1 } else { 254 };
            names.insert(a.ids[third] as u64, b.ids[third] as u64);
            "parties"
        }
        2 => "sender",
        3 | 4 => "parameters",
        5 => {
            a.shares[third] = 1 + a.shares[third] % 0xffff_0000;
            "key shares of another"
        }
        6 => {
            a.aux[third].0 += 1;
            "Paillier key of another"
        }
        _ => {
            a.aux[third].1 += 1;
            "ring-Pedersen parameters of another"
        }
    };
    let mut honest = manul::engine::Honest;
    let ran_b = play::<A, T>(&b, &mut honest);
    vensure!(ran_b.finished.len() == n, "honest run fails", "{:?}", ran_b.notes);
    let ran_a = match kind {
        2 => None,
        3 => Some(play::<A, FewerBits>(&a, &mut honest)),
        4 => Some(play::<A, WiderMasks>(&a, &mut honest)),
        _ => Some(play::<A, T>(&a, &mut honest)),
    };
    if let Some(r) = &ran_a {
        vensure!(r.finished.len() == n, "honest run fails", "{:?}", r.notes);
    }
    let sent_a = ran_a.as_ref().map(|r| &r.sent).unwrap_or(&ran_b.sent);

    // what differs
    let swap = |k: usize| match kind {
        2 if k == source => sender,
        _ => k,
    };
    let mut fields: BTreeMap<(u8, usize, String), Vec<(usize, Value)>> = BTreeMap::new();
    for ((from, to, round), parts) in sent_a {
        if *from != source {
            continue;
        }
        // the source's message to the sender is the sender's to the source
        let to_b = if kind == 2 && *to == sender { source } else { swap(*to) };
        let Some(own) = ran_b.sent.get(&(sender, to_b, *round)) else { continue };
        for k in 0..3 {
            let (Some(Value::Object(x)), Some(Value::Object(y))) = (&parts[k], &own[k]) else { continue };
            for (f, v) in x {
                let mut v = v.clone();
                rename(&mut v, &names);
                if let (true, Some(n)) = (f == "destination", v.as_u64().and_then(|n| names.get(&n))) {
                    v = json!(n);
                }
                if y.get(f).is_some_and(|w| *w != v) {
                    fields.entry((*round, k, f.clone())).or_default().push((to_b, v));
                }
            }
        }
    }
    let list: Vec<_> = fields.keys().cloned().collect();
    if list.is_empty() {
        return Ok(obs(false).tag(format!("{what}: nothing differs")));
    }
    let mut chosen: BTreeSet<usize> = match c.mode % 4 {
        0 | 1 => [c.pick as usize % list.len()].into(),
        2 => (0..list.len()).filter(|k| c.pick >> k & 1 == 1).collect(),
        _ => (0..list.len()).collect(),
    };
    if c.mode / 4 % 4 != 0 && chosen.len() > 1 {
        // not what is refused before the proofs are looked at
        chosen.retain(|k| !["destination", "cap_c"].contains(&list[*k].2.as_str()));
    }
    if c.commit {
        // the commitment is made anew
        // (and `u` is nothing but the randomness in it)
        chosen.retain(|k| !["cap_v", "u"].contains(&list[*k].2.as_str()));
    }
    let mut o = obs(false);
    let mut put: BTreeMap<(usize, u8, usize), BTreeMap<String, Value>> = BTreeMap::new();
    for k in &chosen {
        let (round, part, f) = &list[*k];
        o = o.tag(format!("{what}: round {round} {f}"));
        for (to, v) in &fields[&list[*k]] {
            put.entry((*to, *round, *part)).or_default().insert(f.clone(), v.clone());
        }
    }
    if c.commit {
        for to in (0..n).filter(|k| *k != sender) {
            let Some([Some(e0), Some(n0), _]) = ran_b.sent.get(&(sender, to, 2)) else { continue };
            let (mut e, mut nb) = (e0.clone(), n0.clone());
            for (k, v) in [(0, &mut e), (1, &mut nb)] {
                for (f, x) in put.get(&(to, 2, k)).into_iter().flatten() {
                    v[f] = x.clone();
                }
            }
            if (&e, &nb) == (e0, n0) {
                continue;
            }
            let all = b.all();
            let known = |e: &Value, n: &Value| A::Known::commitment(&b.sid, &all, &b.id(sender), e, n).map(|h| serde_json::to_value(h).expect("serializes"));
            let own = ran_b.sent.get(&(sender, to, 1)).and_then(|p| p[0].clone()).and_then(|v| v.get("cap_v").cloned());
            if let (Some(h0), Some(h)) = (known(e0, n0), known(&e, &nb)) {
                if Some(h0) == own {
                    put.entry((to, 1, 0)).or_default().insert("cap_v".into(), h);
                    o = o.tag("recommitted");
                }
            }
        }
    }
    if put.is_empty() {
        return Ok(o.tag(format!("{what}: nothing replaced")));
    }
    let mut net = Inject { w: &b, sender, put: &put, altered: BTreeSet::new(), own: BTreeMap::new() };
    let ran = play::<A, T>(&b, &mut net);
    let altered = net.altered;
    for k in &altered {
        if ran.finished.contains(k) {
            let used: Vec<String> = chosen.iter().map(|k| format!("round {} {}", list[*k].0, list[*k].2)).collect();
            return fail(
                format!("replay accepted:{what}"),
                format!("party {:?} finishes although {:?} of {:?} came from a run with another {what}", b.id(*k), used, b.id(sender)),
            );
        }
    }
    o.nontrivial = !altered.is_empty();
    for x in ran.notes {
        o = o.tag(format!("stopped: {x}"));
    }
    Ok(o)
}

fn replay<A: Play>(max: u8) -> BoxedStrategy<Replay> {
    (2..=max, any::<u8>(), any::<u8>(), any::<u8>(), any::<u8>(), any::<u64>(), any::<u8>(), any::<u64>(), prop_oneof![3 => Just(true), 1 => Just(false)])
        .prop_map(|(n, spread, kind, sender, other, seed, mode, pick, commit)| Replay { n, spread, kind, sender, other, seed, mode, pick, commit })
        .boxed()
}

pub fn p08(ctx: &Ctx) {
    let rule = "a message is delivered in which something differs from what the sender's code made in this run";
    ctx.check("key-init", rule, ctx.n(4000, 120_000), || replay::<Init>(4), presented::<Init>);
    ctx.check("key-refresh", rule, ctx.n(300, 10_000), || replay::<Refresh>(3), presented::<Refresh>);
    ctx.check("aux-gen", rule, ctx.n(400, 12_000), || replay::<Aux>(3), presented::<Aux>);
    ctx.check("signing", rule, ctx.n(500, 15_000), || replay::<Sign>(4), presented::<Sign>);
}
