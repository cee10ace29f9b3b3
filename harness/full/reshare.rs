//! P05 resharing, P09 the whole life of a key.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::v1::*;

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use super::common::big::Big;
use super::common::ecref::*;
use super::common::gens::*;
use super::common::runner::*;
use super::entities::*;
use super::keygen::*;
use super::net::*;
use super::sign::*;
use crate::dev::TestParams as T;
use crate::k256::ProductionParams112 as K;
use crate::vensure;
use crate::{KeyResharing, KeyShare, NewHolder, OldHolder, ThresholdKeyShare};

/// One resharing step: which holders take part, who gets the new shares.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Step {
    pub new: Vec<u8>,
    pub t_new: usize,
    /// how many old holders beyond the threshold take part, and which
    pub extra: usize,
    pub pick: u64,
    pub sid: Vec<u8>,
    pub plan: Plan,
    pub plan2: Plan,
}
pub fn step(max: usize) -> BoxedStrategy<Step> {
    // (a small universe, so that old and new holders overlap)
    let new = prop_oneof![
        5 => proptest::collection::btree_set(0u8..8, 1..=max).prop_map(|s| s.into_iter().collect::<Vec<u8>>()),
        1 => party_ids(1..=max),
    ];
    (new, any::<u16>(), 0usize..4, any::<u64>(), session_id(), plan(), plan())
        .prop_map(|(new, t, extra, pick, sid, plan, plan2)| Step { t_new: 1 + t as usize % new.len(), new, extra, pick, sid, plan, plan2 })
        .boxed()
}

pub fn pick<X: Clone + Ord>(from: &BTreeSet<X>, k: usize, seed: u64) -> BTreeSet<X> {
    use rand_core::RngCore;
    let mut v: Vec<X> = from.iter().cloned().collect();
    let mut g = rng(seed);
    while v.len() > k {
        v.swap_remove(g.next_u64() as usize % v.len());
    }
    v.into_iter().collect()
}

/// Runs the protocol; checks who gets what.
pub fn reshare<P: Inst>(old: &Holders<P>, t_old: usize, s: &Step, plan: &Plan, seed: u64) -> Result<Holders<P>, Fail> {
    let holders: BTreeSet<Id> = old.keys().cloned().collect();
    let taking = pick(&holders, (t_old + s.extra).min(holders.len()), s.pick);
    let new = set(&s.new);
    let vk = old.values().next().expect("holders").verifying_key().expect("a key");
    let mut eps = BTreeMap::new();
    for i in taking.union(&new) {
        let o = taking.contains(i).then(|| OldHolder { key_share: old[i].clone() });
        let n = new.contains(i).then(|| NewHolder { verifying_key: vk, old_threshold: t_old, old_holders: taking.clone() });
        eps.insert(*i, KeyResharing::<P, Id>::new(o, n, new.clone(), s.t_new));
    }
    let out = all_finish(run(eps, &s.sid, seed, plan), &[1], "reshare")?;
    let mut got = BTreeMap::new();
    for (i, r) in out {
        vensure!(r.is_some() == new.contains(&i), "wrong holders", "{i:?} (new holders {new:?}) got a share: {}", r.is_some());
        if let Some(x) = r {
            got.insert(i, x);
        }
    }
    Ok(got)
}

/// What is sent when `t_old` of the holders share their shares again.
pub fn reshare_sent<P: Inst>(old: &Holders<P>, t_old: usize, t_new: usize, overlap: bool, seed: u64) -> Result<Vec<(Id, Id, u8, manul::protocol::ProtocolMessage)>, Fail> {
    let taking: BTreeSet<Id> = old.keys().take(t_old).cloned().collect();
    let free = (0..=255u8).rev().map(id).filter(|i| !old.contains_key(i));
    let new: BTreeSet<Id> = if overlap { old.keys().take(1).cloned().chain(free).take(t_new + 1).collect() } else { free.take(t_new + 1).collect() };
    let vk = old.values().next().expect("holders").verifying_key().expect("a key");
    let mut eps = BTreeMap::new();
    for i in taking.union(&new) {
        let o = taking.contains(i).then(|| OldHolder { key_share: old[i].clone() });
        let n = new.contains(i).then(|| NewHolder { verifying_key: vk, old_threshold: t_old, old_holders: taking.clone() });
        eps.insert(*i, KeyResharing::<P, Id>::new(o, n, new.clone(), t_new));
    }
    let plan = Plan::plain();
    let run = run(eps, b"session", seed, &plan);
    let sent = run.sent.clone();
    all_finish(run, &[1], "reshare")?;
    Ok(sent)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Chain {
    deal: Deal,
    /// start from full key shares
    full: bool,
    steps: Vec<Step>,
    msg: Vec<u8>,
}
fn chain_case<P: Inst>(max: usize, len: usize) -> BoxedStrategy<Chain> {
    (deal::<P>(max), any::<bool>(), proptest::collection::vec(step(max), 1..=len), message::<P>(), proptest::collection::btree_set(0u8..8, 1..=max))
        .prop_map(|(mut deal, full, steps, msg, near)| {
            if deal.seed % 4 != 0 {
                deal.ids = near.into_iter().collect();
                deal.t = 1 + deal.t % deal.ids.len();
            }
            Chain { deal, full, steps, msg }
        })
        .boxed()
}

fn chain<P: AuxPool>(c: &Chain) -> R {
    let all = set(&c.deal.ids);
    let mut t = c.deal.t;
    let key = c.deal.key.clone().unwrap_or_else(|| Big::from_u64(1 + c.deal.seed % 99_999));
    let mut shares: Holders<P> = if c.full {
        t = all.len();
        dealt::<P>(&all, &key, c.deal.seed).iter().map(|(i, s)| (*i, ThresholdKeyShare::from_key_share(s))).collect()
    } else {
        threshold_shares::<P>(&all, t, &Some(key.clone()), c.deal.seed)?
    };
    let mut o = obs(true).tag(format!("{} steps", c.steps.len())).tag(if c.full { "from full shares" } else { "from a dealer" });
    for (k, s) in c.steps.iter().enumerate() {
        let seed = c.deal.seed.wrapping_add(k as u64 * 1000);
        let next = reshare::<P>(&shares, t, s, &s.plan, seed)?;
        if s.plan != s.plan2 {
            let again = reshare::<P>(&shares, t, s, &s.plan2, seed)?;
            for (i, x) in &next {
                vensure!(again.get(i).map(|y| text(y)) == Some(text(x)), "depends on the schedule", "{i:?} gets another share under another message order");
            }
        }
        let new = set(&s.new);
        let k2 = check_threshold::<P>(&new, s.t_new, &next, seed)?;
        vensure!(k2 == key, "key changed", "resharing changed the key from {key:?} to {k2:?}");
        let old: BTreeSet<Id> = shares.keys().cloned().collect();
        o = o.tag(match (old == new, old.is_disjoint(&new)) {
            (true, _) => "same holders",
            (_, true) => "disjoint holders",
            _ => "overlapping holders",
        });
        // the new shares are not the old ones
        if s.t_new > 1 {
            for i in old.intersection(&new) {
                vensure!(
                    shares[i].secret_share.expose_secret() != next[i].secret_share.expose_secret(),
                    "share kept",
                    "{i:?} has the same share after resharing"
                );
            }
        }
        o = o.tag_if(s.extra > 0 && old.len() > t, "more old holders than needed");
        shares = next;
        t = s.t_new;
    }
    if P::TINY && c.deal.seed % 5 == 0 && t <= 3 {
        let all: BTreeSet<Id> = shares.keys().cloned().collect();
        let sub = pick(&all, t, c.deal.seed);
        let full: BTreeMap<Id, KeyShare<P, Id>> = sub.iter().map(|i| (*i, shares[i].to_key_share(&sub).expect("checked above"))).collect();
        sign_checked::<P>(&key, &full, &P::aux(&sub, 0), &c.msg, &c.steps[0].sid, c.deal.seed, &c.steps[0].plan)?;
        o = o.tag("signed");
    }
    Ok(o)
}

pub fn p05(ctx: &Ctx) {
    let rule = "one resharing or more, each run by old and new holders";
    ctx.check("tiny/chain", rule, ctx.n(3000, 80_000), || chain_case::<T>(5, 3), chain::<T>);
    ctx.check("tiny/large", rule, ctx.n(60, 1500), || chain_case::<T>(8, 2), chain::<T>);
    ctx.check("k256/chain", rule, ctx.n(60, 1500), || chain_case::<K>(3, 2), chain::<K>);
}

// ------------------------------------------------------------------ the whole life of a key

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Op {
    Refresh,
    /// full key shares to threshold shares
    ToThreshold,
    Reshare(Step),
    /// a subset of the holders, of the threshold's size, makes full key shares
    ToFull(u64),
    Derive(Vec<u32>),
    /// stored and restored
    Store,
    Sign(Vec<u8>, u64),
    /// the other members of the set start over from what a subset has
    NewAux,
}
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Life {
    pub ids: Vec<u8>,
    /// None: by the key generation protocol
    pub dealer: Option<(Big, usize)>,
    pub ops: Vec<Op>,
    pub seed: u64,
    pub plan: Plan,
}
fn life<P: Inst>(max: usize, len: usize) -> BoxedStrategy<Life> {
    let near = move || proptest::collection::btree_set(0u8..8, 1..=max).prop_map(|s| s.into_iter().collect::<Vec<u8>>());
    let op = prop_oneof![
        2 => Just(Op::Refresh),
        2 => Just(Op::ToThreshold),
        4 => step(max).prop_map(Op::Reshare),
        3 => any::<u64>().prop_map(Op::ToFull),
        3 => proptest::collection::vec(prop_oneof![0u32..4, 0u32..0x8000_0000], 0..4).prop_map(Op::Derive),
        1 => Just(Op::Store),
        3 => (message::<P>(), any::<u64>()).prop_map(|(m, s)| Op::Sign(m, s)),
        1 => Just(Op::NewAux),
    ];
    (near(), proptest::option::of((nonzero_scalar::<P>(), any::<u16>())), proptest::collection::vec(op, 1..=len), any::<u64>(), plan())
        .prop_map(|(ids, dealer, ops, seed, plan)| Life { dealer: dealer.map(|(k, t)| (k, 1 + t as usize % ids.len())), ids, ops, seed, plan })
        .boxed()
}

enum State<P: Inst> {
    Full(BTreeMap<Id, KeyShare<P, Id>>, Option<BTreeMap<Id, crate::AuxInfo<P, Id>>>),
    Threshold(usize, Holders<P>),
}

/// The model: the signing key, nothing else.
fn verify<P: Inst>(key: &Big, s: &State<P>, seed: u64) -> Result<(), Fail> {
    let k = match s {
        State::Full(x, _) => check_shares::<P>(&x.keys().cloned().collect(), x)?,
        State::Threshold(t, x) => check_threshold::<P>(&x.keys().cloned().collect(), *t, x, seed)?,
    };
    vensure!(k == *key, "key changed", "the shares belong to {k:?}, not {key:?}");
    Ok(())
}

pub trait Life1: AuxPool {
    fn derive(s: &ThresholdKeyShare<Self, Id>, path: &[u32]) -> Result<Option<(ThresholdKeyShare<Self, Id>, Vec<u8>)>, Fail>;
}
macro_rules! life1 {
    ($p:ty) => {
        impl Life1 for $p {
            fn derive(s: &ThresholdKeyShare<Self, Id>, path: &[u32]) -> Result<Option<(ThresholdKeyShare<Self, Id>, Vec<u8>)>, Fail> {
                use crate::DeriveChildKey;
                let path = path_of(path);
                let a = s.derive_bip32(&path);
                let b = s.derive_verifying_key_bip32(&path);
                let Ok(a) = a else { return Ok(None) };
                let Ok(b) = b else { return fail("derived share without a derived key", format!("{path:?}")) };
                let vk = a.verifying_key();
                vensure!(vk.as_ref().ok() == Some(&b), "derived share and derived key differ", "{path:?}");
                Ok(Some((a, b.to_encoded_point(true).as_bytes().to_vec())))
            }
        }
    };
}
life1!(T);
life1!(K);

fn lifecycle<P: Life1>(c: &Life) -> R {
    let rc = P::rc();
    let all = set(&c.ids);
    let mut seed = c.seed;
    let (mut key, mut state) = match &c.dealer {
        None => {
            let eps = all.iter().map(|i| (*i, crate::KeyInit::<P, Id>::new(all.clone()).expect("ids"))).collect();
            let s = all_finish(run(eps, &seed.to_le_bytes(), seed, &c.plan), &[1, 2, 3], "key init")?;
            (check_shares::<P>(&all, &s)?, State::<P>::Full(s, None))
        }
        Some((k, _)) if seed % 3 == 0 => (k.clone(), State::Full(dealt::<P>(&all, k, seed), None)),
        Some((k, t)) => (k.clone(), State::Threshold(*t, threshold_shares::<P>(&all, *t, &Some(k.clone()), seed)?)),
    };
    let mut done: Vec<&'static str> = vec![];
    verify(&key, &state, seed)?;
    for op in &c.ops {
        seed = seed.wrapping_add(0x1_0001);
        let sid = seed.to_be_bytes();
        // bring the shares into the form the operation needs
        state = match (op, state) {
            (Op::Reshare(_) | Op::Derive(_), State::Full(x, _)) => {
                State::Threshold(x.len(), x.iter().map(|(i, s)| (*i, ThresholdKeyShare::from_key_share(s))).collect())
            }
            (Op::Refresh | Op::NewAux, State::Threshold(t, x)) => {
                let sub = pick(&x.keys().cloned().collect(), t, seed);
                let y: Result<BTreeMap<Id, KeyShare<P, Id>>, _> = sub.iter().map(|i| x[i].to_key_share(&sub).map(|s| (*i, s))).collect();
                let Ok(y) = y else { return fail("conversion refused", "") };
                State::Full(y, None)
            }
            (_, s) => s,
        };
        state = match (op, state) {
            (Op::Refresh, State::Full(x, _)) if x.len() <= 4 => {
                done.push("refresh");
                let all: BTreeSet<Id> = x.keys().cloned().collect();
                let (changes, aux) = split::<P>(key_refresh::<P>(&all, &sid, seed, &c.plan)?);
                State::Full(apply::<P>(x, &changes)?, Some(aux))
            }
            (Op::NewAux, State::Full(x, _)) if x.len() <= 4 => {
                done.push("aux gen");
                let all: BTreeSet<Id> = x.keys().cloned().collect();
                let aux = aux_gen::<P>(&all, &sid, seed, &c.plan)?;
                State::Full(x, Some(aux))
            }
            (Op::ToThreshold, State::Full(x, _)) => {
                done.push("to threshold");
                State::Threshold(x.len(), x.iter().map(|(i, s)| (*i, ThresholdKeyShare::from_key_share(s))).collect())
            }
            (Op::Reshare(s), State::Threshold(t, x)) => {
                done.push("reshare");
                let y = reshare::<P>(&x, t, s, &c.plan, seed)?;
                let have: BTreeSet<Id> = y.keys().cloned().collect();
                vensure!(have == set(&s.new), "holders", "{have:?}");
                State::Threshold(s.t_new, y)
            }
            (Op::ToFull(p), State::Threshold(t, x)) => {
                done.push("to full");
                let sub = pick(&x.keys().cloned().collect(), t, *p);
                let mut y = BTreeMap::new();
                for i in &sub {
                    match x[i].to_key_share(&sub) {
                        Ok(s) => y.insert(*i, s),
                        Err(e) => return fail("conversion refused", format!("{e:?}")),
                    };
                }
                State::Full(y, None)
            }
            (Op::Derive(path), State::Threshold(t, x)) => {
                let Some(child) = ref_bip32::<P>(&key, path) else { panic!("the paths are not hardened: {path:?}") };
                // a share that becomes zero on the way cannot be derived from; that is a 2^-32 event on the tiny curve, unless it is zero now
                let zero = x.values().any(|s| scv::<P>(s.secret_share.expose_secret()).is_zero());
                let mut y = BTreeMap::new();
                for (i, s) in &x {
                    match P::derive(s, path)? {
                        Some((d, vk)) => {
                            vensure!(Some(rc.gmul(&child)) == rc.decode(&vk), "derived key", "{i:?}: path {path:?} gives another key than the reference");
                            y.insert(*i, d);
                        }
                        None => vensure!(zero, "derivation refused", "{i:?}: path {path:?}"),
                    }
                }
                if y.len() < x.len() {
                    State::Threshold(t, x)
                } else {
                    done.push("derive");
                    key = child;
                    State::Threshold(t, y)
                }
            }
            (Op::Store, State::Threshold(t, x)) => {
                done.push("store");
                let mut y = BTreeMap::new();
                for (i, s) in &x {
                    y.insert(*i, restore("ThresholdKeyShare", s)?.swap_remove((seed % 3) as usize));
                }
                State::Threshold(t, y)
            }
            (Op::Store, State::Full(x, aux)) => {
                done.push("store");
                let mut y = BTreeMap::new();
                for (i, s) in &x {
                    y.insert(*i, restore("KeyShare", s)?.swap_remove((seed % 3) as usize));
                }
                State::Full(y, aux)
            }
            (Op::Sign(msg, p), State::Threshold(t, x)) if t <= 3 => {
                done.push("sign with a subset");
                let sub = pick(&x.keys().cloned().collect(), t, *p);
                let y: Result<BTreeMap<Id, KeyShare<P, Id>>, _> = sub.iter().map(|i| x[i].to_key_share(&sub).map(|s| (*i, s))).collect();
                let Ok(y) = y else { return fail("conversion refused", "") };
                // auxiliary data of all the holders, restricted to the signers
                let aux = P::aux(&x.keys().cloned().collect(), (p % 4) as usize);
                let mut mine = BTreeMap::new();
                for i in &sub {
                    match aux[i].clone().subset(&sub) {
                        Ok(a) => mine.insert(*i, a),
                        Err(e) => return fail("subset refused", format!("{e:?}")),
                    };
                }
                sign_checked::<P>(&key, &y, &mine, msg, &sid, seed, &c.plan)?;
                State::Threshold(t, x)
            }
            (Op::Sign(msg, p), State::Full(x, aux)) if x.len() <= 3 => {
                done.push("sign");
                let all: BTreeSet<Id> = x.keys().cloned().collect();
                let pool;
                let a = match &aux {
                    Some(a) => a,
                    None => {
                        pool = P::aux(&all, (p % 4) as usize);
                        &*pool
                    }
                };
                sign_checked::<P>(&key, &x, a, msg, &sid, seed, &c.plan)?;
                State::Full(x, aux)
            }
            (_, s) => s,
        };
        verify(&key, &state, seed)?;
    }
    let distinct: BTreeSet<_> = done.iter().cloned().collect();
    let mut o = obs(done.len() > 1);
    for d in distinct {
        o = o.tag(d);
    }
    Ok(o.tag(format!("{} operations", done.len())))
}

pub fn p09(ctx: &Ctx) {
    let rule = "at least two operations apply to the state they meet";
    ctx.check("tiny/life", rule, ctx.n(1200, 30_000), || life::<T>(4, 8), lifecycle::<T>);
    ctx.check("tiny/long", rule, ctx.n(60, 1500), || life::<T>(4, 30), lifecycle::<T>);
    ctx.check("k256/life", rule, ctx.n(100, 2000), || no_signing(life::<K>(3, 6)), lifecycle::<K>);
}

/// On the large curve only what is cheap.
fn no_signing(s: BoxedStrategy<Life>) -> BoxedStrategy<Life> {
    s.prop_map(|mut l| {
        l.ops.retain(|o| !matches!(o, Op::Refresh | Op::NewAux | Op::Sign(..)));
        l
    })
    .boxed()
}
