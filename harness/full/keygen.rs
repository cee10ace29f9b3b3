//! P01 key generation, P02 key refresh, P03 auxiliary data.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::v1::*;

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use super::common::big::{Big, SBig};
use super::common::ecref::*;
use super::common::gens::*;
use super::common::keys::{leaf, Key};
use super::common::runner::*;
use super::net::*;
use crate::dev::TestParams as T;
use crate::k256::ProductionParams112 as K;
use crate::paillier::PaillierParams;
use crate::vensure;
use crate::{AuxGen, AuxInfo, KeyInit, KeyRefresh, KeyShare, KeyShareChange, SchemeParams};

/// The invariant of a complete set of key shares; returns the signing key.
pub fn check_shares<P: Inst>(ids: &BTreeSet<Id>, shares: &BTreeMap<Id, KeyShare<P, Id>>) -> Result<Big, Fail> {
    let rc = P::rc();
    let have: BTreeSet<Id> = shares.keys().cloned().collect();
    vensure!(have == *ids, "holders", "shares of {have:?}, not of {ids:?}");
    let mut sum = Big::zero();
    let first = shares.values().next().expect("at least one share");
    for (i, s) in shares {
        vensure!(s.owner() == i, "owner", "the share of {i:?} says it belongs to {:?}", s.owner());
        vensure!(s.all_parties() == *ids, "parties", "{i:?} lists {:?}", s.all_parties());
        vensure!(s.public_shares() == first.public_shares(), "public shares differ", "{i:?} has other public shares than the first party");
        vensure!(s.verifying_key() == first.verifying_key(), "verifying keys differ", "{i:?} has another verifying key");
        let x = scv::<P>(s.secret_share().expose_secret());
        vensure!(
            s.public_shares().get(i).map(|p| ptv::<P>(p)) == Some(rc.gmul(&x)),
            "secret does not match public",
            "the private share of {i:?} does not match its public share"
        );
        sum = sum.add(&x).rem(&rc.n);
    }
    let vk = ptv::<P>(&crate::curve::Point::<P>::from_verifying_key(&first.verifying_key()));
    vensure!(rc.gmul(&sum) == vk, "sum of shares", "the private shares do not sum to the key of {vk:?}");
    Ok(sum)
}

/// What a stored object says, in a form that can be compared.
pub fn text(x: &impl Serialize) -> serde_json::Value {
    serde_json::to_value(x).expect("serializes")
}

fn key_init<P: Inst>(parties: &[u8], sid: &[u8], seed: u64, plan: &Plan) -> Result<BTreeMap<Id, KeyShare<P, Id>>, Fail> {
    let all = set(parties);
    let eps = all.iter().map(|i| (*i, KeyInit::<P, Id>::new(all.clone()).expect("valid ids"))).collect();
    all_finish(run(eps, sid, seed, plan), &[1, 2, 3], "key init")
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Gen {
    pub ids: Vec<u8>,
    pub sid: Vec<u8>,
    pub seed: u64,
    pub plan: Plan,
    pub plan2: Plan,
}
pub fn gen(range: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Gen> {
    (party_ids(range), session_id(), any::<u64>(), plan(), plan())
        .prop_map(|(ids, sid, seed, plan, plan2)| Gen { ids, sid, seed, plan, plan2 })
        .boxed()
}

fn init_agrees<P: Inst>(c: &Gen) -> R {
    let all = set(&c.ids);
    let shares = key_init::<P>(&c.ids, &c.sid, c.seed, &c.plan)?;
    let key = check_shares::<P>(&all, &shares)?;
    vensure!(!key.is_zero(), "zero key", "the key is zero");
    // the shares are unrelated
    let xs: BTreeSet<Vec<u8>> = shares.values().map(|s| s.secret_share().expose_secret().to_be_bytes().to_vec()).collect();
    vensure!(xs.len() == all.len(), "equal shares", "two parties have the same private share");
    // the same parties with the same randomness get the same, however the messages travel
    if c.plan != c.plan2 {
        let again = key_init::<P>(&c.ids, &c.sid, c.seed, &c.plan2)?;
        for (i, s) in &shares {
            vensure!(text(s) == text(&again[i]), "depends on the schedule", "{i:?} gets another share under another message order");
        }
    }
    // other randomness, unrelated key
    let other = key_init::<P>(&c.ids, &c.sid, c.seed.wrapping_add(1), &c.plan)?;
    let key2 = check_shares::<P>(&all, &other)?;
    vensure!(key != key2, "same key", "another run gave the same key");
    for (i, s) in &shares {
        vensure!(
            other[i].secret_share().expose_secret() != s.secret_share().expose_secret(),
            "same share",
            "{i:?} gets the same private share in another run"
        );
    }
    Ok(obs(true).tag(format!("n={}", all.len())).tag(if c.plan.json { "json" } else { "binary" }).tag(format!("order {}", c.plan.order)))
}

/// Changing one party's randomness alone changes the key.
fn init_joint<P: Inst>(c: &(Gen, usize)) -> R {
    let (c, k) = c;
    let all = set(&c.ids);
    let odd = ids(&all)[k % all.len()];
    let make = |flip: bool| -> Result<BTreeMap<Id, KeyShare<P, Id>>, Fail> {
        let parties = all
            .iter()
            .map(|i| {
                let s = if flip && *i == odd { c.seed ^ 0x5555_1111_0000 } else { c.seed };
                (*i, KeyInit::<P, Id>::new(all.clone()).expect("valid ids"), party_rng(s, i))
            })
            .collect();
        let r = quiet(|| manul::engine::run(c.plan.format(), &c.sid, parties, &mut Schedule::new(&c.plan)));
        all_finish(r, &[1, 2, 3], "key init")
    };
    let (a, b) = (make(false)?, make(true)?);
    let (ka, kb) = (check_shares::<P>(&all, &a)?, check_shares::<P>(&all, &b)?);
    vensure!(ka != kb, "not joint", "the key does not depend on {odd:?}");
    let (xa, xb) = (&a[&odd], &b[&odd]);
    vensure!(
        xa.secret_share().expose_secret() != xb.secret_share().expose_secret(),
        "not joint",
        "the share of {odd:?} does not depend on its randomness"
    );
    Ok(obs(all.len() > 1).tag(format!("n={}", all.len())))
}

pub fn p01(ctx: &Ctx) {
    let rule = "all parties run the protocol, and it is run again with another schedule and with other randomness";
    ctx.check("tiny/agree", rule, ctx.n(6000, 200_000), || gen(1..=6), init_agrees::<T>);
    ctx.check("k256/agree", rule, ctx.n(600, 20_000), || gen(1..=4), init_agrees::<K>);
    let rule = "one of several parties has other randomness than in the first run";
    ctx.check("tiny/joint", rule, ctx.n(4000, 100_000), || (gen(1..=5), 0usize..60).boxed(), init_joint::<T>);
    ctx.check("k256/joint", rule, ctx.n(300, 10_000), || (gen(1..=3), 0usize..60).boxed(), init_joint::<K>);
    ctx.check("tiny/many", "as agree, with more parties", ctx.n(60, 1000), || gen(7..=14), init_agrees::<T>);
}

// ------------------------------------------------------------------ auxiliary data

/// The secret key recorded in an auxiliary data object.
pub fn aux_key<P: Inst>(a: &AuxInfo<P, Id>) -> Result<Key, Fail> {
    let v = text(&a.secret.paillier_sk);
    let mut found = vec![];
    fn walk(v: &serde_json::Value, out: &mut Vec<Big>) {
        match v {
            serde_json::Value::String(s) => out.extend(Big::from_hex(s.trim_start_matches("0x"))),
            serde_json::Value::Object(o) => o.values().for_each(|x| walk(x, out)),
            serde_json::Value::Array(o) => o.iter().for_each(|x| walk(x, out)),
            _ => {}
        }
    }
    walk(&v, &mut found);
    if found.len() != 2 {
        panic!("expected two primes in {v}");
    }
    Ok(Key::new(found[0].clone(), found[1].clone()))
}

/// The invariant of a complete set of auxiliary data.
pub fn check_aux<P: Inst>(all: &BTreeSet<Id>, aux: &BTreeMap<Id, AuxInfo<P, Id>>) -> Result<(), Fail> {
    type PP<P> = <P as SchemeParams>::Paillier;
    let have: BTreeSet<Id> = aux.keys().cloned().collect();
    vensure!(have == *all, "holders", "auxiliary data of {have:?}, not of {all:?}");
    let first = aux.values().next().expect("at least one");
    let pb = PP::<P>::PRIME_BITS;
    let mut moduli = BTreeSet::new();
    for (i, a) in aux {
        vensure!(a.owner() == i, "owner", "the data of {i:?} says it belongs to {:?}", a.owner());
        let public = a.public.as_map();
        let listed: BTreeSet<Id> = public.keys().cloned().collect();
        vensure!(listed == *all, "parties", "{i:?} lists {listed:?}");
        vensure!(text(&a.public) == text(&first.public), "public data differ", "{i:?} has other public data than the first party");
        let k = aux_key::<P>(a)?;
        let n = leaf(&public[i].paillier_pk);
        vensure!(k.n == n, "secret does not match public", "the Paillier key of {i:?} does not match the recorded one");
        vensure!(k.p != k.q && k.p.bits() == pb && k.q.bits() == pb && n.bits() == 2 * pb, "key size", "{i:?}: {k:?}");
        vensure!(k.p.low_bits(2) == Big::from_u64(3) && k.q.low_bits(2) == Big::from_u64(3), "not Blum", "{i:?}: {k:?}");
        vensure!(k.n.gcd(&k.phi).is_one(), "not a Paillier modulus", "{i:?}: {k:?}");
        // the key works
        let m = SBig::from(Big::from_u64(0x1234_5678 + i.index() as u64));
        let r = Big::from_u64(3);
        vensure!(k.decrypt(&k.encrypt(&m, &r)) == m.mag, "unusable key", "{i:?}: {k:?}");
        // the ring-Pedersen parameters
        let v = text(&public[i].rp_params);
        let g = |f: &str| leaf(&v[f]);
        let (rn, t, s) = (g("modulus"), g("base_randomizer"), g("base_value"));
        vensure!((2 * pb - 1..=2 * pb).contains(&rn.bits()) && rn.is_odd(), "ring-Pedersen modulus", "{i:?}: {rn:?}");
        for (what, x) in [("t", &t), ("s", &s)] {
            vensure!(*x < rn && x.gcd(&rn).is_one() && !x.is_one(), "ring-Pedersen base", "{i:?}: {what} = {x:?} mod {rn:?}");
        }
        vensure!(s != t, "ring-Pedersen base", "{i:?}: s = t = {s:?}");
        vensure!(rn != n, "shared modulus", "{i:?}: the Paillier and the ring-Pedersen modulus are the same");
        moduli.insert(n.to_be(8 * pb as usize));
        moduli.insert(rn.to_be(8 * pb as usize));
    }
    vensure!(moduli.len() == 2 * all.len(), "shared modulus", "two parties share a modulus");
    Ok(())
}

pub type Refreshed<P> = BTreeMap<Id, (KeyShareChange<P, Id>, AuxInfo<P, Id>)>;

pub fn key_refresh<P: Inst>(all: &BTreeSet<Id>, sid: &[u8], seed: u64, plan: &Plan) -> Result<Refreshed<P>, Fail> {
    let eps = all.iter().map(|i| (*i, KeyRefresh::<P, Id>::new(all.clone()).expect("valid ids"))).collect();
    all_finish(run(eps, sid, seed, plan), &[1, 2, 3], "key refresh")
}
pub fn aux_gen<P: Inst>(all: &BTreeSet<Id>, sid: &[u8], seed: u64, plan: &Plan) -> Result<BTreeMap<Id, AuxInfo<P, Id>>, Fail> {
    let eps = all.iter().map(|i| (*i, AuxGen::<P, Id>::new(all.clone()).expect("valid ids"))).collect();
    all_finish(run(eps, sid, seed, plan), &[1, 2, 3], "aux gen")
}

/// The invariant of a complete set of share changes.
pub fn check_changes<P: Inst>(all: &BTreeSet<Id>, changes: &BTreeMap<Id, KeyShareChange<P, Id>>) -> Result<(), Fail> {
    let rc = P::rc();
    let first = changes.values().next().expect("at least one");
    let mut sum = Big::zero();
    for (i, c) in changes {
        vensure!(c.owner == *i, "owner of change", "the change of {i:?} says it belongs to {:?}", c.owner);
        let public: BTreeMap<Id, _> = c.public_share_changes.iter().map(|(k, v)| (*k, ptv::<P>(v))).collect();
        let listed: BTreeSet<Id> = public.keys().cloned().collect();
        vensure!(listed == *all, "parties of change", "{i:?} lists {listed:?}");
        let theirs: BTreeMap<Id, _> = first.public_share_changes.iter().map(|(k, v)| (*k, ptv::<P>(v))).collect();
        vensure!(public == theirs, "public changes differ", "{i:?} has other public changes than the first party");
        let x = scv::<P>(c.secret_share_change.expose_secret());
        vensure!(public[i] == rc.gmul(&x), "change does not match public", "the change of {i:?} does not match its public change");
        sum = sum.add(&x).rem(&rc.n);
        if all.len() > 1 {
            vensure!(!x.is_zero(), "no change", "the share of {i:?} does not change");
        }
    }
    vensure!(sum.is_zero(), "changes do not cancel", "the changes sum to {sum:?}");
    Ok(())
}

pub fn apply<P: Inst>(shares: BTreeMap<Id, KeyShare<P, Id>>, changes: &BTreeMap<Id, KeyShareChange<P, Id>>) -> Result<BTreeMap<Id, KeyShare<P, Id>>, Fail> {
    shares
        .into_iter()
        .map(|(i, s)| match s.update(changes[&i].clone()) {
            Ok(s) => Ok((i, s)),
            Err(e) => fail("update refused", format!("{i:?}: {e:?}")),
        })
        .collect()
}

pub fn split<P: Inst>(r: Refreshed<P>) -> (BTreeMap<Id, KeyShareChange<P, Id>>, BTreeMap<Id, AuxInfo<P, Id>>) {
    r.into_iter().map(|(i, (c, a))| ((i, c), (i, a))).unzip()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Refresh {
    g: Gen,
    /// shares from a dealer with this key, or from key generation
    key: Option<Big>,
    times: usize,
}

fn shares_for<P: Inst>(all: &BTreeSet<Id>, key: &Option<Big>, seed: u64) -> Result<BTreeMap<Id, KeyShare<P, Id>>, Fail> {
    match key {
        None => {
            let xs: Vec<u8> = all.iter().map(|i| i.index()).collect();
            key_init::<P>(&xs, &seed.to_le_bytes(), seed, &Plan::plain())
        }
        Some(k) => Ok(dealt::<P>(all, k, seed)),
    }
}
/// Key shares dealt for the given signing key.
pub fn dealt<P: Inst>(all: &BTreeSet<Id>, key: &Big, seed: u64) -> BTreeMap<Id, KeyShare<P, Id>> {
    KeyShare::new_centralized(&mut rng(seed), all, Some(&signing_key::<P>(key)))
}
pub fn signing_key<P: Inst>(key: &Big) -> ecdsa::SigningKey<P::Curve> {
    ssc::<P>(key).to_signing_key().expect("not zero")
}
pub fn nonzero_scalar<P: Inst>() -> BoxedStrategy<Big> {
    scalar_big::<P>().prop_map(|x| if x.is_zero() { Big::one() } else { x }).boxed()
}

fn refresh<P: Inst>(c: &Refresh) -> R {
    let all = set(&c.g.ids);
    let mut shares = shares_for::<P>(&all, &c.key, c.g.seed)?;
    let key = check_shares::<P>(&all, &shares)?;
    if let Some(k) = &c.key {
        vensure!(*k == key, "dealt key", "shares dealt for {k:?} belong to {key:?}");
    }
    for round in 0..c.times {
        let seed = c.g.seed.wrapping_add(100 + round as u64);
        let r = key_refresh::<P>(&all, &c.g.sid, seed, &c.g.plan)?;
        if round == 0 && c.g.plan != c.g.plan2 {
            let again = key_refresh::<P>(&all, &c.g.sid, seed, &c.g.plan2)?;
            for (i, (ch, aux)) in &r {
                vensure!(text(ch) == text(&again[i].0) && text(aux) == text(&again[i].1), "depends on the schedule", "{i:?} gets another result under another message order");
            }
        }
        let (changes, aux) = split::<P>(r);
        check_changes::<P>(&all, &changes)?;
        check_aux::<P>(&all, &aux)?;
        let before = shares.clone();
        shares = apply::<P>(shares, &changes)?;
        let k2 = check_shares::<P>(&all, &shares)?;
        vensure!(k2 == key, "key changed", "refreshing changed the key from {key:?} to {k2:?}");
        if all.len() > 1 {
            for (i, s) in &shares {
                vensure!(
                    s.secret_share().expose_secret() != before[i].secret_share().expose_secret(),
                    "share kept",
                    "refreshing left the share of {i:?} as it was"
                );
            }
        }
    }
    Ok(obs(all.len() > 1).tag(format!("n={}", all.len())).tag(format!("times={}", c.times)).tag_if(c.key.is_none(), "after key init"))
}

fn refresh_case<P: Inst>(range: std::ops::RangeInclusive<usize>, times: usize) -> BoxedStrategy<Refresh> {
    (gen(range), proptest::option::weighted(0.7, nonzero_scalar::<P>()), 1..=times)
        .prop_map(|(g, key, times)| Refresh { g, key, times })
        .boxed()
}

pub fn p02(ctx: &Ctx) {
    let rule = "several parties refresh their shares, once or more";
    ctx.check("tiny/refresh", rule, ctx.n(400, 8000), || refresh_case::<T>(1..=4, 2), refresh::<T>);
    ctx.check("tiny/many", rule, ctx.n(8, 100), || refresh_case::<T>(5..=7, 1), refresh::<T>);
}

fn aux<P: Inst>(c: &Gen) -> R {
    let all = set(&c.ids);
    let a = aux_gen::<P>(&all, &c.sid, c.seed, &c.plan)?;
    check_aux::<P>(&all, &a)?;
    if c.plan != c.plan2 {
        let again = aux_gen::<P>(&all, &c.sid, c.seed, &c.plan2)?;
        for (i, x) in &a {
            vensure!(text(x) == text(&again[i]), "depends on the schedule", "{i:?} gets another result under another message order");
        }
    }
    let other = aux_gen::<P>(&all, &c.sid, c.seed.wrapping_add(1), &c.plan)?;
    for (i, x) in &a {
        vensure!(leaf(&x.public.as_map()[i].paillier_pk) != leaf(&other[i].public.as_map()[i].paillier_pk), "same key", "{i:?} gets the same Paillier key in another run");
    }
    // every subset keeps the data of its members
    let members = ids(&all);
    for mask in 1u32..(1 << members.len().min(4)) {
        let sub: BTreeSet<Id> = members.iter().enumerate().filter(|(k, _)| mask >> k & 1 == 1).map(|(_, i)| *i).collect();
        for (i, x) in &a {
            let r = x.clone().subset(&sub);
            if !sub.contains(i) {
                vensure!(r.is_err(), "subset without its owner", "{i:?} gets a subset {sub:?} without itself");
                continue;
            }
            let Ok(r) = r else { return fail("subset refused", format!("{i:?}: {sub:?}")) };
            vensure!(r.owner() == i && text(&r.secret) == text(&x.secret), "subset owner", "{i:?}: {sub:?}");
            let listed: BTreeMap<Id, _> = r.public.as_map().iter().map(|(k, v)| (*k, text(v))).collect();
            let want: BTreeMap<Id, _> = x.public.as_map().iter().filter(|(k, _)| sub.contains(k)).map(|(k, v)| (*k, text(v))).collect();
            vensure!(listed == want, "subset data", "{i:?}: {sub:?}");
        }
    }
    Ok(obs(all.len() > 1).tag(format!("n={}", all.len())))
}

fn centralized<P: Inst>(c: &(Vec<u8>, u64)) -> R {
    let all = set(&c.0);
    let a = AuxInfo::<P, Id>::new_centralized(&mut rng(c.1), &all);
    check_aux::<P>(&all, &a)?;
    Ok(obs(all.len() > 1).tag(format!("n={}", all.len())))
}

pub fn p03(ctx: &Ctx) {
    let rule = "several parties generate auxiliary data";
    ctx.check("tiny/generate", rule, ctx.n(250, 6000), || gen(1..=4), aux::<T>);
    ctx.check("tiny/many", rule, ctx.n(6, 60), || gen(5..=6), aux::<T>);
    ctx.check("tiny/dealer", rule, ctx.n(600, 20_000), || (party_ids(1..=6), any::<u64>()).boxed(), centralized::<T>);
}
