//! Running protocols: party sets, seeds, message schedules.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::v1::*;

use manul::dev::{TestSigner, TestVerifier};
use manul::engine::{self, Network, Outcome, Run};
use manul::protocol::{BoxedFormat, EntryPoint, Protocol, ProtocolMessage};
use manul::session::FormatKind;
use manul::signature::Keypair;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rand_core::{CryptoRngCore, RngCore};
use serde::{Deserialize, Serialize};

use super::common::gens::*;
use super::common::gens::Rng;
use super::common::runner::*;

pub type Id = TestVerifier;

pub fn id(x: u8) -> Id {
    TestSigner::new(x).verifying_key()
}
pub fn set(xs: &[u8]) -> BTreeSet<Id> {
    xs.iter().map(|x| id(*x)).collect()
}
pub fn ids(x: &BTreeSet<Id>) -> Vec<Id> {
    x.iter().cloned().collect()
}

/// How messages travel. Nothing a party may rely on.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Plan {
    pub json: bool,
    /// 0 in order, 1 last first, 2 random, 3 one receiver starved
    pub order: u8,
    pub dup: u8,
    pub seed: u64,
}
impl Plan {
    pub fn plain() -> Plan {
        Plan { json: true, order: 0, dup: 0, seed: 0 }
    }
    pub fn format(&self) -> FormatKind {
        if self.json {
            FormatKind::Json
        } else {
            FormatKind::Binary
        }
    }
}
pub fn plan() -> BoxedStrategy<Plan> {
    (any::<bool>(), 0u8..3, 0u8..4, any::<u64>())
        .prop_map(|(json, order, dup, seed)| Plan { json, order, dup: if dup == 3 { 40 } else { 0 }, seed })
        .boxed()
}

/// Delivers according to a plan, alters nothing.
pub struct Schedule {
    order: u8,
    dup: u8,
    rng: Rng,
    budget: u32,
}
impl Schedule {
    pub fn new(p: &Plan) -> Self {
        Schedule { order: p.order, dup: p.dup, rng: rng(p.seed), budget: 200 }
    }
}
impl Network<Id> for Schedule {
    fn pick(&mut self, n: usize) -> usize {
        match self.order {
            0 => 0,
            1 => n - 1,
            _ => (self.rng.next_u32() as usize) % n,
        }
    }
    fn duplicate(&mut self) -> bool {
        if self.dup > 0 && self.budget > 0 && (self.rng.next_u32() % 100) < self.dup as u32 {
            self.budget -= 1;
            return true;
        }
        false
    }
}

pub fn party_rng(seed: u64, i: &Id) -> Box<dyn CryptoRngCore> {
    Box::new(rng(seed ^ (i.index() as u64 + 1).wrapping_mul(0x9E37_79B9_7F4A_7C15)))
}

/// Runs the parties; the randomness of each is a function of `seed` and its identifier.
pub fn run<EP: EntryPoint<Id>>(eps: BTreeMap<Id, EP>, sid: &[u8], seed: u64, plan: &Plan) -> Run<Id, EP::Protocol> {
    run_with(eps, sid, seed, plan, &mut Schedule::new(plan))
}
pub fn run_with<EP: EntryPoint<Id>>(
    eps: BTreeMap<Id, EP>,
    sid: &[u8],
    seed: u64,
    plan: &Plan,
    net: &mut dyn Network<Id>,
) -> Run<Id, EP::Protocol> {
    let parties = eps.into_iter().map(|(i, ep)| (i, ep, party_rng(seed, &i))).collect();
    quiet(|| engine::run(plan.format(), sid, parties, net))
}

/// The engine catches panics of the parties and reports them; no need to print them.
pub fn quiet<T>(f: impl FnOnce() -> T) -> T {
    match no_panic(f) {
        Ok(x) => x,
        Err(e) => panic!("{e}"),
    }
}

/// Everybody must finish with a result, in the given rounds, without accusing anybody.
pub fn all_finish<P: Protocol<Id>>(run: Run<Id, P>, rounds: &[u8], what: &str) -> Result<BTreeMap<Id, P::Result>, Fail> {
    let mut out = BTreeMap::new();
    for (i, r) in run.reports {
        if let Some((g, e)) = r.provable_errors.iter().next() {
            return fail(format!("{what}:accusation"), format!("{i:?} accuses {g:?}: {e:?}"));
        }
        if let Some((g, e)) = r.unprovable_errors.iter().next() {
            return fail(format!("{what}:accusation"), format!("{i:?} reports {g:?}: {e}"));
        }
        match r.outcome {
            Outcome::Result(x) => {
                if !rounds.is_empty() && r.rounds != rounds {
                    return fail(format!("{what}:rounds"), format!("{i:?} went through rounds {:?}, not {rounds:?}", r.rounds));
                }
                out.insert(i, x);
            }
            o => return fail(format!("{what}:no result"), format!("{i:?}: {o:?} after rounds {:?}", r.rounds)),
        }
    }
    Ok(out)
}

/// Distinct party identifiers.
pub fn party_ids(range: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Vec<u8>> {
    range
        .prop_flat_map(|n| prop_oneof![Just((0..n as u8).collect::<BTreeSet<u8>>()), proptest::collection::btree_set(any::<u8>(), n)])
        .prop_map(|s| s.into_iter().collect())
        .boxed()
}
pub fn session_id() -> BoxedStrategy<Vec<u8>> {
    prop_oneof![4 => proptest::collection::vec(any::<u8>(), 32), 1 => bytes(40)].boxed()
}
