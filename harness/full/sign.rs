//! P04 interactive signing between honest parties.
use std::collections::{BTreeMap, BTreeSet, HashMap};
use std::format;
use std::prelude::v1::*;
use std::sync::{Arc, LazyLock, Mutex};

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use super::common::big::Big;
use super::common::ecref::*;
use super::common::gens::*;
use super::common::keys::{hex_uint, key, rp};
use super::common::runner::*;
use super::keygen::*;
use super::net::*;
use crate::curve::{Point, Scalar};
use crate::dev::TestParams as T;
use crate::k256::ProductionParams112 as K;
use crate::paillier::PaillierParams;
use crate::vensure;
use crate::{AuxInfo, InteractiveSigning, KeyShare, PrehashedMessage, RecoverableSignature, SchemeParams, ThresholdKeyShare};

/// Auxiliary data for a party set, made from fixed primes (a function of the party and `salt`).
pub fn fixed_aux<P: Inst>(all: &BTreeSet<Id>, salt: usize) -> BTreeMap<Id, AuxInfo<P, Id>> {
    type PP<P> = <P as SchemeParams>::Paillier;
    let bits = PP::<P>::PRIME_BITS;
    let n = all.len();
    // distinct keys for distinct parties
    let mut used = BTreeSet::new();
    let mut pick = |i: usize, safe: bool| {
        let mut k = salt + 7 * i;
        loop {
            let x = key(bits, safe, k);
            if used.insert(x.n.to_be(1024)) {
                return k;
            }
            k += 1;
        }
    };
    let picks: Vec<(usize, usize)> = (0..n).map(|i| (pick(i, false), i + salt)).collect();
    chosen_aux::<P>(all, &picks)
}

/// Auxiliary data from chosen fixed primes: which Paillier key and which ring-Pedersen parameters, for each party in order.
pub fn chosen_aux<P: Inst>(all: &BTreeSet<Id>, picks: &[(usize, usize)]) -> BTreeMap<Id, AuxInfo<P, Id>> {
    type PP<P> = <P as SchemeParams>::Paillier;
    let bits = PP::<P>::PRIME_BITS;
    let data: Vec<_> = picks
        .iter()
        .map(|(k, r)| {
            let k = key(bits, false, *k);
            let r = rp(bits, *r);
            (
                serde_json::json!({"paillier_sk": {"primes": {"p": hex_uint::<<PP<P> as PaillierParams>::HalfUint>(&k.p), "q": hex_uint::<<PP<P> as PaillierParams>::HalfUint>(&k.q)}}}),
                serde_json::json!({"paillier_pk": {"modulus": hex_uint::<<PP<P> as PaillierParams>::Uint>(&k.n)},
                    "rp_params": {"modulus": hex_uint::<<PP<P> as PaillierParams>::Uint>(&r.key.n), "base_randomizer": hex_uint::<<PP<P> as PaillierParams>::Uint>(&r.t), "base_value": hex_uint::<<PP<P> as PaillierParams>::Uint>(&r.s)}}),
            )
        })
        .collect();
    // decode into a template object, so that the layout of the crate's types does not matter
    let publics: BTreeMap<Id, crate::entities::PublicAuxInfo<P>> = all
        .iter()
        .zip(&data)
        .map(|(i, (_, p))| (*i, serde_json::from_value(p.clone()).expect("public auxiliary data")))
        .collect();
    all.iter()
        .zip(&data)
        .map(|(i, (s, _))| {
            let a = AuxInfo {
                owner: *i,
                secret: serde_json::from_value(s.clone()).expect("secret auxiliary data"),
                public: crate::entities::PublicAuxInfos(publics.clone().into()),
            };
            (*i, a)
        })
        .collect()
}

type Pool<P> = LazyLock<Mutex<HashMap<(Vec<u8>, usize), Arc<BTreeMap<Id, AuxInfo<P, Id>>>>>>;
static POOL_T: Pool<T> = LazyLock::new(Default::default);
static POOL_K: Pool<K> = LazyLock::new(Default::default);

pub trait AuxPool: Inst {
    fn pool() -> &'static Pool<Self>;
    /// Auxiliary data made by the dealer's function of the crate, or from fixed primes if there is no fresh supply.
    fn aux(all: &BTreeSet<Id>, salt: usize) -> Arc<BTreeMap<Id, AuxInfo<Self, Id>>> {
        let k = (all.iter().map(|i| i.index()).collect::<Vec<_>>(), salt);
        if let Some(x) = Self::pool().lock().unwrap().get(&k) {
            return x.clone();
        }
        let x = Arc::new(if Self::TINY && salt % 2 == 0 {
            AuxInfo::new_centralized(&mut rng(salt as u64 + 77), all)
        } else {
            fixed_aux::<Self>(all, salt)
        });
        Self::pool().lock().unwrap().insert(k, x.clone());
        x
    }
}
impl AuxPool for T {
    fn pool() -> &'static Pool<T> {
        &POOL_T
    }
}
impl AuxPool for K {
    fn pool() -> &'static Pool<K> {
        &POOL_K
    }
}

/// A prehashed message of the field's length.
pub fn prehash<P: Inst>(m: &[u8]) -> PrehashedMessage<P::Curve> {
    let mut b = m.to_vec();
    b.resize(P::rc().flen, 0);
    elliptic_curve::FieldBytes::<P::Curve>::clone_from_slice(&b)
}
pub fn message<P: Inst>() -> BoxedStrategy<Vec<u8>> {
    let len = P::rc().flen;
    let n = P::rc().n.clone();
    let edge = (0u8..3, -3i64..4).prop_map(move |(k, d)| {
        use super::common::big::SBig;
        let base = match k {
            0 => Big::zero(),
            1 => n.clone(),
            _ => Big::pow2(8 * len as u32),
        };
        let v = SBig::from(base).add(&SBig::from(d));
        let v = if v.neg { Big::zero() } else { v.mag };
        v.low_bits(8 * len as u32).to_be(len)
    });
    prop_oneof![
        4 => proptest::collection::vec(any::<u8>(), len),
        2 => edge,
        1 => Just(vec![0u8; len]),
        1 => Just(vec![255u8; len]),
    ]
    .boxed()
}

/// What a signing run must give; the oracle is the reference ECDSA.
pub fn check_signature<P: Inst>(key: &Big, msg: &[u8], sig: RecoverableSignature<P>) -> Result<(Big, Big, u8), Fail> {
    let rc = P::rc();
    let q = rc.gmul(key);
    let (s, id) = sig.to_backend();
    let bytes = |x: &[u8]| Big::from_be(x);
    let (rb, sb) = s.split_bytes();
    let (r, sv) = (bytes(&rb), bytes(&sb));
    let z = Big::from_be(msg).rem(&rc.n);
    vensure!(rc.ecdsa(&q, &z, &r, &sv), "invalid signature", "r = {r:?}, s = {sv:?} for message {z:?}, key {key:?}");
    vensure!(sv <= rc.n.shr(1), "high s", "s = {sv:?}");
    // recovery
    let x = if id.is_x_reduced() { r.add(&rc.n) } else { r.clone() };
    let Some(big_r) = rc.lift(&x, id.is_y_odd()) else { return fail("recovery id", format!("no point for {id:?}")) };
    let ri = r.invmod(&rc.n).expect("prime order");
    let rec = rc.mul(&ri, &rc.add(&rc.mul(&sv, &big_r), &rc.neg(&rc.gmul(&z))));
    vensure!(rec == q, "recovery id", "{id:?} recovers {rec:?}, not {q:?}");
    // not for another message
    let z2 = z.add(&Big::one()).rem(&rc.n);
    vensure!(!rc.ecdsa(&q, &z2, &r, &sv), "signs another message", "r = {r:?}, s = {sv:?}");
    Ok((r, sv, id.to_byte()))
}

pub fn sign_with<P: Inst>(
    shares: &BTreeMap<Id, KeyShare<P, Id>>,
    aux: &BTreeMap<Id, AuxInfo<P, Id>>,
    msg: &[u8],
    sid: &[u8],
    seed: u64,
    plan: &Plan,
) -> Result<BTreeMap<Id, RecoverableSignature<P>>, Fail> {
    let mut eps = BTreeMap::new();
    for (i, s) in shares {
        match InteractiveSigning::<P, Id>::new(prehash::<P>(msg), s.clone(), aux[i].clone()) {
            Ok(e) => eps.insert(*i, e),
            Err(e) => return fail("sign:refused", format!("{i:?}: {e:?}")),
        };
    }
    all_finish(run(eps, sid, seed, plan), &[1, 2, 3, 4], "sign")
}

/// Signs and checks everything that must hold of the outcome.
pub fn sign_checked<P: Inst>(
    key: &Big,
    shares: &BTreeMap<Id, KeyShare<P, Id>>,
    aux: &BTreeMap<Id, AuxInfo<P, Id>>,
    msg: &[u8],
    sid: &[u8],
    seed: u64,
    plan: &Plan,
) -> Result<(Big, Big, u8), Fail> {
    let mut first = None;
    for (i, s) in sign_with::<P>(shares, aux, msg, sid, seed, plan)? {
        let v = check_signature::<P>(key, msg, s)?;
        match &first {
            None => first = Some(v),
            Some(f) => vensure!(*f == v, "signatures differ", "{i:?} has another signature: {v:?}, not {f:?}"),
        }
    }
    Ok(first.expect("at least one signer"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Signing {
    pub g: Gen,
    pub key: Big,
    pub msg: Vec<u8>,
    /// where the shares come from
    pub source: u8,
    pub salt: usize,
    /// private shares of all parties but the last, if they are not random
    pub parts: Vec<Big>,
}
pub fn signing<P: Inst>(range: std::ops::RangeInclusive<usize>) -> BoxedStrategy<Signing> {
    (gen(range), nonzero_scalar::<P>(), message::<P>(), 0u8..6, 0usize..6, proptest::collection::vec(scalar_big::<P>(), 6))
        .prop_map(|(g, key, msg, source, salt, parts)| Signing { g, key, msg, source, salt, parts })
        .boxed()
}

/// Shares with chosen private parts (edge values included) that sum to the key.
pub fn chosen<P: Inst>(all: &BTreeSet<Id>, key: &Big, parts: &[Big]) -> BTreeMap<Id, KeyShare<P, Id>> {
    let rc = P::rc();
    let list = ids(all);
    let mut xs: Vec<Big> = parts.iter().take(list.len() - 1).cloned().collect();
    let sum = xs.iter().fold(Big::zero(), |a, b| a.add(b).rem(&rc.n));
    xs.push(key.add(&rc.n).sub(&sum).rem(&rc.n));
    let public: BTreeMap<Id, Point<P>> = list.iter().zip(&xs).map(|(i, x)| (*i, pt::<P>(&rc.gmul(x)))).collect();
    list.iter().zip(&xs).map(|(i, x)| (*i, KeyShare::new(*i, ssc::<P>(x), public.clone()).expect("not zero"))).collect()
}

/// Key shares of `all` for the given key, by one of several ways.
pub fn obtain<P: Inst>(c: &Signing, all: &BTreeSet<Id>) -> Result<(Big, BTreeMap<Id, KeyShare<P, Id>>, &'static str), Fail> {
    let seed = c.g.seed;
    Ok(match c.source {
        0 => {
            let xs: Vec<u8> = all.iter().map(|i| i.index()).collect();
            let eps = all.iter().map(|i| (*i, crate::KeyInit::<P, Id>::new(set(&xs)).expect("ids"))).collect();
            let s = all_finish(run(eps, &c.g.sid, seed, &c.g.plan), &[], "key init")?;
            (check_shares::<P>(all, &s)?, s, "from key init")
        }
        1 => {
            // a subset of threshold shares
            let mut big = all.clone();
            for extra in [3u8, 77, 200] {
                big.insert(id(extra));
            }
            let t = ThresholdKeyShare::<P, Id>::new_centralized(&mut rng(seed), &big, all.len(), Some(&signing_key::<P>(&c.key)));
            let Ok(t) = t else { return fail("threshold shares refused", "") };
            let mut s = BTreeMap::new();
            for i in all {
                match t[i].to_key_share(all) {
                    Ok(x) => s.insert(*i, x),
                    Err(e) => return fail("conversion refused", format!("{i:?}: {e:?}")),
                };
            }
            check_shares::<P>(all, &s)?;
            (c.key.clone(), s, "from threshold shares")
        }
        2 | 3 => (c.key.clone(), chosen::<P>(all, &c.key, &c.parts), "chosen shares"),
        _ => (c.key.clone(), dealt::<P>(all, &c.key, seed), "dealt"),
    })
}

fn sign<P: AuxPool>(c: &Signing) -> R {
    let all = set(&c.g.ids);
    let (key, shares, how) = obtain::<P>(c, &all)?;
    let aux = P::aux(&all, c.salt);
    let v = sign_checked::<P>(&key, &shares, &aux, &c.msg, &c.g.sid, c.g.seed, &c.g.plan)?;
    if c.g.plan != c.g.plan2 && c.g.seed % 3 == 0 {
        let w = sign_checked::<P>(&key, &shares, &aux, &c.msg, &c.g.sid, c.g.seed, &c.g.plan2)?;
        vensure!(v == w, "depends on the schedule", "{v:?} and {w:?}");
    }
    if c.g.seed % 3 == 1 {
        // other randomness: another nonce
        let w = sign_checked::<P>(&key, &shares, &aux, &c.msg, &c.g.sid, c.g.seed.wrapping_add(1), &c.g.plan)?;
        vensure!(v.0 != w.0, "nonce reused", "two runs with unrelated randomness have the same r");
    }
    let z = Big::from_be(&c.msg);
    Ok(obs(all.len() > 1)
        .tag(format!("n={}", all.len()))
        .tag(how)
        .tag_if(z >= P::rc().n, "message above the order")
        .tag_if(z.rem(&P::rc().n).is_zero(), "message zero"))
}

/// Signing with freshly generated auxiliary data, by the protocols.
fn fresh<P: Inst>(c: &(Signing, bool)) -> R {
    let (c, refresh) = c;
    let all = set(&c.g.ids);
    let (key, mut shares, how) = obtain::<P>(c, &all)?;
    let aux = if *refresh {
        let (changes, aux) = super::keygen::split::<P>(key_refresh::<P>(&all, &c.g.sid, c.g.seed, &c.g.plan)?);
        shares = apply::<P>(shares, &changes)?;
        aux
    } else {
        aux_gen::<P>(&all, &c.g.sid, c.g.seed, &c.g.plan)?
    };
    sign_checked::<P>(&key, &shares, &aux, &c.msg, &c.g.sid, c.g.seed, &c.g.plan2)?;
    Ok(obs(all.len() > 1).tag(format!("n={}", all.len())).tag(how).tag(if *refresh { "after refresh" } else { "after aux gen" }))
}

pub fn p04(ctx: &Ctx) {
    let rule = "at least two signers";
    ctx.check("tiny/sign", rule, ctx.n(500, 12_000), || signing::<T>(2..=4), sign::<T>);
    ctx.check("tiny/single", "a single signer", ctx.n(300, 4000), || signing::<T>(1..=1), |c| sign::<T>(c).map(|mut o| { o.nontrivial = true; o }));
    ctx.check("tiny/many", rule, ctx.n(6, 100), || signing::<T>(5..=6), sign::<T>);
    ctx.check("tiny/fresh-aux", rule, ctx.n(80, 2000), || (signing::<T>(2..=3), any::<bool>()).boxed(), fresh::<T>);
    ctx.check("k256/sign", rule, ctx.n(1, 16), || signing::<K>(2..=2), sign::<K>);
}
