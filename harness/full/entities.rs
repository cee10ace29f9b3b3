//! E01 threshold shares and conversions, E03 stored objects, P10 mismatched inputs.
use std::collections::{BTreeMap, BTreeSet};
use std::format;
use std::prelude::v1::*;

use manul::protocol::EntryPoint;
use manul::session::FormatKind;
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::de::DeserializeOwned;
use serde::{Deserialize, Serialize};

use super::common::big::Big;
use super::common::ecref::*;
use super::common::gens::*;
use super::common::runner::*;
use super::keygen::*;
use super::net::*;
use super::sign::*;
use crate::dev::TestParams as T;
use crate::k256::ProductionParams112 as K;
use crate::vensure;
use crate::{
    AuxGen, AuxInfo, InteractiveSigning, InteractiveSigningAssociatedData, KeyInit, KeyRefresh, KeyResharing, KeyShare, KeyShareChange,
    NewHolder, OldHolder, SchemeParams, ThresholdKeyShare,
};

pub type Holders<P> = BTreeMap<Id, ThresholdKeyShare<P, Id>>;

/// The value at zero of the polynomial of least degree through the points.
pub fn at_zero(points: &[(Big, Big)], n: &Big) -> Big {
    let mut sum = Big::zero();
    for (i, (x, y)) in points.iter().enumerate() {
        let (mut num, mut den) = (Big::one(), Big::one());
        for (j, (z, _)) in points.iter().enumerate() {
            if i != j {
                num = num.mulmod(z, n);
                den = den.mulmod(&z.add(n).sub(x).rem(n), n);
            }
        }
        let l = num.mulmod(&den.invmod(n).expect("distinct"), n);
        sum = sum.add(&y.mulmod(&l, n)).rem(n);
    }
    sum
}

pub fn share_number<P: SchemeParams>(x: &impl Serialize) -> Big {
    let v = text(x);
    let s: crate::curve::Scalar<P> = serde_json::from_value(v).expect("a share identifier is a scalar");
    scv::<P>(&s)
}

/// All subsets of `k` elements if there are few of them, otherwise some.
pub fn subsets(all: &[Id], k: usize, limit: usize, seed: u64) -> Vec<BTreeSet<Id>> {
    let mut out: Vec<BTreeSet<Id>> = (0u32..1 << all.len())
        .filter(|m| m.count_ones() as usize == k)
        .map(|m| all.iter().enumerate().filter(|(i, _)| m >> i & 1 == 1).map(|(_, x)| *x).collect())
        .collect();
    let mut g = rng(seed);
    while out.len() > limit {
        use rand_core::RngCore;
        let i = g.next_u32() as usize % out.len();
        out.swap_remove(i);
    }
    out
}

/// The invariant of a complete set of threshold shares; returns the signing key.
pub fn check_threshold<P: Inst>(all: &BTreeSet<Id>, t: usize, shares: &Holders<P>, seed: u64) -> Result<Big, Fail> {
    let rc = P::rc();
    let have: BTreeSet<Id> = shares.keys().cloned().collect();
    vensure!(have == *all, "holders", "shares of {have:?}, not of {all:?}");
    let first = shares.values().next().expect("at least one");
    let numbers: BTreeMap<Id, Big> = first.share_ids.iter().map(|(i, x)| (*i, share_number::<P>(x))).collect();
    vensure!(numbers.keys().cloned().collect::<BTreeSet<_>>() == *all, "share ids", "share ids of {:?}", numbers.keys());
    let distinct: BTreeSet<Vec<u8>> = numbers.values().map(|x| x.to_be(64)).collect();
    vensure!(distinct.len() == all.len() && numbers.values().all(|x| !x.is_zero()), "share ids", "{numbers:?}");
    let vk = match first.verifying_key() {
        Ok(x) => x,
        Err(e) => return fail("no verifying key", format!("{e:?}")),
    };
    let mut secrets = BTreeMap::new();
    for (i, s) in shares {
        vensure!(s.owner == *i, "owner", "the share of {i:?} says it belongs to {:?}", s.owner);
        vensure!(s.threshold() == t, "threshold", "{i:?}: {} instead of {t}", s.threshold());
        vensure!(text(&s.share_ids) == text(&first.share_ids), "share ids differ", "{i:?}");
        vensure!(text(&s.public_shares) == text(&first.public_shares), "public shares differ", "{i:?}");
        vensure!(s.verifying_key().ok() == Some(vk), "verifying keys differ", "{i:?}");
        vensure!(s.share_id().ok().map(|x| share_number::<P>(x)) == Some(numbers[i].clone()), "own share id", "{i:?}");
        let x = scv::<P>(s.secret_share.expose_secret());
        vensure!(s.public_shares.get(i).map(|p| ptv::<P>(p)) == Some(rc.gmul(&x)), "secret does not match public", "{i:?}");
        secrets.insert(*i, x);
    }
    vensure!(first.public_shares.len() == all.len(), "public shares", "{} public shares", first.public_shares.len());
    let q = ptv::<P>(&crate::curve::Point::<P>::from_verifying_key(&vk));
    let mut key = None;
    for sub in subsets(&ids(all), t, 12, seed) {
        let pts: Vec<(Big, Big)> = sub.iter().map(|i| (numbers[i].clone(), secrets[i].clone())).collect();
        let k = at_zero(&pts, &rc.n);
        vensure!(rc.gmul(&k) == q, "subset gives another key", "{sub:?} interpolate to another key than {q:?}");
        vensure!(*key.get_or_insert(k.clone()) == k, "subsets disagree", "{sub:?}");
        let mut full = BTreeMap::new();
        for i in &sub {
            match shares[i].to_key_share(&sub) {
                Ok(x) => full.insert(*i, x),
                Err(e) => return fail("conversion refused", format!("{i:?} with {sub:?}: {e:?}")),
            };
        }
        let k2 = check_shares::<P>(&sub, &full)?;
        vensure!(k2 == k, "conversion changes the key", "{sub:?}");
        vensure!(full.values().all(|f| f.verifying_key() == vk), "conversion changes the verifying key", "{sub:?}");
    }
    Ok(key.expect("at least one subset"))
}

/// What a conversion to key shares must refuse, and what it must give.
fn odd_subsets<P: Inst>(all: &BTreeSet<Id>, t: usize, shares: &Holders<P>, seed: u64) -> Result<(), Fail> {
    let list = ids(all);
    for k in 0..=list.len() {
        for sub in subsets(&list, k, 4, seed ^ k as u64) {
            for (i, s) in shares {
                let r = match no_panic(|| s.to_key_share(&sub)) {
                    Ok(r) => r,
                    Err(p) => return fail("conversion panics", format!("{i:?} (threshold {t}) with {sub:?}: {p}")),
                };
                let good = sub.contains(i) && sub.len() >= t;
                if !good {
                    vensure!(r.is_err(), "conversion of too few or without the owner", "{i:?} (threshold {t}) with {sub:?}");
                }
                if let Ok(x) = r {
                    vensure!(x.owner() == i && x.all_parties() == sub, "conversion changes the parties", "{i:?} with {sub:?}");
                    vensure!(Some(x.verifying_key()) == s.verifying_key().ok(), "conversion changes the verifying key", "{i:?} with {sub:?}");
                } else if good && sub.len() == t {
                    return fail("conversion refused", format!("{i:?} with {sub:?}"));
                }
            }
        }
    }
    // with a stranger
    let stranger = (0u8..=255).map(id).find(|x| !all.contains(x)).expect("fewer than 256 parties");
    for (i, s) in shares {
        let mut sub: BTreeSet<Id> = [*i, stranger].into();
        for x in &list {
            if sub.len() < t.max(2) {
                sub.insert(*x);
            }
        }
        match no_panic(|| s.to_key_share(&sub)) {
            Ok(Err(_)) => {}
            Ok(Ok(_)) => return fail("conversion with a stranger", format!("{i:?} with {sub:?}")),
            Err(p) => return fail("conversion panics", format!("{i:?} (threshold {t}) with {sub:?}: {p}")),
        }
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Deal {
    pub ids: Vec<u8>,
    pub t: usize,
    pub key: Option<Big>,
    pub seed: u64,
}
pub fn deal<P: Inst>(max: usize) -> BoxedStrategy<Deal> {
    (party_ids(1..=max), any::<u16>(), proptest::option::weighted(0.8, nonzero_scalar::<P>()), any::<u64>())
        .prop_map(|(ids, t, key, seed)| Deal { t: 1 + t as usize % ids.len(), ids, key, seed })
        .boxed()
}
pub fn threshold_shares<P: Inst>(all: &BTreeSet<Id>, t: usize, key: &Option<Big>, seed: u64) -> Result<Holders<P>, Fail> {
    let sk = key.as_ref().map(|k| signing_key::<P>(k));
    match ThresholdKeyShare::<P, Id>::new_centralized(&mut rng(seed), all, t, sk.as_ref()) {
        Ok(x) => Ok(x),
        Err(e) => fail("splitting refused", format!("{t} of {all:?}: {e:?}")),
    }
}

fn split_and_join<P: Inst>(c: &Deal) -> R {
    let all = set(&c.ids);
    let shares = threshold_shares::<P>(&all, c.t, &c.key, c.seed)?;
    let key = check_threshold::<P>(&all, c.t, &shares, c.seed)?;
    if let Some(k) = &c.key {
        vensure!(*k == key, "another key", "split {k:?}, joined {key:?}");
    }
    // splitting again gives other shares of the key
    let again = threshold_shares::<P>(&all, c.t, &Some(key.clone()), c.seed.wrapping_add(1))?;
    if c.t > 1 {
        for (i, s) in &shares {
            vensure!(
                s.secret_share.expose_secret() != again[i].secret_share.expose_secret(),
                "shares repeat",
                "{i:?} has the same share after another split"
            );
        }
    }
    // fewer than the threshold do not determine the key (the other points of the polynomial are random)
    if c.t > 1 && !P::TINY {
        let rc = P::rc();
        for sub in subsets(&ids(&all), c.t - 1, 3, c.seed) {
            let pts: Vec<(Big, Big)> =
                sub.iter().map(|i| (share_number::<P>(shares[i].share_id().expect("own id")), scv::<P>(shares[i].secret_share.expose_secret()))).collect();
            vensure!(at_zero(&pts, &rc.n) != key, "too few shares give the key", "{sub:?} of threshold {}", c.t);
        }
    }
    odd_subsets::<P>(&all, c.t, &shares, c.seed)?;
    Ok(obs(all.len() > 1).tag(format!("{} of {}", c.t, all.len())))
}

/// Full key shares to threshold shares and back.
fn convert<P: Inst>(c: &(Deal, Vec<Big>)) -> R {
    let (c, parts) = c;
    let all = set(&c.ids);
    let key = c.key.clone().unwrap_or(Big::from_u64(c.seed | 1).rem(&P::rc().n));
    let full = if parts.len() + 1 >= all.len() && c.t % 2 == 0 { chosen::<P>(&all, &key, parts) } else { dealt::<P>(&all, &key, c.seed) };
    let shares: Holders<P> = full.iter().map(|(i, s)| (*i, ThresholdKeyShare::from_key_share(s))).collect();
    let k = check_threshold::<P>(&all, all.len(), &shares, c.seed)?;
    vensure!(k == key, "another key", "{key:?} became {k:?}");
    for (i, s) in &shares {
        let back = match s.to_key_share(&all) {
            Ok(x) => x,
            Err(e) => return fail("conversion refused", format!("{i:?}: {e:?}")),
        };
        vensure!(text(&back) == text(&full[i]), "not the share it was made of", "{i:?}");
    }
    odd_subsets::<P>(&all, all.len(), &shares, c.seed)?;
    Ok(obs(all.len() > 1).tag(format!("n={}", all.len())))
}

fn bad_split<P: Inst>(c: &(Vec<u8>, usize, u64)) -> R {
    let all = set(&c.0);
    let ok = c.1 >= 1 && c.1 <= all.len();
    let r = no_panic(|| ThresholdKeyShare::<P, Id>::new_centralized(&mut rng(c.2), &all, c.1, None));
    match r {
        Err(p) => fail("splitting panics", format!("{} of {}: {p}", c.1, all.len())),
        Ok(Ok(x)) => {
            vensure!(ok, "impossible split", "{} of {} accepted", c.1, all.len());
            check_threshold::<P>(&all, c.1, &x, c.2)?;
            Ok(obs(true).tag("possible"))
        }
        Ok(Err(_)) => {
            vensure!(!ok, "splitting refused", "{} of {}", c.1, all.len());
            Ok(obs(true).tag("impossible"))
        }
    }
}

pub fn e01(ctx: &Ctx) {
    let rule = "two holders or more";
    ctx.check("tiny/split", rule, ctx.n(2500, 60_000), || deal::<T>(6), split_and_join::<T>);
    ctx.check("k256/split", rule, ctx.n(60, 1500), || deal::<K>(4), split_and_join::<K>);
    ctx.check("tiny/large", rule, ctx.n(60, 1500), || deal::<T>(12), split_and_join::<T>);
    let parts = |p: BoxedStrategy<Big>| proptest::collection::vec(p, 0..8);
    ctx.check("tiny/convert", rule, ctx.n(2500, 60_000), || (deal::<T>(6), parts(scalar_big::<T>())).boxed(), convert::<T>);
    ctx.check("k256/convert", rule, ctx.n(60, 1500), || (deal::<K>(4), parts(scalar_big::<K>())).boxed(), convert::<K>);
    let rule = "any threshold, possible or not";
    ctx.check("tiny/threshold-range", rule, ctx.n(2000, 40_000), || (party_ids(0..=5), prop_oneof![0usize..8, Just(usize::MAX)], any::<u64>()).boxed(), bad_split::<T>);
}

// ------------------------------------------------------------------ stored objects

/// A self-describing encoding of numbers and bytes, unlike both JSON and the compact binary one.
fn value_roundtrip<X: Serialize + DeserializeOwned>(x: &X) -> Result<X, String> {
    let v = serde_json::to_value(x).map_err(|e| e.to_string())?;
    serde_json::from_value(v).map_err(|e| e.to_string())
}

/// Encodes and restores by every format; the restored objects are the same.
pub fn restore<X: Serialize + DeserializeOwned>(what: &str, x: &X) -> Result<Vec<X>, Fail> {
    let mut out = vec![];
    let mut bytes = vec![];
    for f in [FormatKind::Json, FormatKind::Binary] {
        let b = match f.ser(x) {
            Ok(b) => b,
            Err(e) => return fail(format!("{what}: not stored"), format!("{f:?}: {e:?}")),
        };
        let y: X = match f.de(&b) {
            Ok(y) => y,
            Err(e) => return fail(format!("{what}: not restored"), format!("{f:?}: {e}")),
        };
        let b2 = f.ser(&y).map(|b| b.to_vec()).unwrap_or_default();
        vensure!(b2 == b.to_vec(), format!("{what}: restored differs"), "{f:?}: {} bytes, then {} bytes", b.len(), b2.len());
        bytes.push((f, b));
        out.push(y);
    }
    match value_roundtrip(x) {
        Ok(y) => out.push(y),
        Err(e) => return fail(format!("{what}: not restored"), format!("through a value: {e}")),
    }
    // what was restored from one format is the same in the other
    for y in &out {
        for (f, b) in &bytes {
            vensure!(f.ser(y).map(|x| x.to_vec()).ok() == Some(b.to_vec()), format!("{what}: restored differs"), "{f:?}");
        }
    }
    // shortened bytes are not an object
    for (f, b) in &bytes {
        for cut in [0, b.len() / 2, b.len() - 1] {
            vensure!(f.de::<X>(&b[..cut]).is_err(), format!("{what}: restored from a part"), "{f:?}: {cut} of {} bytes", b.len());
        }
    }
    Ok(out)
}

fn hidden(what: &str, secrets: &[Big], texts: &[String], public: &str) -> Result<(), Fail> {
    for t in texts {
        for s in secrets {
            if let Some(n) = leak(t, s, public) {
                return fail(format!("{what}: debug output"), format!("contains {n}: {}", t.chars().take(600).collect::<String>()));
            }
        }
    }
    Ok(())
}

/// Digits of `v` in `t` that are not digits of public values.
fn leak(t: &str, v: &Big, public: &str) -> Option<String> {
    super::common::leak::leaks(t, v, public)
}

fn debug_pair(what: &str, a: String, b: String) -> Result<(), Fail> {
    vensure!(a == b, format!("{what}: debug output depends on the secret"), "{} / {}", a.chars().take(400).collect::<String>(), b.chars().take(400).collect::<String>());
    Ok(())
}

fn stored<P: AuxPool>(c: &(Signing, usize, bool)) -> R {
    let (c, t, derived) = c;
    let all = set(&c.g.ids);
    let rc = P::rc();
    let (key, shares, how) = obtain::<P>(c, &all)?;
    let aux = P::aux(&all, c.salt);
    // --- restored objects are the same
    let mut back: Vec<BTreeMap<Id, KeyShare<P, Id>>> = vec![BTreeMap::new(); 3];
    for (i, s) in &shares {
        for (k, y) in restore("KeyShare", s)?.into_iter().enumerate() {
            vensure!(y.owner() == s.owner() && y.public_shares() == s.public_shares() && y.verifying_key() == s.verifying_key(), "KeyShare: restored differs", "{i:?}");
            vensure!(y.secret_share().expose_secret() == s.secret_share().expose_secret(), "KeyShare: restored secret differs", "{i:?}");
            back[k].insert(*i, y);
        }
    }
    for b in &back {
        vensure!(check_shares::<P>(&all, b)? == key, "KeyShare: restored key differs");
    }
    let mut back_aux: Vec<BTreeMap<Id, AuxInfo<P, Id>>> = vec![BTreeMap::new(); 3];
    for (i, a) in aux.iter() {
        for (k, y) in restore("AuxInfo", a)?.into_iter().enumerate() {
            vensure!(y.owner() == a.owner(), "AuxInfo: restored differs", "{i:?}");
            back_aux[k].insert(*i, y);
        }
        restore("PublicAuxInfos", &a.public)?;
    }
    let t = 1 + t % all.len();
    let ths = threshold_shares::<P>(&all, t, &Some(key.clone()), c.g.seed)?;
    let mut back_ths: Holders<P> = BTreeMap::new();
    for (k, (i, s)) in ths.iter().enumerate() {
        let mut r = restore("ThresholdKeyShare", s)?;
        back_ths.insert(*i, r.swap_remove(k % 3));
    }
    vensure!(check_threshold::<P>(&all, t, &back_ths, c.g.seed)? == key, "ThresholdKeyShare: restored key differs");
    if *derived {
        let full: Holders<P> = shares.iter().map(|(i, s)| (*i, ThresholdKeyShare::from_key_share(s))).collect();
        for (i, s) in &full {
            let y = restore("ThresholdKeyShare", s)?.swap_remove(0);
            vensure!(y.to_key_share(&all).ok().map(|x| text(&x)) == Some(text(&shares[i])), "ThresholdKeyShare: restored behaves differently", "{i:?}");
        }
    }
    // --- and behave the same
    if P::TINY && c.g.seed % 4 == 0 {
        let k = (c.g.seed / 4 % 2) as usize;
        let a = sign_checked::<P>(&key, &shares, &aux, &c.msg, &c.g.sid, c.g.seed, &c.g.plan)?;
        let b = sign_checked::<P>(&key, &back[k], &back_aux[k], &c.msg, &c.g.sid, c.g.seed, &c.g.plan)?;
        vensure!(a == b, "restored objects sign differently", "{a:?} / {b:?}");
    }
    // --- debug output of the holder of one secret and of another, with the same public values
    for (i, s) in &shares {
        let other = KeyShare::new(*i, ssc::<P>(&c.parts[0]), s.public_shares().clone()).expect("the same key");
        debug_pair("KeyShare", format!("{s:?} {s:#?}"), format!("{other:?} {other:#?}"))?;
        let mut o = ths[i].clone();
        o.secret_share = ssc::<P>(&c.parts[1]);
        debug_pair("ThresholdKeyShare", format!("{:?} {:#?}", ths[i], ths[i]), format!("{o:?} {o:#?}"))?;
        let a = &aux[i];
        let other = aux.values().find(|x| x.owner() != i);
        if let Some(other) = other {
            let o = AuxInfo { owner: a.owner, secret: other.secret.clone(), public: a.public.clone() };
            debug_pair("AuxInfo", format!("{a:?} {a:#?}"), format!("{o:?} {o:#?}"))?;
        }
        let k = aux_key::<P>(a)?;
        let public = text(&a.public).to_string();
        let mut secrets = vec![k.p.clone(), k.q.clone(), k.phi.low_bits(k.p.bits() - 8)];
        if rc.n.bits() > 40 {
            secrets.push(scv::<P>(s.secret_share().expose_secret()));
        }
        let mut texts = vec![format!("{a:?} {a:#?}"), format!("{s:?} {s:#?}"), format!("{:?}", ths[i])];
        if let Ok(e) = InteractiveSigning::<P, Id>::new(prehash::<P>(&c.msg), s.clone(), a.clone()) {
            texts.push(format!("{e:?}"));
            let round = e.make_round(&mut rng(c.g.seed), &c.g.sid, i);
            vensure!(round.is_ok(), "restored share is refused", "{i:?}");
        }
        texts.push(format!("{:?}", a.clone().into_precomputed()));
        hidden("aux", &secrets, &texts, &public)?;
    }
    Ok(obs(true).tag(how).tag(format!("n={}", all.len())))
}

fn stored_change<P: Inst>(c: &Gen) -> R {
    let all = set(&c.ids);
    let (changes, aux) = split::<P>(key_refresh::<P>(&all, &c.sid, c.seed, &c.plan)?);
    for (i, ch) in &changes {
        for y in restore("KeyShareChange", ch)? {
            vensure!(y.owner == *i && text(&y) == text(ch), "KeyShareChange: restored differs", "{i:?}");
            vensure!(y.secret_share_change.expose_secret() == ch.secret_share_change.expose_secret(), "KeyShareChange: restored secret differs", "{i:?}");
        }
        let mut o = ch.clone();
        o.secret_share_change = ssc::<P>(&Big::from_u64(c.seed % 1000));
        debug_pair("KeyShareChange", format!("{ch:?} {ch:#?}"), format!("{o:?} {o:#?}"))?;
    }
    for a in aux.values() {
        restore("AuxInfo", a)?;
    }
    Ok(obs(true).tag(format!("n={}", all.len())))
}

pub fn e03(ctx: &Ctx) {
    let rule = "key shares, threshold shares and auxiliary data of one to four parties, stored and restored in three ways";
    let st = |n| (signing::<T>(1..=n), 0usize..24, any::<bool>()).boxed();
    ctx.check("tiny/stored", rule, ctx.n(500, 12_000), move || st(4), stored::<T>);
    ctx.check("k256/stored", rule, ctx.n(3, 60), || (signing::<K>(2..=2), 0usize..24, any::<bool>()).boxed(), stored::<K>);
    ctx.check("tiny/change", "the results of a key refresh", ctx.n(120, 3000), || gen(1..=3), stored_change::<T>);
}

// ------------------------------------------------------------------ mismatched inputs

/// An error or an object; a panic is a violation.
fn attempt<X>(what: &str, f: impl FnOnce() -> Result<X, manul::session::LocalError>) -> Result<Option<X>, Fail> {
    match no_panic(f) {
        Ok(r) => Ok(r.ok()),
        Err(p) => fail(format!("{what} panics"), p),
    }
}
fn expect(what: &str, ok: bool, got: bool, detail: impl Fn() -> String) -> Result<(), Fail> {
    if ok && !got {
        return fail(format!("{what}: refused"), detail());
    }
    if !ok && got {
        return fail(format!("{what}: accepted"), detail());
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mismatch {
    a: Vec<u8>,
    b: Vec<u8>,
    /// indexes into the sets, and a further identifier
    i: u8,
    j: u8,
    x: u8,
    seed: u64,
}
fn mismatch() -> BoxedStrategy<Mismatch> {
    // sets over a small universe, so that they are often equal, nested or overlapping
    let s = || proptest::collection::btree_set(0u8..6, 1..=4).prop_map(|s| s.into_iter().collect::<Vec<u8>>());
    (s(), prop_oneof![2 => s().prop_map(Some), 1 => Just(None)], any::<u8>(), any::<u8>(), 0u8..7, any::<u64>())
        .prop_map(|(a, b, i, j, x, seed)| Mismatch { b: b.unwrap_or_else(|| a.clone()), a, i, j: if j % 3 == 0 { i } else { j }, x, seed })
        .boxed()
}

fn signing_inputs<P: AuxPool>(c: &Mismatch) -> R {
    let (a, b) = (set(&c.a), set(&c.b));
    let shares = dealt::<P>(&a, &Big::from_u64(1 + c.seed % 1000), c.seed);
    let aux = P::aux(&b, (c.seed % 3) as usize);
    let (i, j) = (ids(&a)[c.i as usize % a.len()], ids(&b)[c.j as usize % b.len()]);
    let x = id(c.x);
    let ok = i == j && a == b;
    let e = attempt("InteractiveSigning::new", || InteractiveSigning::<P, Id>::new(prehash::<P>(&[1]), shares[&i].clone(), aux[&j].clone()))?;
    expect("InteractiveSigning::new", ok, e.is_some(), || format!("share of {i:?} in {a:?}, auxiliary data of {j:?} in {b:?}"))?;
    let ad = attempt("InteractiveSigningAssociatedData::new", || {
        InteractiveSigningAssociatedData::<P, Id>::new(prehash::<P>(&[1]), shares[&i].public().clone(), aux[&j].public().clone())
    })?;
    expect("InteractiveSigningAssociatedData::new", a == b, ad.is_some(), || format!("shares of {a:?}, auxiliary data of {b:?}"))?;
    if let Some(e) = e {
        let r = attempt("InteractiveSigning start", || e.make_round(&mut rng(c.seed), &[1], &x))?;
        expect("InteractiveSigning start", x == i, r.is_some(), || format!("share of {i:?}, started as {x:?}"))?;
    }
    // subsets of the auxiliary data
    let ok = a.contains(&j) && a.is_subset(&b);
    let s = attempt("AuxInfo::subset", || aux[&j].clone().subset(&a))?;
    expect("AuxInfo::subset", ok, s.is_some(), || format!("{a:?} of {b:?} for {j:?}"))?;
    if let Some(s) = s {
        vensure!(s.owner() == &j && s.public().as_map().keys().cloned().collect::<BTreeSet<_>>() == a, "AuxInfo::subset: wrong subset", "{a:?} of {b:?}");
    }
    let s = attempt("PublicAuxInfos::subset", || aux[&j].public().clone().subset(&a))?;
    expect("PublicAuxInfos::subset", a.is_subset(&b), s.is_some(), || format!("{a:?} of {b:?}"))?;
    Ok(obs(true).tag_if(a == b, "same parties").tag_if(i == j, "same owner").tag_if(ok, "subset"))
}

/// A complete set of changes that cancel out, made here.
fn changes<P: Inst>(all: &BTreeSet<Id>, seed: u64) -> BTreeMap<Id, KeyShareChange<P, Id>> {
    let rc = P::rc();
    let mut g = rng(seed);
    let list = ids(all);
    let mut xs: Vec<Big> = (1..list.len()).map(|_| Big::random_below(&mut g, &rc.n)).collect();
    let sum = xs.iter().fold(Big::zero(), |a, b| a.add(b).rem(&rc.n));
    xs.push(rc.n.sub(&sum).rem(&rc.n));
    let public: BTreeMap<Id, crate::curve::Point<P>> = list.iter().zip(&xs).map(|(i, x)| (*i, pt::<P>(&rc.gmul(x)))).collect();
    list.iter()
        .zip(&xs)
        .map(|(i, x)| (*i, KeyShareChange { owner: *i, secret_share_change: ssc::<P>(x), public_share_changes: public.clone().into() }))
        .collect()
}

fn update_inputs<P: Inst>(c: &Mismatch) -> R {
    let (a, b) = (set(&c.a), set(&c.b));
    let key = Big::from_u64(1 + c.seed % 1000);
    let shares = dealt::<P>(&a, &key, c.seed);
    let ch = changes::<P>(&b, c.seed);
    check_changes::<P>(&b, &ch)?;
    let (i, j) = (ids(&a)[c.i as usize % a.len()], ids(&b)[c.j as usize % b.len()]);
    let ok = i == j && a == b;
    let r = attempt("KeyShare::update", || shares[&i].clone().update(ch[&j].clone()))?;
    expect("KeyShare::update", ok, r.is_some(), || format!("share of {i:?} in {a:?}, change of {j:?} in {b:?}"))?;
    if ok {
        let s = apply::<P>(shares, &ch)?;
        vensure!(check_shares::<P>(&a, &s)? == key, "update changes the key");
    }
    Ok(obs(true).tag_if(a == b, "same parties").tag_if(i == j, "same owner").tag_if(ok, "matching"))
}

fn start_inputs<P: Inst>(c: &Mismatch) -> R {
    let mut a = set(&c.a);
    if c.seed % 8 == 0 {
        a.clear();
    }
    let x = id(c.x);
    let ok = a.contains(&x);
    macro_rules! try_start {
        ($ep:ident) => {
            let r = attempt(concat!(stringify!($ep), " start"), || $ep::<P, Id>::new(a.clone()).and_then(|e| e.make_round(&mut rng(c.seed), &[1], &x).map(|_| ())))?;
            expect(concat!(stringify!($ep), " start"), ok, r.is_some(), || format!("{x:?} among {a:?}"))?;
        };
    }
    try_start!(KeyInit);
    try_start!(AuxGen);
    try_start!(KeyRefresh);
    Ok(obs(true).tag_if(ok, "participant").tag_if(a.is_empty(), "nobody"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ReshareInput {
    old: Vec<u8>,
    new: Vec<u8>,
    said_old: Vec<u8>,
    t_old: usize,
    said_t_old: usize,
    t_new: usize,
    x: u8,
    owner: u8,
    give_old: bool,
    give_new: bool,
    other_key: bool,
    seed: u64,
}
fn reshare_input() -> BoxedStrategy<ReshareInput> {
    let s = |lo: usize| proptest::collection::btree_set(0u8..6, lo..=4).prop_map(|s| s.into_iter().collect::<Vec<u8>>());
    (
        (s(1), prop_oneof![1 => s(0), 6 => s(1)], prop_oneof![3 => Just(None), 1 => s(0).prop_map(Some)]),
        (0usize..4, prop_oneof![3 => Just(None), 1 => (0usize..6).prop_map(Some)], prop_oneof![8 => any::<u16>().prop_map(|x| (0, x as usize)), 1 => Just((1, 0)), 1 => Just((1, usize::MAX)), 1 => (0usize..6).prop_map(|x| (1, x))]),
        (0u8..7, any::<u8>(), prop_oneof![4 => Just(true), 1 => Just(false)], prop_oneof![3 => Just(true), 1 => Just(false)], prop_oneof![3 => Just(true), 1 => Just(false)], prop_oneof![5 => Just(false), 1 => Just(true)]),
        any::<u64>(),
    )
        .prop_map(|((old, new, said), (t, said_t, t_new), (x, owner, mine, give_old, give_new, other_key), seed)| {
            let t_old = 1 + t % old.len();
            let t_new = if t_new.0 == 0 { 1 + t_new.1 % new.len().max(1) } else { t_new.1 };
            let give_new = if mine { new.contains(&x) } else { give_new };
            let give_old = if mine { old.contains(&x) } else { give_old };
            let owner = if mine && old.contains(&x) { x } else { old[owner as usize % old.len()] };
            ReshareInput { said_old: said.unwrap_or_else(|| old.clone()), old, new, t_old, said_t_old: said_t.unwrap_or(t_old), t_new, x, owner, give_old, give_new, other_key, seed }
        })
        .boxed()
}

fn reshare_inputs<P: Inst>(c: &ReshareInput) -> R {
    let (old, new, said) = (set(&c.old), set(&c.new), set(&c.said_old));
    let key = Big::from_u64(1 + c.seed % 1000);
    let shares = threshold_shares::<P>(&old, c.t_old, &Some(key.clone()), c.seed)?;
    let key2 = if c.other_key { Big::from_u64(2000) } else { key };
    let vk = *signing_key::<P>(&key2).verifying_key();
    let x = id(c.x);
    let owner = id(c.owner);
    let give_old = c.give_old.then(|| OldHolder { key_share: shares[&owner].clone() });
    let give_new = c.give_new.then(|| NewHolder { verifying_key: vk, old_threshold: c.said_t_old, old_holders: said.clone() });
    // what makes no sense for this party alone
    let mut bad = vec![];
    if !c.give_old && !c.give_new {
        bad.push("neither old nor new");
    }
    if c.t_new == 0 || c.t_new > new.len() {
        bad.push("impossible new threshold");
    }
    if c.give_old && owner != x {
        bad.push("the share of another party");
    }
    if c.give_new && !new.contains(&x) {
        bad.push("not a new holder");
    }
    if c.give_new && said.len() < c.said_t_old {
        bad.push("fewer old holders than the old threshold");
    }
    if c.give_new && c.give_old && !said.contains(&x) {
        bad.push("an old holder that is not among them");
    }
    if c.give_new && !c.give_old && said.contains(&x) {
        bad.push("listed as an old holder without a share");
    }
    let r = attempt("KeyResharing start", || KeyResharing::<P, Id>::new(give_old, give_new, new.clone(), c.t_new).make_round(&mut rng(c.seed), &[1], &x).map(|_| ()))?;
    if !bad.is_empty() {
        return match r {
            None => Ok(obs(true).tag(bad[0])),
            Some(()) => fail(format!("KeyResharing start: accepted: {}", bad[0]), format!("{bad:?}")),
        };
    }
    // consistent inputs are accepted
    let good = !c.other_key && c.said_t_old == c.t_old && said == old && new.contains(&x) == c.give_new;
    if good {
        expect("KeyResharing start", true, r.is_some(), || format!("{x:?}"))?;
    }
    Ok(obs(good).tag(if good { "consistent" } else { "not decided here" }))
}

pub fn p10(ctx: &Ctx) {
    let rule = "two party sets over six identifiers, an owner from each";
    ctx.check("tiny/signing", rule, ctx.n(3000, 80_000), mismatch, signing_inputs::<T>);
    ctx.check("tiny/update", rule, ctx.n(6000, 150_000), mismatch, update_inputs::<T>);
    ctx.check("tiny/start", "a party set and an identifier, a member or not", ctx.n(3000, 80_000), mismatch, start_inputs::<T>);
    ctx.check("tiny/reshare", "consistent or with at least one inconsistency", ctx.n(8000, 200_000), reshare_input, reshare_inputs::<T>);
    ctx.check("tiny/threshold", "any threshold, possible or not", ctx.n(1500, 30_000), || (party_ids(0..=5), prop_oneof![0usize..8, Just(usize::MAX)], any::<u64>()).boxed(), bad_split::<T>);
    ctx.check("tiny/conversion", "two holders or more", ctx.n(1000, 20_000), || deal::<T>(5), |c| {
        let all = set(&c.ids);
        odd_subsets::<T>(&all, c.t, &threshold_shares::<T>(&all, c.t, &c.key, c.seed)?, c.seed)?;
        Ok(obs(all.len() > 1).tag(format!("{} of {}", c.t, all.len())))
    });
    ctx.check("k256/update", rule, ctx.n(100, 2000), mismatch, update_inputs::<K>);
}

