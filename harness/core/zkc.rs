//! C10-C15: the checks over the nine proof systems (see `zk.rs` for the machinery).
use std::format;
use std::prelude::v1::*;
use std::vec;

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::json;

use super::common::big::{Big, SBig};
use super::common::gens::*;
use super::common::gens::Rng;
use super::common::runner::*;
use super::curve::*;
use super::keys::*;
use super::util::*;
use super::zk::*;
use super::zk::S::*;
use crate::curve::Point;
use crate::dev::TestParams;
use crate::k256::ProductionParams112 as K;
use crate::paillier::PaillierParams;
use crate::vensure;

type T = TestParams;
type PP<P> = <P as crate::SchemeParams>::Paillier;

fn name(s: S) -> String {
    format!("{s:?}").to_lowercase()
}

pub fn wit<P: Inst>(s: S) -> BoxedStrategy<Wit> {
    (2usize..=40)
        .prop_flat_map(move |np| {
            let (xb, yb) = xy_bits::<P>(s, np);
            (
                (sbig_exp(xb), sbig_exp(yb)),
                (scalar_big::<P>(), scalar_big::<P>(), scalar_big::<P>()),
                (0usize..60, 0usize..60, 0usize..60),
                any::<u64>(),
                bytes(24),
            )
                .prop_map(move |((x, y), (a, b, c), (k0, k1, k2), seed, aux)| Wit { s, x, y, a, b, c, np, k: [k0, k1, k2], seed, aux })
        })
        .boxed()
}

fn sys(list: &'static [S]) -> BoxedStrategy<S> {
    (0..list.len()).prop_map(move |i| list[i]).boxed()
}

// ------------------------------------------------------------------ C10

fn complete<P: Inst>(w: &Wit, reference: bool) -> R {
    let s = w.s;
    let (st, sec) = honest::<P>(w);
    let (st, proof) = crate_prove::<P>(&st, &sec, w.seed);
    vensure!(crate_verify::<P>(s, &st, &proof) == Ok(true), format!("{s:?}:rejected"), "an honest proof is rejected");
    let back = match rewire::<P>(s, &proof) {
        Ok(v) => v,
        Err(e) => return fail(format!("{s:?}:wire"), format!("an honest proof does not survive the wire: {e}")),
    };
    vensure!(back == proof, format!("{s:?}:wire-changed"), "an honest proof changed on the wire");
    vensure!(crate_verify::<P>(s, &st, &back) == Ok(true), format!("{s:?}:rejected-wire"), "a proof is rejected after a round trip");
    let mut o = obs(true);
    if reference && shape_ok::<P>(s) {
        if let Err(e) = ref_verify::<P>(s, &st, &proof) {
            return fail(format!("{s:?}:ref"), format!("an honest, accepted proof fails the scheme's own checks: {e}"));
        }
        o = o.tag("reference");
    }
    let edge = |v: &SBig, b: u32| v.mag.is_zero() || v.mag.bits() + 1 >= b;
    let (xb, yb) = xy_bits::<P>(s, w.np);
    Ok(o.tag_if(edge(&w.x, xb), "x at an edge").tag_if(edge(&w.y, yb), "y at an edge").tag_if(w.x.neg, "x<0"))
}

/// Whether the proofs have the fields the reference code reads.
pub fn shape_ok<P: Inst>(s: S) -> bool {
    use std::collections::HashMap;
    use std::sync::{LazyLock, Mutex};
    static C: LazyLock<Mutex<HashMap<(S, bool), bool>>> = LazyLock::new(Default::default);
    if let Some(r) = C.lock().unwrap().get(&(s, P::TINY)) {
        return *r;
    }
    let (st, sec) = honest::<P>(&sample_wit(s, 1));
    let (_, proof) = crate_prove::<P>(&st, &sec, 2);
    let has = |v: &V, ks: &[&str]| v.as_object().is_some_and(|o| o.len() == ks.len() && ks.iter().all(|k| o.contains_key(*k)));
    let arr = |v: &V, ks: &[&str]| v.as_array().is_some_and(|a| a.iter().all(|x| has(x, ks)));
    let r = match s {
        Sch => has(&proof, &["challenge", "proof"]),
        Elog => has(&proof, &["e", "cap_a", "cap_n", "cap_b", "z", "u"]),
        EncElg => has(&proof, &["e", "cap_s", "cap_d", "cap_y", "cap_z", "cap_t", "z1", "w", "z2", "z3"]),
        AffG => has(
            &proof,
            &["e", "cap_a", "cap_b_x", "cap_b_y", "cap_e", "cap_s", "cap_f", "cap_t", "z1", "z2", "z3", "z4", "w", "w_y"],
        ),
        AffGStar => {
            has(&proof, &["e", "commitments", "elements"])
                && arr(&proof["commitments"], &["cap_a", "cap_r", "cap_b"])
                && arr(&proof["elements"], &["z", "z_prime", "w", "lambda"])
        }
        Dec => {
            has(&proof, &["e", "commitments", "elements"])
                && arr(&proof["commitments"], &["cap_a", "cap_b", "cap_c"])
                && arr(&proof["elements"], &["z", "w", "nu"])
        }
        Fac => has(&proof, &["e", "cap_p", "cap_q", "cap_a", "cap_b", "cap_t", "z1", "z2", "w1", "w2", "v"]),
        Mod => has(&proof, &["commitment", "challenge", "proof"]) && arr(&proof["proof"], &["x", "a", "b", "z"]),
        Prm => has(&proof, &["commitment", "challenge", "proof"]),
    };
    C.lock().unwrap().insert((s, P::TINY), r);
    r
}

fn ready<P: Inst>(s: S) -> bool {
    shape_ok::<P>(s) && in_sync::<P>(s)
}

fn note_sync(ctx: &Ctx) {
    for s in ALL {
        if !shape_ok::<T>(s) {
            ctx.note(format!("{s:?}: the proof's fields are not the ones the reference code knows; reference-based parts are skipped"));
        } else if !in_sync::<T>(s) {
            ctx.note(format!("{s:?}: the transcript is not the one the reference prover knows; its proofs are not used"));
        }
    }
}

pub fn c10(ctx: &Ctx) {
    note_sync(ctx);
    for s in ALL {
        let (q, t) = match s {
            AffGStar | Dec => (400, 8000),
            Sch | Elog => (3000, 60000),
            _ => (1500, 30000),
        };
        ctx.check(
            &format!("tiny/{}", name(s)),
            "a proof is made by the crate's prover for a true statement with a generated witness and verified",
            ctx.n(q, t),
            move || wit::<T>(s),
            |w| complete::<T>(w, true),
        );
    }
    for s in [Sch, Elog, EncElg, AffG, Fac] {
        let (q, t) = match s {
            Sch | Elog => (300, 4000),
            _ => (16, 300),
        };
        ctx.check(
            &format!("k256/{}", name(s)),
            "as above, with the production parameters",
            ctx.n(q, t),
            move || wit::<K>(s),
            |w| complete::<K>(w, true),
        );
    }
    ctx.check(
        "k256/repeated",
        "as above, for one statement of each of Mod, Prm, AffG* and Dec (not re-evaluated by the reference verifier)",
        ctx.n(1, 16),
        || (wit::<K>(Mod), wit::<K>(Prm), wit::<K>(AffGStar), wit::<K>(Dec)).boxed(),
        |(a, b, c, d)| {
            let all = std::thread::scope(|sc| {
                let hs: Vec<_> = [a, b, c, d].into_iter().map(|w| sc.spawn(move || no_panic(|| complete::<K>(w, false)))).collect();
                hs.into_iter().map(|h| h.join().expect("does not panic")).collect::<Vec<_>>()
            });
            for r in all {
                match r {
                    Ok(r) => r.map(|_| ())?,
                    Err(p) => return fail(panic_site(&p), p),
                }
            }
            Ok(obs(true))
        },
    );
    // a conforming prover that is not the crate's
    ctx.check(
        "tiny/independent-prover",
        "a proof made by the reference prover, whose responses are in range",
        ctx.n(3000, 60_000),
        || (sys(&[Sch, Elog, EncElg, AffG, AffGStar, Dec, Fac]).prop_flat_map(wit::<T>), any::<u64>()).boxed(),
        |(w, seed)| independent::<T>(w, *seed),
    );
    ctx.check(
        "k256/independent-prover",
        "a proof made by the reference prover, whose responses are in range",
        ctx.n(8, 160),
        || (sys(&[Sch, Elog, EncElg, AffG, Fac]).prop_flat_map(wit::<K>), any::<u64>()).boxed(),
        |(w, seed)| independent::<K>(w, *seed),
    );
}

fn independent<P: Inst>(w: &Wit, seed: u64) -> R {
    let s = w.s;
    if !ready::<P>(s) {
        return Ok(obs(false).tag("out of sync"));
    }
    let (st, sec) = build::<P>(w);
    let proof = ref_prove::<P>(&st, &sec, &Opt { seed, ..Default::default() }).expect("an in-range proof can be made");
    match ref_verify::<P>(s, &st, &proof) {
        Ok(()) => {
            vensure!(crate_verify::<P>(s, &st, &proof) == Ok(true), format!("{s:?}:rejected"), "a correct proof by another prover is rejected");
            Ok(obs(true).tag(name(s)))
        }
        Err(e) if e.contains("out of range") => Ok(obs(false).tag("response out of range")),
        Err(e) => panic!("the reference prover is wrong: {s:?} {e}"),
    }
}

// ------------------------------------------------------------------ C11

/// Replaces one component of a statement. The label names it.
fn alter<P: Inst>(s: S, st: &Stmt, which: usize, kind: usize, seed: u64) -> (Stmt, String) {
    let mut g = rng(seed ^ 0xA17E);
    let mut o = st.clone();
    let rc = P::rc();
    let bits = PP::<P>::PRIME_BITS;
    let nrp = if st.rp.is_some() { 4 } else { 0 };
    let (a, b, c) = (st.pks.len(), st.cts.len(), st.pts.len());
    let total = a + b + c + nrp + 2;
    let i = which % total;
    let label;
    if i < a {
        let k = key(bits, false, (seed % 61) as usize);
        o.pks[i] = match kind % 3 {
            0 => k.n,
            1 if a > 1 => st.pks[1 - i].clone(),
            _ => key(bits, true, (seed % 31) as usize).n,
        };
        label = format!("pk{i}");
    } else if i < a + b {
        let i = i - a;
        let n = &st.pks[ct_pk(s)[i]];
        let n2 = n.mul(n);
        let r = Big::random_below(&mut g, n);
        let c0 = st.cts[i].clone();
        o.cts[i] = match kind % 6 {
            0 => c0.mulmod(&enc(n, &SBig::from(1), &Big::one()), &n2),
            1 => c0.mulmod(&enc(n, &SBig::zero(), &r), &n2),
            2 => c0.invmod(&n2).unwrap_or(c0),
            3 => enc(n, &SBig::from(Big::random_below(&mut g, n)), &r),
            4 => c0.mulmod(&enc(n, &SBig::from(rc.n.clone()), &Big::one()), &n2),
            _ => st.cts[(i + 1) % b].rem(&n2),
        };
        label = format!("ct{i}");
    } else if i < a + b + c {
        let i = i - a - b;
        let p = st.pts[i].clone();
        o.pts[i] = match kind % 5 {
            0 => rc.add(&p, &rc.gmul(&Big::one())),
            1 => rc.neg(&p),
            2 => None,
            3 => rc.gmul(&Big::random_below(&mut g, &rc.n)),
            _ => st.pts[(i + 1) % c].clone(),
        };
        label = format!("pt{i}");
    } else if i < a + b + c + nrp {
        let [n, t, sv] = st.rp.clone().expect("rp");
        let j = i - a - b - c;
        let f = |v: &Big| match kind % 4 {
            0 => v.mulmod(v, &n),
            1 => n.sub(v),
            2 => v.mulmod(&t, &n),
            _ => v.invmod(&n).unwrap_or(v.clone()),
        };
        o.rp = Some(match j {
            0 => {
                let r = rp(bits, (seed % 29) as usize);
                match kind % 2 {
                    0 => [r.key.n.clone(), r.t.clone(), r.s.clone()],
                    _ => [r.key.n.clone(), t.rem(&r.key.n), sv.rem(&r.key.n)],
                }
            }
            1 => [n.clone(), f(&t), sv],
            2 => [n.clone(), t.clone(), f(&sv)],
            _ => [n, sv, t],
        });
        label = format!("rp{j}");
    } else {
        match kind % 6 {
            0 => o.aux.push(0),
            1 => {
                o.aux.pop();
            }
            2 if !o.aux.is_empty() => {
                let n = o.aux.len();
                o.aux[(seed as usize) % n] ^= 1 << (seed % 8);
            }
            3 => o.aux.clear(),
            4 => o.aux = [&o.aux[..], &o.aux[..]].concat(),
            _ => o.aux.push((seed & 255) as u8),
        }
        label = "aux".into();
    }
    (o, label)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Alter {
    w: Wit,
    which: usize,
    kind: usize,
    seed: u64,
}

fn alter_case<P: Inst>(list: &'static [S]) -> BoxedStrategy<Alter> {
    (sys(list).prop_flat_map(wit::<P>), 0usize..64, 0usize..60, any::<u64>())
        .prop_map(|(w, which, kind, seed)| Alter { w, which, kind, seed })
        .boxed()
}

fn binding<P: Inst>(c: &Alter) -> R {
    let s = c.w.s;
    let (st0, sec) = honest::<P>(&c.w);
    let mut accepted = 0;
    let mut label = String::new();
    // A short challenge may coincide by chance; then the next proof is not accepted as well.
    for k in 0..4u64 {
        let (st, proof) = crate_prove::<P>(&st0, &sec, c.seed.wrapping_add(k));
        let (st2, l) = alter::<P>(s, &st, c.which, c.kind, c.seed);
        label = l;
        if st2 == st || !st2.cts.iter().zip(ct_pk(s)).all(|(x, i)| x.gcd(&st2.pks[*i]).is_one()) {
            return Ok(obs(false).tag("unchanged"));
        }
        if s == Dec && st2.pts[2].is_none() && st2.pts[1].is_none() {
            return Ok(obs(false).tag("degenerate"));
        }
        match no_panic(|| crate_verify::<P>(s, &st2, &proof)) {
            Ok(Ok(true)) => accepted += 1,
            Ok(_) => break,
            Err(p) => return fail(format!("{s:?}:{label}:panic"), p),
        }
    }
    vensure!(accepted < 4, format!("{s:?}:{label}"), "proofs are accepted for a statement whose {label} differs");
    Ok(obs(true).tag(format!("{}:{label}", name(s))))
}

/// The challenge depends on every component of the statement, and on the commitments.
fn sensitive<P: Inst>(c: &Alter) -> R {
    let s = c.w.s;
    if !shape_ok::<P>(s) {
        return Ok(obs(false).tag("unknown fields"));
    }
    let f = chal_field(s);
    let (st0, sec) = honest::<P>(&c.w);
    let commitments = |v: &V| {
        let mut o = v.as_object().expect("object").clone();
        let drop: &[&str] = match s {
            Elog => &["z", "u"],
            EncElg => &["z1", "z2", "z3", "w"],
            AffG => &["z1", "z2", "z3", "z4", "w", "w_y"],
            Fac => &["z1", "z2", "w1", "w2", "v"],
            Sch | Prm | Mod => &["proof"],
            AffGStar | Dec => &["elements"],
        };
        for d in drop {
            o.remove(*d);
        }
        o.remove(f);
        o
    };
    let mut same = 0;
    let mut label = String::new();
    for k in 0..4u64 {
        let seed = c.seed.wrapping_add(k);
        let (st, proof) = crate_prove::<P>(&st0, &sec, seed);
        let (mut st2, l) = alter::<P>(s, &st, c.which, c.kind, c.seed);
        label = l;
        if label.starts_with("pk") || label == "rp0" || (s == Sch && label == "pt0") || st2 == st || !st2.cts.iter().zip(ct_pk(s)).all(|(x, i)| x.gcd(&st2.pks[*i]).is_one()) {
            // other keys: only another proof of the same statement is compared
            st2 = st.clone();
            label = "commitments".into();
        }
        let (st2, proof2) = crate_prove::<P>(&st2, &sec, if label == "commitments" { seed ^ 0x5555 } else { seed });
        let com2 = commitments(&proof2);
        if label == "commitments" && commitments(&proof) == com2 && st2.pts.first() == st.pts.first() {
            return Ok(obs(false).tag("same commitments"));
        }
        if proof[f] == proof2[f] {
            same += 1;
        } else {
            break;
        }
    }
    vensure!(same < 4, format!("{s:?}:{label}"), "the challenge does not depend on {label}");
    Ok(obs(true).tag(format!("{}:{label}", name(s))))
}

/// A false statement, a proof by the crate's own prover (which does not look at the truth of the statement), and then
/// commitments replaced after the fact so that every equation holds. Accepting it means that the challenge does not
/// bind a commitment.
fn frozen<P: Inst>(c: &Alter) -> R {
    let s = c.w.s;
    if !shape_ok::<P>(s) {
        return Ok(obs(false).tag("unknown fields"));
    }
    let (st0, sec) = honest::<P>(&c.w);
    let (st, label) = alter::<P>(s, &st0, c.which, c.kind, c.seed);
    if label.starts_with("pk") || label == "rp0" || label == "aux" || st == st0 || !st.cts.iter().zip(ct_pk(s)).all(|(x, i)| x.gcd(&st.pks[*i]).is_one()) {
        return Ok(obs(false).tag("unchanged"));
    }
    let mut accepted = 0;
    for k in 0..4u64 {
        let (st1, proof) = crate_prove::<P>(&st, &sec, c.seed.wrapping_add(k));
        let Some((st2, p2)) = solve::<P>(s, &st1, &proof) else { return Ok(obs(false).tag("no solution")) };
        if p2 == proof && st2 == st1 {
            return Ok(obs(false).tag("nothing to change"));
        }
        match no_panic(|| crate_verify::<P>(s, &st2, &p2)) {
            Ok(Ok(true)) => accepted += 1,
            Ok(_) => break,
            Err(p) => return fail(format!("{s:?}:{label}:panic"), p),
        }
    }
    vensure!(accepted < 4, format!("{s:?}:{label}"), "a false statement (wrong {label}) is proven by choosing commitments after the challenge");
    Ok(obs(true).tag(format!("{}:{label}", name(s))))
}

/// A false statement whose base (a point or ciphertext that is raised to the secret) is chosen after the challenge, such
/// that every equation holds. Accepting it means that the challenge does not bind the base.
fn late_base<P: Inst>(c: &Alter) -> R {
    let s = c.w.s;
    if !shape_ok::<P>(s) {
        return Ok(obs(false).tag("unknown fields"));
    }
    let (st0, sec) = honest::<P>(&c.w);
    let (mut accepted, mut tried) = (0, 0);
    let mut label = String::new();
    for k in 0..4u64 {
        // which target is wrong, and which base makes up for it
        let (target, base) = match s {
            Elog => [(1, 2), (3, 4)][c.which % 2],
            EncElg => (2, 0),
            _ => (1, 0),
        };
        let mut st = st0.clone();
        let mut g = rng(c.seed);
        match s {
            Elog | EncElg => st.pts[target] = P::rc().gmul(&Big::random_below(&mut g, &P::rc().n)),
            _ => {
                let n = &st.pks[0];
                st.cts[1] = enc(n, &SBig::from(Big::random_below(&mut g, n)), &Big::one());
            }
        }
        let (st, proof) = crate_prove::<P>(&st, &sec, c.seed.wrapping_add(k));
        let Some(st2) = super::zk::solve_base::<P>(s, &st, &proof, base, &sec.key[0]) else { continue };
        tried += 1;
        if st2 == st {
            return Ok(obs(false).tag("nothing to change"));
        }
        label = if s == AffG { format!("ct{base}") } else { format!("pt{base}") };
        match no_panic(|| crate_verify::<P>(s, &st2, &proof)) {
            Ok(Ok(true)) => accepted += 1,
            Ok(_) => break,
            Err(p) => return fail(format!("{s:?}:{label}:panic"), p),
        }
    }
    if tried == 0 {
        return Ok(obs(false).tag("no solution"));
    }
    vensure!(accepted < tried, format!("{s:?}:{label}"), "a false statement is proven by choosing {label} after the challenge");
    Ok(obs(true).tag(format!("{}:{label}", name(s))))
}

const FAST: &[S] = &[Sch, Elog, EncElg, AffG, Fac, Mod, Prm];
const SLOW: &[S] = &[AffGStar, Dec];

pub fn c11(ctx: &Ctx) {
    note_sync(ctx);
    let rule = "the altered component really differs from the one the proof was made for, and all altered ciphertexts are invertible";
    ctx.check("tiny/altered-statement", rule, ctx.n(30_000, 600_000), || alter_case::<T>(FAST), binding::<T>);
    ctx.check("tiny/altered-statement-repeated", rule, ctx.n(2000, 40_000), || alter_case::<T>(SLOW), binding::<T>);
    ctx.check("k256/altered-statement", rule, ctx.n(300, 4000), || alter_case::<K>(&[Sch, Elog, EncElg, AffG, Fac]), binding::<K>);
    let rule = "two proofs with equal prover randomness for statements that differ in one component (or two proofs of one statement with different commitments): the challenges are compared";
    ctx.check("tiny/challenge-depends", rule, ctx.n(20_000, 400_000), || alter_case::<T>(FAST), sensitive::<T>);
    ctx.check("tiny/challenge-depends-repeated", rule, ctx.n(2000, 40_000), || alter_case::<T>(SLOW), sensitive::<T>);
    let rule = "a commitment really was replaced after the challenge was fixed";
    ctx.check("tiny/commitments-after-challenge", rule, ctx.n(20_000, 400_000), || alter_case::<T>(FAST), frozen::<T>);
    ctx.check("tiny/commitments-after-challenge-repeated", rule, ctx.n(1500, 30_000), || alter_case::<T>(SLOW), frozen::<T>);
}

// ------------------------------------------------------------------ C12

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mutation {
    at: usize,
    op: usize,
    r: u64,
}

fn mutation() -> BoxedStrategy<Mutation> {
    (0usize..100_000, 0usize..40, any::<u64>()).prop_map(|(at, op, r)| Mutation { at, op, r }).boxed()
}

/// Places in a document that can be altered as one value.
fn places(v: &V, path: &str, out: &mut Vec<String>) {
    match v {
        V::Object(o) => {
            if o.contains_key("abs_bytes") || o.contains_key("byte_vec") {
                out.push(path.into());
                return;
            }
            for (k, x) in o {
                places(x, &format!("{path}/{k}"), out);
            }
        }
        V::Array(a) => {
            out.push(path.into());
            for (i, x) in a.iter().enumerate() {
                places(x, &format!("{path}/{i}"), out);
            }
        }
        V::Null => {}
        _ => out.push(path.into()),
    }
}

fn hexlen(s: &str) -> usize {
    s.trim_start_matches("0x").len() / 2
}

/// Alters one place. The moduli are used to make equal or related residues.
fn mutate<P: Inst>(doc: &mut V, m: &Mutation, moduli: &[Big], ranges: &[u32]) -> String {
    let mut ps = vec![];
    places(doc, "", &mut ps);
    // arrays are rare among the places: give them a fair share
    let arrays: Vec<String> = ps.iter().filter(|p| doc.pointer(p).is_some_and(|v| v.is_array())).cloned().collect();
    let path = if m.op >= 34 && !arrays.is_empty() { arrays[m.at % arrays.len()].clone() } else { ps[m.at % ps.len()].clone() };
    // places of the same kind to swap with
    let other = ps[(m.r as usize) % ps.len()].clone();
    let other_v = doc.pointer(&other).cloned().unwrap_or(V::Null);
    let mut g = rng(m.r);
    let val = doc.pointer_mut(&path).expect("a place");
    let kind: String = path.chars().filter(|c| !c.is_ascii_digit()).collect();
    match val {
        V::Array(a) => {
            let n = a.len();
            match m.op % 8 {
                0 => {
                    a.pop();
                }
                1 => a.clear(),
                2 if n > 0 => {
                    let x = a[n - 1].clone();
                    a.push(x);
                }
                3 if n > 1 => {
                    let (i, j) = ((m.r as usize) % n, (m.r as usize / 7) % n);
                    a.swap(i, j);
                }
                4 if n > 0 => {
                    a.remove(0);
                }
                5 if n > 0 => a.truncate(1 + (m.r as usize) % n),
                6 if n > 1 => a.rotate_left(1),
                _ if n > 1 => {
                    let x = a[(m.r as usize) % n].clone();
                    a[(m.r as usize / 5) % n] = x;
                }
                _ => {}
            }
            return format!("{kind}:array{}", m.op % 8);
        }
        V::Bool(b) => {
            *b = !*b;
        }
        V::Object(o) if o.contains_key("abs_bytes") => {
            let Some(x) = js(val) else { return kind };
            let d = |k: u32| SBig::from(Big::pow2(k));
            let rg = if ranges.is_empty() { 8 } else { ranges[(m.r as usize) % ranges.len()] };
            let y = match m.op % 14 {
                0 => x.neg(),
                1 => x.add(&SBig::from(1)),
                2 => x.sub(&SBig::from(1)),
                3 => SBig::zero(),
                4 => x.add(&SBig::from(P::rc().n.clone())),
                5 => d(rg - 1),
                6 => d(rg - 1).add(&SBig::from(1)),
                7 => d(rg - 1).neg(),
                8 => d(rg),
                9 => x.add(&SBig::from(moduli[(m.r as usize) % moduli.len()].clone())),
                10 => x.sub(&SBig::from(moduli[(m.r as usize) % moduli.len()].clone())),
                11 => x.add(&d((m.r % x.mag.bits().max(1) as u64) as u32)),
                12 => {
                    if js(&other_v).is_some() {
                        *val = other_v;
                        return format!("{kind}:swap");
                    }
                    x.neg()
                }
                _ => {
                    // only the declared bound
                    let bb = val["bound"].as_u64().unwrap_or(0);
                    val["bound"] = json!(bb + 1 + m.r % 9);
                    return format!("{kind}:bound");
                }
            };
            // keep the width: the declared bound only grows if it must
            let bound = (val["bound"].as_u64().unwrap_or(0) as u32).max(y.mag.bits());
            let h = y.mag.to_be((bound as usize).div_ceil(8));
            let hex: String = h.iter().map(|b| format!("{b:02x}")).collect();
            *val = json!({"bound": bound, "is_negative": y.neg, "abs_bytes": format!("0x{hex}")});
        }
        V::Object(o) if o.contains_key("byte_vec") => {
            let Some(mut bits) = jbits(val) else { return kind };
            let n = bits.len();
            match m.op % 6 {
                0 => bits.truncate(n / 2),
                1 => bits.clear(),
                2 => bits.push(false),
                3 => bits = vec![false; n],
                _ if n > 0 => bits[(m.r as usize) % n] ^= true,
                _ => {}
            }
            *val = serde_json::to_value(super::misc::bitvec(&bits)).expect("serializes");
        }
        V::String(sx) => {
            let len = hexlen(sx);
            let is_point = serde_json::from_value::<Point<P>>(V::String(sx.clone())).is_ok() && len > P::rc().flen;
            if is_point && m.op % 3 != 0 {
                let p = ptv::<P>(&serde_json::from_value::<Point<P>>(V::String(sx.clone())).expect("a point"));
                let rc = P::rc();
                let q = match m.op % 5 {
                    0 => rc.neg(&p),
                    1 => rc.add(&p, &rc.gmul(&Big::one())),
                    2 => None,
                    3 => rc.mul(&Big::from_u64(2), &p),
                    _ => rc.gmul(&Big::random_below(&mut g, &rc.n)),
                };
                *val = serde_json::to_value(pt::<P>(&q)).expect("serializes");
                return format!("{kind}:point");
            }
            let Some(x) = Big::from_hex(sx.trim_start_matches("0x")) else { return kind };
            let n = &moduli[(m.r as usize) % moduli.len()];
            let y = match m.op % 13 {
                0 => x.add(&Big::one()),
                1 => x.add(&Big::pow2(len as u32 * 8)).sub(&Big::one()),
                2 => Big::zero(),
                3 => Big::one(),
                4 => Big::pow2(len as u32 * 8).sub(&Big::one()),
                5 => n.sub(&x.rem(n)),
                6 => x.add(n),
                7 => n.clone(),
                8 => x.rem(n).invmod(n).unwrap_or(Big::zero()),
                9 => Big::random_below(&mut g, n),
                10 => {
                    if let V::String(o) = &other_v {
                        if hexlen(o) == len {
                            *val = other_v;
                            return format!("{kind}:swap");
                        }
                    }
                    x.mulmod(&x, n)
                }
                11 => x.mulmod(&Big::from_u64(2), n),
                _ => {
                    let i = (m.r % (len.max(1) as u64 * 8)) as u32;
                    if x.bit(i) { x.sub(&Big::pow2(i)) } else { x.add(&Big::pow2(i)) }
                }
            };
            let y = y.low_bits(len as u32 * 8);
            let hex: String = y.to_be(len).iter().map(|b| format!("{b:02x}")).collect();
            *sx = format!("0x{hex}");
        }
        _ => {}
    }
    format!("{kind}:{}", m.op % 14)
}

/// Alters one commitment (an unfinished proof holds nothing else), keeping its kind.
pub fn bend<P: Inst>(st: &Stmt, p: &mut V, at: usize, op: usize, r: u64) {
    let mut ps = vec![];
    places(p, "", &mut ps);
    ps.retain(|x| p.pointer(x).is_some_and(|v| !v.is_array()));
    if ps.is_empty() {
        return;
    }
    let path = ps[at % ps.len()].clone();
    let val = p.pointer_mut(&path).expect("a place");
    let mut one = V::Object([("x".to_string(), val.take())].into_iter().collect());
    mutate::<P>(&mut one, &Mutation { at: 0, op: op % 34, r }, &moduli(st), &ranges::<P>());
    *val = one["x"].take();
}

/// Moves two commitments of the same group by amounts that cancel (or are equal): equations that hold only together.
pub fn twin<P: Inst>(st: &Stmt, p: &mut V, at: usize, op: usize, r: u64) {
    let mut ps = vec![];
    places(p, "", &mut ps);
    let kind = |x: &String| {
        let v = p.pointer(x)?;
        if v.is_array() {
            return None;
        }
        if x.ends_with("/ciphertext") {
            return Some(1);
        }
        if super::zk::jp::<P>(v).is_some() {
            return Some(0);
        }
        v.is_string().then_some(2)
    };
    let ps: Vec<(String, u8)> = ps.iter().filter_map(|x| kind(x).map(|k| (x.clone(), k))).collect();
    if ps.is_empty() {
        return;
    }
    let (a, k) = ps[at % ps.len()].clone();
    let same: Vec<&String> = ps.iter().filter(|(x, kk)| *kk == k && *x != a).map(|(x, _)| x).collect();
    if same.is_empty() {
        return;
    }
    let b = same[(r % same.len() as u64) as usize].clone();
    let mut g = rng(r);
    let rc = P::rc();
    match k {
        0 => {
            let d = rc.gmul(&Big::random_below(&mut g, &rc.n));
            let d2 = if op % 4 == 0 { d.clone() } else { rc.neg(&d) };
            for (x, d) in [(a, d), (b, d2)] {
                let v = p.pointer_mut(&x).expect("a place");
                let q = super::zk::jp::<P>(v).expect("a point");
                *v = super::zk::vp::<P>(&rc.add(&q, &d));
            }
        }
        _ => {
            let n = match k {
                1 => {
                    let n = &st.pks[op / 4 % st.pks.len()];
                    n.mul(n)
                }
                _ => st.rp.as_ref().map(|r| r[0].clone()).unwrap_or_else(|| st.pks[0].clone()),
            };
            let d = match op % 3 {
                0 => n.sub(&Big::one()),
                _ => Big::random_below(&mut g, &n),
            };
            let Some(di) = d.invmod(&n) else { return };
            let d2 = if op % 4 == 1 { d.clone() } else { di };
            for (x, d) in [(a, d), (b, d2)] {
                let v = p.pointer_mut(&x).expect("a place");
                let y = jb(v).mulmod(&d, &n);
                *v = if k == 1 { super::zk::vct::<P>(&y)["ciphertext"].clone() } else { super::zk::v1::<P>(&y) };
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Mutated {
    w: Wit,
    ms: Vec<Mutation>,
    resign: bool,
}

fn mutated<P: Inst>(list: &'static [S]) -> BoxedStrategy<Mutated> {
    (sys(list).prop_flat_map(wit::<P>), proptest::collection::vec(mutation(), 1..4), any::<bool>())
        .prop_map(|(w, ms, r)| Mutated { w, ms, resign: r })
        .boxed()
}

fn moduli(st: &Stmt) -> Vec<Big> {
    let mut v: Vec<Big> = st.pks.iter().flat_map(|n| [n.clone(), n.mul(n)]).collect();
    if let Some(r) = &st.rp {
        v.push(r[0].clone());
    }
    if v.is_empty() {
        v.push(Big::from_u64(0xffff_0f07));
    }
    v
}

fn ranges<P: Inst>() -> [u32; 4] {
    let (l, lp, e) = (P::L_BOUND, P::LP_BOUND, P::EPS_BOUND);
    [l + e, lp + e, l + e + PP::<P>::PRIME_BITS - 2, lp + e + 1 + 2 + e]
}

/// Accepts only if the reference verifier does.
fn judge<P: Inst>(s: S, st: &Stmt, proof: &V, what: &str) -> Result<bool, Fail> {
    match no_panic(|| crate_verify::<P>(s, st, proof)) {
        Err(p) => fail(format!("{s:?}:{}", panic_site(&p)), format!("{what}: {p}")),
        Ok(Ok(true)) => match no_panic(|| ref_verify::<P>(s, st, proof)) {
            Ok(Ok(())) => Ok(true),
            Ok(Err(e)) => fail(format!("{s:?}:{e}"), format!("{what}: accepted, although it fails: {e}")),
            Err(p) => panic!("the reference verifier panics on an accepted proof ({what}): {p}"),
        },
        Ok(_) => Ok(false),
    }
}

fn mutants<P: Inst>(c: &Mutated) -> R {
    let s = c.w.s;
    if !shape_ok::<P>(s) {
        return Ok(obs(false).tag("unknown fields"));
    }
    let (st, sec) = honest::<P>(&c.w);
    let (st, proof) = crate_prove::<P>(&st, &sec, c.w.seed);
    let mut p = proof.clone();
    let ms = moduli(&st);
    let mut what = String::new();
    for m in &c.ms {
        what.push_str(&mutate::<P>(&mut p, m, &ms, &ranges::<P>()));
        what.push(' ');
    }
    if c.resign && ready::<P>(s) {
        if let Some(e) = challenge::<P>(s, &st, &p) {
            p[chal_field(s)] = e;
        }
    }
    if p == proof {
        return Ok(obs(false).tag("unchanged"));
    }
    let acc = judge::<P>(s, &st, &p, &what)?;
    Ok(obs(true).tag(name(s)).tag_if(acc, "accepted, rightly"))
}

pub fn c12(ctx: &Ctx) {
    note_sync(ctx);
    let rule = "the altered proof differs from the honest one it was made from";
    ctx.check("tiny/altered-proof", rule, ctx.n(40_000, 1_000_000), || mutated::<T>(FAST), mutants::<T>);
    ctx.check("tiny/altered-proof-repeated", rule, ctx.n(3000, 60_000), || mutated::<T>(SLOW), mutants::<T>);
    ctx.check("k256/altered-proof", rule, ctx.n(200, 3000), || mutated::<K>(&[Sch, Elog, EncElg, AffG, Fac]), mutants::<K>);
    let rule = "the chosen challenge differs from the hash of the transcript";
    ctx.check(
        "tiny/simulated",
        rule,
        ctx.n(4000, 80_000),
        || (sys(&[Sch, Elog, EncElg, AffG, Fac, Prm, AffGStar, Dec]).prop_flat_map(wit::<T>), any::<u64>()).boxed(),
        |(w, seed)| simulated::<T>(w, *seed),
    );
    ctx.check(
        "k256/simulated",
        rule,
        ctx.n(12, 300),
        || (sys(&[Sch, Elog, EncElg, AffG, Fac]).prop_flat_map(wit::<K>), any::<u64>()).boxed(),
        |(w, seed)| simulated::<K>(w, *seed),
    );
    let rule = "a proof with a number of repetitions other than the prescribed one, consistent with its own transcript";
    ctx.check(
        "tiny/repetitions",
        rule,
        ctx.n(3000, 60_000),
        || (sys(&[AffGStar, Dec, Prm]).prop_flat_map(wit::<T>), 0usize..70, any::<u64>(), any::<bool>()).boxed(),
        |(w, n, seed, own)| repetitions::<T>(w, *n, *seed, *own),
    );
    let rule = "the reference prover could make the proof (all values fit their types) and its transcript is consistent; the class names the first check that fails";
    ctx.check("tiny/assembled", rule, ctx.n(15_000, 300_000), || cheat::<T>(&[Sch, Elog, EncElg, AffG, Fac]), cheating::<T>);
    ctx.check("tiny/assembled-repeated", rule, ctx.n(2000, 40_000), || cheat::<T>(SLOW), cheating::<T>);
    ctx.check("k256/assembled", rule, ctx.n(60, 1000), || cheat::<K>(&[EncElg, AffG, Fac]), cheating::<K>);
    let rule = "a false statement, commitments chosen after the challenge";
    ctx.check("tiny/commitments-after-challenge", rule, ctx.n(6000, 150_000), || alter_case::<T>(FAST), frozen::<T>);
    let rule = "a proof presented for a statement that differs in one place";
    ctx.check("tiny/altered-statement", rule, ctx.n(8000, 200_000), || alter_case::<T>(FAST), binding::<T>);
}

fn simulated<P: Inst>(w: &Wit, seed: u64) -> R {
    let s = w.s;
    if !shape_ok::<P>(s) {
        return Ok(obs(false).tag("unknown fields"));
    }
    let (st, sec) = build::<P>(w);
    let mut accepted = 0;
    for k in 0..4u64 {
        let Some(p) = ref_prove::<P>(&st, &sec, &Opt { simulate: true, seed: seed.wrapping_add(k), ..Default::default() }) else {
            return Ok(obs(false));
        };
        let (st2, p) = solve::<P>(s, &st, &p).expect("every equation can be solved");
        match no_panic(|| crate_verify::<P>(s, &st2, &p)) {
            Ok(Ok(true)) => accepted += 1,
            Ok(Ok(false)) => break,
            Ok(Err(e)) => panic!("a simulated proof does not decode: {s:?} {e}"),
            Err(p) => return fail(format!("{s:?}:panic"), p),
        }
    }
    vensure!(accepted < 4, format!("{s:?}"), "simulated proofs, whose challenge is chosen by the prover, are accepted");
    Ok(obs(true).tag(name(s)))
}

fn repetitions<P: Inst>(w: &Wit, n: usize, seed: u64, own: bool) -> R {
    let s = w.s;
    if !ready::<P>(s) {
        return Ok(obs(false).tag("out of sync"));
    }
    let (st, sec) = build::<P>(w);
    let full = if s == Prm { P::SECURITY_BITS } else { P::SECURITY_PARAMETER };
    let Some(mut p) = ref_prove::<P>(&st, &sec, &Opt { reps: Some(n), seed, ..Default::default() }) else {
        return Ok(obs(false));
    };
    if own {
        // the challenge cut to the number of repetitions made
        let f = chal_field(s);
        let mut b = jbits(&p[f]).expect("bits");
        b.resize(n, false);
        p[f] = serde_json::to_value(super::misc::bitvec(&b)).expect("serializes");
    }
    // for the parameters proof, a prover with few repetitions guesses all bits often enough
    let acc = judge::<P>(s, &st, &p, "wrong number of repetitions")?;
    Ok(obs(n != full).tag(name(s)).tag_if(acc, "accepted, rightly").tag_if(n < full, "too few").tag_if(n == 0, "none"))
}

// ------------------------------------------------------------------ C13

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cheat {
    w: Wit,
    /// how the witness or its masks leave their ranges
    x: Option<SBig>,
    y: Option<SBig>,
    opt: Opt,
    alter: Option<(usize, usize, u64)>,
}

/// A value around the limit of the range `±2^e` (just inside, at, just outside, far outside).
fn around(e: u32, max: u32) -> BoxedStrategy<SBig> {
    let max = max.max(e + 8);
    (any::<bool>(), prop_oneof![
        4 => (-4i64..5).prop_map(move |d| SBig::from(Big::pow2(e - 1)).add(&SBig::from(d)).mag),
        2 => (e..max).prop_map(Big::pow2),
        2 => big_bits(max),
        1 => Just(Big::pow2(e)),
        1 => big_bits(e),
    ])
        .prop_map(|(n, m)| SBig::new(n && !m.is_zero(), m))
        .boxed()
}

fn cheat<P: Inst>(list: &'static [S]) -> BoxedStrategy<Cheat> {
    sys(list)
        .prop_flat_map(|s| {
            let (l, lp, eps) = (P::L_BOUND, P::LP_BOUND, P::EPS_BOUND);
            let (mx, my) = match s {
                Dec => (l + eps, lp + 2 * eps + 4),
                Fac => (l + eps + PP::<P>::PRIME_BITS - 2, l + eps + PP::<P>::PRIME_BITS - 2),
                _ => (l + eps, lp + eps),
            };
            let top = <<PP<P> as PaillierParams>::Uint as crypto_bigint::Bounded>::BITS - 2;
            let ty = if s == Dec || s == Fac { 2 * top } else { top };
            let tx = if s == Fac { 2 * top } else { top };
            let tag = (0u8..13, any::<u64>(), 0usize..64);
            (wit::<P>(s), around(mx, tx - 80), around(my, ty - 80), around(l, top - 120), around(lp, top - 120), tag, (0usize..64, 0usize..60)).prop_map(
                move |(w, al, be, x, y, (mode, seed, j), (which, kind))| {
                    let mut c = Cheat { w, x: None, y: None, opt: Opt { seed, j, ..Default::default() }, alter: None };
                    match mode {
                        0 | 1 => c.opt.alpha = Some(al),
                        2 => c.opt.beta = Some(be),
                        3 => c.x = Some(x),
                        4 => c.y = Some(y),
                        5 => c.alter = Some((which, kind, seed)),
                        11 | 12 => c.opt.twin = Some((which, kind, seed)),
                        8..=10 => {
                            c.opt.bend = Some((seed as usize % 100_000, kind, seed));
                            if mode == 10 {
                                c.alter = Some((which, kind, seed));
                            }
                        }
                        _ => {
                            // zero ciphertext commitments and randomizers, and a broken statement
                            c.alter = Some((which, kind, seed));
                            c.opt.zero = 1 + (j % 3) as u8;
                        }
                    }
                    if mode < 3 && j % 2 == 0 {
                        // no contribution of the witness: the mask is the response
                        c.w.x = SBig::zero();
                        c.w.y = SBig::zero();
                    }
                    c
                },
            )
        })
        .boxed()
}

fn cheating<P: Inst>(c: &Cheat) -> R {
    let s = c.w.s;
    if !ready::<P>(s) {
        return Ok(obs(false).tag("out of sync"));
    }
    let mut w = c.w.clone();
    if let Some(x) = &c.x {
        w.x = x.clone();
    }
    if let Some(y) = &c.y {
        w.y = y.clone();
    }
    let (mut st, sec) = build::<P>(&w);
    let mut label = String::from("true statement");
    if let Some((which, kind, seed)) = c.alter {
        let (st2, l) = alter::<P>(s, &st, which, kind, seed);
        if l.starts_with("pk") || l == "rp0" || l == "aux" || !st2.cts.iter().zip(ct_pk(s)).all(|(x, i)| x.gcd(&st2.pks[*i]).is_one()) {
            return Ok(obs(false).tag("not altered"));
        }
        st = st2;
        label = format!("wrong {l}");
    }
    if c.opt.bend.is_some() {
        label += ", altered commitment";
    }
    if c.opt.twin.is_some() {
        label += ", two commitments altered by compensating amounts";
    }
    if c.opt.zero != 0 {
        label += ", zero ciphertexts";
    }
    if c.opt.alpha.is_some() || c.opt.beta.is_some() {
        label += ", chosen mask";
    }
    if c.x.is_some() || c.y.is_some() {
        label += ", witness out of range";
    }
    let Some(p) = ref_prove::<P>(&st, &sec, &c.opt) else { return Ok(obs(false).tag("does not fit")) };
    let acc = judge::<P>(s, &st, &p, &label)?;
    let want = ref_verify::<P>(s, &st, &p);
    if want.is_ok() {
        vensure!(acc, format!("{s:?}:too strict"), "{label}: every check of the scheme holds, but the proof is rejected");
    }
    let why = match &want {
        Ok(()) => "accepted".to_string(),
        Err(e) => e.split(':').next().unwrap_or("").to_string(),
    };
    Ok(obs(true).tag(format!("{}:{}", name(s), why)))
}

pub fn c13(ctx: &Ctx) {
    note_sync(ctx);
    let rule = "the reference prover could make the proof (all values fit their types) and its transcript is consistent; the class names the first check that fails";
    ctx.check("tiny/cheating", rule, ctx.n(30_000, 600_000), || cheat::<T>(&[Sch, Elog, EncElg, AffG, Fac]), cheating::<T>);
    ctx.check("tiny/cheating-repeated", rule, ctx.n(2500, 50_000), || cheat::<T>(SLOW), cheating::<T>);
    ctx.check("k256/cheating", rule, ctx.n(200, 3000), || cheat::<K>(&[EncElg, AffG, Fac]), cheating::<K>);
    let rule = "a false statement, commitments chosen after the challenge";
    ctx.check("tiny/commitments-after-challenge", rule, ctx.n(6000, 150_000), || alter_case::<T>(FAST), frozen::<T>);
    ctx.check("tiny/commitments-after-challenge-repeated", rule, ctx.n(500, 10_000), || alter_case::<T>(SLOW), frozen::<T>);
    let rule = "a false statement, its base chosen after the challenge so that all equations hold";
    ctx.check("tiny/base-after-challenge", rule, ctx.n(3000, 60_000), || alter_case::<T>(&[Elog, EncElg, AffG]), late_base::<T>);
}

// ------------------------------------------------------------------ C14

/// A prime of the given size with the given residue modulo 4.
fn prime(g: &mut Rng, bits: u32, res: u64) -> Big {
    loop {
        let x = Big::random_bits(g, bits);
        let x = if x.bit(bits - 1) { x } else { x.add(&Big::pow2(bits - 1)) };
        let x = x.shr(2).shl(2).add(&Big::from_u64(res));
        if x.bits() == bits && x.is_prime() {
            return x;
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadModulus {
    kind: u8,
    seed: u64,
    w_kind: u8,
    fill: u8,
    drop: u8,
    aux: Vec<u8>,
}

/// Factors (with multiplicity) of a modulus of about the right size which is not the product of two primes that are
/// 3 modulo 4.
fn bad_factors(c: &BadModulus, bits: u32) -> Vec<(Big, u32)> {
    let g = &mut rng(c.seed ^ 0xBAD);
    let h = bits / 2;
    match c.kind % 9 {
        0 => vec![(prime(g, bits, 3), 1)],
        1 => vec![(prime(g, bits, 1), 1)],
        2 => vec![(prime(g, h, 1), 1), (prime(g, h, 3), 1)],
        3 => vec![(prime(g, h, 1), 1), (prime(g, h, 1), 1)],
        4 => vec![(prime(g, h, 3), 2)],
        5 => vec![(prime(g, bits / 3, 3), 1), (prime(g, bits / 3, 3), 1), (prime(g, bits - 2 * (bits / 3), 3), 1)],
        6 => vec![(prime(g, bits / 4, 3), 1), (prime(g, bits / 4, 3), 1), (prime(g, bits / 4, 3), 1), (prime(g, bits / 4, 3), 1)],
        7 => vec![(prime(g, 20, 3), 2), (prime(g, bits - 40, 3), 1)],
        _ => vec![(prime(g, h, 3), 1), (prime(g, h, 3), 1)],
    }
}

/// A square root modulo `p^k` (Tonelli-Shanks in the cyclic group of units), preferring one that is a square itself.
fn sqrt_pk(x: &Big, p: &Big, k: u32, g: &mut Rng) -> Option<Big> {
    let one = Big::one();
    let m = (0..k).fold(Big::one(), |a, _| a.mul(p));
    let phi = m.divrem(p).0.mul(&p.sub(&one));
    let x = x.rem(&m);
    let half = phi.shr(1);
    if x.powmod(&half, &m) != one {
        return None;
    }
    let mut odd = phi.clone();
    let mut e = 0;
    while !odd.is_odd() {
        odd = odd.shr(1);
        e += 1;
    }
    let nr = loop {
        let y = Big::random_below(g, &m);
        if y.gcd(p).is_one() && y.powmod(&half, &m) != one {
            break y;
        }
    };
    let mut z = nr.powmod(&odd, &m);
    let mut r = x.powmod(&odd.add(&one).shr(1), &m);
    let mut t = x.powmod(&odd, &m);
    let mut mm = e;
    while t != one {
        let mut i = 0;
        let mut tt = t.clone();
        while tt != one {
            tt = tt.mulmod(&tt, &m);
            i += 1;
        }
        let mut b = z.clone();
        for _ in 0..(mm - i - 1) {
            b = b.mulmod(&b, &m);
        }
        mm = i;
        z = b.mulmod(&b, &m);
        t = t.mulmod(&z, &m);
        r = r.mulmod(&b, &m);
    }
    // prefer the root that has a root
    if r.powmod(&half, &m) != one {
        let r2 = m.sub(&r);
        if r2.powmod(&half, &m) == one {
            return Some(r2);
        }
    }
    Some(r)
}

fn crt(parts: &[(Big, Big)]) -> Big {
    let mut x = Big::zero();
    let mut m = Big::one();
    for (r, n) in parts {
        // x + m * ((r - x) / m mod n)
        let d = r.add(n).sub(&x.rem(n)).rem(n);
        let k = d.mulmod(&m.rem(n).invmod(n).expect("coprime"), n);
        x = x.add(&m.mul(&k));
        m = m.mul(n);
    }
    x
}

fn hexu<P: Inst>(v: &Big) -> V {
    hex_uint::<<PP<P> as PaillierParams>::Uint>(v)
}

fn bad_mod<P: Inst>(c: &BadModulus) -> R {
    if !ready::<P>(Mod) {
        return Ok(obs(false).tag("out of sync"));
    }
    let bits = PP::<P>::MODULUS_BITS;
    let fs = bad_factors(c, bits);
    let n = fs.iter().fold(Big::one(), |a, (p, k)| (0..*k).fold(a, |a, _| a.mul(p)));
    if n.bits() > bits {
        return Ok(obs(false).tag("too large"));
    }
    let g = &mut rng(c.seed);
    let phi = fs.iter().fold(Big::one(), |a, (p, k)| {
        (1..*k).fold(a.mul(&p.sub(&Big::one())), |a, _| a.mul(p))
    });
    let w = match c.w_kind % 7 {
        0 => Big::zero(),
        1 => Big::one(),
        2 => fs[0].0.rem(&n),
        3 => n.sub(&Big::one()),
        4 => n.clone(),
        _ => Big::random_below(g, &n),
    };
    let st = Stmt { pks: vec![n.clone()], cts: vec![], pts: vec![], rp: None, np: 2, aux: c.aux.clone() };
    let mut p = json!({"commitment": hexu::<P>(&w)});
    p["challenge"] = challenge::<P>(Mod, &st, &p).expect("a challenge");
    let ni = n.rem(&phi).invmod(&phi);
    let mut els = vec![];
    let mut good = 0;
    let ys = p["challenge"].as_array().expect("array").clone();
    for y in &ys {
        let y = jb(y);
        let mut found = None;
        for ab in 0..4u8 {
            let (a, b) = (ab & 1 != 0, ab & 2 != 0);
            let mut r = y.rem(&n);
            if a {
                r = n.sub(&r).rem(&n);
            }
            if b {
                r = r.mulmod(&w.rem(&n), &n);
            }
            if r.is_zero() {
                found = Some((Big::zero(), a, b));
                break;
            }
            let roots: Option<Vec<(Big, Big)>> = fs
                .iter()
                .map(|(p, k)| {
                    let m = (0..*k).fold(Big::one(), |a, _| a.mul(p));
                    if r.rem(p).is_zero() {
                        return if r.rem(&m).is_zero() { Some((Big::zero(), m)) } else { None };
                    }
                    let s = sqrt_pk(&r, p, *k, g)?;
                    Some((sqrt_pk(&s, p, *k, g)?, m))
                })
                .collect();
            if let Some(roots) = roots {
                found = Some((crt(&roots), a, b));
                break;
            }
        }
        let z = match &ni {
            Some(e) => Some(y.powmod(e, &n)),
            None => None,
        };
        match (found, z) {
            (Some((x, a, b)), Some(z)) => {
                good += 1;
                els.push(json!({"x": hexu::<P>(&x), "a": a, "b": b, "z": hexu::<P>(&z)}));
            }
            (f, z) => match c.fill % 3 {
                0 => {
                    let (x, a, b) = f.unwrap_or((Big::random_below(g, &n), false, true));
                    els.push(json!({"x": hexu::<P>(&x), "a": a, "b": b, "z": hexu::<P>(&z.unwrap_or(Big::one()))}));
                }
                1 => break,
                _ => {}
            },
        }
    }
    for _ in 0..c.drop % 4 {
        els.pop();
    }
    if c.drop % 16 == 15 {
        els.clear();
    }
    let made = els.len();
    p["proof"] = V::Array(els);
    let acc = judge::<P>(Mod, &st, &p, &format!("modulus class {}", c.kind % 9))?;
    if c.kind % 9 != 8 && c.w_kind % 7 >= 5 && made == ys.len() && ref_verify::<P>(Mod, &st, &p).is_ok() {
        vensure!(acc, "Mod:too strict", "all equations hold by luck, but the proof is rejected");
    }
    if c.kind % 9 == 8 && c.w_kind % 7 >= 5 && ref_verify::<P>(Mod, &st, &p).is_ok() {
        vensure!(acc, "Mod:good modulus", "a correct proof for a good modulus is rejected");
    }
    Ok(obs(true).tag(format!("class {}", c.kind % 9)).tag_if(acc, "accepted").tag_if(good == ys.len(), "all solved").tag_if(made < ys.len(), "cut"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadRp {
    i: usize,
    t_kind: u8,
    s_kind: u8,
    reps: Option<usize>,
    zero: bool,
    library: bool,
    seed: u64,
    aux: Vec<u8>,
}

/// Ring-Pedersen parameters where s is (usually) not a power of t.
fn bad_prm<P: Inst>(c: &BadRp) -> R {
    if !ready::<P>(Prm) {
        return Ok(obs(false).tag("out of sync"));
    }
    let g = &mut rng(c.seed);
    let r = rp(PP::<P>::PRIME_BITS, c.i);
    let (r, secret) = if c.library {
        let (s, r) = crate_rp::<P>(c.i);
        (r, Some(s))
    } else {
        (r, None)
    };
    let n = &r.key.n;
    let t = match c.t_kind % 7 {
        0 => Big::zero(),
        1 => Big::one(),
        2 => n.sub(&Big::one()),
        3 => r.key.p.clone(),
        4 => n.clone(),
        _ => r.t.clone(),
    };
    let s = match c.s_kind % 8 {
        0 => Big::zero(),
        1 => r.key.q.clone(),
        2 => n.sub(&r.s),
        3 => Big::random_below(g, n),
        4 => n.sub(&Big::one()),
        5 => n.clone(),
        6 => Big::one(),
        _ => r.s.clone(),
    };
    let st = Stmt { pks: vec![], cts: vec![], pts: vec![], rp: Some([n.clone(), t.clone(), s.clone()]), np: 2, aux: c.aux.clone() };
    let mut w = sample_wit(Prm, c.seed);
    w.k[2] = c.i;
    let sec = build::<P>(&w).1;
    let p = if let Some(_) = &secret {
        match no_panic(|| crate_prove::<P>(&st, &sec, c.seed)) {
            Ok((_, p)) => p,
            Err(_) => return Ok(obs(false).tag("the library's prover refuses")),
        }
    } else {
        match ref_prove::<P>(&st, &sec, &Opt { reps: c.reps, zero: c.zero as u8, seed: c.seed, ..Default::default() }) {
            Some(p) => p,
            None => return Ok(obs(false).tag("no proof")),
        }
    };
    let what = format!("t {} s {} reps {:?} zero {} library {}", c.t_kind % 7, c.s_kind % 8, c.reps, c.zero, c.library);
    let acc = judge::<P>(Prm, &st, &p, &what)?;
    Ok(obs(true).tag_if(acc, "accepted, rightly").tag_if(c.library, "library prover").tag_if(c.zero, "zero commitments").tag_if(c.reps.is_some(), "wrong length"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BadFac {
    small_bits: u32,
    kind: u8,
    seed: u64,
    i: usize,
    aux: Vec<u8>,
}

/// A modulus with a small factor, proven by a prover that knows the factors.
fn bad_fac<P: Inst>(c: &BadFac) -> R {
    if !ready::<P>(Fac) {
        return Ok(obs(false).tag("out of sync"));
    }
    let bits = PP::<P>::MODULUS_BITS;
    let g = &mut rng(c.seed);
    let small = prime(g, c.small_bits.clamp(4, bits / 2), 3);
    let big = prime(g, bits - small.bits(), 3);
    let n = small.mul(&big);
    if n.bits() > bits {
        return Ok(obs(false).tag("too large"));
    }
    let sb = |x: &Big| SBig::from(x.clone());
    let pq = match c.kind % 7 {
        0 => (sb(&small), sb(&big)),
        1 => (sb(&big), sb(&small)),
        2 => (SBig::from(1), sb(&n)),
        3 => (sb(&n), SBig::from(1)),
        4 => (sb(&small).neg(), sb(&big).neg()),
        // wrong factors in range
        5 => (sb(&small), sb(&small)),
        _ => (SBig::zero(), sb(&small)),
    };
    let mut w = sample_wit(Fac, c.seed);
    w.k[2] = c.i;
    w.aux = c.aux.clone();
    let (mut st, sec) = build::<P>(&w);
    st.pks[0] = n.clone();
    let Some(p) = ref_prove::<P>(&st, &sec, &Opt { pq: Some(pq.clone()), seed: c.seed, ..Default::default() }) else {
        return Ok(obs(false).tag("does not fit"));
    };
    let acc = judge::<P>(Fac, &st, &p, &format!("small factor of {} bits, claim {}", small.bits(), c.kind % 7))?;
    // independent of the reference verifier: a factor pair with a very large member is never accepted
    let lim = PP::<P>::PRIME_BITS + P::EPS_BOUND + P::L_BOUND + 1;
    if pq.0.mag.bits().max(pq.1.mag.bits()) > lim {
        vensure!(!acc, "Fac:small factor", "a modulus with a factor of {} bits is accepted", small.bits());
    }
    Ok(obs(true).tag(format!("claim {}", c.kind % 7)).tag_if(acc, "accepted").tag_if(pq.0.mag.bits().max(pq.1.mag.bits()) > lim, "beyond the slack"))
}

pub fn c14(ctx: &Ctx) {
    note_sync(ctx);
    let moduli = || {
        (any::<u8>(), any::<u64>(), any::<u8>(), any::<u8>(), any::<u8>(), bytes(12))
            .prop_map(|(kind, seed, w_kind, fill, drop, aux)| BadModulus { kind, seed, w_kind, fill, drop, aux })
            .boxed()
    };
    ctx.check(
        "tiny/bad-modulus",
        "a proof by a prover who knows the factors and solves every repetition that can be solved",
        ctx.n(3000, 60_000),
        moduli,
        bad_mod::<T>,
    );
    ctx.check("k256/bad-modulus", "as above", ctx.n(2, 24), moduli, bad_mod::<K>);
    ctx.check(
        "tiny/bad-parameters",
        "a proof for parameters with degenerate or unrelated bases (library prover, guessing prover, truncated or zero proofs)",
        ctx.n(15_000, 200_000),
        || {
            (
                (0usize..30, any::<u8>(), any::<u8>(), proptest::option::of(0usize..20)),
                (any::<bool>(), any::<bool>(), any::<u64>(), bytes(12)),
            )
                .prop_map(|((i, t_kind, s_kind, reps), (zero, library, seed, aux))| BadRp { i, t_kind, s_kind, reps, zero, library, seed, aux })
                .boxed()
        },
        bad_prm::<T>,
    );
    ctx.check(
        "tiny/small-factor",
        "a proof by a prover who uses the real factors, the trivial ones, or wrong ones in range",
        ctx.n(15_000, 200_000),
        || {
            (4u32..128, any::<u8>(), any::<u64>(), 0usize..30, bytes(12))
                .prop_map(|(small_bits, kind, seed, i, aux)| BadFac { small_bits, kind, seed, i, aux })
                .boxed()
        },
        bad_fac::<T>,
    );
    ctx.check(
        "k256/small-factor",
        "as above",
        ctx.n(4, 60),
        || {
            (4u32..900, any::<u8>(), any::<u64>(), 0usize..30, bytes(12))
                .prop_map(|(small_bits, kind, seed, i, aux)| BadFac { small_bits, kind, seed, i, aux })
                .boxed()
        },
        bad_fac::<K>,
    );
    let rule = "false parameters or a false modulus, commitments chosen after the challenge";
    ctx.check("tiny/commitments-after-challenge", rule, ctx.n(5000, 150_000), || alter_case::<T>(&[Fac, Prm]), frozen::<T>);
    let rule = "a proof presented for other parameters or another modulus";
    ctx.check("tiny/altered-statement", rule, ctx.n(5000, 150_000), || alter_case::<T>(&[Fac, Prm, Mod]), binding::<T>);
}

// ------------------------------------------------------------------ C15

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Garbage {
    w: Wit,
    /// alterations of the statement: (component, kind, value)
    st: Vec<(usize, u8, u64)>,
    ms: Vec<Mutation>,
    resign: bool,
}

/// Statements and proofs with absurd values: nothing panics, nothing false is accepted.
fn garbage<P: Inst>(c: &Garbage) -> R {
    let s = c.w.s;
    if !shape_ok::<P>(s) {
        return Ok(obs(false).tag("unknown fields"));
    }
    let (st, sec) = honest::<P>(&c.w);
    let (mut st, mut p) = crate_prove::<P>(&st, &sec, c.w.seed);
    let full = Big::pow2(PP::<P>::MODULUS_BITS).sub(&Big::one());
    let ms = moduli(&st);
    let mut what = String::new();
    for (at, kind, r) in &c.st {
        let mut g = rng(*r);
        let n = st.pks.len() + st.cts.len() + if st.rp.is_some() { 3 } else { 0 };
        if n == 0 {
            break;
        }
        let i = at % n;
        let width = if i >= st.pks.len() && i < st.pks.len() + st.cts.len() { 2 * PP::<P>::MODULUS_BITS } else { PP::<P>::MODULUS_BITS };
        let factor = if *r % 2 == 0 { sec.key[0].p.clone() } else { sec.rp.key.q.clone() };
        let v = match kind % 10 {
            0 => Big::zero(),
            1 => Big::one(),
            2 => Big::from_u64(2),
            3 => Big::pow2(width).sub(&Big::one()),
            4 => factor,
            5 => ms[(*r as usize) % ms.len()].low_bits(width),
            6 => Big::random_bits(&mut g, width),
            7 => Big::from_u64(r % 64),
            8 => full.sub(&Big::from_u64(1)),
            _ => Big::random_bits(&mut g, width - 1).shl(1),
        };
        what.push_str(&format!("component {i} kind {} ", kind % 10));
        if i < st.pks.len() {
            st.pks[i] = v;
        } else if i < st.pks.len() + st.cts.len() {
            let j = i - st.pks.len();
            st.cts[j] = v;
        } else {
            let j = i - st.pks.len() - st.cts.len();
            st.rp.as_mut().expect("rp")[j] = v;
        }
    }
    for m in &c.ms {
        what.push_str(&mutate::<P>(&mut p, m, &ms, &ranges::<P>()));
        what.push(' ');
    }
    if c.resign && ready::<P>(s) {
        if let Ok(Some(e)) = no_panic(|| challenge::<P>(s, &st, &p)) {
            p[chal_field(s)] = e;
        }
    }
    let decodes = match no_panic(|| env::<P>(s, &st).is_ok()) {
        Ok(d) => d,
        Err(p) => return fail(format!("{s:?}:{}", panic_site(&p)), format!("{what}: {p}")),
    };
    let acc = judge::<P>(s, &st, &p, &what)?;
    Ok(obs(true).tag(name(s)).tag_if(acc, "accepted, rightly").tag_if(!decodes, "refused by the decoder"))
}

/// Arbitrary or damaged bytes as a proof.
fn raw<P: Inst>(c: &(Wit, Vec<(usize, u8)>, Option<Vec<u8>>, usize)) -> R {
    let (w, edits, repl, cut) = c;
    let s = w.s;
    let (st, sec) = honest::<P>(w);
    let (st, proof) = crate_prove::<P>(&st, &sec, w.seed);
    let mut by = match repl {
        Some(b) => b.clone(),
        None => to_bytes::<P>(s, &proof),
    };
    for (i, v) in edits {
        let n = by.len();
        if n > 0 {
            by[i % n] = *v;
        }
    }
    if *cut % 4 == 0 {
        let n = by.len();
        by.truncate(n.saturating_sub(cut / 4));
    }
    // a length prefix of a sequence may ask for a lot of memory; the decoder must not trust it
    let r = no_panic(|| from_bytes::<P>(s, &by));
    match r {
        Err(p) => fail(format!("{s:?}:{}", panic_site(&p)), p),
        Ok(None) => Ok(obs(true).tag("refused")),
        Ok(Some(v)) => {
            if !shape_ok::<P>(s) {
                return Ok(obs(true));
            }
            let acc = judge::<P>(s, &st, &v, "damaged bytes")?;
            Ok(obs(true).tag("decoded").tag_if(acc, "accepted, rightly"))
        }
    }
}

pub fn c15(ctx: &Ctx) {
    note_sync(ctx);
    super::misc::c15_wire(ctx);
    let st_alts = || proptest::collection::vec((0usize..16, any::<u8>(), any::<u64>()), 0..3);
    let case = move |list: &'static [S]| {
        (sys(list).prop_flat_map(wit::<T>), st_alts(), proptest::collection::vec(mutation(), 0..3), any::<bool>())
            .prop_map(|(w, st, ms, resign)| Garbage { w, st, ms, resign })
            .boxed()
    };
    let rule = "a statement and proof with absurd values were given to the decoder and the verifier";
    ctx.check("tiny/absurd-values", rule, ctx.n(60_000, 1_500_000), move || case(FAST), garbage::<T>);
    ctx.check("tiny/absurd-values-repeated", rule, ctx.n(6000, 100_000), move || case(SLOW), garbage::<T>);
    ctx.check(
        "tiny/damaged-bytes",
        "bytes were given to the decoder of a proof",
        ctx.n(20_000, 300_000),
        || {
            (
                sys(&ALL).prop_flat_map(wit::<T>),
                proptest::collection::vec((any::<usize>(), any::<u8>()), 0..4),
                proptest::option::weighted(0.3, bytes(300)),
                0usize..400,
            )
                .boxed()
        },
        raw::<T>,
    );
}

// ------------------------------------------------------------------ C17: proofs on the wire

/// A decoded proof keeps its fields through the binary format; whatever the decoder accepts has one encoding.
fn wire_proof<P: Inst>(c: &(Wit, Vec<(usize, u8)>)) -> R {
    let (w, edits) = c;
    let s = w.s;
    let (st, sec) = honest::<P>(w);
    let (_, proof) = crate_prove::<P>(&st, &sec, w.seed);
    match rewire::<P>(s, &proof) {
        Ok(b) => vensure!(b == proof, format!("{s:?}:changed"), "a proof changes in a round trip"),
        Err(e) => return fail(format!("{s:?}:round-trip"), e),
    }
    let mut by = to_bytes::<P>(s, &proof);
    for (i, v) in edits {
        let n = by.len();
        by[i % n] = *v;
    }
    match no_panic(|| from_bytes::<P>(s, &by)) {
        Err(p) => fail(format!("{s:?}:{}", panic_site(&p)), p),
        Ok(None) => Ok(obs(true).tag(name(s)).tag("damaged: refused")),
        Ok(Some(v)) => match no_panic(|| rewire::<P>(s, &v)) {
            Ok(Ok(b)) => {
                vensure!(b == v, format!("{s:?}:changed"), "a decoded proof changes in a round trip");
                Ok(obs(true).tag(name(s)).tag("decoded"))
            }
            Ok(Err(e)) => fail(format!("{s:?}:decoded-round-trip"), e),
            Err(p) => fail(format!("{s:?}:{}", panic_site(&p)), p),
        },
    }
}

pub fn c17_proofs(ctx: &Ctx) {
    let rule = "a proof was encoded and decoded, then again with up to three bytes replaced";
    ctx.check(
        "proofs/tiny",
        rule,
        ctx.n(1200, 40_000),
        || (sys(&ALL).prop_flat_map(wit::<T>), proptest::collection::vec((any::<usize>(), any::<u8>()), 0..4)).boxed(),
        wire_proof::<T>,
    );
}

// ------------------------------------------------------------------ C20: what provers leave in memory

pub fn c20_proofs(ctx: &Ctx, rule: &str, tiny: fn(&Wit, u64) -> R, k256: fn(&Wit, u64) -> R) {
    ctx.check("proofs/tiny", rule, ctx.n(4_000, 80_000), || (sys(&[Sch, Elog, EncElg, AffG, Fac, Mod, Prm]).prop_flat_map(wit::<T>), any::<u64>()).boxed(), |(w, s)| tiny(w, *s));
    ctx.check("proofs/tiny-repeated", rule, ctx.n(300, 6_000), || (sys(SLOW).prop_flat_map(wit::<T>), any::<u64>()).boxed(), |(w, s)| tiny(w, *s));
    ctx.check("proofs/k256", rule, ctx.n(60, 1_000), || (sys(&[Sch, Elog, EncElg, AffG, Fac]).prop_flat_map(wit::<K>), any::<u64>()).boxed(), |(w, s)| k256(w, *s));
}
