//! C21: the responses of a proof hide the secrets behind masks which are fresh, full-width and used once.
//!
//! The masks are recovered from honest proofs: the witness is known, so a response gives its mask away; the blinding
//! exponents of commitments come from a second proof made with the same randomness in another context (other challenge,
//! same commitments), the way the soundness extractor of the scheme does it.
use std::format;
use std::prelude::v1::*;
use std::vec;

use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use super::common::big::{Big, SBig};
use super::common::masks::*;
use super::common::runner::*;
use super::curve::*;
use super::util::*;
use super::zk::*;
use super::zkc::{shape_ok, wit};
use crate::dev::TestParams as T;
use crate::k256::ProductionParams112 as K;
use crate::paillier::PaillierParams;
use crate::vensure;
use S::*;

fn sb(x: &Big) -> SBig {
    SBig::from(x.clone())
}

/// The masks in `p`. `q` is a proof with the same commitments and another challenge, if there is one.
fn masks<P: Inst>(st: &Stmt, sec: &Sec, p: &V, q: Option<&V>) -> Option<Vec<Mask>> {
    let w = &sec.w;
    let n = P::rc().n.clone();
    let (l, lp, eps) = (P::L_BOUND, P::LP_BOUND, P::EPS_BOUND);
    let pb = <<P as crate::SchemeParams>::Paillier as PaillierParams>::PRIME_BITS;
    let rpn = st.rp.as_ref().map(|r| r[0].clone()).unwrap_or(Big::one());
    let mut out = vec![];
    let half = |exp: u32, scale: &Big| scale.shl(exp - 1);
    let one = Big::one();
    let mut signed = |label, value: SBig, bound: Big| out.push(Mask { label, value, bound, signed: true });
    let mut uns: Vec<(&'static str, Big, Big)> = vec![];
    // response / secret exponent of two proofs
    let divide = |f: &str, e: &str| -> Option<SBig> {
        let q = q?;
        let (za, zb) = (js(&p[f])?, js(&q[f])?);
        let get = |v: &V| if w.s == Fac { js(&v[e]) } else { jsc::<P>(&v[e]).map(|x| sb(&x)) };
        let de = get(p)?.sub(&get(q)?);
        let dz = za.sub(&zb);
        if de.mag.is_zero() {
            return None;
        }
        let (quo, rem) = dz.mag.divrem(&de.mag);
        rem.is_zero().then(|| SBig::new(dz.neg != de.neg && !quo.is_zero(), quo))
    };
    match w.s {
        Sch => {
            let e = jsc::<P>(&p["challenge"])?;
            let z = jsc::<P>(&p["proof"])?;
            uns.push(("nonce", sb(&z).sub(&sb(&w.a.mul(&e))).modulo(&n), n.clone()));
        }
        Elog => {
            let e = jsc::<P>(&p["e"])?;
            uns.push(("alpha", sb(&jsc::<P>(&p["z"])?).sub(&sb(&w.a.mul(&e))).modulo(&n), n.clone()));
            uns.push(("m", sb(&jsc::<P>(&p["u"])?).sub(&sb(&w.b.mul(&e))).modulo(&n), n.clone()));
        }
        EncElg => {
            let e = jsc::<P>(&p["e"])?;
            let es = sb(&e);
            signed("alpha", js(&p["z1"])?.sub(&w.x.mul(&es)), half(l + eps, &one));
            uns.push(("beta", sb(&jsc::<P>(&p["w"])?).sub(&sb(&w.b.mul(&e))).modulo(&n), n.clone()));
            let n0 = &st.pks[0];
            uns.push(("r", jb(&p["z2"]).mulmod(&sec.rho.powmod_signed(&es.neg(), n0)?, n0), n0.clone()));
            if let Some(mu) = divide("z3", "e") {
                signed("gamma", js(&p["z3"])?.sub(&mu.mul(&es)), half(l + eps, &rpn));
                signed("mu", mu, half(l, &rpn));
            }
        }
        AffG => {
            let es = sb(&jsc::<P>(&p["e"])?);
            signed("alpha", js(&p["z1"])?.sub(&w.x.mul(&es)), half(l + eps, &one));
            signed("beta", js(&p["z2"])?.add(&w.y.mul(&es)), half(lp + eps, &one));
            let (n0, n1) = (&st.pks[0], &st.pks[1]);
            uns.push(("r", jb(&p["w"]).mulmod(&sec.rho.powmod_signed(&es.neg(), n0)?, n0), n0.clone()));
            uns.push(("r_y", jb(&p["w_y"]).mulmod(&sec.rho2.powmod_signed(&es, n1)?, n1), n1.clone()));
            if let (Some(m), Some(mu)) = (divide("z3", "e"), divide("z4", "e")) {
                signed("gamma", js(&p["z3"])?.sub(&m.mul(&es)), half(l + eps, &rpn));
                signed("delta", js(&p["z4"])?.sub(&mu.mul(&es)), half(l + eps, &rpn));
                signed("m", m, half(l, &rpn));
                signed("mu", mu, half(l, &rpn));
            }
        }
        AffGStar | Dec => {
            let star = w.s == AffGStar;
            let e = jbits(&p["e"])?;
            let yb = if star { lp + eps } else { xy_bits::<P>(w.s, st.np).1 + eps };
            for (el, bit) in p["elements"].as_array()?.iter().zip(e) {
                let sel = |v: &SBig| if bit { v.clone() } else { SBig::zero() };
                signed("alpha", js(&el["z"])?.sub(&sel(&w.x)), half(l + eps, &one));
                let n0 = &st.pks[0];
                let unmask = |r: Big, rho: &Big, n: &Big, inv: bool| -> Option<Big> {
                    Some(match (bit, inv) {
                        (false, _) => r,
                        (true, false) => r.mulmod(&rho.invmod(n)?, n),
                        (true, true) => r.mulmod(rho, n),
                    })
                };
                if star {
                    signed("beta", js(&el["z_prime"])?.add(&sel(&w.y)), half(yb, &one));
                    uns.push(("r", unmask(jb(&el["w"]), &sec.rho, n0, false)?, n0.clone()));
                    let n1 = &st.pks[1];
                    uns.push(("s", unmask(jb(&el["lambda"]), &sec.rho2, n1, true)?, n1.clone()));
                } else {
                    signed("beta", js(&el["w"])?.sub(&sel(&w.y)), half(yb, &one));
                    uns.push(("r", unmask(jb(&el["nu"]), &sec.rho, n0, false)?, n0.clone()));
                }
            }
        }
        Fac => {
            let e = js(&p["e"])?;
            let (fp, fq) = (sb(&sec.key[0].p), sb(&sec.key[0].q));
            signed("alpha", js(&p["z1"])?.sub(&fp.mul(&e)), half(l + eps + pb - 2, &one));
            signed("beta", js(&p["z2"])?.sub(&fq.mul(&e)), half(l + eps + pb - 2, &one));
            if let (Some(mu), Some(nu)) = (divide("w1", "e"), divide("w2", "e")) {
                signed("x", js(&p["w1"])?.sub(&mu.mul(&e)), half(l + eps, &rpn));
                signed("y", js(&p["w2"])?.sub(&nu.mul(&e)), half(l + eps, &rpn));
                signed("r", js(&p["v"])?.add(&nu.mul(&fp).mul(&e)), half(l + eps, &rpn.mul(&st.pks[0])));
                signed("mu", mu, half(l, &rpn));
                signed("nu", nu, half(l, &rpn));
            }
        }
        Mod => uns.push(("w", jb(&p["commitment"]), st.pks[0].clone())),
        Prm => {
            let e = jbits(&p["challenge"])?;
            let k = &sec.rp.key;
            let phi = k.p.sub(&one).mul(&k.q.sub(&one));
            for (z, bit) in p["proof"].as_array()?.iter().zip(e) {
                let z = sb(&jb(z));
                let a = if bit { z.sub(&sb(&sec.rp.lambda)) } else { z };
                uns.push(("a", a.modulo(&phi), phi.clone()));
            }
        }
    }
    out.extend(uns.into_iter().map(|(label, v, bound)| Mask { label, value: SBig::from(v), bound, signed: false }));
    Some(out)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Case {
    w: Wit,
    /// the same statement each time (otherwise the witness changes from proof to proof, too)
    same: bool,
}

fn case<P: Inst>(s: S) -> BoxedStrategy<Case> {
    (wit::<P>(s), any::<bool>()).prop_map(|(w, same)| Case { w, same }).boxed()
}

/// `runs` proofs of the same statement (or of statements with the same keys), each with its own randomness.
fn wide<P: Inst>(c: &Case, runs: usize, slack: usize) -> R {
    let s = c.w.s;
    if !shape_ok::<P>(s) {
        return Ok(obs(false).tag("unknown fields"));
    }
    let mut all = vec![];
    let mut rewound = 0;
    for k in 0..runs as u64 {
        let mut w = c.w.clone();
        if !c.same {
            w.seed = w.seed.wrapping_add(k << 32);
        }
        let (mut st, mut sec) = honest::<P>(&w);
        if s == Prm {
            let (secret, r) = crate_rp::<P>(w.k[2]);
            sec.rp = std::sync::Arc::new(super::keys::Rp { lambda: b(secret.lambda().expose_secret()), ..(*r).clone() });
        }
        let seed = c.w.seed.wrapping_mul(31).wrapping_add(k);
        let (st1, p) = crate_prove::<P>(&st, &sec, seed);
        // the same randomness, another context
        let q = if matches!(s, EncElg | AffG | Fac) {
            st.aux.push(1);
            let (_, q) = crate_prove::<P>(&st, &sec, seed);
            let same = |a: &V, b: &V| a.as_object().expect("an object").iter().all(|(f, v)| !f.starts_with("cap_") || b[f] == *v);
            same(&p, &q).then_some(q)
        } else {
            None
        };
        rewound += q.is_some() as usize;
        let Some(m) = masks::<P>(&st1, &sec, &p, q.as_ref()) else { return Ok(obs(false).tag("unknown encoding")) };
        all.extend(m);
    }
    let mut o = obs(true).tag(format!("{s:?}")).tag_if(rewound == runs, "commitments opened by rewinding");
    for (label, count) in assess(&format!("{s:?}"), all, slack)? {
        if count < 24 {
            o = o.tag(format!("too few masks {label}"));
        }
    }
    Ok(o)
}

pub fn c21(ctx: &Ctx) {
    let rule = "masks are recovered from a series of honest proofs and compared with the ranges of the scheme";
    for s in ALL {
        let (q, t) = match s {
            Sch | Elog => (150, 3_000),
            AffGStar | Dec | Prm => (60, 1_200),
            _ => (50, 1_000),
        };
        // a repeated proof has a mask of each kind per repetition
        let runs = match s {
            AffGStar | Dec => 3,
            Prm => 6,
            _ => 72,
        };
        ctx.check(&format!("tiny/{s:?}").to_lowercase(), rule, ctx.n(q, t), move || case::<T>(s), move |c| wide::<T>(c, runs, 0));
    }
    for s in [Sch, Elog, EncElg, AffG, Fac] {
        let (q, t) = match s {
            Sch | Elog => (20, 400),
            _ => (2, 40),
        };
        let (runs, slack) = if matches!(s, Sch | Elog) { (72, 0) } else { (26, 10) };
        ctx.check(&format!("k256/{s:?}").to_lowercase(), rule, ctx.n(q, t), move || case::<K>(s), move |c| wide::<K>(c, runs, slack));
    }
}
