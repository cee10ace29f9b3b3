//! The nine proof systems behind one interface: statements over reference integers, the crate's prover and verifier,
//! an independent reference verifier (equations and ranges), a reference prover that may cheat, a simulator.
use std::collections::HashMap;
use std::format;
use std::prelude::v1::*;
use std::sync::{Arc, LazyLock, Mutex};
use std::vec;

use digest::ExtendableOutput;
use serde::{Deserialize, Serialize};
use serde_json::json;

use super::common::big::{Big, SBig};
use super::common::gens::{rng, Rng};
use super::curve::*;
use super::keys::*;
use super::paillier::{cipher, masked};
use super::util::*;
use crate::curve::{Point, Scalar};
use crate::paillier::*;
use crate::tools::bitvec::BitVec;
use crate::tools::hashing::{Chain, Hasher};
use crate::tools::Secret;
use crate::uint::{PublicSigned, PublicUint};
use crate::zk::*;

pub type V = serde_json::Value;
type PP<P> = <P as crate::SchemeParams>::Paillier;
type U1<P> = <PP<P> as PaillierParams>::Uint;
type U2<P> = <PP<P> as PaillierParams>::WideUint;

#[derive(Clone, Copy, Debug, PartialEq, Eq, Hash, Serialize, Deserialize)]
pub enum S {
    Sch,
    Elog,
    EncElg,
    AffG,
    AffGStar,
    Dec,
    Fac,
    Mod,
    Prm,
}
use S::*;
pub const ALL: [S; 9] = [Sch, Elog, EncElg, AffG, AffGStar, Dec, Fac, Mod, Prm];

/// A statement (and the context it is proven in).
#[derive(Clone, Debug, PartialEq, Serialize, Deserialize)]
pub struct Stmt {
    pub pks: Vec<Big>,
    pub cts: Vec<Big>,
    pub pts: Vec<Aff>,
    /// modulus, t (base of the randomizer), s (base of the value)
    pub rp: Option<[Big; 3]>,
    pub np: usize,
    pub aux: Vec<u8>,
}

/// Everything a case needs to make a statement and its witness.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wit {
    pub s: S,
    pub x: SBig,
    pub y: SBig,
    pub a: Big,
    pub b: Big,
    pub c: Big,
    pub np: usize,
    pub k: [usize; 3],
    pub seed: u64,
    pub aux: Vec<u8>,
}

#[derive(Clone, Debug)]
pub struct Sec {
    pub w: Wit,
    pub rho: Big,
    pub rho2: Big,
    pub key: [Key; 2],
    pub rp: Arc<Rp>,
}

/// The key each ciphertext of the statement belongs to.
pub fn ct_pk(s: S) -> &'static [usize] {
    match s {
        EncElg => &[0],
        AffG | AffGStar => &[0, 0, 1],
        Dec => &[0, 0],
        _ => &[],
    }
}

/// The declared bits of `x` and `y` of the statement.
pub fn xy_bits<P: Inst>(s: S, np: usize) -> (u32, u32) {
    match s {
        Dec => (P::L_BOUND, P::LP_BOUND + P::EPS_BOUND + 1 + ceil_log2(np)),
        _ => (P::L_BOUND, P::LP_BOUND),
    }
}
fn ceil_log2(np: usize) -> u32 {
    (np - 1).ilog2() + 1
}

pub fn enc(n: &Big, m: &SBig, r: &Big) -> Big {
    let n2 = n.mul(n);
    let a = Big::one().add(&m.modulo(n).mul(n)).rem(&n2);
    a.mulmod(&r.rem(&n2).powmod(n, &n2), &n2)
}
fn unit(g: &mut Rng, n: &Big) -> Big {
    loop {
        let r = Big::random_below(g, n);
        if r.gcd(n).is_one() {
            return r;
        }
    }
}
fn srand(g: &mut Rng, exp: u32) -> SBig {
    let m = Big::random_bits(g, exp - 1);
    SBig::new(Big::random_bits(g, 1).is_one() && !m.is_zero(), m)
}
/// `±2^exp * scale`
fn srand_scaled(g: &mut Rng, exp: u32, scale: &Big) -> SBig {
    srand(g, exp).mul(&SBig::from(scale.clone()))
}
pub fn smod<P: Inst>(x: &SBig) -> Big {
    x.modulo(&P::rc().n)
}
fn sb(x: &Big) -> SBig {
    SBig::from(x.clone())
}

/// A true statement with its witness.
pub fn build<P: Inst>(w: &Wit) -> (Stmt, Sec) {
    let bits = PP::<P>::PRIME_BITS;
    let rc = P::rc();
    let mut g = rng(w.seed ^ 0x5742);
    let k0 = key(bits, false, w.k[0]);
    let k1 = key(bits, false, w.k[1]);
    let r = rp(bits, w.k[2]);
    let rho = unit(&mut g, &k0.n);
    let rho2 = unit(&mut g, &k1.n);
    let (mut pks, mut cts, mut pts, mut rpp) = (vec![], vec![], vec![], None);
    let rp3 = [r.key.n.clone(), r.t.clone(), r.s.clone()];
    match w.s {
        Sch => pts = vec![rc.gmul(&w.b), rc.gmul(&w.a)],
        Elog => {
            let h = rc.gmul(&Big::random_below(&mut g, &rc.n));
            let x = rc.gmul(&w.c);
            pts = vec![rc.gmul(&w.a), rc.add(&rc.gmul(&w.b), &rc.mul(&w.a, &x)), x, rc.mul(&w.b, &h), h];
        }
        EncElg => {
            pks = vec![k0.n.clone()];
            cts = vec![k0.encrypt(&w.x, &rho)];
            let e = w.a.mul(&w.b).add(&smod::<P>(&w.x)).rem(&rc.n);
            pts = vec![rc.gmul(&w.a), rc.gmul(&w.b), rc.gmul(&e)];
            rpp = Some(rp3);
        }
        AffG | AffGStar => {
            pks = vec![k0.n.clone(), k1.n.clone()];
            let c = k0.encrypt(&sb(&Big::random_below(&mut g, &k0.n)), &unit(&mut g, &k0.n));
            let d = c.powmod_signed(&w.x, &k0.n2).expect("unit").mulmod(&k0.encrypt(&w.y.neg(), &rho), &k0.n2);
            cts = vec![c, d, k1.encrypt(&w.y, &rho2)];
            pts = vec![rc.gmul(&smod::<P>(&w.x))];
            if w.s == AffG {
                rpp = Some(rp3);
            }
        }
        Dec => {
            pks = vec![k0.n.clone()];
            let k = k0.encrypt(&sb(&Big::random_below(&mut g, &k0.n)), &unit(&mut g, &k0.n));
            let d = k0.encrypt(&w.y, &rho).mulmod(&k.powmod_signed(&w.x.neg(), &k0.n2).expect("unit"), &k0.n2);
            cts = vec![k, d];
            let gg = rc.gmul(&w.c);
            pts = vec![rc.gmul(&smod::<P>(&w.x)), rc.mul(&smod::<P>(&w.y), &gg), gg];
            rpp = Some(rp3);
        }
        Fac => {
            pks = vec![k0.n.clone()];
            rpp = Some(rp3);
        }
        Mod => pks = vec![k0.n.clone()],
        Prm => rpp = Some(rp3),
    }
    let st = Stmt { pks, cts, pts, rp: rpp, np: w.np, aux: w.aux.clone() };
    (st, Sec { w: w.clone(), rho, rho2, key: [k0, k1], rp: r })
}

// ------------------------------------------------------------------ the crate's side

pub struct Env<P: Inst> {
    pub pks: Vec<PublicKeyPaillier<PP<P>>>,
    pub cts: Vec<Ciphertext<PP<P>>>,
    pub pts: Vec<Point<P>>,
    pub rp: Option<RPParams<PP<P>>>,
}

pub fn pubkey<P: Inst>(n: &Big) -> Result<PublicKeyPaillier<PP<P>>, String> {
    let w: PublicKeyPaillierWire<PP<P>> =
        serde_json::from_value(json!({"modulus": hex_uint::<U1<P>>(n)})).map_err(|e| format!("{e}"))?;
    Ok(w.into_precomputed())
}

pub fn env<P: Inst>(s: S, st: &Stmt) -> Result<Env<P>, String> {
    let pks = st.pks.iter().map(pubkey::<P>).collect::<Result<Vec<_>, _>>()?;
    let cts = st.cts.iter().zip(ct_pk(s)).map(|(c, i)| cipher(&pks[*i], c)).collect();
    let pts = st.pts.iter().map(pt::<P>).collect();
    let rp = match &st.rp {
        None => None,
        Some([n, t, s]) => {
            let w: RPParamsWire<PP<P>> = serde_json::from_value(
                json!({"modulus": hex_uint::<U1<P>>(n), "base_randomizer": hex_uint::<U1<P>>(t), "base_value": hex_uint::<U1<P>>(s)}),
            )
            .map_err(|e| format!("{e}"))?;
            Some(w.to_precomputed())
        }
    };
    Ok(Env { pks, cts, pts, rp })
}

fn tov(x: &impl Serialize) -> V {
    serde_json::to_value(x).expect("serializes")
}

fn randomizer<P: PaillierParams>(k: &Key, r: &Big) -> Randomizer<P> {
    let sk = secret_key::<P>(k);
    cipher(sk.public_key(), &k.encrypt(&SBig::zero(), r)).derive_randomizer(&sk)
}

fn need(x: &SBig, bound: u32) -> u32 {
    x.mag.bits().max(bound)
}

/// The crate's own prover. It does not look at whether the statement is true.
/// For the Schnorr proof the commitment (part of the statement) is made here.
pub fn crate_prove<P: Inst>(st: &Stmt, sec: &Sec, seed: u64) -> (Stmt, V) {
    let s = sec.w.s;
    let e = env::<P>(s, st).expect("the statement decodes");
    let aux: &[u8] = &st.aux;
    let mut g = rng(seed);
    let w = &sec.w;
    let mut st = st.clone();
    let (xb, yb) = xy_bits::<P>(s, st.np.max(2));
    let x = || ss::<U1<P>>(&w.x, need(&w.x, xb));
    let y = || ss::<U1<P>>(&w.y, need(&w.y, yb));
    use super::common::wipe::scope;
    let (r0, r1) = (|| randomizer::<PP<P>>(&sec.key[0], &sec.rho), || randomizer::<PP<P>>(&sec.key[1], &sec.rho2));
    let proof = match s {
        Sch => {
            let sch = SchSecret::<P>::random(&mut g);
            let com = SchCommitment::new(&sch);
            st.pts[0] = ptv::<P>(&serde_json::from_value(tov(&com)).expect("a point"));
            let a = ssc(&w.a);
            tov(&scope(move || SchProof::new(&sch, &a, &com, &e.pts[1], &aux)))
        }
        Elog => {
            let (y, l) = (ssc(&w.b), ssc(&w.a));
            let public = ElogPublicInputs { cap_l: &e.pts[0], cap_m: &e.pts[1], cap_x: &e.pts[2], cap_y: &e.pts[3], h: &e.pts[4] };
            let g = &mut g;
            tov(&scope(move || ElogProof::<P>::new(g, ElogSecretInputs { y: &y, lambda: &l }, public, &aux)))
        }
        EncElg => {
            let (x, rho, b) = (x(), r0(), ssc(&w.b));
            let (g, e) = (&mut g, &e);
            tov(&scope(move || {
                EncElgProof::<P>::new(g, EncElgSecretInputs { x: &x, rho: &rho, b: &b }, enc_elg_public(e), e.rp.as_ref().expect("rp"), &aux)
            }))
        }
        AffG => {
            let (x, y, rho, rho_y) = (x(), y(), r0(), r1());
            let (g, e) = (&mut g, &e);
            tov(&scope(move || {
                AffGProof::<P>::new(g, AffGSecretInputs { x: &x, y: &y, rho: &rho, rho_y: &rho_y }, aff_g_public(e), e.rp.as_ref().expect("rp"), &aux)
            }))
        }
        AffGStar => {
            let (x, y, rho, mu) = (x(), y(), r0(), r1());
            let (g, e) = (&mut g, &e);
            tov(&scope(move || AffGStarProof::<P>::new(g, AffGStarSecretInputs { x: &x, y: &y, rho: &rho, mu: &mu }, aff_g_star_public(e), &aux)))
        }
        Dec => {
            let (x, y, rho) = (x(), y(), r0());
            let (g, e, np) = (&mut g, &e, st.np);
            tov(&scope(move || DecProof::<P>::new(g, DecSecretInputs { x: &x, y: &y, rho: &rho }, dec_public(e, np), e.rp.as_ref().expect("rp"), &aux)))
        }
        Fac => {
            let sk = secret_key::<PP<P>>(&sec.key[0]);
            let (g, e) = (&mut g, &e);
            tov(&scope(move || FacProof::<P>::new(g, &sk, e.rp.as_ref().expect("rp"), &aux)))
        }
        Mod => {
            let sk = secret_key::<PP<P>>(&sec.key[0]);
            let g = &mut g;
            tov(&scope(move || ModProof::<P>::new(g, &sk, &aux)))
        }
        Prm => {
            let (secret, setup) = crate_rp::<P>(w.k[2]);
            let setup = if [setup.key.n.clone(), setup.t.clone(), setup.s.clone()] == *st.rp.as_ref().expect("rp") {
                rp_wire::<PP<P>>(&setup.key.n, &setup.t, &setup.s).to_precomputed()
            } else {
                e.rp.clone().expect("rp")
            };
            let g = &mut g;
            tov(&scope(move || PrmProof::<P>::new(g, &secret, &setup, &aux)))
        }
    };
    (st, proof)
}

/// The secret inputs of the prover as they lie in memory.
pub fn witness_bytes<P: Inst>(sec: &Sec) -> Vec<Vec<u8>> {
    let w = &sec.w;
    let bits = <U1<P> as crypto_bigint::Bounded>::BITS;
    let le = |v: &Big, n: u32| {
        let mut x = v.low_bits(n).to_be((n / 8) as usize);
        x.reverse();
        x
    };
    let rp = crate_rp::<P>(w.k[2]).1;
    let primes = |k: &Key| vec![le(&k.p, bits), le(&k.q, bits), le(&k.phi, bits)];
    let field = |v: &Big| le(v, 256);
    let signed = |v: &SBig| vec![le(&v.mag, bits), le(&v.twos(bits), bits), field(&v.mag.rem(&P::rc().n))];
    match w.s {
        Sch => vec![field(&w.a)],
        Elog => vec![field(&w.a), field(&w.b)],
        EncElg => [signed(&w.x), vec![field(&w.b), le(&sec.rho, bits)]].concat(),
        AffG | AffGStar | Dec => [signed(&w.x), signed(&w.y), vec![le(&sec.rho, bits), le(&sec.rho2, bits)]].concat(),
        Fac | Mod => primes(&sec.key[0]),
        Prm => primes(&rp.key),
    }
}

fn enc_elg_public<P: Inst>(e: &Env<P>) -> EncElgPublicInputs<'_, P> {
    EncElgPublicInputs { pk0: &e.pks[0], cap_c: &e.cts[0], cap_a: &e.pts[0], cap_b: &e.pts[1], cap_x: &e.pts[2] }
}
fn aff_g_public<P: Inst>(e: &Env<P>) -> AffGPublicInputs<'_, P> {
    AffGPublicInputs { pk0: &e.pks[0], pk1: &e.pks[1], cap_c: &e.cts[0], cap_d: &e.cts[1], cap_y: &e.cts[2], cap_x: &e.pts[0] }
}
fn aff_g_star_public<P: Inst>(e: &Env<P>) -> AffGStarPublicInputs<'_, P> {
    AffGStarPublicInputs { pk0: &e.pks[0], pk1: &e.pks[1], cap_c: &e.cts[0], cap_d: &e.cts[1], cap_y: &e.cts[2], cap_x: &e.pts[0] }
}
fn dec_public<P: Inst>(e: &Env<P>, np: usize) -> DecPublicInputs<'_, P> {
    DecPublicInputs {
        pk0: &e.pks[0],
        cap_k: &e.cts[0],
        cap_x: &e.pts[0],
        cap_d: &e.cts[1],
        cap_s: &e.pts[1],
        cap_g: &e.pts[2],
        num_parties: np,
    }
}

/// The crate can only generate ring-Pedersen secrets, not take given ones: number `i` of a small generated pool,
/// with its reference view.
pub fn crate_rp<P: Inst>(i: usize) -> (RPSecret<PP<P>>, Arc<Rp>) {
    type C = Mutex<HashMap<(u32, usize), Arc<Rp>>>;
    static POOL: LazyLock<C> = LazyLock::new(Default::default);
    // generation of safe primes is slow for the large parameters: one secret per size there
    let i = if P::TINY { i % 4 } else { 0 };
    let bits = PP::<P>::PRIME_BITS;
    let secret = RPSecret::<PP<P>>::random(&mut rng(0xBEEF + i as u64));
    let cached = POOL.lock().unwrap().get(&(bits, i)).cloned();
    let r = cached.unwrap_or_else(|| {
        let setup = RPParams::random_with_secret(&mut rng(0xFEED + i as u64), &secret);
        let w = tov(&setup.to_wire());
        let (n, t, s) = (leaf(&w["modulus"]), leaf(&w["base_randomizer"]), leaf(&w["base_value"]));
        let phi = b(secret.totient_nonzero().expose_secret().as_ref());
        // p and q from N and phi
        let sum = n.add(&Big::one()).sub(&phi);
        let d = sum.mul(&sum).sub(&n.shl(2)).isqrt();
        let p = sum.add(&d).shr(1);
        let q = sum.sub(&d).shr(1);
        let r = Arc::new(Rp { key: Key::new(p, q), t, s, lambda: Big::zero() });
        POOL.lock().unwrap().insert((bits, i), r.clone());
        r
    });
    (secret, r)
}

/// The crate's verifier. `Err` if the statement or the proof does not decode.
pub fn crate_verify<P: Inst>(s: S, st: &Stmt, proof: &V) -> Result<bool, String> {
    let e = env::<P>(s, st)?;
    let aux: &[u8] = &st.aux;
    macro_rules! de {
        ($t:ident) => {
            serde_json::from_value::<$t<P>>(proof.clone()).map_err(|e| format!("{e}"))?
        };
    }
    Ok(match s {
        Sch => {
            let com: SchCommitment<P> = serde_json::from_value(tov(&e.pts[0])).expect("a point");
            de!(SchProof).verify(&com, &e.pts[1], &aux)
        }
        Elog => de!(ElogProof).verify(
            ElogPublicInputs { cap_l: &e.pts[0], cap_m: &e.pts[1], cap_x: &e.pts[2], cap_y: &e.pts[3], h: &e.pts[4] },
            &aux,
        ),
        EncElg => de!(EncElgProof).verify(enc_elg_public(&e), e.rp.as_ref().expect("rp"), &aux),
        AffG => de!(AffGProof).verify(aff_g_public(&e), e.rp.as_ref().expect("rp"), &aux),
        AffGStar => de!(AffGStarProof).verify(aff_g_star_public(&e), &aux),
        Dec => de!(DecProof).verify(dec_public(&e, st.np), e.rp.as_ref().expect("rp"), &aux),
        Fac => de!(FacProof).verify(&e.pks[0], e.rp.as_ref().expect("rp"), &aux),
        Mod => de!(ModProof).verify(&e.pks[0], &aux),
        Prm => de!(PrmProof).verify(e.rp.as_ref().expect("rp"), &aux),
    })
}

/// Encodes a decoded proof in the binary format and back.
pub fn rewire<P: Inst>(s: S, proof: &V) -> Result<V, String> {
    macro_rules! go {
        ($t:ident) => {{
            let p = serde_json::from_value::<$t<P>>(proof.clone()).map_err(|e| format!("{e}"))?;
            let bytes = bincode::serialize(&p).map_err(|e| format!("{e}"))?;
            let back: $t<P> = bincode::deserialize(&bytes).map_err(|e| format!("binary: {e}"))?;
            if bincode::serialize(&back).map_err(|e| format!("{e}"))? != bytes {
                return Err("re-encoding differs".into());
            }
            tov(&back)
        }};
    }
    Ok(match s {
        Sch => go!(SchProof),
        Elog => go!(ElogProof),
        EncElg => go!(EncElgProof),
        AffG => go!(AffGProof),
        AffGStar => go!(AffGStarProof),
        Dec => go!(DecProof),
        Fac => go!(FacProof),
        Mod => go!(ModProof),
        Prm => go!(PrmProof),
    })
}

/// Binary encoding of a proof, and decoding of arbitrary bytes as a proof.
pub fn to_bytes<P: Inst>(s: S, proof: &V) -> Vec<u8> {
    macro_rules! go {
        ($t:ident) => {
            bincode::serialize(&serde_json::from_value::<$t<P>>(proof.clone()).expect("a proof")).expect("serializes")
        };
    }
    match s {
        Sch => go!(SchProof),
        Elog => go!(ElogProof),
        EncElg => go!(EncElgProof),
        AffG => go!(AffGProof),
        AffGStar => go!(AffGStarProof),
        Dec => go!(DecProof),
        Fac => go!(FacProof),
        Mod => go!(ModProof),
        Prm => go!(PrmProof),
    }
}
pub fn from_bytes<P: Inst>(s: S, bytes: &[u8]) -> Option<V> {
    macro_rules! go {
        ($t:ident) => {
            bincode::deserialize::<$t<P>>(bytes).ok().map(|p| tov(&p))
        };
    }
    match s {
        Sch => go!(SchProof),
        Elog => go!(ElogProof),
        EncElg => go!(EncElgProof),
        AffG => go!(AffGProof),
        AffGStar => go!(AffGStarProof),
        Dec => go!(DecProof),
        Fac => go!(FacProof),
        Mod => go!(ModProof),
        Prm => go!(PrmProof),
    }
}

// ------------------------------------------------------------------ reading and writing proof fields

pub fn jb(v: &V) -> Big {
    leaf(v)
}
pub fn js(v: &V) -> Option<SBig> {
    let mag = Big::from_hex(v["abs_bytes"].as_str()?.trim_start_matches("0x"))?;
    Some(SBig::new(v["is_negative"].as_bool()? && !mag.is_zero(), mag))
}
pub fn jp<P: Inst>(v: &V) -> Option<Aff> {
    Some(ptv::<P>(&serde_json::from_value::<Point<P>>(v.clone()).ok()?))
}
pub fn jsc<P: Inst>(v: &V) -> Option<Big> {
    Some(scv(&serde_json::from_value::<Scalar<P>>(v.clone()).ok()?))
}
pub fn jbits(v: &V) -> Option<Vec<bool>> {
    Some(serde_json::from_value::<BitVec>(v.clone()).ok()?.bits().to_vec())
}
pub fn vs<T>(x: &SBig) -> V
where
    T: crate::uint::BoxedEncoding + crypto_bigint::Bounded + crypto_bigint::Integer,
{
    tov(&ps::<T>(x, x.mag.bits().max(1)))
}
pub fn vp<P: Inst>(p: &Aff) -> V {
    tov(&pt::<P>(p))
}
fn vsc<P: Inst>(x: &Big) -> V {
    tov(&sc::<P>(x))
}
pub fn vct<P: Inst>(c: &Big) -> V {
    json!({"ciphertext": hex_uint::<U2<P>>(c), "phantom": null})
}
pub fn v1<P: Inst>(c: &Big) -> V {
    hex_uint::<U1<P>>(c)
}

// ------------------------------------------------------------------ the transcript

#[derive(Clone, Serialize)]
struct StarCommitment<A, B, C> {
    cap_a: A,
    cap_r: B,
    cap_b: C,
}
#[derive(Clone, Serialize)]
struct DecCommitment<A, B, C> {
    cap_a: A,
    cap_b: B,
    cap_c: C,
}

/// The challenge of the honest verifier for the commitments in `proof`, in the proof's own representation.
pub fn challenge<P: Inst>(s: S, st: &Stmt, proof: &V) -> Option<V> {
    let e = env::<P>(s, st).ok()?;
    let aux: &[u8] = &st.aux;
    let rpw = e.rp.as_ref().map(|r| r.to_wire());
    let pw = |i: usize| e.pks[i].as_wire();
    let cw = |i: usize| e.cts[i].to_wire();
    let rpc = |f: &str| serde_json::from_value::<RPCommitmentWire<PP<P>>>(proof[f].clone()).ok();
    let ct = |v: &V| serde_json::from_value::<CiphertextWire<PP<P>>>(v.clone()).ok();
    let point = |v: &V| serde_json::from_value::<Point<P>>(v.clone()).ok();
    let new = |tag: &[u8]| Hasher::<P::Digest>::new_with_dst(tag);
    macro_rules! scalar {
        ($h:expr) => {
            Some(tov(&Scalar::<P>::from_xof_reader(&mut $h.chain(&aux).finalize_to_reader())))
        };
    }
    match s {
        Sch => {
            let h = new(b"P_sch").chain(&aux).chain(&e.pts[1]).chain(&e.pts[0]);
            Some(tov(&Scalar::<P>::from_xof_reader(&mut h.finalize_to_reader())))
        }
        Elog => {
            let mut h = new(b"P_elog");
            for f in ["cap_a", "cap_n", "cap_b"] {
                h = h.chain(&point(&proof[f])?);
            }
            for p in &e.pts {
                h = h.chain(p);
            }
            scalar!(h)
        }
        EncElg => scalar!(new(b"P_enc_elg")
            .chain(&rpc("cap_s")?)
            .chain(&ct(&proof["cap_d"])?)
            .chain(&point(&proof["cap_y"])?)
            .chain(&point(&proof["cap_z"])?)
            .chain(&rpc("cap_t")?)
            .chain(pw(0))
            .chain(&cw(0))
            .chain(&e.pts[0])
            .chain(&e.pts[1])
            .chain(&e.pts[2])
            .chain(&rpw?)),
        AffG => scalar!(new(b"P_aff_g")
            .chain(&ct(&proof["cap_a"])?)
            .chain(&point(&proof["cap_b_x"])?)
            .chain(&ct(&proof["cap_b_y"])?)
            .chain(&rpc("cap_e")?)
            .chain(&rpc("cap_f")?)
            .chain(&rpc("cap_s")?)
            .chain(&rpc("cap_t")?)
            .chain(pw(0))
            .chain(pw(1))
            .chain(&cw(0))
            .chain(&cw(1))
            .chain(&cw(2))
            .chain(&e.pts[0])
            .chain(&rpw?)),
        AffGStar => {
            let mut cs = vec![];
            for c in proof["commitments"].as_array()? {
                cs.push(StarCommitment { cap_a: ct(&c["cap_a"])?, cap_r: point(&c["cap_r"])?, cap_b: ct(&c["cap_b"])? });
            }
            let h = new(b"P_aff_g*")
                .chain(&cs)
                .chain(pw(0))
                .chain(pw(1))
                .chain(&cw(0))
                .chain(&cw(1))
                .chain(&cw(2))
                .chain(&e.pts[0])
                .chain(&aux);
            Some(tov(&BitVec::from_xof_reader(&mut h.finalize_to_reader(), P::SECURITY_PARAMETER)))
        }
        Dec => {
            let mut cs = vec![];
            for c in proof["commitments"].as_array()? {
                cs.push(DecCommitment { cap_a: ct(&c["cap_a"])?, cap_b: point(&c["cap_b"])?, cap_c: point(&c["cap_c"])? });
            }
            let h = new(b"P_dec")
                .chain(&cs)
                .chain(pw(0))
                .chain(&cw(0))
                .chain(&e.pts[0])
                .chain(&cw(1))
                .chain(&e.pts[1])
                .chain(&e.pts[2])
                .chain(&rpw?)
                .chain(&aux);
            Some(tov(&BitVec::from_xof_reader(&mut h.finalize_to_reader(), P::SECURITY_PARAMETER)))
        }
        Fac => {
            let h = new(b"P_fac")
                .chain(&rpc("cap_p")?)
                .chain(&rpc("cap_q")?)
                .chain(&rpc("cap_a")?)
                .chain(&rpc("cap_b")?)
                .chain(&rpc("cap_t")?)
                .chain(pw(0))
                .chain(&rpw?)
                .chain(&aux);
            let e: PublicSigned<U1<P>> = PublicSigned::from_xof_reader_in_exponent_range(&mut h.finalize_to_reader(), P::L_BOUND);
            Some(tov(&e))
        }
        Mod => {
            let w: PublicUint<U1<P>> = serde_json::from_value(proof["commitment"].clone()).ok()?;
            let h = new(b"P_mod").chain(pw(0)).chain(&w).chain(&aux);
            let mut r = h.finalize_to_reader();
            let ys: Vec<PublicUint<U1<P>>> =
                (0..P::SECURITY_BITS).map(|_| e.pks[0].invertible_residue_from_xof_reader(&mut r).into()).collect();
            Some(tov(&ys))
        }
        Prm => {
            let c: Vec<PublicUint<U1<P>>> = serde_json::from_value(proof["commitment"].clone()).ok()?;
            let h = new(b"P_prm").chain(&c).chain(&rpw?).chain(&aux);
            Some(tov(&BitVec::from_xof_reader(&mut h.finalize_to_reader(), P::SECURITY_BITS)))
        }
    }
}

/// The name of the field that holds the challenge.
pub fn chal_field(s: S) -> &'static str {
    match s {
        Sch | Mod | Prm => "challenge",
        _ => "e",
    }
}

pub fn sample_wit(s: S, seed: u64) -> Wit {
    Wit {
        s,
        x: SBig::from(5),
        y: SBig::from(-7),
        a: Big::from_u64(11),
        b: Big::from_u64(13),
        c: Big::from_u64(17),
        np: 3,
        k: [0, 1, 2],
        seed,
        aux: b"sync".to_vec(),
    }
}

/// Whether the transcript written down above is the one the crate uses (so that the reference prover can be used).
pub fn in_sync<P: Inst>(s: S) -> bool {
    static C: LazyLock<Mutex<HashMap<(S, bool), bool>>> = LazyLock::new(Default::default);
    if let Some(r) = C.lock().unwrap().get(&(s, P::TINY)) {
        return *r;
    }
    let (st, sec) = honest::<P>(&sample_wit(s, 1));
    let (st, proof) = crate_prove::<P>(&st, &sec, 2);
    let r = challenge::<P>(s, &st, &proof).as_ref() == Some(&proof[chal_field(s)]);
    C.lock().unwrap().insert((s, P::TINY), r);
    r
}

/// [`build`], with the ring-Pedersen statement replaced by one the crate has the secret for.
pub fn honest<P: Inst>(w: &Wit) -> (Stmt, Sec) {
    let (mut st, mut sec) = build::<P>(w);
    if w.s == Prm {
        let (_, r) = crate_rp::<P>(w.k[2]);
        st.rp = Some([r.key.n.clone(), r.t.clone(), r.s.clone()]);
        sec.rp = r;
    }
    (st, sec)
}

// ------------------------------------------------------------------ the reference verifier

fn inv(x: &Big, n: &Big) -> bool {
    x.gcd(n).is_one()
}

macro_rules! req {
    ($c:expr, $($m:tt)*) => { if !($c) { return Err(format!($($m)*)); } };
}

struct Eqs<'a, P: Inst> {
    st: &'a Stmt,
    rp: Option<(Big, Big, Big)>,
    ph: core::marker::PhantomData<P>,
}

impl<'a, P: Inst> Eqs<'a, P> {
    fn new(st: &'a Stmt) -> Self {
        Eqs { st, rp: st.rp.as_ref().map(|[n, t, s]| (n.clone(), t.rem(n), s.rem(n))), ph: Default::default() }
    }
    fn n2(&self, i: usize) -> Big {
        self.st.pks[i].mul(&self.st.pks[i])
    }
    fn commit(&self, v: &SBig, r: &SBig) -> Result<Big, String> {
        let (n, t, s) = self.rp.as_ref().expect("rp");
        let a = s.powmod_signed(v, n).ok_or("s is not invertible")?;
        let b = t.powmod_signed(r, n).ok_or("t is not invertible")?;
        Ok(a.mulmod(&b, n))
    }
    fn cpow(&self, i: usize, c: &Big, e: &SBig) -> Result<Big, String> {
        c.rem(&self.n2(i)).powmod_signed(e, &self.n2(i)).ok_or_else(|| "a ciphertext is not invertible".into())
    }
}

/// Every equation and range condition of the scheme, on exact integers. `Err` names the first one that fails.
pub fn ref_verify<P: Inst>(s: S, st: &Stmt, proof: &V) -> Result<(), String> {
    let q = Eqs::<P>::new(st);
    let rc = P::rc();
    let (l, lp, eps) = (P::L_BOUND, P::LP_BOUND, P::EPS_BOUND);
    let p = |f: &str| jp::<P>(&proof[f]).ok_or(format!("{f}: not a point"));
    let c = |f: &str| jsc::<P>(&proof[f]).ok_or(format!("{f}: not a scalar"));
    let z = |f: &str| js(&proof[f]).ok_or(format!("{f}: not a signed integer"));
    if st.pks.iter().chain(st.rp.iter().map(|r| &r[0])).any(|n| n.is_one()) {
        // Everything holds modulo 1. The protocols check the sizes of the moduli, the proofs do not.
        return Ok(());
    }
    for n in &st.pks {
        req!(n.is_odd(), "bad modulus");
    }
    for (ct, i) in st.cts.iter().zip(ct_pk(s)) {
        req!(inv(ct, &st.pks[*i]), "a ciphertext of the statement is not invertible");
    }
    if let Some((n, t, sv)) = &q.rp {
        req!(n.is_odd(), "bad ring-Pedersen modulus");
        req!(inv(t, n) && inv(sv, n), "a ring-Pedersen base is not invertible");
    }
    let gp = |x: &Big| rc.gmul(x);
    let add = |a: &Aff, b: &Aff| rc.add(a, b);
    let mul = |a: &Aff, k: &Big| rc.mul(k, a);
    match s {
        Sch => {
            let e = c("challenge")?;
            req!(add(&st.pts[0], &mul(&st.pts[1], &e)) == gp(&c("proof")?), "A + X e == g z");
        }
        Elog => {
            let (e, zz, u) = (c("e")?, c("z")?, c("u")?);
            req!(gp(&zz) == add(&p("cap_a")?, &mul(&st.pts[0], &e)), "g z == A + L e");
            req!(add(&gp(&u), &mul(&st.pts[2], &zz)) == add(&p("cap_n")?, &mul(&st.pts[1], &e)), "g u + X z == N + M e");
            req!(mul(&st.pts[4], &u) == add(&p("cap_b")?, &mul(&st.pts[3], &e)), "h u == B + Y e");
        }
        EncElg => {
            let e = c("e")?;
            let (z1, z2, z3, w) = (z("z1")?, jb(&proof["z2"]), z("z3")?, c("w")?);
            let n0 = &st.pks[0];
            let n02 = q.n2(0);
            req!(inv(&z2, n0), "z2 is not invertible");
            req!(z1.in_exponent_range(l + eps), "z1 out of range");
            req!(
                enc(n0, &z1, &z2) == jb(&proof["cap_d"]["ciphertext"]).mulmod(&st.cts[0].rem(&n02).powmod(&e, &n02), &n02),
                "enc(z1, z2) == D C^e"
            );
            req!(
                add(&mul(&st.pts[0], &w), &gp(&smod::<P>(&z1))) == add(&p("cap_y")?, &mul(&st.pts[2], &e)),
                "A w + g z1 == Y + X e"
            );
            req!(gp(&w) == add(&p("cap_z")?, &mul(&st.pts[1], &e)), "g w == Z + B e");
            let n = &q.rp.as_ref().expect("rp").0;
            req!(
                q.commit(&z1, &z3)? == jb(&proof["cap_t"]).mulmod(&jb(&proof["cap_s"]).rem(n).powmod(&e, n), n),
                "s^z1 t^z3 == T S^e"
            );
        }
        AffG => {
            let e = c("e")?;
            let (z1, z2, z3, z4) = (z("z1")?, z("z2")?, z("z3")?, z("z4")?);
            let (w, wy) = (jb(&proof["w"]), jb(&proof["w_y"]));
            let (n0, n1) = (&st.pks[0], &st.pks[1]);
            let (n02, n12) = (q.n2(0), q.n2(1));
            req!(inv(&w, n0) && inv(&wy, n1), "w or w_y is not invertible");
            req!(z1.in_exponent_range(l + eps), "z1 out of range");
            req!(z2.in_exponent_range(lp + eps), "z2 out of range");
            req!(
                q.cpow(0, &st.cts[0], &z1)?.mulmod(&enc(n0, &z2, &w), &n02)
                    == jb(&proof["cap_a"]["ciphertext"]).mulmod(&st.cts[1].rem(&n02).powmod(&e, &n02), &n02),
                "C^z1 enc0(z2, w) == A D^e"
            );
            req!(gp(&smod::<P>(&z1)) == add(&p("cap_b_x")?, &mul(&st.pts[0], &e)), "g z1 == Bx + X e");
            req!(
                enc(n1, &z2, &wy) == jb(&proof["cap_b_y"]["ciphertext"]).mulmod(&q.cpow(1, &st.cts[2], &sb(&e).neg())?, &n12),
                "enc1(z2, wy) == By Y^-e"
            );
            let n = &q.rp.as_ref().expect("rp").0;
            req!(
                q.commit(&z1, &z3)? == jb(&proof["cap_e"]).mulmod(&jb(&proof["cap_s"]).rem(n).powmod(&e, n), n),
                "s^z1 t^z3 == E S^e"
            );
            req!(
                q.commit(&z2, &z4)? == jb(&proof["cap_f"]).mulmod(&jb(&proof["cap_t"]).rem(n).powmod(&e, n), n),
                "s^z2 t^z4 == F T^e"
            );
        }
        AffGStar | Dec => {
            let e = jbits(&proof["e"]).ok_or("e")?;
            let cs = proof["commitments"].as_array().ok_or("commitments")?;
            let es = proof["elements"].as_array().ok_or("elements")?;
            let sp = P::SECURITY_PARAMETER;
            req!(e.len() == sp && cs.len() == sp && es.len() == sp, "number of repetitions {} {} {}", e.len(), cs.len(), es.len());
            for ((bit, cm), el) in e.iter().zip(cs).zip(es) {
                ref_rep::<P>(s, st, &q, *bit, cm, el)?;
            }
        }
        Fac => {
            let e = z("e")?;
            let (z1, z2, w1, w2, v) = (z("z1")?, z("z2")?, z("w1")?, z("w2")?, z("v")?);
            let r = l + eps + PP::<P>::PRIME_BITS - 2;
            req!(z1.in_exponent_range(r), "z1 out of range");
            req!(z2.in_exponent_range(r), "z2 out of range");
            let n = &q.rp.as_ref().expect("rp").0;
            let f = |x: &str| jb(&proof[x]).rem(n);
            let pw = |x: &Big, e: &SBig| x.powmod_signed(e, n).ok_or("a commitment is not invertible".to_string());
            for x in ["cap_p", "cap_q", "cap_a", "cap_b", "cap_t"] {
                req!(inv(&f(x), n), "{x} is not invertible");
            }
            req!(q.commit(&z1, &w1)? == f("cap_a").mulmod(&pw(&f("cap_p"), &e)?, n), "s^z1 t^w1 == A P^e");
            req!(q.commit(&z2, &w2)? == f("cap_b").mulmod(&pw(&f("cap_q"), &e)?, n), "s^z2 t^w2 == B Q^e");
            let rr = q.commit(&sb(&st.pks[0]), &SBig::zero())?;
            req!(
                pw(&f("cap_q"), &z1)?.mulmod(&q.commit(&SBig::zero(), &v)?, n) == f("cap_t").mulmod(&pw(&rr, &e)?, n),
                "Q^z1 t^v == T R^e"
            );
        }
        Mod => {
            let n = &st.pks[0];
            let w = jb(&proof["commitment"]);
            let ys = proof["challenge"].as_array().ok_or("challenge")?;
            let els = proof["proof"].as_array().ok_or("proof")?;
            req!(ys.len() == P::SECURITY_BITS && els.len() == ys.len(), "number of repetitions {} {}", ys.len(), els.len());
            req!(!n.is_prime(), "the modulus is prime");
            req!(inv(&w, n), "w is not invertible");
            for (y, el) in ys.iter().zip(els) {
                let y = jb(y);
                req!(inv(&y, n), "y is not invertible");
                let (x, zz) = (jb(&el["x"]).rem(n), jb(&el["z"]).rem(n));
                req!(zz.powmod(n, n) == y.rem(n), "z^N == y");
                let mut r = y.rem(n);
                if el["a"].as_bool().ok_or("a")? {
                    r = n.sub(&r);
                }
                if el["b"].as_bool().ok_or("b")? {
                    r = r.mulmod(&w.rem(n), n);
                }
                req!(x.powmod(&Big::from_u64(4), n) == r, "x^4 == (-1)^a w^b y");
            }
        }
        Prm => {
            let (n, t, sv) = q.rp.as_ref().expect("rp");
            let e = jbits(&proof["challenge"]).ok_or("challenge")?;
            let cs = proof["commitment"].as_array().ok_or("commitment")?;
            let zs = proof["proof"].as_array().ok_or("proof")?;
            let sp = P::SECURITY_BITS;
            req!(e.len() == sp && cs.len() == sp && zs.len() == sp, "number of repetitions {} {} {}", e.len(), cs.len(), zs.len());
            for ((bit, a), zz) in e.iter().zip(cs).zip(zs) {
                let a = jb(a).rem(n);
                let rhs = if *bit { a.mulmod(sv, n) } else { a };
                req!(t.powmod(&jb(zz), n) == rhs, "t^z == A s^e");
            }
        }
    }
    if in_sync::<P>(s) {
        req!(challenge::<P>(s, st, proof).as_ref() == Some(&proof[chal_field(s)]), "the challenge is not the hash of the transcript");
    }
    Ok(())
}

fn ref_rep<P: Inst>(s: S, st: &Stmt, q: &Eqs<'_, P>, bit: bool, cm: &V, el: &V) -> Result<(), String> {
    let rc = P::rc();
    let (l, lp, eps) = (P::L_BOUND, P::LP_BOUND, P::EPS_BOUND);
    let n0 = &st.pks[0];
    let n02 = q.n2(0);
    let z = js(&el["z"]).ok_or("z")?;
    let if_bit = |x: Big| if bit { x } else { Big::one() };
    let pt_bit = |a: &V, x: &Aff| -> Result<Aff, String> {
        let a = jp::<P>(a).ok_or("not a point")?;
        Ok(if bit { rc.add(&a, x) } else { a })
    };
    req!(z.in_exponent_range(l + eps), "z out of range");
    let cap_a = jb(&cm["cap_a"]["ciphertext"]);
    if s == AffGStar {
        let n1 = &st.pks[1];
        let n12 = q.n2(1);
        let zp = js(&el["z_prime"]).ok_or("z_prime")?;
        let (w, la) = (jb(&el["w"]), jb(&el["lambda"]));
        req!(inv(&w, n0) && inv(&la, n1), "w or lambda is not invertible");
        req!(zp.in_exponent_range(lp + eps), "z_prime out of range");
        req!(
            q.cpow(0, &st.cts[0], &z)?.mulmod(&enc(n0, &zp, &w), &n02) == cap_a.mulmod(&if_bit(st.cts[1].clone()), &n02),
            "C^z enc0(z', w) == A D^e"
        );
        req!(rc.gmul(&smod::<P>(&z)) == pt_bit(&cm["cap_r"], &st.pts[0])?, "g z == R + X e");
        let yi = q.cpow(1, &st.cts[2], &SBig::from(-1))?;
        req!(enc(n1, &zp, &la) == jb(&cm["cap_b"]["ciphertext"]).mulmod(&if_bit(yi), &n12), "enc1(z', lambda) == B Y^-e");
    } else {
        let w = js(&el["w"]).ok_or("w")?;
        let nu = jb(&el["nu"]);
        req!(inv(&nu, n0), "nu is not invertible");
        req!(w.in_exponent_range(lp + eps + 1 + ceil_log2(st.np) + eps), "w out of range");
        req!(
            enc(n0, &w, &nu).mulmod(&q.cpow(0, &st.cts[0], &z.neg())?, &n02) == cap_a.mulmod(&if_bit(st.cts[1].clone()), &n02),
            "enc(w, nu) K^-z == A D^e"
        );
        req!(rc.gmul(&smod::<P>(&z)) == pt_bit(&cm["cap_c"], &st.pts[0])?, "g z == C + X e");
        req!(rc.mul(&smod::<P>(&w), &st.pts[2]) == pt_bit(&cm["cap_b"], &st.pts[1])?, "G w == B + S e");
    }
    Ok(())
}

// ------------------------------------------------------------------ commitments from responses

/// The commitments that make every equation hold for the challenge and responses in `proof`.
/// For the Schnorr proof the commitment is in the statement. `None` where that is impossible.
pub fn solve<P: Inst>(s: S, st: &Stmt, proof: &V) -> Option<(Stmt, V)> {
    let q = Eqs::<P>::new(st);
    let rc = P::rc();
    let sub = |a: &Aff, b: &Aff| rc.add(a, &rc.neg(b));
    let mul = |a: &Aff, k: &Big| rc.mul(k, a);
    let gp = |x: &Big| rc.gmul(x);
    let mut o = proof.clone();
    let mut st2 = st.clone();
    let c = |f: &str| jsc::<P>(&proof[f]);
    let z = |f: &str| js(&proof[f]);
    let rpn = q.rp.as_ref().map(|r| r.0.clone());
    let rdiv = |v: Big, f: &str, e: &SBig| -> Option<Big> {
        let n = rpn.as_ref()?;
        Some(v.mulmod(&jb(&proof[f]).rem(n).powmod_signed(&e.neg(), n)?, n))
    };
    match s {
        Sch => st2.pts[0] = sub(&gp(&c("proof")?), &mul(&st.pts[1], &c("challenge")?)),
        Elog => {
            let (e, zz, u) = (c("e")?, c("z")?, c("u")?);
            o["cap_a"] = vp::<P>(&sub(&gp(&zz), &mul(&st.pts[0], &e)));
            o["cap_n"] = vp::<P>(&sub(&rc.add(&gp(&u), &mul(&st.pts[2], &zz)), &mul(&st.pts[1], &e)));
            o["cap_b"] = vp::<P>(&sub(&mul(&st.pts[4], &u), &mul(&st.pts[3], &e)));
        }
        EncElg => {
            let e = c("e")?;
            let (z1, z2, z3, w) = (z("z1")?, jb(&proof["z2"]), z("z3")?, c("w")?);
            let ce = q.cpow(0, &st.cts[0], &sb(&e).neg()).ok()?;
            o["cap_d"] = vct::<P>(&enc(&st.pks[0], &z1, &z2).mulmod(&ce, &q.n2(0)));
            o["cap_y"] = vp::<P>(&sub(&rc.add(&mul(&st.pts[0], &w), &gp(&smod::<P>(&z1))), &mul(&st.pts[2], &e)));
            o["cap_z"] = vp::<P>(&sub(&gp(&w), &mul(&st.pts[1], &e)));
            o["cap_t"] = v1::<P>(&rdiv(q.commit(&z1, &z3).ok()?, "cap_s", &sb(&e))?);
        }
        AffG => {
            let e = c("e")?;
            let se = sb(&e);
            let (z1, z2, z3, z4) = (z("z1")?, z("z2")?, z("z3")?, z("z4")?);
            let lhs = q.cpow(0, &st.cts[0], &z1).ok()?.mulmod(&enc(&st.pks[0], &z2, &jb(&proof["w"])), &q.n2(0));
            o["cap_a"] = vct::<P>(&lhs.mulmod(&q.cpow(0, &st.cts[1], &se.neg()).ok()?, &q.n2(0)));
            o["cap_b_x"] = vp::<P>(&sub(&gp(&smod::<P>(&z1)), &mul(&st.pts[0], &e)));
            let lhs = enc(&st.pks[1], &z2, &jb(&proof["w_y"]));
            o["cap_b_y"] = vct::<P>(&lhs.mulmod(&q.cpow(1, &st.cts[2], &se).ok()?, &q.n2(1)));
            o["cap_e"] = v1::<P>(&rdiv(q.commit(&z1, &z3).ok()?, "cap_s", &se)?);
            o["cap_f"] = v1::<P>(&rdiv(q.commit(&z2, &z4).ok()?, "cap_t", &se)?);
        }
        AffGStar | Dec => {
            let e = jbits(&proof["e"])?;
            for (j, bit) in e.iter().enumerate() {
                let el = &proof["elements"][j];
                if el.is_null() {
                    continue;
                }
                let be = if *bit { SBig::from(1) } else { SBig::zero() };
                let pe = |a: &Aff, x: &Aff| if *bit { sub(a, x) } else { a.clone() };
                let zz = js(&el["z"])?;
                let de = q.cpow(0, &st.cts[1], &be.neg()).ok()?;
                if s == AffGStar {
                    let zp = js(&el["z_prime"])?;
                    let lhs = q.cpow(0, &st.cts[0], &zz).ok()?.mulmod(&enc(&st.pks[0], &zp, &jb(&el["w"])), &q.n2(0));
                    let b = enc(&st.pks[1], &zp, &jb(&el["lambda"])).mulmod(&q.cpow(1, &st.cts[2], &be).ok()?, &q.n2(1));
                    o["commitments"][j] = json!({
                        "cap_a": vct::<P>(&lhs.mulmod(&de, &q.n2(0))),
                        "cap_r": vp::<P>(&pe(&gp(&smod::<P>(&zz)), &st.pts[0])),
                        "cap_b": vct::<P>(&b),
                    });
                } else {
                    let w = js(&el["w"])?;
                    let lhs = enc(&st.pks[0], &w, &jb(&el["nu"])).mulmod(&q.cpow(0, &st.cts[0], &zz.neg()).ok()?, &q.n2(0));
                    o["commitments"][j] = json!({
                        "cap_a": vct::<P>(&lhs.mulmod(&de, &q.n2(0))),
                        "cap_b": vp::<P>(&pe(&rc.mul(&smod::<P>(&w), &st.pts[2]), &st.pts[1])),
                        "cap_c": vp::<P>(&pe(&gp(&smod::<P>(&zz)), &st.pts[0])),
                    });
                }
            }
        }
        Fac => {
            let e = z("e")?;
            let (z1, z2, w1, w2, v) = (z("z1")?, z("z2")?, z("w1")?, z("w2")?, z("v")?);
            let n = rpn.as_ref()?;
            o["cap_a"] = v1::<P>(&rdiv(q.commit(&z1, &w1).ok()?, "cap_p", &e)?);
            o["cap_b"] = v1::<P>(&rdiv(q.commit(&z2, &w2).ok()?, "cap_q", &e)?);
            let r = q.commit(&sb(&st.pks[0]), &SBig::zero()).ok()?;
            let lhs = jb(&proof["cap_q"]).rem(n).powmod_signed(&z1, n)?.mulmod(&q.commit(&SBig::zero(), &v).ok()?, n);
            o["cap_t"] = v1::<P>(&lhs.mulmod(&r.powmod_signed(&e.neg(), n)?, n));
        }
        Mod => return None,
        Prm => {
            let (n, t, sv) = q.rp.as_ref()?;
            let e = jbits(&proof["challenge"])?;
            for (j, bit) in e.iter().enumerate() {
                let zz = &proof["proof"][j];
                if zz.is_null() {
                    continue;
                }
                let a = t.powmod(&jb(zz), n);
                o["commitment"][j] = v1::<P>(&if *bit { a.mulmod(&sv.invmod(n)?, n) } else { a });
            }
        }
    }
    Some((st2, o))
}

/// The statement with the given base replaced so that the equation it occurs in holds for the challenge and responses
/// in `proof`. `None` where that is impossible.
pub fn solve_base<P: Inst>(s: S, st: &Stmt, proof: &V, base: usize, key0: &Key) -> Option<Stmt> {
    let rc = P::rc();
    let sub = |a: &Aff, b: &Aff| rc.add(a, &rc.neg(b));
    let mul = |a: &Aff, k: &Big| rc.mul(k, a);
    let inv = |x: &Big| x.invmod(&rc.n);
    let mut o = st.clone();
    let c = |f: &str| jsc::<P>(&proof[f]);
    let e = c("e")?;
    match (s, base) {
        (Elog, 2) => {
            let rhs = rc.add(&jp::<P>(&proof["cap_n"])?, &mul(&st.pts[1], &e));
            o.pts[2] = mul(&sub(&rhs, &rc.gmul(&c("u")?)), &inv(&c("z")?)?);
        }
        (Elog, 4) => {
            let rhs = rc.add(&jp::<P>(&proof["cap_b"])?, &mul(&st.pts[3], &e));
            o.pts[4] = mul(&rhs, &inv(&c("u")?)?);
        }
        (EncElg, 0) => {
            let rhs = rc.add(&jp::<P>(&proof["cap_y"])?, &mul(&st.pts[2], &e));
            o.pts[0] = mul(&sub(&rhs, &rc.gmul(&smod::<P>(&js(&proof["z1"])?))), &inv(&c("w")?)?);
        }
        (AffG, 0) => {
            // the z1-th root in the group of units modulo N^2, whose order the key's owner knows
            let n = &st.pks[0];
            let n2 = n.mul(n);
            let order = n.mul(&key0.phi);
            let z1 = js(&proof["z1"])?;
            let zm = z1.mag.rem(&order);
            let zi = if z1.neg { order.sub(&zm) } else { zm }.invmod(&order)?;
            let rhs = jb(&proof["cap_a"]["ciphertext"]).mulmod(&st.cts[1].rem(&n2).powmod(&e, &n2), &n2);
            let masks = enc(n, &js(&proof["z2"])?, &jb(&proof["w"]));
            o.cts[0] = rhs.mulmod(&masks.invmod(&n2)?, &n2).powmod(&zi, &n2);
        }
        _ => return None,
    }
    Some(o)
}

// ------------------------------------------------------------------ the reference prover

/// Deviations of the reference prover.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Opt {
    /// The mask of `x` (in repetition `j` for the proofs that have repetitions).
    pub alpha: Option<SBig>,
    /// The mask of `y`.
    pub beta: Option<SBig>,
    pub j: usize,
    /// Use zero randomizers and zero ciphertext commitments: bit 0 for the first key, bit 1 for the second.
    pub zero: u8,
    /// Number of repetitions made, if not the prescribed one.
    pub reps: Option<usize>,
    /// The challenge is chosen by the prover (a simulated transcript).
    pub simulate: bool,
    /// Factors to claim (the no-small-factor proof).
    pub pq: Option<(SBig, SBig)>,
    /// Alter a commitment before the challenge is made (place, operation, random).
    pub bend: Option<(usize, usize, u64)>,
    /// Alter two commitments by compensating amounts before the challenge is made.
    #[serde(default)]
    pub twin: Option<(usize, usize, u64)>,
    pub seed: u64,
}

fn bits_val(n: usize, f: impl FnMut(usize) -> bool) -> V {
    let v: Vec<bool> = (0..n).map(f).collect();
    tov(&super::misc::bitvec(&v))
}

/// A proof of the statement with the witness, computed from the scheme's description (with deviations).
/// Needs [`in_sync`] unless `simulate` is set.
pub fn ref_prove<P: Inst>(st: &Stmt, sec: &Sec, o: &Opt) -> Option<V> {
    let w = &sec.w;
    let s = w.s;
    let mut g = rng(o.seed ^ 0x7265_6670);
    let rc = P::rc();
    let q = Eqs::<P>::new(st);
    let (l, lp, eps) = (P::L_BOUND, P::LP_BOUND, P::EPS_BOUND);
    let n = &rc.n;
    let rpn = st.rp.as_ref().map(|r| r[0].clone()).unwrap_or(Big::one());
    let scalar = |g: &mut Rng| Big::random_below(g, n);
    let alpha = |g: &mut Rng| o.alpha.clone().unwrap_or_else(|| srand(g, l + eps));
    if o.simulate {
        let proof = match s {
            Sch => json!({"challenge": vsc::<P>(&scalar(&mut g)), "proof": vsc::<P>(&scalar(&mut g))}),
            Elog => json!({"e": vsc::<P>(&scalar(&mut g)), "z": vsc::<P>(&scalar(&mut g)), "u": vsc::<P>(&scalar(&mut g))}),
            EncElg => json!({
                "e": vsc::<P>(&scalar(&mut g)), "cap_s": v1::<P>(&unit(&mut g, &rpn)),
                "z1": vs::<U1<P>>(&alpha(&mut g)), "w": vsc::<P>(&scalar(&mut g)), "z2": v1::<P>(&unit(&mut g, &st.pks[0])),
                "z3": vs::<U2<P>>(&srand_scaled(&mut g, l + eps, &rpn)),
            }),
            AffG => json!({
                "e": vsc::<P>(&scalar(&mut g)), "cap_s": v1::<P>(&unit(&mut g, &rpn)), "cap_t": v1::<P>(&unit(&mut g, &rpn)),
                "z1": vs::<U1<P>>(&alpha(&mut g)), "z2": vs::<U1<P>>(&srand(&mut g, lp + eps)),
                "z3": vs::<U2<P>>(&srand_scaled(&mut g, l + eps, &rpn)), "z4": vs::<U2<P>>(&srand_scaled(&mut g, l + eps, &rpn)),
                "w": v1::<P>(&unit(&mut g, &st.pks[0])), "w_y": v1::<P>(&unit(&mut g, &st.pks[1])),
            }),
            AffGStar | Dec => {
                let sp = P::SECURITY_PARAMETER;
                let pattern = Big::random_bits(&mut g, sp as u32);
                let els: Vec<V> = (0..sp)
                    .map(|_| {
                        if s == AffGStar {
                            json!({"z": vs::<U1<P>>(&srand(&mut g, l + eps)), "z_prime": vs::<U1<P>>(&srand(&mut g, lp + eps)),
                                "w": v1::<P>(&unit(&mut g, &st.pks[0])), "lambda": v1::<P>(&unit(&mut g, &st.pks[1]))})
                        } else {
                            json!({"z": vs::<U1<P>>(&srand(&mut g, l + eps)), "w": vs::<U2<P>>(&srand(&mut g, lp + eps)),
                                "nu": v1::<P>(&unit(&mut g, &st.pks[0]))})
                        }
                    })
                    .collect();
                json!({"e": bits_val(sp, |i| pattern.bit(i as u32)), "commitments": vec![V::Null; sp], "elements": els})
            }
            Fac => json!({
                "e": vs::<U1<P>>(&srand(&mut g, l)), "cap_p": v1::<P>(&unit(&mut g, &rpn)), "cap_q": v1::<P>(&unit(&mut g, &rpn)),
                "z1": vs::<U2<P>>(&srand(&mut g, l + eps)), "z2": vs::<U2<P>>(&srand(&mut g, l + eps)),
                "w1": vs::<U2<P>>(&srand_scaled(&mut g, l, &rpn)), "w2": vs::<U2<P>>(&srand_scaled(&mut g, l, &rpn)),
                "v": vs::<P::ExtraWideUint>(&srand_scaled(&mut g, l, &rpn)),
            }),
            Mod => return None,
            Prm => {
                let sp = P::SECURITY_BITS;
                let pattern = Big::random_bits(&mut g, sp as u32);
                let zs: Vec<V> = (0..sp).map(|_| v1::<P>(&Big::random_below(&mut g, &rpn))).collect();
                json!({"challenge": bits_val(sp, |i| pattern.bit(i as u32)), "commitment": vec![V::Null; sp], "proof": zs})
            }
        };
        return Some(proof);
    }
    let zero0 = o.zero & 1 != 0;
    let zero1 = o.zero & 2 != 0;
    let zc = |z: bool, c: Big| if z { Big::zero() } else { c };
    let rand_unit = |g: &mut Rng, n: &Big, z: bool| if z { Big::zero() } else { unit(g, n) };
    let bend = |p: &mut V| {
        if let Some((at, op, r)) = o.bend {
            super::zkc::bend::<P>(st, p, at, op, r);
        }
        if let Some((at, op, r)) = o.twin {
            super::zkc::twin::<P>(st, p, at, op, r);
        }
    };
    match s {
        Sch => {
            let e = jsc::<P>(&challenge::<P>(s, st, &json!({}))?)?;
            Some(json!({"challenge": vsc::<P>(&e), "proof": vsc::<P>(&w.b.add(&w.a.mul(&e)).rem(n))}))
        }
        Elog => {
            let (al, m) = (scalar(&mut g), scalar(&mut g));
            let mut p = json!({
                "cap_a": vp::<P>(&rc.gmul(&al)),
                "cap_n": vp::<P>(&rc.add(&rc.gmul(&m), &rc.mul(&al, &st.pts[2]))),
                "cap_b": vp::<P>(&rc.mul(&m, &st.pts[4])),
            });
            bend(&mut p);
            p["e"] = challenge::<P>(s, st, &p)?;
            let e = jsc::<P>(&p["e"])?;
            p["z"] = vsc::<P>(&al.add(&w.a.mul(&e)).rem(n));
            p["u"] = vsc::<P>(&m.add(&w.b.mul(&e)).rem(n));
            Some(p)
        }
        EncElg => {
            let al = alpha(&mut g);
            let mu = srand_scaled(&mut g, l, &rpn);
            let ga = srand_scaled(&mut g, l + eps, &rpn);
            let r = rand_unit(&mut g, &st.pks[0], zero0);
            let be = scalar(&mut g);
            let mut p = json!({
                "cap_s": v1::<P>(&q.commit(&w.x, &mu).ok()?),
                "cap_d": vct::<P>(&zc(zero0, enc(&st.pks[0], &al, &r))),
                "cap_y": vp::<P>(&rc.add(&rc.mul(&be, &st.pts[0]), &rc.gmul(&smod::<P>(&al)))),
                "cap_z": vp::<P>(&rc.gmul(&be)),
                "cap_t": v1::<P>(&q.commit(&al, &ga).ok()?),
            });
            bend(&mut p);
            p["e"] = challenge::<P>(s, st, &p)?;
            let e = jsc::<P>(&p["e"])?;
            let es = sb(&e);
            let z1 = al.add(&w.x.mul(&es));
            if z1.mag.bits() >= <U1<P> as crypto_bigint::Bounded>::BITS {
                return None;
            }
            p["z1"] = vs::<U1<P>>(&z1);
            p["w"] = vsc::<P>(&be.add(&w.b.mul(&e)).rem(n));
            p["z2"] = v1::<P>(&zc(zero0, r.mulmod(&sec.rho.powmod(&e, &st.pks[0]), &st.pks[0])));
            p["z3"] = vs::<U2<P>>(&ga.add(&mu.mul(&es)));
            Some(p)
        }
        AffG => {
            let al = alpha(&mut g);
            let be = o.beta.clone().unwrap_or_else(|| srand(&mut g, lp + eps));
            let (r, ry) = (rand_unit(&mut g, &st.pks[0], zero0), rand_unit(&mut g, &st.pks[1], zero1));
            let (ga, de) = (srand_scaled(&mut g, l + eps, &rpn), srand_scaled(&mut g, l + eps, &rpn));
            let (m, mu) = (srand_scaled(&mut g, l, &rpn), srand_scaled(&mut g, l, &rpn));
            let a = q.cpow(0, &st.cts[0], &al).ok()?.mulmod(&enc(&st.pks[0], &be, &r), &q.n2(0));
            let mut p = json!({
                "cap_a": vct::<P>(&zc(zero0, a)),
                "cap_b_x": vp::<P>(&rc.gmul(&smod::<P>(&al))),
                "cap_b_y": vct::<P>(&zc(zero1, enc(&st.pks[1], &be, &ry))),
                "cap_e": v1::<P>(&q.commit(&al, &ga).ok()?),
                "cap_s": v1::<P>(&q.commit(&w.x, &m).ok()?),
                "cap_f": v1::<P>(&q.commit(&be, &de).ok()?),
                "cap_t": v1::<P>(&q.commit(&w.y.neg(), &mu).ok()?),
            });
            bend(&mut p);
            p["e"] = challenge::<P>(s, st, &p)?;
            let e = jsc::<P>(&p["e"])?;
            let es = sb(&e);
            let (z1, z2) = (al.add(&w.x.mul(&es)), be.sub(&w.y.mul(&es)));
            if z1.mag.bits().max(z2.mag.bits()) >= <U1<P> as crypto_bigint::Bounded>::BITS {
                return None;
            }
            p["z1"] = vs::<U1<P>>(&z1);
            p["z2"] = vs::<U1<P>>(&z2);
            p["z3"] = vs::<U2<P>>(&ga.add(&m.mul(&es)));
            p["z4"] = vs::<U2<P>>(&de.add(&mu.mul(&es)));
            p["w"] = v1::<P>(&zc(zero0, r.mulmod(&sec.rho.powmod(&e, &st.pks[0]), &st.pks[0])));
            p["w_y"] = v1::<P>(&zc(zero1, ry.mulmod(&sec.rho2.powmod_signed(&es.neg(), &st.pks[1])?, &st.pks[1])));
            Some(p)
        }
        AffGStar | Dec => {
            let sp = o.reps.unwrap_or(P::SECURITY_PARAMETER);
            let mut eph = vec![];
            let mut cms = vec![];
            let yb = if s == Dec { xy_bits::<P>(s, st.np).1 + eps } else { lp + eps };
            for j in 0..sp {
                let here = j == o.j % sp.max(1);
                let al = if here { alpha(&mut g) } else { srand(&mut g, l + eps) };
                let be = match &o.beta {
                    Some(b) if here => b.clone(),
                    _ => srand(&mut g, yb),
                };
                let r = rand_unit(&mut g, &st.pks[0], zero0);
                if s == AffGStar {
                    let r1 = rand_unit(&mut g, &st.pks[1], zero1);
                    let a = q.cpow(0, &st.cts[0], &al).ok()?.mulmod(&enc(&st.pks[0], &be, &r), &q.n2(0));
                    cms.push(json!({
                        "cap_a": vct::<P>(&zc(zero0, a)),
                        "cap_r": vp::<P>(&rc.gmul(&smod::<P>(&al))),
                        "cap_b": vct::<P>(&zc(zero1, enc(&st.pks[1], &be, &r1))),
                    }));
                    eph.push((al, be, r, r1));
                } else {
                    let a = q.cpow(0, &st.cts[0], &al.neg()).ok()?.mulmod(&enc(&st.pks[0], &be, &r), &q.n2(0));
                    cms.push(json!({
                        "cap_a": vct::<P>(&zc(zero0, a)),
                        "cap_b": vp::<P>(&rc.mul(&smod::<P>(&be), &st.pts[2])),
                        "cap_c": vp::<P>(&rc.gmul(&smod::<P>(&al))),
                    }));
                    eph.push((al, be, r, Big::one()));
                }
            }
            let mut p = json!({"commitments": cms});
            bend(&mut p);
            p["e"] = challenge::<P>(s, st, &p)?;
            let e = jbits(&p["e"])?;
            let mut els = vec![];
            for (j, (al, be, r, r1)) in eph.into_iter().enumerate() {
                let bit = e.get(j).copied().unwrap_or(false);
                let z = if bit { al.add(&w.x) } else { al };
                let nu = if bit { r.mulmod(&sec.rho, &st.pks[0]) } else { r };
                if s == AffGStar {
                    let zp = if bit { be.sub(&w.y) } else { be };
                    if z.mag.bits().max(zp.mag.bits()) >= <U1<P> as crypto_bigint::Bounded>::BITS {
                        return None;
                    }
                    let la = if bit { r1.mulmod(&sec.rho2.invmod(&st.pks[1])?, &st.pks[1]) } else { r1 };
                    els.push(json!({"z": vs::<U1<P>>(&z), "z_prime": vs::<U1<P>>(&zp), "w": v1::<P>(&zc(zero0, nu)), "lambda": v1::<P>(&zc(zero1, la))}));
                } else {
                    let ww = if bit { be.add(&w.y) } else { be };
                    if z.mag.bits() >= <U1<P> as crypto_bigint::Bounded>::BITS || ww.mag.bits() >= <U2<P> as crypto_bigint::Bounded>::BITS {
                        return None;
                    }
                    els.push(json!({"z": vs::<U1<P>>(&z), "w": vs::<U2<P>>(&ww), "nu": v1::<P>(&zc(zero0, nu))}));
                }
            }
            p["elements"] = V::Array(els);
            Some(p)
        }
        Fac => {
            let (fp, fq) = o.pq.clone().unwrap_or((sb(&sec.key[0].p), sb(&sec.key[0].q)));
            let pb = PP::<P>::PRIME_BITS;
            let al = o.alpha.clone().unwrap_or_else(|| srand(&mut g, l + eps + pb - 2));
            let be = o.beta.clone().unwrap_or_else(|| srand(&mut g, l + eps + pb - 2));
            let (mu, nu) = (srand_scaled(&mut g, l, &rpn), srand_scaled(&mut g, l, &rpn));
            let (x, y) = (srand_scaled(&mut g, l + eps, &rpn), srand_scaled(&mut g, l + eps, &rpn));
            let r = srand_scaled(&mut g, l + eps, &rpn.mul(&st.pks[0]));
            let cap_q = q.commit(&fq, &nu).ok()?;
            let mut p = json!({
                "cap_p": v1::<P>(&q.commit(&fp, &mu).ok()?),
                "cap_q": v1::<P>(&cap_q),
                "cap_a": v1::<P>(&q.commit(&al, &x).ok()?),
                "cap_b": v1::<P>(&q.commit(&be, &y).ok()?),
                "cap_t": v1::<P>(&cap_q.powmod_signed(&al, &rpn)?.mulmod(&q.commit(&SBig::zero(), &r).ok()?, &rpn)),
            });
            bend(&mut p);
            p["e"] = challenge::<P>(s, st, &p)?;
            let e = js(&p["e"])?;
            let set = |p: &mut V, f: &str, v: &SBig| -> Option<()> {
                if v.mag.bits() >= <U2<P> as crypto_bigint::Bounded>::BITS {
                    return None;
                }
                p[f] = vs::<U2<P>>(v);
                Some(())
            };
            set(&mut p, "z1", &al.add(&fp.mul(&e)))?;
            set(&mut p, "z2", &be.add(&fq.mul(&e)))?;
            set(&mut p, "w1", &x.add(&mu.mul(&e)))?;
            set(&mut p, "w2", &y.add(&nu.mul(&e)))?;
            let v = r.sub(&nu.mul(&fp).mul(&e));
            if v.mag.bits() >= <P::ExtraWideUint as crypto_bigint::Bounded>::BITS {
                return None;
            }
            p["v"] = vs::<P::ExtraWideUint>(&v);
            Some(p)
        }
        Mod => None,
        Prm => {
            // guesses the challenge bits: right for every repetition only by luck if s is not a power of t
            let sp = o.reps.unwrap_or(P::SECURITY_BITS);
            let [pn, t, sv] = st.rp.as_ref()?;
            let guess = Big::random_bits(&mut g, 64.max(sp as u32));
            let zs: Vec<Big> = (0..sp).map(|_| Big::random_below(&mut g, pn)).collect();
            let si = if zero0 { Big::zero() } else { sv.rem(pn).invmod(pn)? };
            let mut p = json!({"commitment": zs.iter().enumerate().map(|(j, z)| {
                let a = t.rem(pn).powmod(z, pn);
                v1::<P>(&if zero0 { Big::zero() } else if guess.bit(j as u32) { a.mulmod(&si, pn) } else { a })
            }).collect::<Vec<_>>()});
            bend(&mut p);
            p["challenge"] = challenge::<P>(s, st, &p)?;
            p["proof"] = V::Array(zs.iter().map(|z| v1::<P>(z)).collect());
            Some(p)
        }
    }
}
