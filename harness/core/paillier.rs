//! C01-C04: Paillier encryption, homomorphism, keys, ring-Pedersen commitments.
use std::prelude::v1::*;
use std::{format, vec};

use crypto_bigint::{modular::Retrieve, Bounded, Integer, Monty, PowBoundedExp};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};
use serde_json::json;

use super::common::big::{Big, SBig};
use super::common::gens::*;
use super::common::runner::*;
use super::keys::*;
use super::util::*;
use crate::vensure;
use crate::paillier::{
    Ciphertext, CiphertextWire, MaskedRandomizer, PaillierParams, PublicKeyPaillier, RPParams, RPSecret, Randomizer,
    SecretKeyPaillier, SecretKeyPaillierWire,
};
use crate::uint::{BoxedEncoding, Exponentiable, PublicSigned, ToMontgomery};

// ------------------------------------------------------------------ helpers

pub fn masked<P: PaillierParams>(r: &Big) -> MaskedRandomizer<P> {
    serde_json::from_value(hex_uint::<P::Uint>(r)).expect("a masked randomizer decodes")
}

pub fn cipher<P: PaillierParams>(pk: &PublicKeyPaillier<P>, c: &Big) -> Ciphertext<P> {
    let w: CiphertextWire<P> =
        serde_json::from_value(json!({"ciphertext": hex_uint::<P::WideUint>(c), "phantom": null})).expect("a ciphertext decodes");
    w.to_precomputed(pk)
}

/// The value of a randomizer, extracted through masking with exponent zero.
pub fn rval<P: PaillierParams>(r: &Randomizer<P>) -> Big {
    leaf(&r.to_masked(r, &PublicSigned::zero()))
}

fn balanced(x: &SBig, n: &Big) -> SBig {
    x.balanced(n)
}

/// A plaintext: near 0, near N/2, near N, near the type limits, arbitrary.
fn plain(bits: u32) -> BoxedStrategy<(u8, SBig)> {
    (0u8..7, prop_oneof![2 => sbig_bits(bits), 1 => (-3i64..4).prop_map(SBig::from), 1 => sbig_bits(bits / 2)]).boxed()
}

fn realize((anchor, d): &(u8, SBig), n: &Big, bits: u32) -> SBig {
    let base = match anchor {
        0 => SBig::from(n.shr(1)),
        1 => SBig::from(n.shr(1)).neg(),
        2 => SBig::from(n.clone()),
        3 => SBig::from(Big::pow2(bits).sub(&Big::one())),
        4 => SBig::new(true, Big::pow2(bits).sub(&Big::one())),
        _ => SBig::zero(),
    };
    let v = base.add(d);
    let v = if d.mag.bits() > 8 { d.clone() } else { v };
    if v.mag.bits() > bits {
        SBig::new(v.neg, v.mag.low_bits(bits))
    } else {
        v
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct EncCase {
    key: usize,
    m: (u8, SBig),
    wide: (u8, SBig),
    slack: u32,
    rseed: u64,
    r: Big,
}

fn enc_case<P: PaillierParams>() -> BoxedStrategy<EncCase> {
    (
        any::<u16>(),
        plain(P::Uint::BITS - 1),
        plain(P::WideUint::BITS - 1),
        0u32..3,
        any::<u64>(),
        big_bits(P::Uint::BITS),
    )
        .prop_map(|(key, m, wide, slack, rseed, r)| EncCase { key: key as usize, m, wide, slack, rseed, r })
        .boxed()
}

fn unit(r: &Big, n: &Big) -> Big {
    let mut r = r.clone();
    while !r.gcd(n).is_one() {
        r = r.add(&Big::one()).low_bits(n.bits());
    }
    r
}

fn run_enc<P: PaillierParams>(c: &EncCase) -> R {
    let k = key(P::PRIME_BITS, false, c.key);
    let sk: SecretKeyPaillier<P> = secret_key(&k);
    let pk = sk.public_key();
    let mut g = rng(c.rseed);
    let r = Randomizer::random(&mut g, pk);
    let rv = rval(&r);
    vensure!(rv < k.n && rv.gcd(&k.n).is_one(), "randomizer_range", "{rv:?}");
    let m = realize(&c.m, &k.n, P::Uint::BITS - 1);
    let bound = (m.mag.bits() + c.slack).min(P::Uint::BITS - 1);
    let want = balanced(&m, &k.n);
    let wantc = k.encrypt(&m, &rv);

    let ct = Ciphertext::<P>::new_with_randomizer(pk, &ss(&m, bound), &r);
    let cv = leaf(&ct.to_wire());
    vensure!(cv == wantc, "formula", "E({m:?}, {rv:?}) = {cv:?}, expected {wantc:?}");
    vensure!(ct.public_key() == pk, "key_of_ciphertext", "the ciphertext names another key");
    let d = ct.decrypt(&sk);
    vensure!(ssv(&d) == want, "decrypt", "D(E({m:?})) = {:?}, expected {want:?}", ssv(&d));
    vensure!(d.bound() >= want.mag.bits() && d.bound() < P::Uint::BITS, "decrypt_bound", "{}", d.bound());
    let rr = ct.derive_randomizer(&sk);
    vensure!(rval(&rr) == rv, "derive_randomizer", "{:?}, expected {rv:?}", rval(&rr));
    // the recovered randomizer is usable as such
    let again = Ciphertext::<P>::new_with_randomizer(pk, &d, &rr);
    vensure!(again == ct, "reencrypt", "encrypting the decryption with the derived randomizer gives another ciphertext");
    let sq = leaf(&rr.to_masked(&rr, &PublicSigned::one()));
    vensure!(sq == rv.mulmod(&rv, &k.n), "derived_square", "{sq:?}");

    // the wide plaintext
    let w = realize(&c.wide, &k.n, P::WideUint::BITS - 1);
    let wb = (w.mag.bits() + c.slack).min(P::WideUint::BITS - 1);
    let cw = Ciphertext::<P>::new_wide_with_randomizer(pk, &ss(&w, wb), &r);
    vensure!(leaf(&cw.to_wire()) == k.encrypt(&w, &rv), "formula_wide", "E({w:?})");
    vensure!(ssv(&cw.decrypt(&sk)) == balanced(&w, &k.n), "decrypt_wide", "D(E({w:?})) = {:?}", ssv(&cw.decrypt(&sk)));

    // public variants, with an arbitrary randomizer value
    let pr = unit(&c.r, &k.n);
    let mr = masked::<P>(&pr);
    let cp = Ciphertext::<P>::new_public_with_randomizer(pk, &ps(&m, bound), &mr);
    vensure!(leaf(&cp.to_wire()) == k.encrypt(&m, &pr), "formula_public", "E({m:?}, {pr:?})");
    vensure!(ssv(&cp.decrypt(&sk)) == want, "decrypt_public", "{m:?}");
    vensure!(rval(&cp.derive_randomizer(&sk)) == pr.rem(&k.n), "derive_public", "{pr:?}");
    let cpw = Ciphertext::<P>::new_public_wide_with_randomizer(pk, &ps(&w, wb), &mr);
    vensure!(leaf(&cpw.to_wire()) == k.encrypt(&w, &pr), "formula_public_wide", "E({w:?}, {pr:?})");
    vensure!(ssv(&cpw.decrypt(&sk)) == balanced(&w, &k.n), "decrypt_public_wide", "{w:?}");

    // ciphertexts received on the wire
    let back = ct.to_wire().to_precomputed(pk);
    vensure!(back == ct, "wire", "the wire form does not restore the ciphertext");
    Ok(obs(!want.mag.is_zero())
        .tag_if(m.neg, "negative")
        .tag_if(want != m, "reduced")
        .tag_if(w.mag.bits() > P::Uint::BITS, "wide")
        .tag_if(pr >= k.n, "unreduced_randomizer"))
}

// ------------------------------------------------------------------ C02

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HOp {
    Add(u8, u8),
    AddRef(u8, u8),
    Sub(u8, u8),
    MulSecret(u8, (u8, SBig)),
    MulPublic(u8, (u8, SBig)),
    MulSecretOwned(u8, (u8, SBig)),
    MulSecretWide(u8, (u8, SBig)),
    MulPublicWide(u8, (u8, SBig)),
    Wire(u8),
    Fresh((u8, SBig), u64),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    key: usize,
    init: Vec<((u8, SBig), u64)>,
    ops: Vec<HOp>,
}

fn hop<P: PaillierParams>() -> BoxedStrategy<HOp> {
    let b = P::Uint::BITS - 1;
    let w = P::WideUint::BITS - 1;
    let i = || any::<u8>();
    prop_oneof![
        3 => (i(), i()).prop_map(|(a, b)| HOp::Add(a, b)),
        2 => (i(), i()).prop_map(|(a, b)| HOp::AddRef(a, b)),
        3 => (i(), i()).prop_map(|(a, b)| HOp::Sub(a, b)),
        2 => (i(), plain(b)).prop_map(|(a, m)| HOp::MulSecret(a, m)),
        2 => (i(), plain(b)).prop_map(|(a, m)| HOp::MulPublic(a, m)),
        1 => (i(), plain(b)).prop_map(|(a, m)| HOp::MulSecretOwned(a, m)),
        1 => (i(), plain(w)).prop_map(|(a, m)| HOp::MulSecretWide(a, m)),
        1 => (i(), plain(w)).prop_map(|(a, m)| HOp::MulPublicWide(a, m)),
        1 => i().prop_map(HOp::Wire),
        1 => (plain(b), any::<u64>()).prop_map(|(m, s)| HOp::Fresh(m, s)),
    ]
    .boxed()
}

fn prog<P: PaillierParams>(max: usize) -> BoxedStrategy<Prog> {
    (
        any::<u16>(),
        proptest::collection::vec((plain(P::Uint::BITS - 1), any::<u64>()), 1..4),
        proptest::collection::vec(hop::<P>(), 1..max),
    )
        .prop_map(|(key, init, ops)| Prog { key: key as usize, init, ops })
        .boxed()
}

fn run_prog<P: PaillierParams>(c: &Prog) -> R {
    let k = key(P::PRIME_BITS, false, c.key);
    let sk: SecretKeyPaillier<P> = secret_key(&k);
    let pk = sk.public_key();
    let bits = P::Uint::BITS - 1;
    let wbits = P::WideUint::BITS - 1;
    // (ciphertext, model plaintext mod N, model randomizer mod N)
    let mut st: Vec<(Ciphertext<P>, Big, Big)> = vec![];
    let fresh = |m: &(u8, SBig), s: u64| {
        let m = realize(m, &k.n, bits);
        let r = Randomizer::random(&mut rng(s), pk);
        let rv = rval(&r);
        (Ciphertext::new_with_randomizer(pk, &ss(&m, bits.min(m.mag.bits() + 1)), &r), m.modulo(&k.n), rv)
    };
    for (m, s) in &c.init {
        st.push(fresh(m, *s));
    }
    let mut muls = 0;
    for (i, op) in c.ops.iter().enumerate() {
        let at = |j: &u8| &st[*j as usize % st.len()];
        let mulm = |x: &(Ciphertext<P>, Big, Big), e: &SBig| {
            (x.1.mulmod(&e.modulo(&k.n), &k.n), x.2.powmod_signed(e, &k.n).expect("unit"))
        };
        let new = match op {
            HOp::Add(a, b) => {
                let (x, y) = (at(a), at(b));
                (x.0.clone() + y.0.clone(), x.1.add(&y.1).rem(&k.n), x.2.mulmod(&y.2, &k.n))
            }
            HOp::AddRef(a, b) => {
                let (x, y) = (at(a), at(b));
                (&x.0 + &y.0, x.1.add(&y.1).rem(&k.n), x.2.mulmod(&y.2, &k.n))
            }
            HOp::Sub(a, b) => {
                let (x, y) = (at(a), at(b));
                (
                    x.0.clone() - &y.0,
                    x.1.add(&k.n).sub(&y.1).rem(&k.n),
                    x.2.mulmod(&y.2.invmod(&k.n).expect("unit"), &k.n),
                )
            }
            HOp::MulSecret(a, m) => {
                let e = realize(m, &k.n, bits);
                let (p, r) = mulm(at(a), &e);
                muls += 1;
                (&at(a).0 * &ss::<P::Uint>(&e, e.mag.bits().max(1)), p, r)
            }
            HOp::MulSecretOwned(a, m) => {
                let e = realize(m, &k.n, bits);
                let (p, r) = mulm(at(a), &e);
                muls += 1;
                (at(a).0.clone() * &ss::<P::Uint>(&e, bits), p, r)
            }
            HOp::MulPublic(a, m) => {
                let e = realize(m, &k.n, bits);
                let (p, r) = mulm(at(a), &e);
                muls += 1;
                (&at(a).0 * &ps::<P::Uint>(&e, e.mag.bits()), p, r)
            }
            HOp::MulSecretWide(a, m) => {
                let e = realize(m, &k.n, wbits);
                let (p, r) = mulm(at(a), &e);
                muls += 1;
                (&at(a).0 * &ss::<P::WideUint>(&e, e.mag.bits()), p, r)
            }
            HOp::MulPublicWide(a, m) => {
                let e = realize(m, &k.n, wbits);
                let (p, r) = mulm(at(a), &e);
                muls += 1;
                (&at(a).0 * &ps::<P::WideUint>(&e, wbits), p, r)
            }
            HOp::Wire(a) => {
                let x = at(a);
                let s = serde_json::to_string(&x.0.to_wire()).expect("serializes");
                let w: CiphertextWire<P> = serde_json::from_str(&s).expect("deserializes");
                (w.to_precomputed(pk), x.1.clone(), x.2.clone())
            }
            HOp::Fresh(m, s) => fresh(m, *s),
        };
        let d = ssv(&new.0.decrypt(&sk));
        let want = balanced(&SBig::from(new.1.clone()), &k.n);
        vensure!(d == want, format!("homomorphism_{}", format!("{op:?}").split('(').next().unwrap_or("")), "step {i} {op:?}: decrypts to {d:?}, expected {want:?}");
        let rv = rval(&new.0.derive_randomizer(&sk));
        vensure!(rv == new.2, format!("randomizer_{}", format!("{op:?}").split('(').next().unwrap_or("")), "step {i} {op:?}: randomizer {rv:?}, expected {:?}", new.2);
        st.push(new);
    }
    Ok(obs(muls > 0 && c.ops.len() >= 2).tag_if(muls > 1, "several_multiplications"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MaskCase {
    key: usize,
    m: (u8, SBig),
    z: (u8, SBig),
    e: (u8, SBig),
    s1: u64,
    s2: u64,
}

fn mask_case<P: PaillierParams>() -> BoxedStrategy<MaskCase> {
    let b = P::Uint::BITS - 1;
    (any::<u16>(), plain(b), plain(b), plain(b), any::<u64>(), any::<u64>())
        .prop_map(|(k, m, z, e, s1, s2)| MaskCase { key: k as usize, m, z, e, s1, s2 })
        .boxed()
}

fn run_mask<P: PaillierParams>(c: &MaskCase) -> R {
    let k = key(P::PRIME_BITS, false, c.key);
    let sk: SecretKeyPaillier<P> = secret_key(&k);
    let pk = sk.public_key();
    let bits = P::Uint::BITS - 1;
    let (m, z, e) = (realize(&c.m, &k.n, bits), realize(&c.z, &k.n, bits), realize(&c.e, &k.n, bits));
    let r = Randomizer::random(&mut rng(c.s1), pk);
    let s = Randomizer::random(&mut rng(c.s2), pk);
    let pe = ps::<P::Uint>(&e, e.mag.bits());
    let got = leaf(&r.to_masked(&s, &pe));
    let want = rval(&r).powmod_signed(&e, &k.n).expect("unit").mulmod(&rval(&s), &k.n);
    vensure!(got == want, "to_masked", "r^{e:?} s = {got:?}, expected {want:?}");
    // enc(m, r) * e + enc(z, s) == enc_public(m e + z, masked)
    let x = Ciphertext::<P>::new_with_randomizer(pk, &ss(&m, bits), &r);
    let y = Ciphertext::<P>::new_with_randomizer(pk, &ss(&z, bits), &s);
    let lhs = x.clone() * &pe + &y;
    let total = m.mul(&e).add(&z);
    let red = balanced(&total, &k.n);
    let rhs = Ciphertext::<P>::new_public_with_randomizer(pk, &ps(&red, bits), &r.to_masked(&s, &pe));
    vensure!(lhs == rhs, "affine_relation", "E({m:?}) * {e:?} + E({z:?}) is not E of the sum with the masked randomizer");
    vensure!((x != y) || (m.modulo(&k.n) == z.modulo(&k.n) && c.s1 == c.s2), "distinct", "distinct plaintexts or randomizers give equal ciphertexts");
    // re-randomising: adding an encryption of zero
    let zero = Ciphertext::<P>::new_with_randomizer(pk, &ss(&SBig::zero(), bits), &s);
    let re = &x + &zero;
    vensure!(re != x, "rerandomise_changes", "re-randomising left the ciphertext as it was");
    vensure!(ssv(&re.decrypt(&sk)) == balanced(&m, &k.n), "rerandomise_plaintext", "{m:?}");
    Ok(obs(!e.mag.is_zero()).tag_if(e.neg, "negative_exponent"))
}

// ------------------------------------------------------------------ C03

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct KeyCase {
    key: usize,
    xs: Vec<Big>,
    seed: u64,
}

fn key_case<P: PaillierParams>() -> BoxedStrategy<KeyCase> {
    (any::<u16>(), proptest::collection::vec(big_bits(P::MODULUS_BITS), 1..6), any::<u64>())
        .prop_map(|(k, xs, seed)| KeyCase { key: k as usize, xs, seed })
        .boxed()
}

/// Every relation a key's derived constants must satisfy, against the reference `k`.
fn key_relations<P: PaillierParams>(k: &Key, sk: &SecretKeyPaillier<P>) -> Result<(), Fail> {
    let pk = sk.public_key();
    vensure!(b(pk.modulus()) == k.n, "modulus", "{:?}, expected {:?}", b(pk.modulus()), k.n);
    vensure!(ssv(&sk.p_signed()) == SBig::from(k.p.clone()) && ssv(&sk.q_signed()) == SBig::from(k.q.clone()), "signed_primes");
    vensure!(sk.p_signed().bound() >= k.p.bits() && sk.q_signed().bound() >= k.q.bits(), "signed_prime_bounds");
    vensure!(b(sk.totient_wide_unsigned().expose_secret()) == k.phi, "totient", "{:?}", b(sk.totient_wide_unsigned().expose_secret()));
    let it = b(&sk.inv_totient().expose_secret().retrieve());
    vensure!(it < k.n && it.mulmod(&k.phi, &k.n).is_one(), "inv_totient", "{it:?}");
    let im = b(sk.inv_modulus().expose_secret());
    vensure!(im < k.phi && im.mulmod(&k.n, &k.phi).is_one(), "inv_modulus", "{im:?}");
    vensure!(sk.inv_modulus().bound() >= im.bits(), "inv_modulus_bound");
    vensure!(psv(&pk.modulus_signed()) == SBig::from(k.n.clone()), "modulus_signed");
    vensure!(b(pk.modulus_nonzero().as_ref()) == k.n, "modulus_nonzero");
    vensure!(b(pk.modulus_wide_nonzero().as_ref()) == k.n, "modulus_wide_nonzero");
    vensure!(b(&pk.modulus_mod_modulus_squared().retrieve()) == k.n, "modulus_mod_modulus_squared");
    let three: P::Uint = u(&Big::from_u64(3));
    let x = three.to_montgomery(pk.monty_params_mod_n()).pow(&ps::<P::Uint>(&SBig::from(Big::pow2(P::MODULUS_BITS - 2)), P::MODULUS_BITS - 1));
    vensure!(b(&x.retrieve()) == Big::from_u64(3).powmod(&Big::pow2(P::MODULUS_BITS - 2), &k.n), "monty_params_mod_n");
    let three: P::WideUint = u(&Big::from_u64(3));
    let x = three.to_montgomery(pk.monty_params_mod_n_squared()).pow(&ps::<P::Uint>(&SBig::from(k.n.shr(1)), P::MODULUS_BITS - 1));
    vensure!(b(&x.retrieve()) == Big::from_u64(3).powmod(&k.n.shr(1), &k.n2), "monty_params_mod_n_squared");
    // wire forms
    let pkw = pk.as_wire().clone();
    vensure!(b(pkw.modulus()) == k.n, "public_wire_modulus");
    vensure!(&pkw.clone().into_precomputed() == pk && pk.clone().into_wire() == pkw, "public_wire_roundtrip");
    let pkw2 = serde_json::from_value(serde_json::to_value(&pkw).expect("ser")).expect("de");
    vensure!(pkw == pkw2, "public_wire_serde");
    let skw = sk.clone().into_wire();
    vensure!(skw.public_key() == pkw, "secret_wire_public");
    let js = serde_json::to_value(&skw).expect("ser");
    let skw2: SecretKeyPaillierWire<P> = serde_json::from_value(js.clone()).expect("de");
    vensure!(serde_json::to_value(&skw2).expect("ser") == js, "secret_wire_serde");
    let bin = bincode::serialize(&skw).expect("ser");
    let skw3: SecretKeyPaillierWire<P> = bincode::deserialize(&bin).expect("de");
    vensure!(serde_json::to_value(&skw3).expect("ser") == js, "secret_wire_bincode");
    let sk3 = skw3.into_precomputed();
    vensure!(sk3.public_key() == pk && ssv(&sk3.p_signed()) == SBig::from(k.p.clone()) && ssv(&sk3.q_signed()) == SBig::from(k.q.clone()), "secret_wire_restores");
    Ok(())
}

fn run_key<P: PaillierParams>(c: &KeyCase) -> R {
    let k = key(P::PRIME_BITS, false, c.key);
    let sk: SecretKeyPaillier<P> = secret_key(&k);
    key_relations(&k, &sk)?;
    let mut g = rng(c.seed);
    let mut xs: Vec<Big> = vec![Big::zero(), Big::one(), k.n.sub(&Big::one()), k.p.clone(), k.q.clone()];
    for x in &c.xs {
        let x = x.rem(&k.n);
        xs.push(x.mulmod(&x, &k.n));
        xs.push(x.mulmod(&k.p, &k.n));
        xs.push(x);
    }
    let (mut sq, mut non) = (0, 0);
    for x in &xs {
        let rns = sk.rns_split(&u::<P::Uint>(x));
        let (xp, xq) = (mont::<P::HalfUint>(&rns.0), mont::<P::HalfUint>(&rns.1));
        vensure!(xp == x.rem(&k.p) && xq == x.rem(&k.q), "rns_split", "{x:?} -> ({xp:?}, {xq:?})");
        let back = b(&sk.rns_join(&rns));
        vensure!(back == *x, "rns_join", "{x:?} -> {back:?}");
        let is_sq = |v: &Big, p: &Big| v.rem(p).is_zero() || v.jacobi(p) == 1;
        let expect = is_sq(x, &k.p) && is_sq(x, &k.q);
        match sk.rns_sqrt(&rns) {
            Some(root) => {
                vensure!(expect, "sqrt_of_nonresidue", "{x:?} is not a square but a root was returned");
                let r = b(&sk.rns_join(&root));
                vensure!(r < k.n && r.mulmod(&r, &k.n) == *x, "sqrt", "{r:?}^2 != {x:?}");
                // the principal root (itself a square), on which fourth roots depend
                vensure!(is_sq(&r, &k.p) && is_sq(&r, &k.q), "sqrt_principal", "the root {r:?} of {x:?} is not a square itself");
                sq += 1;
            }
            None => {
                vensure!(!expect, "sqrt_missing", "{x:?} is a square but no root was returned");
                non += 1;
            }
        }
    }
    // independent residues modulo the two primes join to the right number
    let (x, y) = (c.xs[0].rem(&k.p), c.xs[c.xs.len() - 1].rem(&k.q));
    let a = sk.rns_split(&u::<P::Uint>(&x)).0;
    let d = sk.rns_split(&u::<P::Uint>(&y)).1;
    let j = b(&sk.rns_join(&(a, d)));
    vensure!(j < k.n && j.rem(&k.p) == x && j.rem(&k.q) == y, "rns_join_mixed", "({x:?}, {y:?}) -> {j:?}");
    let (mut lo, mut hi) = (0, 0);
    for _ in 0..8 {
        let w = b(&sk.random_nonsquare_residue(&mut g));
        vensure!(w < k.n && w.gcd(&k.n).is_one(), "nonsquare_range", "{w:?}");
        vensure!(w.jacobi(&k.n) == -1, "nonsquare", "jacobi({w:?}) = {}", w.jacobi(&k.n));
        // both classes of non-squares (+u x, -u x) are produced over the cases
        if w.jacobi(&k.p) == -1 {
            lo += 1;
        } else {
            hi += 1;
        }
    }
    Ok(obs(sq > 0 && non > 0).tag_if(lo > 0, "nonsquare_mod_p").tag_if(hi > 0, "nonsquare_mod_q"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct GenCase {
    pub seed: u64,
}

pub fn seeds() -> BoxedStrategy<GenCase> {
    any::<u64>().prop_map(|seed| GenCase { seed }).boxed()
}

fn good_primes(p: &Big, q: &Big, bits: u32) -> Result<(), Fail> {
    for x in [p, q] {
        vensure!(x.bits() == bits, "prime_size", "{x:?} has {} bits", x.bits());
        vensure!(x.low_u64() & 3 == 3, "prime_blum", "{x:?} is not 3 mod 4");
        vensure!(x.is_prime(), "prime", "{x:?} is composite");
    }
    vensure!(p != q, "distinct_primes", "{p:?}");
    Ok(())
}

fn run_keygen<P: PaillierParams>(c: &GenCase) -> R {
    let w = SecretKeyPaillierWire::<P>::random(&mut rng(c.seed));
    let sk = w.clone().into_precomputed();
    let (p, q) = (ssv(&sk.p_signed()).mag, ssv(&sk.q_signed()).mag);
    good_primes(&p, &q, P::PRIME_BITS)?;
    vensure!(p.mul(&q).bits() == P::MODULUS_BITS, "modulus_size", "{}", p.mul(&q).bits());
    let k = Key::new(p, q);
    key_relations(&k, &sk)?;
    let again = SecretKeyPaillierWire::<P>::random(&mut rng(c.seed));
    vensure!(serde_json::to_value(&again).expect("ser") == serde_json::to_value(&w).expect("ser"), "deterministic");
    let other = SecretKeyPaillierWire::<P>::random(&mut rng(c.seed ^ 1));
    vensure!(other.public_key() != w.public_key(), "fresh", "two seeds give the same key");
    good()
}

// ------------------------------------------------------------------ C04

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct RpCase {
    key: usize,
    bases: Option<(Big, Big)>,
    v1: SBig,
    v2: SBig,
    r1: SBig,
    r2: SBig,
    slack: u32,
}

fn rp_case(vb: u32, rb: u32) -> BoxedStrategy<RpCase> {
    let edge = |b: u32| prop_oneof![6 => sbig_bits(b), 1 => any::<bool>().prop_map(move |n| SBig::new(n, Big::pow2(b).sub(&Big::one())))];
    (
        any::<u16>(),
        proptest::option::of((big_bits(256), big_bits(256))),
        edge(vb),
        edge(vb),
        edge(rb),
        edge(rb),
        0u32..3,
    )
        .prop_map(|(k, bases, v1, v2, r1, r2, slack)| RpCase { key: k as usize, bases, v1, v2, r1, r2, slack })
        .boxed()
}

fn run_rp<P, V, X>(c: &RpCase) -> R
where
    P: PaillierParams,
    V: BoxedEncoding + Bounded + zeroize::Zeroize + Integer + crypto_bigint::subtle::ConditionallySelectable,
    X: BoxedEncoding + Bounded + zeroize::Zeroize + Integer + crypto_bigint::subtle::ConditionallySelectable,
    <P::Uint as Integer>::Monty: PowBoundedExp<V> + PowBoundedExp<X>,
{
    let reference = rp(P::PRIME_BITS, c.key % 16);
    let n = reference.key.n.clone();
    let (t, s) = match &c.bases {
        None => (reference.t.clone(), reference.s.clone()),
        Some((t, s)) => (unit(&t.rem(&n), &n), unit(&s.rem(&n), &n)),
    };
    let wire = rp_wire::<P>(&n, &t, &s);
    let params: RPParams<P> = wire.to_precomputed();
    vensure!(b(params.modulus()) == n && b(wire.modulus()) == n, "modulus");
    vensure!(mont::<P::Uint>(params.base_randomizer()) == t && mont::<P::Uint>(params.base_value()) == s, "bases", "the bases are swapped or wrong");
    vensure!(serde_json::to_value(params.to_wire()).expect("ser") == serde_json::to_value(&wire).expect("ser"), "wire_roundtrip");
    let model = |v: &SBig, r: &SBig| {
        s.powmod_signed(v, &n).expect("unit").mulmod(&t.powmod_signed(r, &n).expect("unit"), &n)
    };
    let vb = |x: &SBig| (x.mag.bits() + c.slack).min(V::BITS - 1);
    let rb = |x: &SBig| (x.mag.bits() + c.slack).min(X::BITS - 1);
    let w1 = model(&c.v1, &c.r1);
    let (v1, r1) = (ss::<V>(&c.v1, vb(&c.v1)), ss::<X>(&c.r1, rb(&c.r1)));
    let (pv1, pr1) = (ps::<V>(&c.v1, vb(&c.v1)), ps::<X>(&c.r1, rb(&c.r1)));
    let com = params.commit(&v1, &r1);
    vensure!(leaf(&com.to_wire()) == w1, "commit_secret", "s^{:?} t^{:?} = {:?}, expected {w1:?}", c.v1, c.r1, leaf(&com.to_wire()));
    vensure!(params.commit(&pv1, &pr1) == com, "commit_public");
    vensure!(params.commit(&pv1, &r1) == com && params.commit(&v1, &pr1) == com, "commit_mixed");
    vensure!(params.commit_zero_randomizer(&v1) == params.commit_zero_randomizer(&pv1), "zero_randomizer_variants");
    vensure!(leaf(&params.commit_zero_randomizer(&v1).to_wire()) == model(&c.v1, &SBig::zero()), "commit_zero_randomizer");
    vensure!(leaf(&params.commit_zero_value(&r1).to_wire()) == model(&SBig::zero(), &c.r1), "commit_zero_value");
    vensure!(leaf(&params.commit_zero_value(&pr1).to_wire()) == model(&SBig::zero(), &c.r1), "commit_zero_value_public");
    let pos = SBig::new(false, c.r1.mag.clone());
    let un = su::<X>(&c.r1.mag, c.r1.mag.bits().max(1));
    vensure!(leaf(&params.commit_zero_value(&un).to_wire()) == model(&SBig::zero(), &pos), "commit_unsigned_randomizer");
    // homomorphism
    let com2 = params.commit(&ps::<V>(&c.v2, vb(&c.v2)), &ps::<X>(&c.r2, rb(&c.r2)));
    let w2 = model(&c.v2, &c.r2);
    vensure!(leaf(&(&com * &com2).to_wire()) == w1.mulmod(&w2, &n), "product");
    vensure!(w1.mulmod(&w2, &n) == model(&c.v1.add(&c.v2), &c.r1.add(&c.r2)), "reference_homomorphism");
    let pw = com.pow(&ps::<V>(&c.v2, vb(&c.v2)));
    vensure!(leaf(&pw.to_wire()) == w1.powmod_signed(&c.v2, &n).expect("unit"), "pow", "C^{:?}", c.v2);
    let pw = com.pow(&ss::<X>(&c.r2, rb(&c.r2)));
    vensure!(leaf(&pw.to_wire()) == w1.powmod_signed(&c.r2, &n).expect("unit"), "pow_secret", "C^{:?}", c.r2);
    vensure!(com.to_wire().to_precomputed(&params) == com, "commitment_wire");
    vensure!((com == com2) == (w1 == w2), "commitment_equality");
    Ok(obs(!c.v1.mag.is_zero() && !c.r1.mag.is_zero())
        .tag_if(c.v1.neg || c.r1.neg, "negative")
        .tag_if(c.bases.is_some(), "arbitrary_bases")
        .tag_if(c.v1.mag.is_zero() || c.r1.mag.is_zero(), "zero"))
}

fn run_rpgen<P: PaillierParams>(c: &GenCase) -> R {
    let mut g = rng(c.seed);
    let secret = RPSecret::<P>::random(&mut g);
    let n = b(&secret.modulus());
    let phi = b(secret.totient_nonzero().expose_secret().as_ref());
    // p + q = N - phi + 1
    let sum = n.sub(&phi).add(&Big::one());
    let disc = sum.mul(&sum).sub(&n.shl(2));
    let root = disc.isqrt();
    vensure!(root.mul(&root) == disc, "totient", "phi does not match the modulus: {n:?} {phi:?}");
    let (p, q) = (sum.add(&root).shr(1), sum.sub(&root).shr(1));
    vensure!(p.mul(&q) == n, "modulus_product");
    good_primes(&p, &q, P::PRIME_BITS)?;
    for x in [&p, &q] {
        vensure!(x.shr(1).is_prime(), "safe_prime", "{x:?} is not a safe prime");
    }
    let lambda = b(secret.lambda().expose_secret());
    vensure!(lambda < phi.shr(2), "lambda_range", "{lambda:?} is not below phi/4");
    let (mut over, mut distinct) = (0, std::collections::BTreeSet::new());
    for _ in 0..6 {
        let a = b(secret.random_residue_mod_totient(&mut g).expose_secret());
        vensure!(a < phi, "residue_mod_totient", "{a:?} >= {phi:?}");
        if a > phi.shr(1) {
            over += 1;
        }
        distinct.insert(a);
    }
    vensure!(distinct.len() > 1, "residues_vary");
    for _ in 0..2 {
        let params = RPParams::random_with_secret(&mut g, &secret);
        let (t, s) = (mont::<P::Uint>(params.base_randomizer()), mont::<P::Uint>(params.base_value()));
        vensure!(b(params.modulus()) == n, "params_modulus");
        vensure!(t.gcd(&n).is_one() && t < n && !t.is_one(), "base_unit", "{t:?}");
        vensure!(t.jacobi(&p) == 1 && t.jacobi(&q) == 1, "base_square", "t = {t:?} is not a quadratic residue");
        vensure!(s == t.powmod(&lambda, &n), "base_value", "s != t^lambda");
    }
    let params = RPParams::<P>::random(&mut rng(c.seed ^ 77));
    let (t, s) = (mont::<P::Uint>(params.base_randomizer()), mont::<P::Uint>(params.base_value()));
    let m = b(params.modulus());
    vensure!(m.bits() + 1 >= P::MODULUS_BITS && t.gcd(&m).is_one() && s.gcd(&m).is_one(), "random_params");
    vensure!(t.jacobi(&m) == 1 && s.jacobi(&m) == 1, "random_params_jacobi");
    vensure!(m != n && t != s, "random_params_fresh");
    Ok(obs(true).tag_if(over > 0, "upper_half"))
}

// ------------------------------------------------------------------ entry points

use crate::dev::PaillierTest as T;
type L = crate::k256::PaillierProduction112;

pub fn c01(ctx: &Ctx) {
    let r = "plaintexts of both widths anchored at 0, +-N/2, N and the type limits, randomizers of the crate and arbitrary units; non-trivial when the reduced plaintext is non-zero";
    ctx.check("encrypt/test", r, ctx.n(60000, 1000000), enc_case::<T>, run_enc::<T>);
    ctx.check("encrypt/1024", r, ctx.n(300, 4000), enc_case::<L>, run_enc::<L>);
}

pub fn c02(ctx: &Ctx) {
    let r = "programs of homomorphic additions, subtractions, multiplications, checked against residues modulo N after every step; non-trivial with at least two operations and a multiplication";
    ctx.check("program/test", r, ctx.n(60000, 1200000), || prog::<T>(9), run_prog::<T>);
    ctx.check("program/1024", r, ctx.n(300, 4000), || prog::<L>(4), run_prog::<L>);
    let r = "masked randomizers and the affine relation they must satisfy; non-trivial when the exponent is non-zero";
    ctx.check("masked/test", r, ctx.n(60000, 1000000), mask_case::<T>, run_mask::<T>);
    ctx.check("masked/1024", r, ctx.n(300, 4000), mask_case::<L>, run_mask::<L>);
}

pub fn c03(ctx: &Ctx) {
    let r = "fixed prime pairs (smallest and largest of the size included) with residues (0, 1, -1, multiples of a prime, squares, arbitrary); non-trivial when both squares and non-squares occur";
    ctx.check("constants/test", r, ctx.n(40000, 600000), key_case::<T>, run_key::<T>);
    ctx.check("constants/1024", r, ctx.n(300, 3000), key_case::<L>, run_key::<L>);
    let r = "keys generated by the crate from a seed; always non-trivial";
    ctx.check("keygen/test", r, ctx.n(6000, 80000), seeds, run_keygen::<T>);
    if ctx.thorough() {
        ctx.check("keygen/1024", r, ctx.n(1, 8), seeds, run_keygen::<L>);
    }
}

pub fn c04(ctx: &Ctx) {
    let r = "values and randomizers of both signs up to the type limit over generated or arbitrary invertible bases; non-trivial when value and randomizer are non-zero";
    use crypto_bigint::{U256, U4096, U512, U640};
    ctx.check("commit/256x256", r, ctx.n(30000, 400000), || rp_case(255, 255), run_rp::<T, U256, U256>);
    ctx.check("commit/256x512", r, ctx.n(30000, 300000), || rp_case(255, 511), run_rp::<T, U256, U512>);
    ctx.check("commit/512x640", r, ctx.n(10000, 120000), || rp_case(511, 639), run_rp::<T, U512, U640>);
    ctx.check("commit/2048x4096", r, ctx.n(100, 1200), || rp_case(2047, 4095), run_rp::<L, crypto_bigint::U2048, U4096>);
    let r = "ring-Pedersen parameters generated from a seed, their primes recovered from modulus and totient; always non-trivial";
    ctx.check("generate/test", r, ctx.n(300, 6000), seeds, run_rpgen::<T>);
}
