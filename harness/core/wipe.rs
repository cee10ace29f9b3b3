//! C20: what a secret wrapper held is gone from the heap once the memory is handed back.
use std::format;
use std::prelude::v1::*;
use std::vec;

use crypto_bigint::modular::Retrieve;
use crypto_bigint::subtle::{Choice, ConditionallyNegatable, ConditionallySelectable};
use crypto_bigint::{Bounded, CheckedAdd, CheckedMul, CheckedSub, Integer, Monty, NonZero, Odd, WrappingAdd, WrappingMul, WrappingNeg, WrappingSub, U2048, U256, U4096, U512};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rand_core::RngCore;
use serde::{Deserialize, Serialize};
use zeroize::Zeroize;

use super::common::ecref::sc;
use super::common::big::{Big, SBig};
use super::common::gens::*;
use super::common::runner::*;
use super::common::wipe::*;
use super::curve::Inst;
use super::keys::*;
use super::util::*;
use crate::curve::Scalar;
use crate::dev::TestParams as T;
use crate::k256::ProductionParams112 as K;
use crate::paillier::*;
use crate::params::*;
use crate::tools::sss::{Polynomial, ShareId};
use crate::tools::Secret;
use crate::uint::*;
use crate::vensure;
use crate::SchemeParams;

/// The bytes of a value as they lie in memory.
fn raw<X>(x: &X) -> Vec<u8> {
    unsafe { std::slice::from_raw_parts(x as *const X as *const u8, std::mem::size_of::<X>()) }.to_vec()
}

/// A result whose secret contents can be listed (outside of a watched section).
pub trait Holds {
    fn contents(&self) -> Vec<Vec<u8>>;
}
impl<X: Zeroize> Holds for Secret<X> {
    fn contents(&self) -> Vec<Vec<u8>> {
        vec![raw(self.expose_secret())]
    }
}
impl<X: BoxedEncoding + Bounded + Zeroize + Integer + ConditionallySelectable> Holds for SecretSigned<X> {
    fn contents(&self) -> Vec<Vec<u8>> {
        let a = raw(self.abs_value().expose_secret());
        let n = raw(&self.abs_value().expose_secret().wrapping_neg());
        vec![a, n]
    }
}
impl<X: BoxedEncoding + Bounded + Zeroize + Integer> Holds for SecretUnsigned<X> {
    fn contents(&self) -> Vec<Vec<u8>> {
        vec![raw(self.expose_secret())]
    }
}
impl<A: Holds, B: Holds> Holds for (A, B) {
    fn contents(&self) -> Vec<Vec<u8>> {
        [self.0.contents(), self.1.contents()].concat()
    }
}
impl<A: Holds> Holds for Option<A> {
    fn contents(&self) -> Vec<Vec<u8>> {
        self.as_ref().map(|x| x.contents()).unwrap_or_default()
    }
}
impl Holds for () {
    fn contents(&self) -> Vec<Vec<u8>> {
        vec![]
    }
}
impl<X: Zeroize> Holds for Vec<Secret<X>> {
    fn contents(&self) -> Vec<Vec<u8>> {
        self.iter().flat_map(|x| x.contents()).collect()
    }
}

/// Little-endian and big-endian forms of everything.
fn both(v: Vec<Vec<u8>>) -> Vec<Vec<u8>> {
    v.into_iter().flat_map(|x| forms(&x)).collect()
}

/// Runs the operation once to learn what it produces, then again with inputs and outputs watched for; the result and
/// all intermediates are dropped in the watched section.
fn gone<H: Holds>(name: &str, inputs: &[Vec<u8>], op: impl Fn() -> H) -> Result<usize, Fail> {
    let out = op();
    let needles = both([inputs.to_vec(), out.contents()].concat());
    drop(out);
    let ((), seen) = watched(&needles, true, || drop(op()));
    if let Some((i, size)) = seen.first {
        return fail(format!("{name}/left in free memory"), format!("needle {i} of {} in a freed block of {size} bytes ({} such blocks)", needles.len(), seen.hits));
    }
    Ok(seen.blocks)
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Case {
    op: usize,
    a: Big,
    b: Big,
    neg: (bool, bool),
    seed: u64,
}

/// Numbers in which no byte string repeats by accident.
fn case(bits: u32) -> BoxedStrategy<Case> {
    let v = move || {
        (any::<u64>(), prop_oneof![3 => Just(0u32), 1 => 0..bits / 4]).prop_map(move |(s, cut)| {
            let x = Big::random_bits(&mut rng(s), bits - cut);
            x.shr(1).add(&Big::pow2(bits - cut - 1))
        })
    };
    (0usize..1000, v(), v(), any::<(bool, bool)>(), any::<u64>()).prop_map(|(op, a, b, neg, seed)| Case { op, a, b, neg, seed }).boxed()
}

fn wrapper<const L: usize, const W: usize>(c: &Case) -> R
where
    crypto_bigint::Uint<L>: BoxedEncoding + Extendable<crypto_bigint::Uint<W>> + crypto_bigint::ConcatMixed<crypto_bigint::Uint<L>, MixedOutput = crypto_bigint::Uint<W>>,
    crypto_bigint::Uint<W>: BoxedEncoding,
{
    type U<const L: usize> = crypto_bigint::Uint<L>;
    let (x, y): (U<L>, U<L>) = (u(&c.a), u(&c.b));
    // the wrapper's own constructor makes one copy on the stack, which it erases
    let s = |v: &U<L>| Secret::init_with(|| *v);
    let m = NonZero::new(y).expect("nonzero");
    let small = x.shr(L as u32 * 34);
    let (lo, hi) = (x.shr(2), y.shr(2));
    let odd = Odd::new(y | U::<L>::ONE).expect("odd");
    let par = <<U<L> as Integer>::Monty as Monty>::new_params_vartime(odd);
    let inp = vec![raw(&x), raw(&y), raw(&lo), raw(&hi)];
    let sizes = L * 8;
    let ser = bincode::serialize(&s(&x)).expect("ser");
    let names = ["clone", "widen", "wrapping add", "wrapping sub", "wrapping mul", "wrapping neg", "add", "add assign", "sub", "mul", "div", "rem", "select", "montgomery", "pow", "serialize", "deserialize", "try_init_with", "debug", "replace", "mul by public"];
    let n = names[c.op % names.len()];
    let blocks = match n {
        "clone" => gone(n, &inp, || (s(&x), s(&x).clone()))?,
        "widen" => gone(n, &inp, || s(&x).to_wide::<U<W>>())?,
        "wrapping add" => gone(n, &inp, || s(&x).wrapping_add(&s(&y)))?,
        "wrapping sub" => gone(n, &inp, || s(&x).wrapping_sub(&s(&y)))?,
        "wrapping mul" => gone(n, &inp, || s(&x).wrapping_mul(&s(&y)))?,
        "wrapping neg" => gone(n, &inp, || s(&x).wrapping_neg())?,
        "add" => match c.seed % 6 {
            0 => gone(n, &inp, || s(&lo) + &hi)?,
            1 => gone(n, &inp, || &s(&lo) + &hi)?,
            2 => gone(n, &inp, || s(&lo) + s(&hi))?,
            3 => gone(n, &inp, || s(&lo) + &s(&hi))?,
            4 => gone(n, &inp, || &s(&lo) + s(&hi))?,
            _ => gone(n, &inp, || &s(&lo) + &s(&hi))?,
        },
        "add assign" => gone(n, &inp, || {
            let mut z = s(&lo);
            z += &hi;
            z
        })?,
        "sub" => {
            let (a, b) = if x < y { (y, x) } else { (x, y) };
            if c.seed & 1 == 0 {
                gone(n, &inp, || s(&a) - &b)?
            } else {
                gone(n, &inp, || s(&a) - s(&b))?
            }
        }
        "mul" => {
            let k = U::<L>::from_u64(3);
            match c.seed % 5 {
                0 => gone(n, &inp, || s(&lo) * &k)?,
                1 => gone(n, &inp, || &s(&lo) * &k)?,
                2 => gone(n, &inp, || s(&k) * s(&lo))?,
                3 => gone(n, &inp, || s(&lo) * &s(&k))?,
                _ => gone(n, &inp, || &s(&lo) * &s(&k))?,
            }
        }
        "div" => {
            let d = NonZero::new(U::<L>::from_u64(5)).expect("nonzero");
            gone(n, &inp, || s(&x) / d)?
        }
        "rem" => gone(n, &inp, || &s(&x) % &m)?,
        "select" => gone(n, &inp, || Secret::conditional_select(&s(&x), &s(&y), Choice::from((c.seed & 1) as u8)))?,
        "montgomery" | "pow" => {
            let r = x.rem(odd.as_nz_ref());
            let v = raw(<<U<L> as Integer>::Monty as Monty>::new(r, par.clone()).as_montgomery());
            let inp = vec![raw(&r), v];
            // the modulus and the constants of the representation are public, only the residues count
            let res = Secret::init_with(|| r).to_montgomery(&par);
            let out = vec![raw(&res.retrieve().expose_secret().clone()), raw(res.expose_secret().as_montgomery())];
            let needles = both([inp, out].concat());
            let ((), seen) = watched(&needles, true, || {
                let z = Secret::init_with(|| r).to_montgomery(&par);
                drop(z.clone().retrieve());
                let z = &z + &z;
                drop(z);
            });
            vensure!(seen.first.is_none(), format!("{n}/left in free memory"), "{seen:?}");
            seen.blocks
        }
        "serialize" => {
            let mut buf = Vec::with_capacity(4 * sizes + 64);
            let needles = both(inp);
            let (r, seen) = watched(&needles, true, || bincode::serialize_into(&mut buf, &s(&x)).is_ok());
            vensure!(r && buf == ser, "serialize/differs");
            vensure!(seen.first.is_none(), "serialize/left in free memory", "{seen:?}");
            seen.blocks
        }
        "deserialize" => gone(n, &inp, || bincode::deserialize::<Secret<U<L>>>(&ser).ok())?,
        "try_init_with" => gone(n, &inp, || Secret::try_init_with(|| if c.seed & 1 == 0 { Ok(x) } else { Err(()) }).ok())?,
        "debug" => gone(n, &inp, || {
            let z = s(&x);
            drop(format!("{z:?}{z:#?}"));
            z
        })?,
        "replace" => gone(n, &inp, || {
            let mut z = s(&x);
            *z.expose_secret_mut() = y;
            z
        })?,
        _ => gone(n, &inp, || {
            let mut z = s(&small);
            z *= &U::<L>::from_u64(7);
            z
        })?,
    };
    let inputs_ok = distinctive(&raw(&x));
    Ok(obs(inputs_ok && blocks > 0).tag(n))
}

fn signed<const L: usize, const W: usize, const X: usize>(c: &Case) -> R
where
    crypto_bigint::Uint<L>: BoxedEncoding + Extendable<crypto_bigint::Uint<W>>,
    crypto_bigint::Uint<W>: BoxedEncoding + Extendable<crypto_bigint::Uint<X>>,
    crypto_bigint::Uint<X>: BoxedEncoding,
    crypto_bigint::Uint<L>: crypto_bigint::RandomMod,
    crypto_bigint::Uint<W>: crypto_bigint::RandomMod,
{
    type U<const L: usize> = crypto_bigint::Uint<L>;
    let bits = U::<L>::BITS;
    let a = SBig::new(c.neg.0, c.a.shr(3));
    let bb = SBig::new(c.neg.1, c.b.shr(3));
    let half = SBig::new(c.neg.0, c.a.shr(bits / 2 + 1));
    let tw = |v: &SBig| u::<U<L>>(&v.twos(bits));
    let (ra, rb, rh) = (tw(&a), tw(&bb), tw(&half));
    let mk = |v: &U<L>, bound: u32| opt(SecretSigned::new_from_unsigned(Secret::init_with(|| *v), bound));
    let pb = ps::<U<L>>(&bb, bits - 2);
    let ph = ps::<U<L>>(&half, bits / 2 - 1);
    let abs = u::<U<L>>(&a.mag);
    let m = NonZero::new(u::<U<L>>(&c.a.add(&c.b).shr(2).add(&Big::one()))).expect("nonzero");
    let inp = vec![raw(&ra), raw(&rb), raw(&abs), raw(&u::<U<L>>(&bb.mag)), raw(&rh), raw(&u::<U<L>>(&half.mag))];
    let names = ["new", "new refused", "new_positive", "new_modulo", "neg", "abs", "widen", "mul wide", "checked add", "checked sub", "checked mul", "operators", "sum", "range check", "range refused", "random", "random scaled", "random scaled wide", "add_mod"];
    let n = names[c.op % names.len()];
    let e = bits - 1;
    let f = |v: &U<L>| mk(v, e - 2).expect("fits");
    let g = |v: &U<L>| mk(v, bits / 2 - 1).expect("fits");
    let blocks = match n {
        "new" => gone(n, &inp, || mk(&ra, e))?,
        "new refused" => gone(n, &inp, || mk(&ra, 5))?,
        "new_positive" => gone(n, &inp, || opt(SecretSigned::new_positive(Secret::init_with(|| abs), if c.seed & 1 == 0 { e } else { 7 })))?,
        "new_modulo" => gone(n, &inp, || {
            let z = Secret::init_with(|| abs);
            opt(SecretSigned::new_modulo(z, &m, bits - 1))
        })?,
        "neg" => gone(n, &inp, || {
            let z = f(&ra);
            let w = -&z;
            (-z, w.neg())
        })?,
        "abs" => gone(n, &inp, || (f(&ra).abs(), f(&ra).abs_value()))?,
        "widen" => gone(n, &inp, || f(&ra).to_wide::<U<W>>())?,
        "mul wide" => gone(n, &inp, || f(&ra).mul_wide_public::<U<L>, U<W>>(&pb))?,
        "checked add" => gone(n, &inp, || (opt(f(&ra).checked_add(&f(&rb))), opt(f(&ra).checked_add(&pb))))?,
        "checked sub" => gone(n, &inp, || opt(f(&ra).checked_sub(&f(&rb))))?,
        "checked mul" => gone(n, &inp, || (opt(g(&rh).checked_mul(&g(&rh))), opt(g(&rh).checked_mul(&ph))))?,
        "operators" => gone(n, &inp, || ((f(&ra) + f(&rb)) - f(&rb), (g(&rh) * g(&rh), (g(&rh) * ph, &g(&rh) * ph))))?,
        "sum" => gone(n, &inp, || {
            let v = [g(&rh), g(&rh), g(&rh)];
            v.iter().sum::<SecretSigned<U<L>>>()
        })?,
        "range check" => gone(n, &inp, || {
            let z = f(&ra);
            z.assert_exponent_range(bits - 2);
            opt(z.ensure_exponent_range(bits - 2))
        })?,
        "range refused" => gone(n, &inp, || opt(f(&ra).ensure_exponent_range(4)))?,
        "random" => gone(n, &inp, || SecretSigned::<U<L>>::random_in_exponent_range(&mut rng(c.seed), bits - 3))?,
        "random scaled" => gone(n, &inp, || SecretSigned::<U<L>>::random_in_exponent_range_scaled::<U<W>>(&mut rng(c.seed), bits - 3, &abs))?,
        "random scaled wide" => {
            let w = u::<U<W>>(&c.a.mul(&c.b).shr(3));
            gone(n, &inp, || SecretSigned::<U<L>>::random_in_exponent_range_scaled_wide::<U<W>, U<X>>(&mut rng(c.seed), bits - 3, &w))?
        }
        _ => {
            let md = u::<U<L>>(&c.a.add(&c.b).shr(1).add(&Big::one()));
            let (p, q) = (abs, u::<U<L>>(&bb.mag));
            gone(n, &inp, || {
                let md = Secret::init_with(|| NonZero::new(md).expect("nonzero"));
                let p = opt(SecretUnsigned::new(Secret::init_with(|| p), bits)).expect("fits");
                let q = opt(SecretUnsigned::new(Secret::init_with(|| q), bits)).expect("fits");
                (p.add_mod(&q, &md), p.to_wide::<U<W>>())
            })?
        }
    };
    Ok(obs(distinctive(&raw(&ra)) && blocks > 0).tag(n))
}

fn scalars(c: &Case) -> R {
    type P = K;
    let order = P::rc().n.clone();
    let (x, y): (Scalar<P>, Scalar<P>) = (sc::<P>(&c.a.rem(&order)), sc::<P>(&c.b.rem(&order)));
    let s = |v: &Scalar<P>| Secret::init_with(|| *v);
    let xi: <<P as SchemeParams>::Paillier as PaillierParams>::Uint = u(&c.a.rem(&order));
    let inp = vec![raw(&x), raw(&y), raw(&xi)];
    let names = ["add", "mul", "sum", "negate", "by the generator", "random", "polynomial", "to signed", "from signed", "from wide signed", "serialize", "sub"];
    let n = names[c.op % names.len()];
    let pt = y.mul_by_generator();
    let blocks = match n {
        "add" => gone(n, &inp, || ((s(&x) + &s(&y)) + &y, &s(&x) + s(&y)))?,
        "sub" => gone(n, &inp, || (s(&x) - s(&y), s(&x) - &y))?,
        "mul" => gone(n, &inp, || (&s(&x) * &s(&y), (s(&x) * y, &s(&x) * &y)))?,
        "sum" => gone(n, &inp, || {
            let v = [s(&x), s(&y), s(&x)];
            let r: Secret<Scalar<P>> = v.iter().sum();
            let t: Secret<Scalar<P>> = v.into_iter().sum();
            (r, t)
        })?,
        "negate" => gone(n, &inp, || -&s(&x))?,
        "by the generator" => gone(n, &inp, || {
            let z = s(&x);
            let _ = (z.mul_by_generator(), pt * &z, &pt * &z, pt * z.clone(), &pt * z.clone());
            z
        })?,
        "random" => gone(n, &inp, || (Secret::init_with(|| Scalar::<P>::random(&mut rng(c.seed))), Secret::init_with(|| Scalar::<P>::random_nonzero(&mut rng(c.seed ^ 1)))))?,
        "polynomial" => {
            let deg = 1 + (c.seed % 5) as usize;
            // its coefficients, by the values at many points (they are not exposed otherwise)
            gone(n, &inp, || {
                let p = Polynomial::<P>::random(&mut rng(c.seed), s(&x), deg);
                let v: Vec<Secret<Scalar<P>>> = (0..4).map(|i| p.evaluate(&ShareId::new(i))).collect();
                let _ = p.public().evaluate(&ShareId::new(3));
                v
            })?
        }
        "to signed" => gone(n, &inp, || secret_signed_from_scalar::<P>(&s(&x)))?,
        "from signed" => gone(n, &inp, || {
            let z = secret_signed_from_scalar::<P>(&s(&x));
            secret_scalar_from_signed::<P>(&z)
        })?,
        "from wide signed" => gone(n, &inp, || {
            let z = secret_signed_from_scalar::<P>(&s(&x)).to_wide();
            secret_scalar_from_wide_signed::<P>(&z)
        })?,
        _ => {
            let ser = bincode::serialize(&s(&x)).expect("ser");
            let mut buf = Vec::with_capacity(400);
            let ((), seen) = watched(&both(inp.clone()), true, || bincode::serialize_into(&mut buf, &s(&x)).expect("ser"));
            vensure!(seen.first.is_none(), "serialize/left in free memory", "{seen:?}");
            gone(n, &inp, || bincode::deserialize::<Secret<Scalar<P>>>(&ser).ok())?
        }
    };
    Ok(obs(blocks > 0).tag(n))
}

fn paillier<P: Inst>(c: &Case) -> R {
    type H<P> = <<P as SchemeParams>::Paillier as PaillierParams>::HalfUint;
    type N<P> = <<P as SchemeParams>::Paillier as PaillierParams>::Uint;
    type Pl<P> = <P as SchemeParams>::Paillier;
    let bits = <Pl<P> as PaillierParams>::PRIME_BITS;
    let k = key(bits, false, c.op / 8);
    let h = |v: &Big| raw(&u::<H<P>>(v));
    let n_ = |v: &Big| raw(&u::<N<P>>(v));
    let one = Big::one();
    let plain = SBig::new(c.neg.0, c.a.rem(&k.n.shr(2)));
    let rho = c.b.rem(&k.n);
    if !rho.gcd(&k.n).is_one() {
        return Ok(obs(false));
    }
    let mut inp = vec![h(&k.p), h(&k.q), n_(&k.phi), h(&k.p.sub(&one)), h(&k.q.sub(&one)), n_(&k.p.mul(&k.q.sub(&one)))];
    let sk = secret_key::<Pl<P>>(&k);
    let wire = sk.clone().into_wire();
    let ct = super::paillier::cipher::<Pl<P>>(sk.public_key(), &k.encrypt(&plain, &rho));
    let names = ["precompute", "keep", "decrypt", "derive randomizer", "encrypt", "ring-Pedersen", "generate", "generate safe"];
    let n = names[c.op % 8];
    let what = match n {
        "precompute" => gone(n, &inp, || {
            let z = wire.clone().into_precomputed();
            drop(z.clone().into_wire());
            z.p_signed()
        })?,
        "keep" => gone(n, &inp, || {
            let z = wire.clone().into_precomputed();
            drop((z.totient_wide_unsigned(), z.q_signed()));
            drop(format!("{z:?}"));
            z.inv_modulus().clone()
        })?,
        "decrypt" => {
            inp.extend([n_(&plain.mag), raw(&u::<N<P>>(&plain.twos(N::<P>::BITS)))]);
            gone(n, &inp, || ct.decrypt(&sk))?
        }
        "derive randomizer" => {
            inp.push(n_(&rho));
            gone(n, &inp, || drop(ct.derive_randomizer(&sk)))?
        }
        "encrypt" => {
            let p: N<P> = u(&plain.twos(N::<P>::BITS));
            inp.extend([n_(&plain.mag), raw(&p)]);
            gone(n, &inp, || {
                let z = opt(SecretSigned::new_from_unsigned(Secret::init_with(|| p), 2 * bits - 2)).expect("fits");
                let r = Randomizer::<Pl<P>>::random(&mut rng(c.seed), sk.public_key());
                drop(Ciphertext::new_with_randomizer(sk.public_key(), &z, &r));
                z
            })?
        }
        "ring-Pedersen" => {
            let (secret, rp) = super::zk::crate_rp::<P>(c.op / 8);
            let lambda = raw(secret.lambda().expose_secret());
            let inp = vec![h(&rp.key.p), h(&rp.key.q), n_(&rp.key.phi), lambda];
            let secret = secret.clone();
            let cell = std::cell::RefCell::new(Some(secret.clone()));
            let x: N<P> = u(&c.a.rem(&k.n.shr(2)));
            gone(n, &inp, || {
                let z = cell.borrow_mut().take().unwrap_or_else(|| secret.clone());
                let p = RPParams::<Pl<P>>::random_with_secret(&mut rng(c.seed), &z);
                let t = z.random_residue_mod_totient(&mut rng(c.seed ^ 7));
                let v = opt(SecretUnsigned::new(Secret::init_with(|| x), 2 * bits)).expect("fits");
                drop(p.commit_zero_randomizer(&t));
                drop(p.commit(&v, &t));
                t
            })?
        }
        _ => {
            let safe = n == "generate safe";
            if safe && c.seed % 16 != 0 || !P::TINY {
                return Ok(obs(false).tag("left out"));
            }
            // learn the primes from a first run with the same random stream
            let first = if safe {
                let s = RPSecret::<Pl<P>>::random(&mut rng(c.seed));
                vec![raw(s.lambda().expose_secret()), raw(s.totient_nonzero().expose_secret())]
            } else {
                let w = SecretKeyPaillierWire::<Pl<P>>::random(&mut rng(c.seed)).into_precomputed();
                [w.p_signed().contents(), w.q_signed().contents(), vec![raw(w.totient_wide_unsigned().expose_secret())]].concat()
            };
            let ((), seen) = watched(&both(first), true, || {
                if safe {
                    drop(RPSecret::<Pl<P>>::random(&mut rng(c.seed)));
                } else {
                    drop(SecretKeyPaillierWire::<Pl<P>>::random(&mut rng(c.seed)).into_precomputed());
                }
            });
            vensure!(seen.first.is_none(), format!("{n}/left in free memory"), "{seen:?}");
            seen.blocks
        }
    };
    Ok(obs(what > 0).tag(n))
}

/// Proofs: nothing of the witness is left behind by the prover.
fn proofs<P: Inst>(w: &super::zk::Wit, seed: u64) -> R {
    let (st, sec) = super::zk::honest::<P>(w);
    let ((), seen) = {
        let needles = both(super::zk::witness_bytes::<P>(&sec));
        watched(&needles, false, || drop(super::zk::crate_prove::<P>(&st, &sec, seed)))
    };
    if let Some((i, size)) = seen.first {
        return fail(format!("{:?}/left in free memory", w.s), format!("needle {i} in a freed block of {size} bytes ({} such blocks)", seen.hits));
    }
    Ok(obs(seen.blocks > 0).tag(format!("{:?}", w.s)))
}

/// The allocator does find what is left behind.
fn self_test() {
    let needle: Vec<u8> = (1..33).collect();
    let ((), seen) = watched(&[needle.clone()], true, || drop(std::hint::black_box(needle.clone())));
    assert!(seen.first == Some((0, 32)) && seen.hits == 1, "the watching allocator does not work: {seen:?}");
    let ((), seen) = watched(&[needle.clone()], true, || {
        let mut v = needle.clone();
        v.zeroize();
        drop(std::hint::black_box(v))
    });
    assert!(seen.first.is_none() && seen.blocks == 1, "{seen:?}");
}

pub fn c20(ctx: &Ctx) {
    self_test();
    let r = "an operation on wrapped values; inputs and results with distinctive bytes are looked for in every heap block freed meanwhile";
    ctx.check("wrapper/256", r, ctx.n(20_000, 400_000), || case(256), wrapper::<{ U256::LIMBS }, { U512::LIMBS }>);
    ctx.check("wrapper/2048", r, ctx.n(4_000, 80_000), || case(2048), wrapper::<{ U2048::LIMBS }, { U4096::LIMBS }>);
    ctx.check("signed/256", r, ctx.n(20_000, 400_000), || case(256), signed::<{ U256::LIMBS }, { U512::LIMBS }, { crypto_bigint::U1024::LIMBS }>);
    ctx.check("signed/1024", r, ctx.n(4_000, 80_000), || case(1024), signed::<{ crypto_bigint::U1024::LIMBS }, { U2048::LIMBS }, { U4096::LIMBS }>);
    ctx.check("scalars", r, ctx.n(6_000, 100_000), || case(300), scalars);
    let r = "a Paillier or ring-Pedersen secret was derived, used and dropped";
    ctx.check("paillier/tiny", r, ctx.n(3_000, 60_000), || case(240), paillier::<T>);
    ctx.check("paillier/k256", r, ctx.n(24, 500), || case(2000), paillier::<K>);
    let r = "a proof was made; the witness is looked for in every heap block freed by the prover";
    super::zkc::c20_proofs(ctx, r, proofs::<T>, proofs::<K>);
}
