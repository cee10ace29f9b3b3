//! C05: bounded arithmetic against exact integers.
use std::format;
use std::prelude::v1::*;
use std::vec;

use crypto_bigint::subtle::{Choice, ConditionallySelectable};
use crypto_bigint::{
    Bounded, CheckedAdd, CheckedMul, CheckedSub, Integer, Monty, NonZero, Odd, RandomMod, U1024, U128, U192, U2048,
    U256, U384, U512, U64,
};
use proptest::prelude::*;
use serde::{Deserialize, Serialize};
use zeroize::Zeroize;

use super::common::big::{Big, SBig};
use super::common::gens::*;
use super::common::runner::*;
use super::util::*;
use crate::uint::{
    BoxedEncoding, Exponentiable, Extendable, IsInvertible, MulWide, PublicSigned, SecretSigned, SecretUnsigned,
    ToMontgomery,
};
use crate::vensure;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Prog {
    /// initial registers: value, declared bound (|value| < 2^bound)
    regs: Vec<(SBig, u32)>,
    /// (operation, operand, operand, parameter)
    ops: Vec<(u8, u8, u8, u32)>,
}

fn reg(bits: u32) -> BoxedStrategy<(SBig, u32)> {
    // mostly small so that products fit, sometimes up to the limit
    (prop_oneof![3 => 0..=bits / 4, 2 => 0..=bits / 2, 1 => 0..bits])
        .prop_flat_map(move |k| (sbig_bits(k), prop_oneof![2 => Just(k), 1 => k..bits, 1 => Just(bits - 1)]))
        .boxed()
}

fn prog(bits: u32) -> BoxedStrategy<Prog> {
    (
        proptest::collection::vec(reg(bits), 2..5),
        proptest::collection::vec((0u8..14, any::<u8>(), any::<u8>(), 0..bits + 8), 1..10),
    )
        .prop_map(|(regs, ops)| Prog { regs, ops })
        .boxed()
}

fn run_prog<T>(p: &Prog) -> R
where
    T: BoxedEncoding + Bounded + Zeroize + Integer + ConditionallySelectable,
{
    let bits = T::BITS;
    let mut regs: Vec<(SecretSigned<T>, SBig, u32)> =
        p.regs.iter().map(|(v, k)| (ss::<T>(v, *k), v.clone(), *k)).collect();
    let mut done = 0;
    let mut refused = 0;
    for (i, (op, a, c, e)) in p.ops.iter().enumerate() {
        let (x, xv, xb) = regs[*a as usize % regs.len()].clone();
        let (y, yv, yb) = regs[*c as usize % regs.len()].clone();
        let yp: PublicSigned<T> = ps(&yv, yb);
        let addb = xb.max(yb) + 1;
        let mulb = xb + yb;
        let at = format!("op {i} ({op})");
        // (actual, expected value, expected bound), actual None = refused
        let (act, ev, eb): (Option<SecretSigned<T>>, SBig, u32) = match op {
            0 => (opt(x.checked_add(&y)), xv.add(&yv), addb),
            1 => (opt(CheckedAdd::<PublicSigned<T>>::checked_add(&x, &yp)), xv.add(&yv), addb),
            2 => (opt(x.checked_sub(&y)), xv.sub(&yv), addb),
            3 => (opt(CheckedMul::<SecretSigned<T>>::checked_mul(&x, &y)), xv.mul(&yv), mulb),
            4 => (opt(CheckedMul::<PublicSigned<T>>::checked_mul(&x, &yp)), xv.mul(&yv), mulb),
            5 => (Some(x.neg()), xv.neg(), xb),
            6 => (Some(-&x), xv.neg(), xb),
            7 => (no_panic(|| x.clone() + y.clone()).ok(), xv.add(&yv), addb),
            8 => (no_panic(|| x.clone() - y.clone()).ok(), xv.sub(&yv), addb),
            9 => (no_panic(|| x.clone() * y.clone()).ok(), xv.mul(&yv), mulb),
            10 => (no_panic(|| x.clone() + yp).ok(), xv.add(&yv), addb),
            11 => (no_panic(|| &x * yp).ok(), xv.mul(&yv), mulb),
            12 => {
                // range assertion and narrowing
                if *e >= 1 && *e < bits {
                    let inr = xv.in_exponent_range(*e);
                    let asserted = no_panic(|| x.assert_exponent_range(*e)).is_ok();
                    vensure!(asserted == inr, "assert_exponent_range", "{at}: x={xv:?} e={e}: accepted={asserted}, in range={inr}");
                    let pubr = ps::<T>(&xv, xb).is_in_exponent_range(*e);
                    vensure!(pubr == inr, "public_is_in_exponent_range", "{at}: x={xv:?} e={e}: got {pubr}, expected {inr}");
                    let r = opt(x.clone().ensure_exponent_range(*e));
                    if *e < bits - 1 {
                        vensure!(r.is_some() == inr, "ensure_exponent_range", "{at}: x={xv:?} e={e}: some={}, in range={inr}", r.is_some());
                    } else {
                        vensure!(r.is_none() || inr, "ensure_exponent_range", "{at}: x={xv:?} e={e} accepted");
                    }
                    if let Some(r) = r {
                        let rb = r.bound();
                        vensure!(ssv(&r) == xv, "ensure_exponent_range_value", "{at}: {:?} vs {xv:?}", ssv(&r));
                        vensure!(rb < bits && xv.mag.bits() <= rb, "ensure_exponent_range_bound", "{at}: bound {rb} for {xv:?}");
                        vensure!(rb >= *e, "ensure_exponent_range_bound_low", "{at}: bound {rb} does not cover the range {e}");
                        regs.push((r, xv, rb));
                        done += 1;
                    }
                }
                continue;
            }
            _ => {
                // views: abs, public, equality of representations
                let ab = x.abs();
                vensure!(b(ab.expose_secret()) == xv.mag && ab.bound() >= xv.mag.bits() && ab.bound() <= bits, "abs", "{at}: abs of {xv:?} is {:?} bound {}", b(ab.expose_secret()), ab.bound());
                vensure!(bool::from(x.is_negative()) == xv.neg, "is_negative", "{at}: {xv:?}");
                let p = x.to_public();
                vensure!(psv(&p) == xv, "to_public", "{at}: {:?} vs {xv:?}", psv(&p));
                vensure!(p.bound() == xb, "to_public_bound", "{at}: {} vs {xb}", p.bound());
                vensure!(p.is_negative() == xv.neg && psv(&p.neg()) == xv.neg(), "public_neg", "{at}: {xv:?}");
                vensure!(Big::from_be(&p.value().to_be_bytes()) == xv.twos(bits), "public_value", "{at}: {xv:?}");
                done += 1;
                continue;
            }
        };
        match act {
            None => {
                vensure!(eb >= bits, "spurious_refusal", "{at}: refused although the bound {eb} fits {bits} bits; {xv:?} {yv:?}");
                refused += 1;
            }
            Some(r) => {
                vensure!(eb < bits, "overflow_accepted", "{at}: accepted although the bound {eb} does not fit {bits} bits; {xv:?}[{xb}] {yv:?}[{yb}]");
                vensure!(r.bound() == eb, "bound", "{at}: bound {} expected {eb}", r.bound());
                let rv = ssv(&r);
                vensure!(rv == ev, "value", "{at}: {xv:?}, {yv:?} -> {rv:?}, expected {ev:?}");
                vensure!(rv.mag.bits() <= r.bound(), "invariant", "{at}: |{rv:?}| exceeds 2^{}", r.bound());
                regs.push((r, ev, eb));
                done += 1;
            }
        }
    }
    Ok(obs(done >= 2).tag_if(refused > 0, "refused").tag_if(regs.iter().any(|r| r.1.neg), "negative"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Ctor {
    raw: Big,
    bound: u32,
    modulus: Big,
    modulus_bits: u32,
}

fn run_ctor<T>(c: &Ctor) -> R
where
    T: BoxedEncoding + Bounded + Zeroize + Integer + ConditionallySelectable,
{
    let bits = T::BITS;
    let x: T = u(&c.raw);
    let v = SBig::from_twos(&c.raw, bits);
    let fits = c.bound < bits && v.mag.bits() <= c.bound;
    let got = opt(SecretSigned::new_from_unsigned(sec(x.clone()), c.bound));
    vensure!(got.is_some() == fits, "secret_from_unsigned", "{:?} bound {}: accepted={}", v, c.bound, got.is_some());
    if let Some(g) = &got {
        vensure!(ssv(g) == v && g.bound() == c.bound, "secret_from_unsigned_value", "{:?} bound {}", ssv(g), g.bound());
    }
    let got = PublicSigned::new_from_unsigned(x.clone(), c.bound);
    vensure!(got.is_some() == fits, "public_from_unsigned", "{:?} bound {}: accepted={}", v, c.bound, got.is_some());
    if let Some(g) = &got {
        vensure!(psv(g) == v && g.bound() == c.bound, "public_from_unsigned_value", "{:?} bound {}", psv(g), g.bound());
    }
    let pos_fits = c.bound < bits && c.raw.bits() <= c.bound;
    let got = PublicSigned::new_positive(x.clone(), c.bound);
    vensure!(got.is_some() == pos_fits, "public_positive", "{:?} bound {}: accepted={}", c.raw, c.bound, got.is_some());
    if let Some(g) = &got {
        vensure!(psv(g) == SBig::from(c.raw.clone()) && g.bound() == c.bound, "public_positive_value", "{:?}", psv(g));
    }
    let got = opt(SecretSigned::new_positive(sec(x.clone()), c.bound));
    vensure!(got.is_some() == pos_fits, "secret_positive", "value {:?} bound {}: accepted={}", c.raw, c.bound, got.is_some());
    if let Some(g) = &got {
        vensure!(ssv(g) == SBig::from(c.raw.clone()) && g.bound() == c.bound, "secret_positive_value", "{:?}", ssv(g));
    }
    let uns_fits = c.bound <= bits && c.raw.bits() <= c.bound;
    let got = opt(SecretUnsigned::new(sec(x.clone()), c.bound));
    vensure!(got.is_some() == uns_fits, "unsigned_new", "{:?} bound {}: accepted={}", c.raw, c.bound, got.is_some());
    if let Some(g) = &got {
        vensure!(b(g.expose_secret()) == c.raw && g.bound() == c.bound, "unsigned_value", "{:?}", c.raw);
        vensure!(bool::from(g.is_zero()) == c.raw.is_zero(), "unsigned_is_zero", "{:?}", c.raw);
    }
    // residues as balanced numbers
    if !c.modulus.is_zero() {
        let r = c.raw.rem(&c.modulus);
        let m = Option::<NonZero<T>>::from(NonZero::new(u::<T>(&c.modulus))).expect("non-zero");
        let want = SBig::from(r.clone()).balanced(&c.modulus);
        let got = opt(SecretSigned::new_modulo(sec(u::<T>(&r)), &m, c.modulus_bits));
        let fits = c.modulus_bits - 1 < bits && want.mag.bits() <= c.modulus_bits - 1;
        vensure!(got.is_some() == fits, "modulo", "{r:?} mod {:?} ({} bits): accepted={}", c.modulus, c.modulus_bits, got.is_some());
        if let Some(g) = got {
            vensure!(ssv(&g) == want, "modulo_value", "{r:?} mod {:?}: {:?}, expected {want:?}", c.modulus, ssv(&g));
            vensure!(g.bound() == c.modulus_bits - 1, "modulo_bound", "{}", g.bound());
        }
    }
    Ok(obs(!c.raw.is_zero()).tag_if(fits, "fits").tag_if(!fits, "refused").tag_if(v.neg, "msb"))
}

fn ctor(bits: u32) -> BoxedStrategy<Ctor> {
    (
        big_bits(bits),
        big_bits(bits),
        prop_oneof![3 => 0u32..4, 2 => Just(100u32)],
        any::<bool>(),
        0..bits + 3,
        -1i32..3,
    )
        .prop_map(move |(raw, modulus, near, neg, rb, mb)| {
            let raw = if neg { SBig::new(true, raw).twos(bits) } else { raw };
            // a bound close to the actual magnitude, or an arbitrary one
            let mag = SBig::from_twos(&raw, bits).mag.bits();
            let bound = if near < 4 { (mag + near).saturating_sub(1) } else { rb };
            let modulus_bits = (modulus.bits() as i32 + mb).clamp(1, bits as i32 + 1) as u32;
            Ctor { raw, bound, modulus, modulus_bits }
        })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Wide {
    a: SBig,
    ab: u32,
    c: SBig,
    cb: u32,
    raw_a: Big,
    raw_c: Big,
    wide: Big,
}

fn wide(bits: u32, rbits: u32, wbits: u32) -> BoxedStrategy<Wide> {
    (reg(bits), reg(rbits), big_bits(bits), big_bits(rbits), prop_oneof![big_bits(wbits), big_bits(bits + 1), big_bits(bits)])
        .prop_map(|((a, ab), (c, cb), raw_a, raw_c, wide)| Wide { a, ab, c, cb, raw_a, raw_c, wide })
        .boxed()
}

fn run_wide<T, Rr, W>(c: &Wide) -> R
where
    T: BoxedEncoding + Bounded + Zeroize + Integer + ConditionallySelectable + Extendable<W> + MulWide<Rr, W>,
    Rr: BoxedEncoding + Bounded + Zeroize + Integer,
    W: BoxedEncoding + Bounded + Zeroize + Integer + ConditionallySelectable,
{
    let x = ss::<T>(&c.a, c.ab);
    let w: SecretSigned<W> = x.to_wide();
    vensure!(ssv(&w) == c.a && w.bound() == c.ab, "secret_to_wide", "{:?} -> {:?}", c.a, ssv(&w));
    let p = ps::<T>(&c.a, c.ab).to_wide::<W>();
    vensure!(psv(&p) == c.a && p.bound() == c.ab, "public_to_wide", "{:?} -> {:?}", c.a, psv(&p));
    let y = ps::<Rr>(&c.c, c.cb);
    let m: SecretSigned<W> = x.mul_wide_public(&y);
    let want = c.a.mul(&c.c);
    vensure!(ssv(&m) == want, "mul_wide_public", "{:?} * {:?} = {:?}, expected {want:?}", c.a, c.c, ssv(&m));
    vensure!(m.bound() == c.ab + c.cb, "mul_wide_public_bound", "{} vs {}+{}", m.bound(), c.ab, c.cb);
    let ua: T = u(&c.raw_a);
    let uc: Rr = u(&c.raw_c);
    let prod: W = ua.mul_wide(&uc);
    vensure!(b(&prod) == c.raw_a.mul(&c.raw_c), "mul_wide", "{:?} * {:?} = {:?}", c.raw_a, c.raw_c, b(&prod));
    vensure!(b(&ua.to_wide()) == c.raw_a, "to_wide", "{:?}", c.raw_a);
    let uw: W = u(&c.wide);
    let back = T::try_from_wide(&uw);
    vensure!(back.is_some() == (c.wide.bits() <= T::BITS), "try_from_wide", "{:?}: some={}", c.wide, back.is_some());
    if let Some(n) = back {
        vensure!(b(&n) == c.wide, "try_from_wide_value", "{:?} -> {:?}", c.wide, b(&n));
    }
    let su: SecretUnsigned<T> = su(&c.raw_a, T::BITS);
    let sw: SecretUnsigned<W> = su.to_wide();
    vensure!(b(sw.expose_secret()) == c.raw_a, "unsigned_to_wide", "{:?}", c.raw_a);
    let ext = sec(ua.clone()).to_wide::<W>();
    vensure!(b(ext.expose_secret()) == c.raw_a, "secret_uint_to_wide", "{:?}", c.raw_a);
    Ok(obs(!c.a.mag.is_zero() && !c.c.mag.is_zero()).tag_if(c.a.neg != c.c.neg, "mixed_sign").tag_if(c.wide.bits() > T::BITS, "narrow_refused"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Enc {
    v: Big,
    bytes: Vec<u8>,
    w: Big,
    mask: Big,
    modulus: Big,
}

fn run_enc<T>(c: &Enc) -> R
where
    T: BoxedEncoding + Bounded + Zeroize + Integer + crypto_bigint::Gcd<Output = T>,
{
    let x: T = u(&c.v);
    let by = x.to_be_bytes();
    vensure!(by.len() == T::BYTES && by.to_vec() == c.v.to_be(T::BYTES), "to_be_bytes", "{:?} -> {:?}", c.v, by);
    let r = T::try_from_be_bytes(&c.bytes);
    vensure!(r.is_ok() == (c.bytes.len() == T::BYTES), "try_from_be_bytes", "length {} accepted={}", c.bytes.len(), r.is_ok());
    if let Ok(r) = r {
        vensure!(b(&r) == Big::from_be(&c.bytes), "try_from_be_bytes_value", "{:?}", c.bytes);
    }
    let m = if c.modulus.is_zero() { Big::one() } else { c.modulus.clone() };
    let inv = x.is_invertible(&u::<T>(&m));
    vensure!(inv == c.v.gcd(&m).is_one(), "is_invertible", "{:?} mod {m:?}: {inv}", c.v);
    // modular addition of unsigned numbers, masking
    let (a, d) = (c.v.rem(&m), c.w.rem(&m));
    let nz = sec(Option::<NonZero<T>>::from(NonZero::new(u::<T>(&m))).expect("nz"));
    let s = su::<T>(&a, m.bits()).add_mod(&su::<T>(&d, m.bits()), &nz);
    vensure!(b(s.expose_secret()) == a.add(&d).rem(&m), "add_mod", "{a:?}+{d:?} mod {m:?} = {:?}", b(s.expose_secret()));
    vensure!(s.bound() >= b(s.expose_secret()).bits() && s.bound() <= T::BITS, "add_mod_bound", "{}", s.bound());
    let masked = &su::<T>(&c.v, T::BITS) & u::<T>(&c.mask);
    let want = Big::from_be(&c.v.to_be(T::BYTES).iter().zip(c.mask.to_be(T::BYTES)).map(|(p, q)| p & q).collect::<Vec<_>>());
    vensure!(b(masked.expose_secret()) == want, "bitand", "{:?} & {:?}", c.v, c.mask);
    let rem = &sec(x) % nz.expose_secret();
    vensure!(b(rem.expose_secret()) == c.v.rem(&m), "secret_rem", "{:?} % {m:?}", c.v);
    Ok(obs(!c.v.is_zero()).tag_if(inv, "invertible").tag_if(c.bytes.len() == T::BYTES, "right_length"))
}

fn enc(bits: u32) -> BoxedStrategy<Enc> {
    let nb = (bits / 8) as usize;
    (
        big_bits(bits),
        prop_oneof![proptest::collection::vec(any::<u8>(), nb), proptest::collection::vec(any::<u8>(), 0..nb + 9)],
        big_bits(bits),
        big_bits(bits),
        big_bits(bits),
    )
        .prop_map(|(v, bytes, w, mask, modulus)| Enc { v, bytes, w, mask, modulus })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Pow {
    modulus: Big,
    base: Big,
    e: SBig,
    bound: u32,
}

fn pow(mbits: u32, ebits: u32) -> BoxedStrategy<Pow> {
    (big_bits(mbits), big_bits(mbits), reg(ebits))
        .prop_map(|(m, base, (e, bound))| {
            let m = if m.bits() < 2 { Big::from_u64(3) } else if m.is_odd() { m } else { m.add(&Big::one()) };
            let base = base.rem(&m);
            Pow { modulus: m, base, e, bound }
        })
        .boxed()
}

fn run_pow<T, V>(c: &Pow) -> R
where
    T: BoxedEncoding + Bounded + Zeroize + Integer,
    V: BoxedEncoding + Bounded + Zeroize + Integer + ConditionallySelectable,
    T::Monty: Exponentiable<SecretSigned<V>>
        + Exponentiable<PublicSigned<V>>
        + Exponentiable<SecretUnsigned<V>>
        + crypto_bigint::modular::Retrieve<Output = T>,
{
    use crypto_bigint::modular::Retrieve;
    let params = <T::Monty as Monty>::new_params_vartime(Option::<Odd<T>>::from(Odd::new(u::<T>(&c.modulus))).expect("odd"));
    let base = u::<T>(&c.base).to_montgomery(&params);
    let unit = c.base.gcd(&c.modulus).is_one();
    // the unsigned exponent works for any base
    let w = c.base.powmod(&c.e.mag, &c.modulus);
    let g = b(&base.pow(&su::<V>(&c.e.mag, c.bound)).retrieve());
    vensure!(g == w, "pow_unsigned", "{:?}^{:?} mod {:?}: {g:?}, expected {w:?}", c.base, c.e.mag, c.modulus);
    if unit {
        let w = c.base.powmod_signed(&c.e, &c.modulus).expect("unit");
        let g = b(&base.pow(&ss::<V>(&c.e, c.bound)).retrieve());
        vensure!(g == w, "pow_secret", "{:?}^{:?} mod {:?}: {g:?}, expected {w:?}", c.base, c.e, c.modulus);
        let g = b(&base.pow(&ps::<V>(&c.e, c.bound)).retrieve());
        vensure!(g == w, "pow_public", "{:?}^{:?} mod {:?}: {g:?}, expected {w:?}", c.base, c.e, c.modulus);
    }
    Ok(obs(unit && !c.e.mag.is_zero()).tag_if(c.e.neg, "negative_exponent").tag_if(!unit, "non_unit"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct SumCase {
    xs: Vec<(SBig, u32)>,
}

pub fn c05(ctx: &Ctx) {
    let n = |q, t| ctx.n(q, t);
    let r = "random register programs over add/sub/mul/neg/range operations; non-trivial when at least two operations produced results";
    ctx.check("prog/u128", r, n(60000, 1500000), || prog(128), run_prog::<U128>);
    ctx.check("prog/u256", r, n(60000, 1500000), || prog(256), run_prog::<U256>);
    ctx.check("prog/u1024", r, n(10000, 200000), || prog(1024), run_prog::<U1024>);
    let r = "constructors over raw values with bounds at, around and away from the magnitude; non-trivial when the value is non-zero";
    ctx.check("ctor/u128", r, n(60000, 1500000), || ctor(128), run_ctor::<U128>);
    ctx.check("ctor/u512", r, n(30000, 600000), || ctor(512), run_ctor::<U512>);
    ctx.check("ctor/u2048", r, n(6000, 100000), || ctor(2048), run_ctor::<U2048>);
    let r = "widening, wide products, narrowing; non-trivial when both factors are non-zero";
    ctx.check("wide/128x128", r, n(40000, 900000), || wide(128, 128, 256), run_wide::<U128, U128, U256>);
    ctx.check("wide/256x256", r, n(40000, 900000), || wide(256, 256, 512), run_wide::<U256, U256, U512>);
    ctx.check("wide/1024x1024", r, n(4000, 60000), || wide(1024, 1024, 2048), run_wide::<U1024, U1024, U2048>);
    let r = "byte encodings, gcd-invertibility, modular sums, masks, remainders; non-trivial when the value is non-zero";
    ctx.check("enc/u128", r, n(40000, 900000), || enc(128), run_enc::<U128>);
    ctx.check("enc/u256", r, n(20000, 500000), || enc(256), run_enc::<U256>);
    ctx.check("enc/u1024", r, n(3000, 40000), || enc(1024), run_enc::<U1024>);
    let r = "modular exponentiation with signed exponents over odd moduli; non-trivial when the base is invertible and the exponent non-zero";
    ctx.check("pow/256^256", r, n(8000, 200000), || pow(256, 256), run_pow::<U256, U256>);
    ctx.check("pow/256^512", r, n(5000, 120000), || pow(256, 512), run_pow::<U256, U512>);
    ctx.check("pow/512^256", r, n(5000, 120000), || pow(512, 256), run_pow::<U512, U256>);
    ctx.check("pow/2048^2048", r, n(40, 600), || pow(2048, 2048), run_pow::<U2048, U2048>);
    ctx.check(
        "sum/u256",
        "sums over sequences; non-trivial with at least two terms",
        n(20000, 400000),
        || proptest::collection::vec(reg(200), 0..8).prop_map(|xs| SumCase { xs }).boxed(),
        |c: &SumCase| {
            let items: Vec<SecretSigned<U256>> = c.xs.iter().map(|(v, k)| ss(v, *k)).collect();
            let s: SecretSigned<U256> = items.iter().sum();
            let w = c.xs.iter().fold(SBig::zero(), |a, (v, _)| a.add(v));
            vensure!(ssv(&s) == w, "sum", "{:?}, expected {w:?}", ssv(&s));
            vensure!(w.mag.bits() <= s.bound(), "sum_bound", "bound {} for {w:?}", s.bound());
            let z = SecretSigned::<U256>::zero();
            vensure!(ssv(&z) == SBig::zero() && psv(&PublicSigned::<U256>::zero()) == SBig::zero() && psv(&PublicSigned::<U256>::one()) == SBig::from(1), "constants");
            Ok(obs(c.xs.len() >= 2))
        },
    );
}
