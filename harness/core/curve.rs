//! Scalars, points, conversions, signatures, child keys (C07, C08, C09, C18).
use std::format;
use std::prelude::v1::*;
use std::sync::{Arc, LazyLock};
use std::vec;

use digest::XofReader;
use elliptic_curve::{Curve, CurveArithmetic};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use serde::{Deserialize, Serialize};

use super::common::big::{Big, SBig};
pub use super::common::ecref::*;
use super::common::gens::*;
use super::common::runner::*;
use super::util::*;
use crate::curve::{secret_split, Point, RecoverableSignature, Scalar};
use crate::dev::TestParams;
use crate::k256::ProductionParams112 as K;
use crate::paillier::PaillierParams;
use crate::params::*;
use crate::tools::Secret;
use crate::uint::{PublicSigned, SecretSigned};
use crate::vensure;
use crate::SchemeParams;

type T = TestParams;
type PU<P> = <<P as SchemeParams>::Paillier as PaillierParams>::Uint;
type PW<P> = <<P as SchemeParams>::Paillier as PaillierParams>::WideUint;

fn js<X: Serialize>(x: &X) -> serde_json::Value {
    serde_json::to_value(x).expect("serializes")
}

// ---------------------------------------------------------------- C07

#[derive(Clone, Debug, Serialize, Deserialize)]
struct ConvCase {
    a: Big,
    b: Big,
    x: SBig,
    y: SBig,
    w: SBig,
    extra: u32,
}

fn conv_case<P: Inst>() -> BoxedStrategy<ConvCase> {
    let bits = <P::Paillier as PaillierParams>::MODULUS_BITS;
    // values with a small distance from multiples of the order
    let near = |bits: u32| {
        let n = P::rc().n.clone();
        (big_bits(bits - n.bits() - 2), -3i64..4, any::<bool>())
            .prop_map(move |(k, d, neg)| {
                let v = SBig::from(k.mul(&n)).add(&SBig::from(d));
                if neg {
                    v.neg()
                } else {
                    v
                }
            })
            .boxed()
    };
    let half = {
        let n = P::rc().n.clone();
        (-3i64..4).prop_map(move |d| SBig::from(n.shr(1)).add(&SBig::from(d)).mag).boxed()
    };
    let s = move || prop_oneof![4 => scalar_big::<P>(), 1 => half.clone()];
    let v = move |b: u32| prop_oneof![3 => sbig_bits(b - 1), 2 => near(b)];
    (s(), s(), v(bits), v(bits), v(2 * bits), 0u32..4)
        .prop_map(|(a, b, x, y, w, extra)| ConvCase { a, b, x, y, w, extra })
        .boxed()
}

fn conv<P: Inst>(c: &ConvCase) -> R {
    let n = &P::rc().n;
    let (sa, sb) = (sc::<P>(&c.a), sc::<P>(&c.b));
    // public: canonical residue in [0, n)
    let pa = public_signed_from_scalar::<P>(&sa);
    vensure!(psv(&pa) == SBig::from(c.a.clone()), "public_from_scalar/value", "{:?} became {:?}", c.a, psv(&pa));
    vensure!(pa.bound() == n.bits(), "public_from_scalar/bound");
    vensure!(scalar_from_signed::<P>(&pa) == sa, "public_roundtrip");
    // secret: balanced residue
    let sega = secret_signed_from_scalar::<P>(&ssc::<P>(&c.a));
    let bal = SBig::from(c.a.clone()).balanced(n);
    vensure!(ssv(&sega) == bal, "secret_from_scalar/value", "{:?} became {:?}, expected {bal:?}", c.a, ssv(&sega));
    vensure!(sega.bound() == n.bits() - 1, "secret_from_scalar/bound");
    vensure!(bal.mag.bits() <= sega.bound(), "secret_from_scalar/in_bound");
    vensure!(*secret_scalar_from_signed::<P>(&sega).expose_secret() == sa, "secret_roundtrip");
    // arbitrary integers, normal and wide, public and secret
    let lim = <PU<P> as crypto_bigint::Bounded>::BITS - 1;
    let mut got = vec![];
    for v in [&c.x, &c.y] {
        let bound = (v.mag.bits() + c.extra).min(lim);
        let e = v.modulo(n);
        let p: PublicSigned<PU<P>> = ps(v, bound);
        let s: SecretSigned<PU<P>> = ss(v, bound);
        let r1 = scalar_from_signed::<P>(&p);
        vensure!(scv(&r1) == e, "scalar_from_signed", "{v:?} -> {:?}, expected {e:?}", scv(&r1));
        vensure!(scv(secret_scalar_from_signed::<P>(&s).expose_secret()) == e, "secret_scalar_from_signed", "{v:?}");
        vensure!(scv(&scalar_from_wide_signed::<P>(&p.to_wide())) == e, "scalar_from_wide_signed/widened", "{v:?}");
        vensure!(scv(secret_scalar_from_wide_signed::<P>(&s.to_wide()).expose_secret()) == e, "secret_scalar_from_wide_signed/widened", "{v:?}");
        got.push(r1);
    }
    let wlim = <PW<P> as crypto_bigint::Bounded>::BITS - 1;
    let bound = (c.w.mag.bits() + c.extra).min(wlim);
    let e = c.w.modulo(n);
    let pw: PublicSigned<PW<P>> = ps(&c.w, bound);
    let sw: SecretSigned<PW<P>> = ss(&c.w, bound);
    vensure!(scv(&scalar_from_wide_signed::<P>(&pw)) == e, "scalar_from_wide_signed", "{:?}", c.w);
    vensure!(scv(secret_scalar_from_wide_signed::<P>(&sw).expose_secret()) == e, "secret_scalar_from_wide_signed", "{:?}", c.w);
    // homomorphism: through a wide product of the two integers
    let prod = SecretSigned::<PU<P>>::mul_wide_public::<PU<P>, PW<P>>(&ss(&c.x, lim), &ps(&c.y, lim));
    vensure!(*secret_scalar_from_wide_signed::<P>(&prod).expose_secret() == got[0] * got[1], "mul_hom");
    let sum = c.x.add(&c.y);
    if sum.mag.bits() <= lim {
        vensure!(scalar_from_signed::<P>(&ps(&sum, lim)) == got[0] + got[1], "add_hom");
    }
    vensure!(scalar_from_signed::<P>(&ps(&c.x.neg(), lim)) == -got[0], "neg_hom");
    // scalar operations seen through the integers
    let ia = SecretSigned::<PU<P>>::to_public(&secret_signed_from_scalar::<P>(&ssc::<P>(&c.a)));
    let ib = public_signed_from_scalar::<P>(&sb);
    let pr = psv(&ia).mul(&psv(&ib));
    vensure!(scalar_from_signed::<P>(&ps(&pr, lim)) == sa * sb, "mul_hom/scalars");
    Ok(obs(true)
        .tag_if(bal.neg, "scalar above half the order")
        .tag_if(c.x.neg, "negative integer")
        .tag_if(c.x.mag.bits() > n.bits(), "integer above the order")
        .tag_if(c.w.mag.bits() > lim, "wide integer")
        .tag_if(e.is_zero(), "multiple of the order"))
}

pub fn c07(ctx: &Ctx) {
    ctx.check("conversions_tiny", "two scalars and three integers (uniform, edge values, near multiples and halves of the order)", ctx.n(60_000, 2_000_000), conv_case::<T>, conv::<T>);
    ctx.check("conversions_k256", "the same for the secp256k1 parameters", ctx.n(16_000, 300_000), conv_case::<K>, conv::<K>);
}

// ---------------------------------------------------------------- C08

#[derive(Clone, Debug, Serialize, Deserialize)]
struct FieldCase {
    a: Big,
    b: Big,
    c: Big,
    list: Vec<Big>,
    small: u64,
    wide: Vec<u8>,
    seed: u64,
}

fn scalar_field<P: Inst>(c: &FieldCase) -> R {
    use elliptic_curve::subtle::{Choice, ConditionallySelectable};
    let n = &P::rc().n;
    let (a, b, cc) = (sc::<P>(&c.a), sc::<P>(&c.b), sc::<P>(&c.c));
    vensure!(scv(&a) == c.a, "value");
    vensure!((a == b) == (c.a == c.b), "eq");
    vensure!((a < b) == (c.a < c.b) || P::TINY, "ord");
    let sum = c.a.add(&c.b).rem(n);
    let dif = SBig::from(c.a.clone()).sub(&SBig::from(c.b.clone())).modulo(n);
    let prd = c.a.mulmod(&c.b, n);
    vensure!(scv(&(a + b)) == sum && scv(&(&a + &b)) == sum, "add");
    vensure!(scv(&(a - b)) == dif, "sub");
    vensure!(scv(&(a * b)) == prd && scv(&(a * &b)) == prd, "mul");
    let (mut x, mut y, mut z) = (a, a, a);
    x += &b;
    y -= &b;
    z *= &b;
    vensure!(scv(&x) == sum && scv(&y) == dif && scv(&z) == prd, "assign ops");
    vensure!(scv(&-a) == SBig::from(c.a.clone()).neg().modulo(n), "neg");
    vensure!((a + b) * cc == a * cc + b * cc, "distributive");
    let inv: Option<Scalar<P>> = a.invert().into();
    vensure!(inv.map(|i| scv(&i)) == c.a.invmod(n), "invert");
    let ls: Vec<Scalar<P>> = c.list.iter().map(sc::<P>).collect();
    let esum = c.list.iter().fold(Big::zero(), |s, v| s.add(v).rem(n));
    let eprod = c.list.iter().fold(Big::one(), |s, v| s.mulmod(v, n));
    vensure!(scv(&ls.iter().sum::<Scalar<P>>()) == esum && scv(&ls.iter().copied().sum::<Scalar<P>>()) == esum, "sum");
    vensure!(scv(&ls.iter().copied().product::<Scalar<P>>()) == eprod, "product");
    vensure!(scv(&Scalar::<P>::from(c.small)) == Big::from_u64(c.small).rem(n), "from_u64", "{}", c.small);
    for ch in [0u8, 1] {
        let s = Scalar::<P>::conditional_select(&a, &b, Choice::from(ch));
        vensure!(s == if ch == 0 { a } else { b }, "select");
    }
    vensure!(scv(&Scalar::<P>::ZERO).is_zero() && scv(&Scalar::<P>::ONE).is_one(), "constants");
    // reduction of arbitrary bytes
    let l = Scalar::<P>::repr_len();
    let w = &c.wide[..l];
    vensure!(scv(&Scalar::<P>::from_reduced_bytes(w)) == Big::from_be(w).rem(n), "from_reduced_bytes", "{w:?}");
    // splitting
    for num in 1..=5usize {
        let parts = secret_split(&mut rng(c.seed), ssc::<P>(&c.a), num);
        vensure!(parts.len() == num, "split/len");
        let s = parts.iter().fold(Big::zero(), |s, v| s.add(&scv(v.expose_secret())).rem(n));
        vensure!(s == c.a, "split/sum", "{num} parts");
        for (i, x) in parts.iter().enumerate() {
            // all but the last are random non-zero
            if i + 1 < num {
                vensure!(!scv(x.expose_secret()).is_zero(), "split/zero part");
                if !P::TINY {
                    vensure!(scv(x.expose_secret()).bits() > 128, "split/small part");
                    for y in &parts[..i] {
                        vensure!(y.expose_secret() != x.expose_secret(), "split/equal parts");
                    }
                }
            }
        }
        if num > 1 && !P::TINY {
            let other = secret_split(&mut rng(c.seed ^ 1), ssc::<P>(&c.a), num);
            vensure!(other[0].expose_secret() != parts[0].expose_secret(), "split/ignores rng");
        }
    }
    Ok(obs(!c.a.is_zero() && !c.b.is_zero()).tag_if(c.list.is_empty(), "empty list").tag_if(c.a.is_zero(), "zero"))
}

fn field_case<P: Inst>() -> BoxedStrategy<FieldCase> {
    let s = scalar_big::<P>;
    (s(), s(), s(), proptest::collection::vec(s(), 0..6), {
            // the tiny curve's backend takes only integers below the order here
            let lim = P::rc().n.low_bits(63).low_u64();
            if P::TINY { prop_oneof![0..lim, 0u64..5].boxed() } else { prop_oneof![any::<u64>(), 0u64..5].boxed() }
        }, proptest::collection::vec(prop_oneof![any::<u8>(), Just(255u8)], 32), any::<u64>())
        .prop_map(|(a, b, c, list, small, wide, seed)| FieldCase { a, b, c, list, small, wide, seed })
        .boxed()
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct GroupCase {
    a: Big,
    b: Big,
    k: Big,
    list: Vec<Big>,
}

fn group_case<P: Inst>() -> BoxedStrategy<GroupCase> {
    let s = scalar_big::<P>;
    let n = P::rc().n.clone();
    (s(), s(), s(), proptest::collection::vec(s(), 0..5), 0u8..8)
        .prop_map(move |(a, b, k, list, rel)| {
            // sometimes related points: equal, opposite
            let b = match rel {
                0 => a.clone(),
                1 => SBig::from(a.clone()).neg().modulo(&n),
                _ => b,
            };
            GroupCase { a, b, k, list }
        })
        .boxed()
}

fn group<P: Inst>(c: &GroupCase) -> R {
    let rc = P::rc();
    let g = Point::<P>::generator();
    vensure!(ptv(&g) == Some(rc.g.clone()), "generator");
    vensure!(ptv(&Point::<P>::identity()).is_none(), "identity");
    let (a, b, k) = (sc::<P>(&c.a), sc::<P>(&c.b), sc::<P>(&c.k));
    let (ra, rb) = (rc.gmul(&c.a), rc.gmul(&c.b));
    let (pa, pb) = (a.mul_by_generator(), b.mul_by_generator());
    vensure!(ptv(&pa) == ra && ptv(&pb) == rb, "mul_by_generator", "{:?}", c.a);
    vensure!(pa == pt::<P>(&ra), "decode agrees");
    vensure!(g * a == pa && g * &a == pa && &g * a == pa && &g * &a == pa, "generator multiples");
    vensure!(ptv(&(pa + pb)) == rc.add(&ra, &rb), "add");
    vensure!(pa + pb == (a + b).mul_by_generator(), "add/scalars");
    vensure!((pa == pb) == (ra == rb), "eq");
    let rk = rc.mul(&c.k, &ra);
    vensure!(ptv(&(pa * k)) == rk && ptv(&(pa * &k)) == rk && ptv(&(&pa * k)) == rk && ptv(&(&pa * &k)) == rk, "mul");
    let sk = sec(k);
    vensure!(pa * sk.clone() == pa * k && pa * &sk == pa * k && &pa * sk.clone() == pa * k && &pa * &sk == pa * k, "mul by secret");
    vensure!(sec(a).mul_by_generator() == pa, "secret mul_by_generator");
    vensure!(pa * k == (a * k).mul_by_generator(), "mul/scalars");
    vensure!(pa * -Scalar::<P>::ONE + pa == Point::identity(), "inverse");
    let ps: Vec<Point<P>> = c.list.iter().map(|x| sc::<P>(x).mul_by_generator()).collect();
    let esum = c.list.iter().fold(None, |s: Aff, x| rc.add(&s, &rc.gmul(x)));
    vensure!(ptv(&ps.iter().sum::<Point<P>>()) == esum && ptv(&ps.iter().copied().sum::<Point<P>>()) == esum, "sum");
    if let Some((x, _)) = &ra {
        vensure!(scv(&pa.x_coordinate()) == x.rem(&rc.n), "x_coordinate");
    }
    match pa.to_verifying_key() {
        None => vensure!(ra.is_none(), "verifying key refused"),
        Some(v) => {
            vensure!(ra.is_some(), "verifying key of the identity");
            vensure!(Point::<P>::from_verifying_key(&v) == pa, "verifying key roundtrip");
        }
    }
    Ok(obs(ra.is_some() && rb.is_some()).tag_if(ra == rb, "equal points").tag_if(ra == rc.neg(&rb), "opposite points").tag_if(ra.is_none(), "identity"))
}

/// Points given by their x coordinate, the whole range of it (multiples of the generator never reach its top).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct LiftCase {
    x: Big,
    odd: bool,
    k: Big,
}

fn lift_case<P: Inst>() -> BoxedStrategy<LiftCase> {
    let rc = P::rc();
    let top = rc.p.sub(&rc.n).low_u64();
    let lim = if P::TINY { top } else { u64::MAX };
    let n = rc.n.clone();
    let x = prop_oneof![
        2 => big_below(rc.p.clone()),
        3 => (0..lim).prop_map(move |d| n.add(&Big::from_u64(d))),
        1 => (0u64..1000).prop_map(|d| P::rc().p.sub(&Big::from_u64(1 + d))),
        1 => (0u64..1000).prop_map(|d| P::rc().n.sub(&Big::from_u64(1 + d))),
    ];
    (x, any::<bool>(), scalar_big::<P>()).prop_map(|(x, odd, k)| LiftCase { x, odd, k }).boxed()
}

fn lift<P: Inst>(c: &LiftCase) -> R {
    let rc = P::rc();
    let mut x = c.x.clone();
    let r = loop {
        if x >= rc.p {
            x = rc.n.clone();
        }
        if let Some(r) = rc.lift(&x, c.odd) {
            break r;
        }
        x = x.add(&Big::one());
    };
    let p = pt::<P>(&r);
    vensure!(ptv(&p) == r, "lift/decode");
    vensure!(scv(&p.x_coordinate()) == x.rem(&rc.n), "lift/x_coordinate", "x={x:?} got {:?}", p.x_coordinate());
    let k = sc::<P>(&c.k);
    vensure!(ptv(&(p * k)) == rc.mul(&c.k, &r), "lift/mul");
    vensure!(ptv(&(p + k.mul_by_generator())) == rc.add(&r, &rc.gmul(&c.k)), "lift/add");
    vensure!(ptv(&(p + p)) == rc.add(&r, &r), "lift/double");
    let v = p.to_verifying_key();
    vensure!(v.is_some_and(|v| Point::<P>::from_verifying_key(&v) == p), "lift/verifying key");
    Ok(obs(true).tag_if(x >= rc.n, "x not below the order"))
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BytesCase {
    bytes: Vec<u8>,
}

/// Byte strings around the canonical scalar encodings.
fn scalar_bytes<P: Inst>() -> BoxedStrategy<BytesCase> {
    let l = P::rc().flen;
    let n = P::rc().n.clone();
    let fit = move |v: &Big| v.low_bits(l as u32 * 8).to_be(l);
    let n2 = n.clone();
    prop_oneof![
        3 => scalar_big::<P>().prop_map(move |v| fit(&v)),
        3 => (0u64..8).prop_map(move |d| fit(&n.add(&Big::from_u64(d)))),
        2 => big_bits(l as u32 * 8).prop_map(move |v| fit(&v)),
        2 => (big_bits(40), 0u8..2).prop_map(move |(v, _)| fit(&n2.add(&v))),
        2 => (scalar_big::<P>(), 0usize..6).prop_map(move |(v, cut)| { let mut b = v.to_be(l); b.drain(..cut.min(l)); b }),
        2 => (scalar_big::<P>(), 1usize..6, any::<bool>()).prop_map(move |(v, add, front)| {
            let mut b = v.to_be(l);
            for _ in 0..add { if front { b.insert(0, 0) } else { b.push(0) } }
            b
        }),
        1 => bytes(40),
    ]
    .prop_map(|bytes| BytesCase { bytes })
    .boxed()
}

fn both<X: Serialize + for<'a> Deserialize<'a>>(hexbytes: &[u8]) -> (Option<X>, Option<X>) {
    let hexs = format!("0x{}", hexbytes.iter().map(|b| format!("{b:02x}")).collect::<String>());
    let j: Option<X> = serde_json::from_value(serde_json::Value::String(hexs)).ok();
    let mut enc = (hexbytes.len() as u64).to_le_bytes().to_vec();
    enc.extend(hexbytes);
    let b: Option<X> = bincode::deserialize(&enc).ok();
    (j, b)
}

fn scalar_encoding<P: Inst>(c: &BytesCase) -> R {
    let rc = P::rc();
    let v = Big::from_be(&c.bytes);
    let ok = c.bytes.len() == rc.flen && v < rc.n;
    let direct = Scalar::<P>::try_from_be_bytes(&c.bytes).ok();
    vensure!(direct.is_some() == ok, "scalar/accepted", "{:?}: accepted {}, canonical {ok}", c.bytes, direct.is_some());
    vensure!(Scalar::<P>::try_from(c.bytes.as_slice()).ok() == direct, "scalar/try_from");
    let (j, b) = both::<Scalar<P>>(&c.bytes);
    vensure!(j == direct && b == direct, "scalar/serde", "{:?}", c.bytes);
    if let Some(s) = direct {
        vensure!(scv(&s) == v, "scalar/value");
        vensure!(s.to_be_bytes().as_slice() == c.bytes, "scalar/reencode");
        vensure!(Scalar::<P>::repr_len() == rc.flen, "scalar/repr_len");
        let enc = bincode::serialize(&s).expect("serializes");
        vensure!(enc.len() == 8 + rc.flen && enc[8..] == c.bytes, "scalar/bincode");
        let back: Scalar<P> = serde_json::from_value(js(&s)).expect("decodes");
        vensure!(back == s, "scalar/json");
        let senc = bincode::serialize(&sec(s)).expect("serializes");
        vensure!(senc == enc, "scalar/secret encoding");
    }
    Ok(obs(true).tag(if ok { "canonical" } else if c.bytes.len() == rc.flen { "not below the order" } else { "wrong length" }))
}

fn point_bytes<P: Inst>() -> BoxedStrategy<BytesCase> {
    let rc = P::rc();
    let fl = rc.flen;
    prop_oneof![
        4 => (scalar_big::<P>()).prop_map(move |k| rc.encode(&rc.gmul(&k))),
        3 => (big_below(rc.p.clone()), 0u8..9).prop_map(move |(x, t)| { let mut v = vec![t]; v.extend(x.to_be(fl)); v }),
        2 => (scalar_big::<P>(), 0u8..9).prop_map(move |(k, t)| { let mut v = rc.encode(&rc.gmul(&k)); v[0] = t; v }),
        // x coordinate not reduced
        2 => (scalar_big::<P>(), any::<bool>(), big_bits(32)).prop_map(move |(k, small, d)| {
            let x = if small { d } else { rc.gmul(&k).map(|q| q.0).unwrap_or_default() };
            let mut v = vec![2];
            let y = x.add(&rc.p);
            v.extend(if y.bits() as usize <= fl * 8 { y.to_be(fl) } else { x.to_be(fl) });
            v
        }),
        // uncompressed and hybrid encodings
        2 => (scalar_big::<P>(), 4u8..8).prop_map(move |(k, t)| {
            let mut v = vec![t];
            if let Some((x, y)) = rc.gmul(&k) { v.extend(x.to_be(fl)); v.extend(y.to_be(fl)); }
            v
        }),
        1 => (0usize..40).prop_map(|n| vec![0u8; n]),
        1 => (scalar_big::<P>(), 0usize..4, any::<bool>()).prop_map(move |(k, n, cut)| {
            let mut v = rc.encode(&rc.gmul(&k));
            if cut { v.truncate(v.len() - n) } else { v.extend(vec![0; n]) }
            v
        }),
        1 => bytes(66),
    ]
    .prop_map(|bytes| BytesCase { bytes })
    .boxed()
}

fn point_encoding<P: Inst>(c: &BytesCase) -> R {
    let rc = P::rc();
    let want = rc.decode(&c.bytes);
    let direct = Point::<P>::try_from_compressed_bytes(&c.bytes).ok();
    vensure!(direct.is_some() == want.is_some(), "point/accepted", "{:?}: accepted {}, canonical {}", c.bytes, direct.is_some(), want.is_some());
    vensure!(Point::<P>::try_from(c.bytes.as_slice()).ok() == direct, "point/try_from");
    let (j, b) = both::<Point<P>>(&c.bytes);
    vensure!(j == direct && b == direct, "point/serde", "{:?}", c.bytes);
    if let (Some(p), Some(w)) = (direct, &want) {
        vensure!(p.to_compressed_array().as_slice() == c.bytes, "point/reencode", "{:?}", c.bytes);
        vensure!(ptv(&p) == *w, "point/value");
        let enc = bincode::serialize(&p).expect("serializes");
        vensure!(enc.len() == 8 + rc.flen + 1 && enc[8..] == c.bytes, "point/bincode");
        let back: Point<P> = serde_json::from_value(js(&p)).expect("decodes");
        vensure!(back == p, "point/json");
    }
    Ok(obs(true).tag(match (&want, c.bytes.first()) {
        (Some(None), _) => "identity",
        (Some(_), _) => "canonical",
        (None, Some(2 | 3)) if c.bytes.len() == rc.flen + 1 => "x not on the curve or not reduced",
        (None, _) if c.bytes.len() == rc.flen + 1 => "wrong tag",
        _ => "wrong length",
    }))
}

pub fn c08(ctx: &Ctx) {
    let r1 = "scalars with mass near 0, the order and its half, lists of up to 5; non-trivial: both operands non-zero";
    ctx.check("scalar_field_tiny", r1, ctx.n(60_000, 1_500_000), field_case::<T>, scalar_field::<T>);
    ctx.check("scalar_field_k256", r1, ctx.n(20_000, 400_000), field_case::<K>, scalar_field::<K>);
    let r2 = "multiples of the generator, equal and opposite ones included, against Jacobian reference formulas; non-trivial: no operand is the identity";
    ctx.check("point_group_tiny", r2, ctx.n(20_000, 500_000), group_case::<T>, group::<T>);
    ctx.check("point_group_k256", r2, ctx.n(600, 15_000), group_case::<K>, group::<K>);
    let rl = "points lifted from an x coordinate anywhere in the field, mass on those not below the group order";
    ctx.check("point_lift_tiny", rl, ctx.n(10_000, 300_000), lift_case::<T>, lift::<T>);
    ctx.check("point_lift_k256", rl, ctx.n(1_000, 20_000), lift_case::<K>, lift::<K>);
    let r3 = "byte strings at and around canonical encodings (wrong length, tag, unreduced, off the curve)";
    ctx.check("scalar_encoding_tiny", r3, ctx.n(50_000, 1_000_000), scalar_bytes::<T>, scalar_encoding::<T>);
    ctx.check("scalar_encoding_k256", r3, ctx.n(50_000, 1_000_000), scalar_bytes::<K>, scalar_encoding::<K>);
    ctx.check("point_encoding_tiny", r3, ctx.n(40_000, 1_000_000), point_bytes::<T>, point_encoding::<T>);
    ctx.check("point_encoding_k256", r3, ctx.n(6_000, 150_000), point_bytes::<K>, point_encoding::<K>);
}

// ---------------------------------------------------------------- C09

#[derive(Clone, Debug, Serialize, Deserialize)]
struct SigCase {
    d: Big,
    k: Big,
    z: Big,
    delta: Big,
    /// what is wrong with the signature, see `sig`
    how: u8,
    /// choose R with an x coordinate between the order and the field size 
    high_x: Option<u64>,
}

fn sig_case<P: Inst>() -> BoxedStrategy<SigCase> {
    let s = scalar_big::<P>;
    let hx = if P::TINY { prop_oneof![3 => Just(None), 2 => (0u64..61000).prop_map(Some)].boxed() } else { prop_oneof![4 => Just(None), 1 => any::<u64>().prop_map(Some)].boxed() };
    (s(), s(), s(), prop_oneof![s(), (1u64..4).prop_map(Big::from_u64)], 0u8..16, hx)
        .prop_map(|(d, k, z, delta, how, high_x)| SigCase { d, k, z, delta, how, high_x })
        .boxed()
}

fn sig<P: Inst>(c: &SigCase) -> R {
    let rc = P::rc();
    let n = &rc.n;
    let m = |x: &SBig| x.modulo(n);
    let s_ = |x: &Big| SBig::from(x.clone());
    // an honest (r, s, Q, z)
    let (mut r, mut s, mut q, mut z) = match c.high_x {
        Some(off) => {
            // R with x in [n, p), Q = r^-1 (s R - z G)
            let mut x = n.add(&Big::from_u64(off));
            let rp = loop {
                if x >= rc.p {
                    x = n.clone();
                }
                if let Some(p) = rc.lift(&x, c.k.is_odd()) {
                    break p;
                }
                x = x.add(&Big::one());
            };
            let r = x.rem(n);
            let s = c.k.clone();
            let q = match r.invmod(n) {
                Some(ri) => rc.mul(&ri, &rc.add(&rc.mul(&s, &rp), &rc.neg(&rc.gmul(&c.z)))),
                None => rc.gmul(&c.d),
            };
            (r, s, q, c.z.clone())
        }
        None => {
            let r = rc.gmul(&c.k).map(|p| p.0.rem(n)).unwrap_or_default();
            let s = match c.k.invmod(n) {
                Some(ki) => m(&s_(&ki).mul(&s_(&c.z).add(&s_(&r).mul(&s_(&c.d))))),
                None => Big::zero(),
            };
            (r, s, rc.gmul(&c.d), c.z.clone())
        }
    };
    let dlt = &c.delta;
    match c.how {
        8 => s = m(&s_(&s).neg()),
        9 => r = m(&s_(&r).add(&s_(dlt))),
        10 => s = m(&s_(&s).add(&s_(dlt))),
        11 => z = m(&s_(&z).add(&s_(dlt))),
        12 => q = rc.add(&q, &rc.gmul(dlt)),
        13 => q = rc.neg(&q),
        14 => match dlt.low_u64() % 3 {
            0 => r = Big::zero(),
            1 => s = Big::zero(),
            _ => q = None,
        },
        15 => r = m(&s_(&r).neg()),
        _ => {}
    }
    let valid = rc.ecdsa(&q, &z, &r, &s);
    if c.how <= 8 && !r.is_zero() && !s.is_zero() && q.is_some() {
        vensure!(valid, "reference sanity", "the reference rejects its own signature");
    }
    let got = RecoverableSignature::<P>::from_scalars(sc::<P>(&r), sc::<P>(&s), pt::<P>(&q), sc::<P>(&z));
    vensure!(got.is_some() == valid, if valid { "valid refused" } else { "invalid accepted" }, "r={r:?} s={s:?} z={z:?} q={q:?}");
    let Some(g) = got else { return Ok(obs(true).tag("invalid")) };
    let (bs, id) = g.to_backend();
    let (gr, gs) = (Big::from_be(&bs.r().to_bytes_be()), Big::from_be(&bs.s().to_bytes_be()));
    vensure!(gr == r, "r changed");
    let low = n.shr(1);
    let es = if s > low { n.sub(&s) } else { s.clone() };
    vensure!(gs == es, "s is not the low one", "s={s:?}, got {gs:?}");
    vensure!(rc.ecdsa(&q, &z, &gr, &gs), "result does not verify");
    // recovery by hand
    let x = if id.is_x_reduced() { r.add(n) } else { r.clone() };
    let rp = rc.lift(&x, id.is_y_odd());
    vensure!(rp.is_some(), "recovery id: no such point", "{id:?}");
    let ri = r.invmod(n).expect("non-zero");
    let rec = rc.mul(&ri, &rc.add(&rc.mul(&gs, &rp.unwrap_or(None)), &rc.neg(&rc.gmul(&z))));
    vensure!(rec == q, "recovery id returns another key", "{id:?}: {rec:?} instead of {q:?}");
    // and by the backend
    let zb = sc::<P>(&z).to_be_bytes();
    let vk = recover::<P>(&zb, &bs, id);
    vensure!(vk.is_some_and(|v| ptv(&v) == q), "backend recovery");
    Ok(obs(true).tag("valid").tag_if(id.is_x_reduced(), "reduced x").tag_if(es != s, "s was high").tag_if(id.is_y_odd(), "odd y"))
}

fn recover<P: SchemeParams>(z: &[u8], s: &ecdsa::Signature<P::Curve>, id: ecdsa::RecoveryId) -> Option<Point<P>> {
    ecdsa::VerifyingKey::<P::Curve>::recover_from_prehash(z, s, id).ok().map(|v| Point::from_verifying_key(&v))
}

/// Big-endian bytes of a backend scalar.
trait ToBytesBe {
    fn to_bytes_be(&self) -> Vec<u8>;
}
impl<C: Curve + CurveArithmetic> ToBytesBe for elliptic_curve::NonZeroScalar<C> {
    fn to_bytes_be(&self) -> Vec<u8> {
        elliptic_curve::FieldBytes::<C>::from(self).to_vec()
    }
}

pub fn c09(ctx: &Ctx) {
    let rule = "key, nonce, message with one of: nothing wrong, negated s, shifted r/s/message/key, negated key or r, zeros; the tiny curve also with R whose x exceeds the order";
    ctx.check("recoverable_tiny", rule, ctx.n(20_000, 400_000), sig_case::<T>, sig::<T>);
    ctx.check("recoverable_k256", rule, ctx.n(500, 12_000), sig_case::<K>, sig::<K>);
}

// ---------------------------------------------------------------- C18

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct PathCase {
    pub d: Big,
    pub path: Vec<u32>,
}

pub fn path_case<P: Inst>() -> BoxedStrategy<PathCase> {
    let idx = prop_oneof![4 => 0u32..0x8000_0000, 2 => 0u32..4, 1 => 0x7fff_fff0u32..0x8000_0000, 1 => 0x8000_0000u32..=u32::MAX];
    let d = scalar_big::<P>().prop_map(|d| if d.is_zero() { Big::one() } else { d });
    (d, proptest::collection::vec(idx, 0..6)).prop_map(|(d, path)| PathCase { d, path }).boxed()
}

/// BIP32 by hand: the child private keys for the path (`None`: a hardened component or an invalid tweak).
macro_rules! c18_for {
    ($name:ident, $p:ty) => {
        fn $name(c: &PathCase) -> R {
            use crate::curve::{apply_tweaks_public, derive_tweaks, DeriveChildKey, PublicTweakable, SecretTweakable};
            use bip32::PrivateKey;
            type C = <$p as SchemeParams>::Curve;
            let rc = <$p as Inst>::rc();
            let path = path_of(&c.path);
            let vk = pt::<$p>(&rc.gmul(&c.d)).to_verifying_key().expect("not the identity");
            let want = ref_bip32::<$p>(&c.d, &c.path);
            let got = DeriveChildKey::<C>::derive_verifying_key_bip32(&vk, &path).ok();
            vensure!(got.is_some() == want.is_some(), "derivable", "path {:?}: derived {}, expected {}", c.path, got.is_some(), want.is_some());
            let tweaks = derive_tweaks::<C>(&vk.tweakable_pk(), &path).ok();
            vensure!(tweaks.is_some() == want.is_some(), "tweaks derivable");
            let (Some(got), Some(want), Some(tweaks)) = (got, want, tweaks) else {
                return Ok(obs(true).tag("refused"));
            };
            vensure!(tweaks.len() == c.path.len(), "one tweak per component");
            let e = rc.gmul(&want);
            vensure!(ptv(&Point::<$p>::from_verifying_key(&got)) == e, "child verifying key", "path {:?}", c.path);
            let ap = apply_tweaks_public::<C>(&vk, &tweaks).expect("valid tweaks");
            vensure!(ap == got, "apply_tweaks_public");
            // through the signing key
            let sk = ssc::<$p>(&c.d).to_signing_key().expect("non-zero");
            vensure!(*sk.verifying_key() == vk, "signing key");
            let mut t = sk.tweakable_sk();
            for w in &tweaks {
                t = PrivateKey::derive_child(&t, *w).expect("valid tweak");
            }
            let sk2 = ecdsa::SigningKey::<C>::key_from_tweakable_sk(&t);
            vensure!(Big::from_be(&sk2.to_bytes()) == want, "child signing key");
            vensure!(ecdsa::VerifyingKey::<C>::key_from_tweakable_pk(&vk.tweakable_pk()) == vk, "public tweakable roundtrip");
            // splitting the path: the tweaks of a longer path extend those of its prefixes
            if c.path.len() > 1 {
                let t0 = derive_tweaks::<C>(&vk.tweakable_pk(), &path_of(&c.path[..c.path.len() - 1])).expect("prefix");
                vensure!(t0[..] == tweaks[..t0.len()], "prefix tweaks");
            }
            Ok(obs(!c.path.is_empty()).tag(format!("depth {}", c.path.len())))
        }
    };
}
c18_for!(c18_tiny, T);
c18_for!(c18_k256, K);

pub fn c18(ctx: &Ctx) {
    let rule = "a key and a path of 0 to 5 components, hardened ones included; non-trivial: a derivable non-empty path, or a refused one";
    ctx.check("child_keys_tiny", rule, ctx.n(4_000, 100_000), path_case::<T>, c18_tiny);
    ctx.check("child_keys_k256", rule, ctx.n(400, 10_000), path_case::<K>, c18_k256);
    let _ = Arc::new(());
}

/// A reader over fixed bytes followed by zeros... never used past the end in the checks.
#[derive(Clone)]
pub struct FixedReader {
    pub bytes: Vec<u8>,
    pub pos: usize,
}
impl FixedReader {
    pub fn new(bytes: Vec<u8>) -> Self {
        FixedReader { bytes, pos: 0 }
    }
}
impl XofReader for FixedReader {
    fn read(&mut self, out: &mut [u8]) {
        for o in out {
            *o = self.bytes.get(self.pos).copied().unwrap_or((self.pos as u8).wrapping_mul(37) | 1);
            self.pos += 1;
        }
    }
}
