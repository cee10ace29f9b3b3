//! C06: every random sampler stays in its documented range, is determined by the random stream, and covers the range.
use std::collections::BTreeMap;
use std::format;
use std::prelude::v1::*;
use std::vec;

use crypto_bigint::subtle::ConditionallySelectable;
use crypto_bigint::{Bounded, Integer, RandomMod, U128, U2048, U256, U4096, U5120, U512, U640};
use proptest::prelude::*;
use proptest::strategy::BoxedStrategy;
use rand_core::{CryptoRng, RngCore};
use serde::{Deserialize, Serialize};
use zeroize::Zeroize;

use super::common::big::{Big, SBig};
use super::common::gens::*;
use super::common::runner::*;
use super::curve::{scv, Inst};
use super::keys::*;
use super::paillier::rval;
use super::util::*;
use crate::curve::Scalar;
use crate::dev::TestParams as T;
use crate::k256::ProductionParams112 as K;
use crate::paillier::{PaillierParams, RPParams, RPSecret, Randomizer};
use crate::tools::bitvec::BitVec;
use crate::tools::sss::{Polynomial, ShareId};
use crate::uint::{BoxedEncoding, Extendable, SecretSigned};
use crate::vensure;
use crate::SchemeParams;

/// A generator that yields the given bytes first and then a seeded ChaCha8 stream.
#[derive(Clone, Debug)]
pub struct Burst {
    head: Vec<u8>,
    pos: usize,
    tail: super::common::gens::Rng,
}
impl Burst {
    pub fn new(head: &[u8], seed: u64) -> Self {
        Burst { head: head.to_vec(), pos: 0, tail: rng(seed) }
    }
    pub fn taken(&self) -> usize {
        self.pos
    }
}
impl CryptoRng for Burst {}
impl RngCore for Burst {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d {
            *x = match self.head.get(self.pos) {
                Some(b) => *b,
                None => {
                    let mut b = [0];
                    self.tail.fill_bytes(&mut b);
                    b[0]
                }
            };
            self.pos += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand_core::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Stream {
    head: Vec<u8>,
    seed: u64,
}
impl Stream {
    fn rng(&self) -> Burst {
        Burst::new(&self.head, self.seed)
    }
}

fn stream() -> BoxedStrategy<Stream> {
    let head = prop_oneof![
        4 => Just(vec![]),
        1 => (0usize..80).prop_map(|n| vec![0; n]),
        1 => (0usize..80).prop_map(|n| vec![255; n]),
        1 => bytes(64),
    ];
    (head, any::<u64>()).prop_map(|(head, seed)| Stream { head, seed }).boxed()
}

// ---------------------------------------------------------------- signed ranges

#[derive(Clone, Debug, Serialize, Deserialize)]
struct RangeCase {
    exp: u32,
    scale: Big,
    wscale: Big,
    st: Stream,
}

fn range_case(bits: u32) -> BoxedStrategy<RangeCase> {
    let exp = prop_oneof![4 => 1..bits, 2 => 1u32..12, 1 => (bits - 4)..bits];
    let pos = |b: u32| big_bits(b).prop_map(|v| if v.is_zero() { Big::one() } else { v });
    (exp, pos(bits), pos(2 * bits), stream()).prop_map(|(exp, scale, wscale, st)| RangeCase { exp, scale, wscale, st }).boxed()
}

fn within(v: &SBig, top: &Big, what: &str) -> Result<(), Fail> {
    // [-top + 1, top]
    let ok = if v.neg { v.mag < *top } else { v.mag <= *top };
    vensure!(ok, format!("{what}/range"), "{v:?} is outside [-{top:?} + 1, {top:?}]");
    Ok(())
}

fn run_range<A, W, X>(c: &RangeCase) -> R
where
    A: BoxedEncoding + Bounded + Zeroize + Integer + ConditionallySelectable + RandomMod + Extendable<W>,
    W: BoxedEncoding + Bounded + Zeroize + Integer + ConditionallySelectable + RandomMod + Extendable<X>,
    X: BoxedEncoding + Bounded + Zeroize + Integer + ConditionallySelectable + RandomMod,
{
    let e = c.exp;
    let top = Big::pow2(e - 1);
    let (mut r1, mut r2) = (c.st.rng(), c.st.rng());
    let a = SecretSigned::<A>::random_in_exponent_range(&mut r1, e);
    let a2 = SecretSigned::<A>::random_in_exponent_range(&mut r2, e);
    let v = ssv(&a);
    vensure!(v == ssv(&a2) && r1.taken() == r2.taken(), "signed/deterministic");
    within(&v, &top, "signed")?;
    vensure!(a.bound() == e && v.mag.bits() <= e, "signed/bound", "bound {} for exp {e}", a.bound());
    a.assert_exponent_range(e);

    let scaled = SecretSigned::<A>::random_in_exponent_range_scaled::<W>(&mut c.st.rng(), e, &u::<A>(&c.scale));
    let v2 = ssv(&scaled);
    within(&v2, &top.mul(&c.scale), "scaled")?;
    vensure!(scaled.bound() == e + c.scale.bits() && v2.mag.bits() <= scaled.bound(), "scaled/bound", "{}", scaled.bound());

    // the widest one: the scale is limited so that the result fits
    let ws = c.wscale.low_bits((X::BITS - 1).saturating_sub(e).min(W::BITS));
    let ws = if ws.is_zero() { Big::one() } else { ws };
    let wide = SecretSigned::<A>::random_in_exponent_range_scaled_wide::<W, X>(&mut c.st.rng(), e, &u::<W>(&ws));
    let v3 = ssv(&wide);
    within(&v3, &top.mul(&ws), "scaled_wide")?;
    vensure!(wide.bound() == e + ws.bits() && v3.mag.bits() <= wide.bound(), "scaled_wide/bound", "{}", wide.bound());
    Ok(obs(e > 1).tag_if(v.neg, "negative").tag_if(!c.st.head.is_empty(), "adversarial stream").tag_if(e < 12, "small exponent"))
}

// ---------------------------------------------------------------- coverage of the range

/// One distribution: which sampler, with which size, and 1500 seeds.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DistCase {
    exp: u32,
    scale: Big,
    wscale: Big,
    base: u64,
}

const DRAWS: usize = 1200;

/// Each of the 8 equal parts of `[-top+1, top]` gets its share (1/8, that is 150 of 1200; the limits are more than 6 sigma away),
/// every value is seen when the range is tiny, and the lowest bits are not constant.
fn spread(name: &str, vals: &[SBig], top: &Big) -> Result<(), Fail> {
    let size = top.shl(1);
    let mut seen = BTreeMap::<u64, usize>::new();
    let mut low = [0usize; 8];
    for v in vals {
        let off = v.add(&SBig::from(top.clone())).sub(&SBig::from(1)).mag;
        let cell = if size.bits() <= 4 { off.low_u64() } else { off.shl(3).divrem(&size).0.low_u64() };
        *seen.entry(cell).or_insert(0) += 1;
        for (k, l) in low.iter_mut().enumerate() {
            *l += off.bit(k as u32) as usize;
        }
    }
    let n = vals.len();
    let cells = if size.bits() <= 4 { size.low_u64() } else { 8 };
    for c in 0..cells {
        let got = seen.get(&c).copied().unwrap_or(0);
        let want = n / cells as usize;
        vensure!(got * 2 >= want && got * 2 <= want * 3 + 40, format!("{name}/uneven"), "part {c} of {cells} got {got} of {n} draws");
    }
    if size.bits() > 12 {
        for (k, l) in low.iter().enumerate() {
            vensure!(*l > n / 3 && *l < 2 * n / 3, format!("{name}/bit"), "bit {k} set {l} times of {n}");
        }
        let mut d: Vec<String> = vals.iter().map(|v| format!("{v:?}")).collect();
        d.sort();
        d.dedup();
        vensure!(d.len() * 10 > n * 8 || size.bits() < 20, format!("{name}/repeats"), "{} different values of {n}", d.len());
    }
    Ok(())
}

fn run_dist<A, W, X>(c: &DistCase) -> R
where
    A: BoxedEncoding + Bounded + Zeroize + Integer + ConditionallySelectable + RandomMod + Extendable<W>,
    W: BoxedEncoding + Bounded + Zeroize + Integer + ConditionallySelectable + RandomMod + Extendable<X>,
    X: BoxedEncoding + Bounded + Zeroize + Integer + ConditionallySelectable + RandomMod,
{
    let e = c.exp;
    let top = Big::pow2(e - 1);
    let ws = c.wscale.low_bits((X::BITS - 1 - e).min(W::BITS));
    let ws = if ws.is_zero() { Big::one() } else { ws };
    let mut vals = vec![vec![]; 3];
    for i in 0..DRAWS {
        let mut g = rng(c.base.wrapping_add(i as u64));
        vals[0].push(ssv(&SecretSigned::<A>::random_in_exponent_range(&mut g, e)));
        vals[1].push(ssv(&SecretSigned::<A>::random_in_exponent_range_scaled::<W>(&mut g, e, &u::<A>(&c.scale))));
        vals[2].push(ssv(&SecretSigned::<A>::random_in_exponent_range_scaled_wide::<W, X>(&mut g, e, &u::<W>(&ws))));
    }
    spread("signed", &vals[0], &top)?;
    for (name, vs, s) in [("scaled", &vals[1], &c.scale), ("scaled_wide", &vals[2], &ws)] {
        let t = top.mul(s);
        if t.bits() > 6 || s.is_one() {
            spread(name, vs, &t)?;
        }
    }
    Ok(obs(true).tag_if(e <= 3, "all values of a tiny range"))
}

fn dist_case(bits: u32) -> BoxedStrategy<DistCase> {
    (prop_oneof![3 => 1..bits, 2 => 1u32..6], big_bits(bits), big_bits(2 * bits), any::<u64>())
        .prop_map(|(exp, s, w, base)| DistCase { exp, scale: s.add(&Big::one()).low_bits(128).add(&Big::one()), wscale: w, base })
        .boxed()
}

// ---------------------------------------------------------------- scalars, residues, bits

#[derive(Clone, Debug, Serialize, Deserialize)]
struct MiscCase {
    key: usize,
    bits: usize,
    degree: usize,
    st: Stream,
}

fn misc_case() -> BoxedStrategy<MiscCase> {
    (any::<u16>(), 0usize..300, 1usize..6, stream()).prop_map(|(k, bits, degree, st)| MiscCase { key: k as usize, bits, degree, st }).boxed()
}

fn run_misc<P: Inst>(c: &MiscCase) -> R {
    let k = key(<P::Paillier as PaillierParams>::PRIME_BITS, false, c.key);
    let one = Big::one();
    // scalars
    let s = Scalar::<P>::random(&mut c.st.rng());
    vensure!(s == Scalar::<P>::random(&mut c.st.rng()), "scalar/deterministic");
    vensure!(scv(&s) < P::rc().n, "scalar/range");
    let nz = Scalar::<P>::random_nonzero(&mut c.st.rng());
    vensure!(!scv(&nz).is_zero() && scv(&nz) < P::rc().n, "scalar/nonzero");
    // residues
    let sk = secret_key::<P::Paillier>(&k);
    let pk = sk.public_key();
    let r = b(&pk.random_invertible_residue(&mut c.st.rng()));
    vensure!(r < k.n && r.gcd(&k.n) == one, "residue/range", "{r:?}");
    vensure!(r == b(&pk.random_invertible_residue(&mut c.st.rng())), "residue/deterministic");
    let w = b(&sk.random_nonsquare_residue(&mut c.st.rng()));
    vensure!(w < k.n && w.jacobi(&k.n) == -1, "nonsquare", "{w:?}");
    vensure!(w == b(&sk.random_nonsquare_residue(&mut c.st.rng())), "nonsquare/deterministic");
    let rr = rval(&Randomizer::random(&mut c.st.rng(), pk));
    vensure!(rr < k.n && rr.gcd(&k.n) == one, "randomizer", "{rr:?}");
    // bits
    let bv = BitVec::random(&mut c.st.rng(), c.bits);
    vensure!(bv.bits().len() == c.bits, "bitvec/len");
    vensure!(bv == BitVec::random(&mut c.st.rng(), c.bits), "bitvec/deterministic");
    // polynomials
    let poly = Polynomial::<P>::random(&mut c.st.rng(), sec(s), c.degree);
    vensure!(*poly.evaluate(&ShareId::new(0)).expose_secret() == s, "polynomial/free term");
    let coeffs = serde_json::to_value(poly.public()).expect("serializes");
    vensure!(coeffs.as_array().map(|a| a.len()) == Some(c.degree), "polynomial/size");
    Ok(obs(true).tag_if(!c.st.head.is_empty(), "adversarial stream"))
}

// ---------------------------------------------------------------- streams aimed at particular values

/// A stream whose first words make a sampler of residues draw a chosen number (in some order of the words).
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Aim {
    key: usize,
    /// The number: 0 zero, 1 one, 2 a multiple of p, 3 a multiple of q, 4 p, 5 q, 6 N - 1, 7 N, 8 N + small, 9 the curve order + small, 10 phi + small, 11 the order - 1
    what: u8,
    mult: Big,
    small: u8,
    layout: u8,
    repeat: u8,
    seed: u64,
}

fn aim() -> BoxedStrategy<Aim> {
    (any::<u16>(), 0u8..12, big_bits(2048), any::<u8>(), 0u8..4, 1u8..4, any::<u64>())
        .prop_map(|(key, what, mult, small, layout, repeat, seed)| Aim { key: key as usize, what, mult, small, layout, repeat, seed })
        .boxed()
}

fn laid_out(v: &Big, bytes: usize, layout: u8) -> Vec<u8> {
    let be = v.low_bits(8 * bytes as u32).to_be(bytes);
    let mut le = be.clone();
    le.reverse();
    match layout {
        0 => le,
        1 => be,
        // the highest word first, then the others from the lowest
        2 => {
            le.rotate_right(8.min(bytes));
            le
        }
        _ => {
            le.rotate_right(4.min(bytes));
            le
        }
    }
}

fn aimed<P: Inst>(c: &Aim, k: &Key) -> Big {
    let (one, small) = (Big::one(), Big::from_u64(c.small as u64));
    let order = P::rc().n.clone();
    match c.what {
        0 => Big::zero(),
        1 => one.clone(),
        2 => k.p.mul(&c.mult.rem(&k.q)),
        3 => k.q.mul(&c.mult.rem(&k.p)),
        4 => k.p.clone(),
        5 => k.q.clone(),
        6 => k.n.sub(&one),
        7 => k.n.clone(),
        8 => k.n.add(&small),
        9 => order.add(&small),
        10 => k.phi.add(&small),
        _ => order.sub(&one),
    }
}

fn aimed_stream(c: &Aim, v: &Big, bits: u32) -> Burst {
    let bytes = 8 * bits.div_ceil(64) as usize;
    Burst::new(&laid_out(v, bytes, c.layout).repeat(c.repeat as usize), c.seed)
}

fn run_aim<P: Inst>(c: &Aim) -> R {
    let k = key(<P::Paillier as PaillierParams>::PRIME_BITS, true, c.key);
    let (one, order) = (Big::one(), P::rc().n.clone());
    let v = aimed::<P>(c, &k);
    let stream = |bits: u32| aimed_stream(c, &v, bits);
    let nbits = k.n.bits();
    let sk = secret_key::<P::Paillier>(&k);
    let pk = sk.public_key();
    let unit = |x: &Big| x < &k.n && x.gcd(&k.n) == one;
    let r = b(&pk.random_invertible_residue(&mut stream(nbits)));
    vensure!(unit(&r), "residue/not invertible", "{r:?}");
    let w = b(&sk.random_nonsquare_residue(&mut stream(nbits)));
    vensure!(w < k.n && w.jacobi(&k.n) == -1, "nonsquare", "{w:?}");
    let rr = rval(&Randomizer::random(&mut stream(nbits), pk));
    vensure!(unit(&rr), "randomizer/not invertible", "{rr:?}");
    let obits = order.bits();
    let s = Scalar::<P>::random(&mut stream(obits));
    vensure!(scv(&s) < order, "scalar/range");
    let nz = Scalar::<P>::random_nonzero(&mut stream(obits));
    vensure!(!scv(&nz).is_zero() && scv(&nz) < order, "scalar/nonzero");
    Ok(obs(true).tag(["zero", "one", "multiple of p", "multiple of q", "p", "q", "N - 1", "N", "above N", "above the order", "above phi", "order - 1"][c.what as usize % 12])
        .tag_if(r == v, "the number was drawn"))
}

fn run_aim_rp(c: &Aim) -> R {
    type P = <T as SchemeParams>::Paillier;
    let (secret, rp) = super::zk::crate_rp::<T>(c.key);
    let k = &rp.key;
    let v = aimed::<T>(c, k);
    let stream = || aimed_stream(c, &v, k.n.bits());
    let t = b(secret.random_residue_mod_totient(&mut stream()).expose_secret());
    vensure!(t < k.phi, "residue mod totient/range", "{t:?}");
    let params = RPParams::<P>::random_with_secret(&mut stream(), &secret);
    for x in [params.base_randomizer(), params.base_value()] {
        let x = mont::<<P as PaillierParams>::Uint>(x);
        vensure!(x.gcd(&k.n).is_one() && x.jacobi(&k.p) == 1 && x.jacobi(&k.q) == 1, "base/not an invertible square", "{x:?}");
    }
    Ok(obs(true).tag_if(t == v, "the number was drawn"))
}

/// Distribution over seeds of the same samplers.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Dist2 {
    key: usize,
    base: u64,
    bits: usize,
}

fn spread_below(name: &str, vals: &[Big], n: &Big) -> Result<(), Fail> {
    let mut cells = [0usize; 8];
    for v in vals {
        cells[v.shl(3).divrem(n).0.low_u64() as usize] += 1;
    }
    for (i, c) in cells.iter().enumerate() {
        let want = vals.len() / 8;
        vensure!(*c * 5 >= want * 2 && *c * 2 <= want * 3 + 20, format!("{name}/uneven"), "part {i} of 8 got {c} of {}", vals.len());
    }
    let odd = vals.iter().filter(|v| v.is_odd()).count();
    vensure!(odd > vals.len() / 3 && odd < vals.len() * 2 / 3, format!("{name}/parity"), "{odd} odd of {}", vals.len());
    Ok(())
}

fn run_dist2<P: Inst>(c: &Dist2) -> R {
    let k = key(<P::Paillier as PaillierParams>::PRIME_BITS, false, c.key);
    let sk = secret_key::<P::Paillier>(&k);
    let pk = sk.public_key();
    let n = if P::TINY { 800 } else { 600 };
    let mut v: Vec<Vec<Big>> = vec![vec![]; 6];
    let (mut qr, mut ups) = (0usize, vec![0usize; c.bits]);
    for i in 0..n {
        let mut g = rng(c.base.wrapping_add(i));
        v[0].push(scv(&Scalar::<P>::random(&mut g)));
        v[1].push(scv(&Scalar::<P>::random_nonzero(&mut g)));
        let r = b(&pk.random_invertible_residue(&mut g));
        qr += (r.jacobi(&k.p) == 1) as usize;
        v[2].push(r);
        let w = b(&sk.random_nonsquare_residue(&mut g));
        // both classes of non-residues: square modulo p only, and modulo q only
        v[3].push(w);
        v[4].push(rval(&Randomizer::random(&mut g, pk)));
        for (u, x) in ups.iter_mut().zip(BitVec::random(&mut g, c.bits).bits()) {
            *u += *x as usize;
        }
    }
    spread_below("scalar", &v[0], &P::rc().n)?;
    spread_below("nonzero scalar", &v[1], &P::rc().n)?;
    spread_below("residue", &v[2], &k.n)?;
    spread_below("nonsquare", &v[3], &k.n)?;
    spread_below("randomizer", &v[4], &k.n)?;
    let n = n as usize;
    vensure!(qr > n / 3 && qr < 2 * n / 3, "residue/classes", "{qr} of {n} are squares modulo p");
    let wp = v[3].iter().filter(|w| w.jacobi(&k.p) == 1).count();
    vensure!(wp > n / 3 && wp < 2 * n / 3, "nonsquare/classes", "{wp} of {n} are squares modulo p");
    for (i, u) in ups.iter().enumerate() {
        vensure!(*u > n / 4 && *u < 3 * n / 4, "bitvec/bit", "bit {i} of {} set {u} times of {n}", c.bits);
    }
    good()
}

// ---------------------------------------------------------------- ring-Pedersen secrets

fn run_rpsecret(c: &super::paillier::GenCase) -> R {
    type P = <T as SchemeParams>::Paillier;
    let mut g = rng(c.seed);
    let s = RPSecret::<P>::random(&mut g);
    let phi = b(s.totient_nonzero().expose_secret().as_ref());
    let n = b(&s.modulus());
    let lambda = b(s.lambda().expose_secret());
    vensure!(lambda < phi.shr(2), "lambda", "{lambda:?} is not below the totient / 4");
    vensure!(s.lambda().bound() >= lambda.bits() && s.lambda().bound() == 2 * P::PRIME_BITS - 2, "lambda/bound");
    for _ in 0..4 {
        let x = s.random_residue_mod_totient(&mut g);
        vensure!(b(x.expose_secret()) < phi, "residue mod totient");
        vensure!(x.bound() == P::MODULUS_BITS, "residue mod totient/bound");
    }
    // factor N from the totient: p + q = N - phi + 1, p q = N
    let sum = n.sub(&phi).add(&Big::one());
    let disc = sum.mul(&sum).sub(&n.shl(2));
    let root = disc.isqrt();
    vensure!(root.mul(&root) == disc, "totient", "not (p - 1)(q - 1)");
    let (p, q) = (sum.add(&root).shr(1), sum.sub(&root).shr(1));
    for x in [&p, &q] {
        vensure!(x.bits() == P::PRIME_BITS && x.is_prime() && x.shr(1).is_prime(), "safe primes", "{x:?}");
    }
    let params = RPParams::<P>::random_with_secret(&mut g, &s);
    let t = mont::<<P as PaillierParams>::Uint>(params.base_randomizer());
    let sv = mont::<<P as PaillierParams>::Uint>(params.base_value());
    vensure!(t.jacobi(&p) == 1 && t.jacobi(&q) == 1, "base is not a square");
    vensure!(t.powmod(&lambda, &n) == sv, "s is not t^lambda");
    Ok(obs(true))
}

pub fn c06(ctx: &Ctx) {
    let r = "an exponent, scales and a random stream (a third of the streams start with adversarial bytes); non-trivial: exponent above 1";
    ctx.check("ranges/256", r, ctx.n(40_000, 800_000), || range_case(256), run_range::<U256, U512, U640>);
    ctx.check("ranges/128", r, ctx.n(20_000, 400_000), || range_case(128), run_range::<U128, U256, U512>);
    ctx.check("ranges/2048", r, ctx.n(4_000, 60_000), || range_case(2048), run_range::<U2048, U4096, U5120>);
    let r = "1200 draws from each signed sampler for one exponent and scale: eight equal parts of the range get their share, no bit is constant";
    ctx.check("coverage/256", r, ctx.n(240, 4_000), || dist_case(256), run_dist::<U256, U512, U640>);
    ctx.check("coverage/2048", r, ctx.n(16, 200), || dist_case(2048), run_dist::<U2048, U4096, U5120>);
    let r = "scalars, residues, non-residues, randomizers, bit strings and polynomials from one stream";
    ctx.check("residues/tiny", r, ctx.n(12_000, 300_000), misc_case, run_misc::<T>);
    ctx.check("residues/k256", r, ctx.n(200, 3_000), misc_case, run_misc::<K>);
    let r = "streams that make a sampler of residues draw a chosen number first: zero, multiples of the primes, numbers around N, phi and the order";
    ctx.check("aimed/tiny", r, ctx.n(12_000, 300_000), aim, run_aim::<T>);
    ctx.check("aimed/k256", r, ctx.n(200, 3_000), aim, run_aim::<K>);
    ctx.check("aimed_bases", r, ctx.n(400, 8_000), aim, run_aim_rp);
    let r = "the same over hundreds of seeds: parts of the range, both classes of residues, every bit";
    let d2 = || (any::<u16>(), any::<u64>(), 1usize..200).prop_map(|(k, base, bits)| Dist2 { key: k as usize, base, bits }).boxed();
    ctx.check("residue_coverage/tiny", r, ctx.n(24, 400), d2, run_dist2::<T>);
    ctx.check("residue_coverage/k256", r, ctx.n(2, 24), d2, run_dist2::<K>);
    ctx.check("ring_pedersen_secret", "a seed", ctx.n(160, 4_000), super::paillier::seeds, run_rpsecret);
}
