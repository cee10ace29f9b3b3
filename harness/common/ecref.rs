//! Reference elliptic-curve arithmetic and child key derivation, and adapters to the crate's types.
use std::format;
use std::prelude::v1::*;
use std::sync::LazyLock;
use std::vec;

use proptest::strategy::BoxedStrategy;

use super::big::Big;
use super::gens::*;
use super::util::sec;
use crate::curve::{Point, Scalar};
use crate::dev::TestParams;
use crate::k256::ProductionParams112 as K;
use crate::tools::Secret;
use crate::SchemeParams;

/// An independent short Weierstrass curve (Jacobian formulas over the reference integers).
#[derive(Debug)]
pub struct RefCurve {
    pub p: Big,
    pub a: Big,
    pub b: Big,
    pub n: Big,
    pub g: (Big, Big),
    pub flen: usize,
}

/// `None` is the identity.
pub type Aff = Option<(Big, Big)>;

impl RefCurve {
    fn fsub(&self, x: &Big, y: &Big) -> Big {
        x.add(&self.p).sub(y).rem(&self.p)
    }
    fn fmul(&self, x: &Big, y: &Big) -> Big {
        x.mulmod(y, &self.p)
    }
    pub fn rhs(&self, x: &Big) -> Big {
        let x3 = self.fmul(&self.fmul(x, x), x);
        x3.add(&self.fmul(&self.a, x)).add(&self.b).rem(&self.p)
    }
    pub fn neg(&self, x: &Aff) -> Aff {
        x.as_ref().map(|(x, y)| (x.clone(), self.fsub(&Big::zero(), y)))
    }
    fn slope_add(&self, p: &(Big, Big), q: &(Big, Big), l: &Big) -> Aff {
        let x = self.fsub(&self.fsub(&self.fmul(l, l), &p.0), &q.0);
        let y = self.fsub(&self.fmul(l, &self.fsub(&p.0, &x)), &p.1);
        Some((x, y))
    }
    pub fn add(&self, p: &Aff, q: &Aff) -> Aff {
        let (p, q) = match (p, q) {
            (None, x) | (x, None) => return x.clone(),
            (Some(p), Some(q)) => (p, q),
        };
        if p.0 == q.0 {
            if p.1 != q.1 || p.1.is_zero() {
                return None;
            }
            let three = Big::from_u64(3);
            let num = self.fmul(&three, &self.fmul(&p.0, &p.0)).add(&self.a);
            let den = p.1.add(&p.1).rem(&self.p).invmod(&self.p).expect("field");
            return self.slope_add(p, q, &self.fmul(&num.rem(&self.p), &den));
        }
        let den = self.fsub(&q.0, &p.0).invmod(&self.p).expect("field");
        self.slope_add(p, q, &self.fmul(&self.fsub(&q.1, &p.1), &den))
    }
    /// Montgomery-free double-and-add in Jacobian coordinates.
    pub fn mul(&self, k: &Big, p: &Aff) -> Aff {
        let Some((px, py)) = p else { return None };
        let k = k.rem(&self.n);
        // (X, Y, Z), Z = 0 is the identity
        let (mut x, mut y, mut z) = (Big::one(), Big::one(), Big::zero());
        for i in (0..k.bits()).rev() {
            // double
            if !z.is_zero() {
                let yy = self.fmul(&y, &y);
                let s = self.fmul(&Big::from_u64(4), &self.fmul(&x, &yy));
                let zz = self.fmul(&z, &z);
                let m = self.fmul(&Big::from_u64(3), &self.fmul(&x, &x)).add(&self.fmul(&self.a, &self.fmul(&zz, &zz)));
                let m = m.rem(&self.p);
                let nx = self.fsub(&self.fmul(&m, &m), &s.add(&s).rem(&self.p));
                let ny = self.fsub(&self.fmul(&m, &self.fsub(&s, &nx)), &self.fmul(&Big::from_u64(8), &self.fmul(&yy, &yy)));
                let nz = self.fmul(&Big::from_u64(2), &self.fmul(&y, &z));
                (x, y, z) = (nx, ny, nz);
            }
            if k.bit(i) {
                if z.is_zero() {
                    (x, y, z) = (px.clone(), py.clone(), Big::one());
                } else {
                    let zz = self.fmul(&z, &z);
                    let u2 = self.fmul(px, &zz);
                    let s2 = self.fmul(py, &self.fmul(&z, &zz));
                    let h = self.fsub(&u2, &x);
                    let r = self.fsub(&s2, &y);
                    if h.is_zero() {
                        if r.is_zero() {
                            // doubling inside an addition: go through affine
                            let d = self.add(p, p);
                            match d {
                                None => z = Big::zero(),
                                Some((dx, dy)) => (x, y, z) = (dx, dy, Big::one()),
                            }
                        } else {
                            z = Big::zero();
                        }
                    } else {
                        let hh = self.fmul(&h, &h);
                        let hhh = self.fmul(&h, &hh);
                        let v = self.fmul(&x, &hh);
                        let nx = self.fsub(&self.fsub(&self.fmul(&r, &r), &hhh), &v.add(&v).rem(&self.p));
                        let ny = self.fsub(&self.fmul(&r, &self.fsub(&v, &nx)), &self.fmul(&y, &hhh));
                        z = self.fmul(&z, &h);
                        (x, y) = (nx, ny);
                    }
                }
            }
        }
        if z.is_zero() {
            return None;
        }
        let zi = z.invmod(&self.p).expect("field");
        let zi2 = self.fmul(&zi, &zi);
        Some((self.fmul(&x, &zi2), self.fmul(&y, &self.fmul(&zi2, &zi))))
    }
    pub fn gmul(&self, k: &Big) -> Aff {
        self.mul(k, &Some(self.g.clone()))
    }
    /// A square root modulo `p`, both curves have `p = 3 mod 4`.
    pub fn lift(&self, x: &Big, odd: bool) -> Option<Aff> {
        if *x >= self.p {
            return None;
        }
        let r = self.rhs(x);
        let y = r.powmod(&self.p.add(&Big::one()).shr(2), &self.p);
        if self.fmul(&y, &y) != r {
            return None;
        }
        let y = if y.is_odd() == odd { y } else { self.fsub(&Big::zero(), &y) };
        Some(Some((x.clone(), y)))
    }
    /// The canonical fixed-length encoding: SEC1 compressed, the identity as zeros.
    pub fn encode(&self, p: &Aff) -> Vec<u8> {
        match p {
            None => vec![0; self.flen + 1],
            Some((x, y)) => {
                let mut v = vec![if y.is_odd() { 3 } else { 2 }];
                v.extend(x.to_be(self.flen));
                v
            }
        }
    }
    pub fn decode(&self, b: &[u8]) -> Option<Aff> {
        if b.len() != self.flen + 1 {
            return None;
        }
        if b.iter().all(|x| *x == 0) {
            return Some(None);
        }
        if b[0] != 2 && b[0] != 3 {
            return None;
        }
        self.lift(&Big::from_be(&b[1..]), b[0] == 3)
    }
    /// Plain ECDSA verification (any `s`).
    pub fn ecdsa(&self, q: &Aff, z: &Big, r: &Big, s: &Big) -> bool {
        if q.is_none() || r.is_zero() || s.is_zero() || *r >= self.n || *s >= self.n {
            return false;
        }
        let w = s.invmod(&self.n).expect("prime order");
        let rr = self.add(&self.gmul(&z.mulmod(&w, &self.n)), &self.mul(&r.mulmod(&w, &self.n), q));
        rr.is_some_and(|(x, _)| x.rem(&self.n) == *r)
    }
}

/// The two parameter sets, with their reference curves.
pub trait Inst: SchemeParams {
    const TINY: bool;
    fn rc() -> &'static RefCurve;
}

fn hx(s: &str) -> Big {
    Big::from_hex(s).expect("hex")
}

impl Inst for TestParams {
    const TINY: bool = true;
    fn rc() -> &'static RefCurve {
        static C: LazyLock<RefCurve> = LazyLock::new(|| RefCurve {
            p: hx("ffffff67"),
            a: hx("ffffff64"),
            b: hx("8"),
            n: hx("ffff0f07"),
            g: (Big::from_u64(4274000713), Big::from_u64(443355223)),
            flen: 24,
        });
        &C
    }
}

impl Inst for K {
    const TINY: bool = false;
    fn rc() -> &'static RefCurve {
        static C: LazyLock<RefCurve> = LazyLock::new(|| RefCurve {
            p: hx("fffffffffffffffffffffffffffffffffffffffffffffffffffffffefffffc2f"),
            a: hx("0"),
            b: hx("7"),
            n: hx("fffffffffffffffffffffffffffffffebaaedce6af48a03bbfd25e8cd0364141"),
            g: (
                hx("79be667ef9dcbbac55a06295ce870b07029bfcdb2dce28d959f2815b16f81798"),
                hx("483ada7726a3c4655da4fbfc0e1108a8fd17b448a68554199c47d08ffb10d4b8"),
            ),
            flen: 32,
        });
        &C
    }
}

pub fn sc<P: SchemeParams>(v: &Big) -> Scalar<P> {
    Scalar::try_from_be_bytes(&v.to_be(Scalar::<P>::repr_len())).expect("a scalar below the order")
}
pub fn scv<P: SchemeParams>(s: &Scalar<P>) -> Big {
    Big::from_be(&s.to_be_bytes())
}
pub fn ssc<P: SchemeParams>(v: &Big) -> Secret<Scalar<P>> {
    sec(sc::<P>(v))
}
/// The crate's point with the given reference coordinates.
pub fn pt<P: Inst>(p: &Aff) -> Point<P> {
    match p {
        None => Point::identity(),
        Some(_) => Point::try_from_compressed_bytes(&P::rc().encode(p)).expect("a point on the curve"),
    }
}
pub fn ptv<P: Inst>(p: &Point<P>) -> Aff {
    if *p == Point::identity() {
        return None;
    }
    P::rc().decode(&p.to_compressed_array()).expect("the crate encodes points canonically")
}
pub fn scalar_big<P: Inst>() -> BoxedStrategy<Big> {
    big_below(P::rc().n.clone())
}

pub fn ref_bip32<P: Inst>(d: &Big, path: &[u32]) -> Option<Big> {
    use hmac::Mac;
    use sha2::Digest;
    let rc = P::rc();
    let ser = |d: &Big| {
        let e = rc.encode(&rc.gmul(d));
        let mut v = vec![0u8; 33 - e.len()];
        v.extend(e);
        v
    };
    let mut pre = b"chain-code-derivation".to_vec();
    pre.extend(ser(d));
    let h = sha2::Sha256::digest(&pre);
    // the tiny curve's digest keeps 24 bytes of SHA256 with all but the last four zeroed
    let mut cc = [0u8; 32];
    if P::TINY {
        cc[20..24].copy_from_slice(&h[20..24]);
    } else {
        cc.copy_from_slice(&h);
    }
    let mut d = d.clone();
    for i in path {
        if *i >= 0x8000_0000 {
            return None;
        }
        let mut mac = hmac::Hmac::<sha2::Sha512>::new_from_slice(&cc).expect("any key length");
        mac.update(&ser(&d));
        mac.update(&i.to_be_bytes());
        let out = mac.finalize().into_bytes();
        cc.copy_from_slice(&out[32..]);
        let t = if P::TINY {
            Big::from_be(&out[8..32]).rem(&rc.n.sub(&Big::one())).add(&Big::one())
        } else {
            let t = Big::from_be(&out[..32]);
            if t >= rc.n || t.is_zero() {
                return None;
            }
            t
        };
        d = d.add(&t).rem(&rc.n);
        if d.is_zero() {
            return None;
        }
    }
    Some(d)
}

pub fn path_of(path: &[u32]) -> bip32::DerivationPath {
    let mut s = String::from("m");
    for i in path {
        s.push_str(&if *i >= 0x8000_0000 { format!("/{}'", i - 0x8000_0000) } else { format!("/{i}") });
    }
    s.parse().expect("a path")
}

