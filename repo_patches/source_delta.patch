From 6b36ad2c9674619beda3c028901bbeb54560abf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:32 +0000
Subject: [PATCH 01/17] fix: SecretSigned::new_positive refuses values larger
 than the declared bound

---
 src/uint/secret_signed.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/uint/secret_signed.rs b/src/uint/secret_signed.rs
index 5334729..bff6735 100644
--- a/src/uint/secret_signed.rs
+++ b/src/uint/secret_signed.rs
@@ -33,10 +33,12 @@ where
 
     /// Creates a signed value from an unsigned one in constant time, assuming that it encodes a
     /// positive value treated as two's complement.
+    ///
+    /// Returns `None` if the requested bound is too large, or if `value` is actually larger than the bound.
     pub fn new_positive(value: Secret<T>, bound: u32) -> CtOption<Self> {
         let in_bound = {
             let c1 = Choice::from((bound < T::BITS) as u8);
-            let c2 = Choice::from((value.expose_secret().bits() < T::BITS) as u8);
+            let c2 = Choice::from((value.expose_secret().bits() <= bound) as u8);
             c1 & c2
         };
         let new_positive = Self::new_from_unsigned_unchecked(value, bound);
-- 
2.43.0


From 352a0753b32ecfddfef222a0e9674ea6584b26a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 02/17] fix: curve points have exactly one accepted encoding,
 of fixed length, including the identity

---
 src/curve/arithmetic.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/curve/arithmetic.rs b/src/curve/arithmetic.rs
index ac8d77c..8f6fbda 100644
--- a/src/curve/arithmetic.rs
+++ b/src/curve/arithmetic.rs
@@ -265,18 +265,38 @@ where
     }
 
     pub(crate) fn try_from_compressed_bytes(bytes: &[u8]) -> Result<Self, String> {
+        if bytes == Self::identity().to_compressed_array().as_slice() {
+            return Ok(Self::identity());
+        }
+
         let ep = EncodedPoint::<P::Curve>::from_bytes(bytes).map_err(|err| format!("{err}"))?;
 
         // Unwrap CtOption into Option
         let cp_opt: Option<_> = <<P::Curve as CurveArithmetic>::ProjectivePoint>::from_encoded_point(&ep).into();
-        cp_opt
+        let point = cp_opt
             .map(Self)
-            .ok_or_else(|| "Invalid curve point representation".into())
+            .ok_or_else(|| String::from("Invalid curve point representation"))?;
+
+        // SEC1 allows other encodings of the same point (uncompressed, compact, single-byte identity).
+        // We only accept the one we produce ourselves.
+        if point.to_compressed_array().as_slice() != bytes {
+            return Err("Non-canonical curve point representation".into());
+        }
+
+        Ok(point)
     }
 
+    /// Returns the SEC1 compressed encoding of the point.
+    ///
+    /// The SEC1 encoding of the identity is a single byte,
+    /// so to have the same size for all points it is padded with zeros.
     pub(crate) fn to_compressed_array(
         self,
     ) -> GenericArray<u8, <FieldBytesSize<P::Curve> as ModulusSize>::CompressedPointSize> {
+        if bool::from(self.0.is_identity()) {
+            return GenericArray::default();
+        }
+
         GenericArray::from_exact_iter(
             self.0.to_affine().to_encoded_point(true).as_bytes().iter().cloned(),
         ).expect("An AffinePoint is composed of elements of the correct size and their slice repr fits in the `CompressedPointSize`-sized array.")
-- 
2.43.0


From 0a4530ae7013882a76bd7d313332731e56330f18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:32 +0000
Subject: [PATCH 03/17] fix: allow evaluating a public polynomial of degree 0

---
 src/tools/sss.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tools/sss.rs b/src/tools/sss.rs
index 62dc040..c3e8783 100644
--- a/src/tools/sss.rs
+++ b/src/tools/sss.rs
@@ -39,7 +39,7 @@ where
     Coef: Copy + Add<Coef, Output = Coef> + for<'a> Mul<&'a Scalar<P>, Output = Coef> + Clone,
     P: SchemeParams,
 {
-    assert!(coeffs.len() > 1, "Expected coefficients to be non-empty");
+    assert!(!coeffs.is_empty(), "Expected coefficients to be non-empty");
     // Evaluate in reverse to save on multiplications.
     // Basically: a0 + a1 x + a2 x^2 + a3 x^3 == (((a3 x) + a2) x + a1) x + a0
 
-- 
2.43.0


From 3f8a2bee32acb910bbf594a292d766a1a0450093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:45 +0000
Subject: [PATCH 04/17] fix: an invertible residue derived from a hash is
 always below the modulus

---
 src/paillier/rsa.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/paillier/rsa.rs b/src/paillier/rsa.rs
index ef0e5be..3d34220 100644
--- a/src/paillier/rsa.rs
+++ b/src/paillier/rsa.rs
@@ -309,7 +309,7 @@ impl<P: PaillierParams> PublicModulus<P> {
         let modulus_bits = self.modulus().bits_vartime();
         loop {
             let r = P::Uint::from_xof_reader(reader, modulus_bits);
-            if r.is_invertible(&self.modulus.0) {
+            if &r < self.modulus() && r.is_invertible(&self.modulus.0) {
                 return r;
             }
         }
-- 
2.43.0


From 08af31eabfd21c63f6d8d0c10e36feb5bcfabb99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:20 +0000
Subject: [PATCH 05/17] fix: debug output of a Paillier secret key no longer
 contains the primes

---
 src/paillier/keys.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/paillier/keys.rs b/src/paillier/keys.rs
index e7b2c70..495bda0 100644
--- a/src/paillier/keys.rs
+++ b/src/paillier/keys.rs
@@ -47,7 +47,8 @@ impl<P: PaillierParams> SecretKeyPaillierWire<P> {
     }
 }
 
-#[derive(Debug, Clone)]
+#[derive(Clone)]
+#[derive_where::derive_where(Debug)]
 pub(crate) struct SecretKeyPaillier<P: PaillierParams> {
     /// The secret primes with some precomputed constants,
     primes: SecretPrimes<P>,
@@ -60,9 +61,12 @@ pub(crate) struct SecretKeyPaillier<P: PaillierParams> {
     // $u$ such that $u = -1 \mod p$ and $u = 1 \mod q$. Used for sampling of non-square residues.
     nonsquare_sampling_constant: Secret<<P::Uint as Integer>::Monty>,
     // TODO (#162): these should be secret, but they are not zeroizable.
+    // They contain the secret primes, so they must not be printed.
     /// Montgomery parameters for operations modulo $p$.
+    #[derive_where(skip(Debug))]
     monty_params_mod_p: <<P::HalfUint as Integer>::Monty as Monty>::Params,
     /// Montgomery parameters for operations modulo $q$.
+    #[derive_where(skip(Debug))]
     monty_params_mod_q: <<P::HalfUint as Integer>::Monty as Monty>::Params,
     /// The precomputed public key
     public_key: PublicKeyPaillier<P>,
-- 
2.43.0


From e8e9602e5109ebf5eebbc47c62d3b6763b2e83bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:48 +0000
Subject: [PATCH 06/17] fix: Mod and Prm proofs must contain the prescribed
 number of repetitions

---
 src/zk/mod_.rs | 4 ++++
 src/zk/prm.rs  | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/zk/mod_.rs b/src/zk/mod_.rs
index 3b7d597..1854bc0 100644
--- a/src/zk/mod_.rs
+++ b/src/zk/mod_.rs
@@ -142,6 +142,10 @@ impl<P: SchemeParams> ModProof<P> {
             return false;
         }
 
+        if self.proof.len() != challenge.0.len() {
+            return false;
+        }
+
         let mut reader = Hasher::<P::Digest>::new_with_dst(b"P_mod RNG")
             // commitments
             .chain(&self.commitment)
diff --git a/src/zk/prm.rs b/src/zk/prm.rs
index 31e907b..160a567 100644
--- a/src/zk/prm.rs
+++ b/src/zk/prm.rs
@@ -110,6 +110,10 @@ impl<P: SchemeParams> PrmProof<P> {
             return false;
         }
 
+        if self.commitment.0.len() != P::SECURITY_BITS || self.proof.len() != P::SECURITY_BITS {
+            return false;
+        }
+
         for ((e, z), a) in challenge
             .0
             .bits()
-- 
2.43.0


From 9ebdb167263f59c952b4190c14913da251451a60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:00 +0000
Subject: [PATCH 07/17] fix: refuse even moduli when decoding public keys and
 ring-Pedersen parameters

---
 src/paillier/rsa.rs | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/src/paillier/rsa.rs b/src/paillier/rsa.rs
index 3d34220..4d4e99a 100644
--- a/src/paillier/rsa.rs
+++ b/src/paillier/rsa.rs
@@ -5,14 +5,14 @@ use crypto_primes::{
 };
 use digest::XofReader;
 use rand_core::CryptoRngCore;
-use serde::{Deserialize, Serialize};
+use serde::{de::Error, Deserialize, Deserializer, Serialize};
 
 use super::params::PaillierParams;
 use crate::{
     tools::Secret,
     uint::{
-        Extendable, FromXofReader, IsInvertible, MulWide, PublicSigned, PublicUint, SecretSigned, SecretUnsigned,
-        ToMontgomery,
+        BoxedEncoding, Extendable, FromXofReader, IsInvertible, MulWide, PublicSigned, PublicUint, SecretSigned,
+        SecretUnsigned, ToMontgomery,
     },
 };
 
@@ -227,7 +227,22 @@ impl<P: PaillierParams> SecretPrimes<P> {
 ///
 /// Suitable for serialization or transmission.
 #[derive(Debug, Clone, PartialEq, Eq, Serialize, Deserialize)]
-pub(crate) struct PublicModulusWire<P: PaillierParams>(PublicUint<P::Uint>);
+pub(crate) struct PublicModulusWire<P: PaillierParams>(
+    // The modulus may come from an untrusted source, and everything that follows assumes that it is odd.
+    #[serde(deserialize_with = "deserialize_odd")] PublicUint<P::Uint>,
+);
+
+fn deserialize_odd<'de, T, D>(deserializer: D) -> Result<PublicUint<T>, D::Error>
+where
+    T: BoxedEncoding + Integer,
+    D: Deserializer<'de>,
+{
+    let value = PublicUint::<T>::deserialize(deserializer)?;
+    if !bool::from(value.is_odd()) {
+        return Err(D::Error::custom("the RSA modulus must be odd"));
+    }
+    Ok(value)
+}
 
 impl<P: PaillierParams> PublicModulusWire<P> {
     fn new(primes: &SecretPrimesWire<P>) -> Self {
-- 
2.43.0


From 4a0f3931feee1e806237929dd0a71fae61fbcae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 08/17] fix: refuse ring-Pedersen parameters with
 non-invertible bases when decoding

---
 src/paillier/ring_pedersen.rs | 28 +++++++++++++++++++++++++++-
 1 file changed, 27 insertions(+), 1 deletion(-)

diff --git a/src/paillier/ring_pedersen.rs b/src/paillier/ring_pedersen.rs
index 66b2a78..7316b09 100644
--- a/src/paillier/ring_pedersen.rs
+++ b/src/paillier/ring_pedersen.rs
@@ -11,7 +11,7 @@ use super::{
 };
 use crate::{
     tools::Secret,
-    uint::{Exponentiable, PublicUint, SecretUnsigned, ToMontgomery},
+    uint::{Exponentiable, IsInvertible, PublicUint, SecretUnsigned, ToMontgomery},
 };
 
 /// Ring-Pedersen secret.
@@ -160,6 +160,7 @@ impl<P: PaillierParams> RPParams<P> {
 /// Minimal public ring-Pedersen parameters suitable for serialization and transmission.
 #[derive(Debug, Clone)]
 #[derive_where::derive_where(Serialize, Deserialize)]
+#[serde(try_from = "RPParamsUnchecked<P>")]
 pub(crate) struct RPParamsWire<P: PaillierParams> {
     /// The public modulus $\hat{N}$
     modulus: PublicModulusWire<P>,
@@ -170,6 +171,31 @@ pub(crate) struct RPParamsWire<P: PaillierParams> {
     base_value: PublicUint<P::Uint>, // $s = t^\lambda$, where $\lambda$ is the secret
 }
 
+/// The contents of [`RPParamsWire`] before the validation.
+#[derive_where::derive_where(Deserialize)]
+#[serde(rename = "RPParamsWire")]
+struct RPParamsUnchecked<P: PaillierParams> {
+    modulus: PublicModulusWire<P>,
+    base_randomizer: PublicUint<P::Uint>,
+    base_value: PublicUint<P::Uint>,
+}
+
+impl<P: PaillierParams> TryFrom<RPParamsUnchecked<P>> for RPParamsWire<P> {
+    type Error = &'static str;
+
+    fn try_from(params: RPParamsUnchecked<P>) -> Result<Self, Self::Error> {
+        let modulus = params.modulus.modulus();
+        if !params.base_randomizer.is_invertible(modulus) || !params.base_value.is_invertible(modulus) {
+            return Err("the ring-Pedersen bases must be invertible modulo the RSA modulus");
+        }
+        Ok(Self {
+            modulus: params.modulus,
+            base_randomizer: params.base_randomizer,
+            base_value: params.base_value,
+        })
+    }
+}
+
 impl<P: PaillierParams> RPParamsWire<P> {
     pub fn modulus(&self) -> &P::Uint {
         self.modulus.modulus()
-- 
2.43.0


From e249acdc4d179705c1da734cd66460eaeaa09b7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:28 +0000
Subject: [PATCH 09/17] fix: proof verifiers refuse non-invertible randomizers,
 ciphertexts and commitments

---
 src/paillier/encryption.rs    | 16 +++++++++++++++-
 src/paillier/ring_pedersen.rs |  7 ++++++-
 src/zk/aff_g.rs               | 10 ++++++++++
 src/zk/aff_g_star.rs          | 10 ++++++++++
 src/zk/dec.rs                 | 10 ++++++++++
 src/zk/enc_elg.rs             |  5 +++++
 src/zk/fac.rs                 |  6 ++++++
 7 files changed, 62 insertions(+), 2 deletions(-)

diff --git a/src/paillier/encryption.rs b/src/paillier/encryption.rs
index 70b88f9..634d315 100644
--- a/src/paillier/encryption.rs
+++ b/src/paillier/encryption.rs
@@ -17,13 +17,22 @@ use super::{
 };
 use crate::{
     tools::Secret,
-    uint::{Exponentiable, Extendable, PublicSigned, PublicUint, SecretSigned, SecretUnsigned, ToMontgomery},
+    uint::{
+        Exponentiable, Extendable, IsInvertible, PublicSigned, PublicUint, SecretSigned, SecretUnsigned, ToMontgomery,
+    },
 };
 
 /// A public randomizer-like quantity used in ZK proofs.
 #[derive(Debug, Clone, Serialize, Deserialize)]
 pub(crate) struct MaskedRandomizer<P: PaillierParams>(PublicUint<P::Uint>);
 
+impl<P: PaillierParams> MaskedRandomizer<P> {
+    /// Returns `true` if this is an element of $\mathbb{Z}_N^*$, as every honestly created masked randomizer is.
+    pub fn is_invertible(&self, pk: &PublicKeyPaillier<P>) -> bool {
+        self.0.is_invertible(pk.modulus())
+    }
+}
+
 /// A ciphertext randomizer (an invertible element of $\mathbb{Z}_N$).
 #[derive(Debug, Clone)]
 pub(crate) struct Randomizer<P: PaillierParams> {
@@ -94,6 +103,11 @@ impl<P: PaillierParams> Ciphertext<P> {
         &self.pk
     }
 
+    /// Returns `true` if this is an element of $\mathbb{Z}_{N^2}^*$, as every honestly created ciphertext is.
+    pub fn is_invertible(&self) -> bool {
+        self.ciphertext.invert().is_some().into()
+    }
+
     /// Encrypts the plaintext with the provided randomizer.
     fn new_with_randomizer_inner(
         pk: &PublicKeyPaillier<P>,
diff --git a/src/paillier/ring_pedersen.rs b/src/paillier/ring_pedersen.rs
index 7316b09..6125de8 100644
--- a/src/paillier/ring_pedersen.rs
+++ b/src/paillier/ring_pedersen.rs
@@ -1,7 +1,7 @@
 /// Implements the Definition 3.3 from the CGGMP'21 paper and related operations.
 use core::ops::Mul;
 
-use crypto_bigint::{modular::Retrieve, Integer, Monty, NonZero, RandomMod, ShrVartime};
+use crypto_bigint::{modular::Retrieve, Integer, Invert, Monty, NonZero, RandomMod, ShrVartime};
 use rand_core::CryptoRngCore;
 use serde::{Deserialize, Serialize};
 
@@ -221,6 +221,11 @@ impl<P: PaillierParams> RPCommitment<P> {
         RPCommitmentWire(self.0.retrieve().into())
     }
 
+    /// Returns `true` if this is an element of $\mathbb{Z}_{\hat{N}}^*$, as every honestly created commitment is.
+    pub fn is_invertible(&self) -> bool {
+        self.0.invert().is_some().into()
+    }
+
     /// Raise to the power of `exponent`.
     pub fn pow<V>(&self, exponent: &V) -> Self
     where
diff --git a/src/zk/aff_g.rs b/src/zk/aff_g.rs
index 5c1c246..6cfb445 100644
--- a/src/zk/aff_g.rs
+++ b/src/zk/aff_g.rs
@@ -211,6 +211,16 @@ impl<P: SchemeParams> AffGProof<P> {
             return false;
         }
 
+        // C ∈ Z_{N_0^2}^*, Y ∈ Z_{N_1^2}^*
+        if !public.cap_c.is_invertible() || !public.cap_y.is_invertible() {
+            return false;
+        }
+
+        // w ∈ Z_{N_0}^*, w_y ∈ Z_{N_1}^*
+        if !self.w.is_invertible(public.pk0) || !self.w_y.is_invertible(public.pk1) {
+            return false;
+        }
+
         // C (*) z_1 (+) enc_0(z_2, w) == A (+) D (*) e
         if public.cap_c * &self.z1 + Ciphertext::new_public_with_randomizer(public.pk0, &self.z2, &self.w)
             != public.cap_d * &e + self.cap_a.to_precomputed(public.pk0)
diff --git a/src/zk/aff_g_star.rs b/src/zk/aff_g_star.rs
index 697c616..a11665e 100644
--- a/src/zk/aff_g_star.rs
+++ b/src/zk/aff_g_star.rs
@@ -201,6 +201,11 @@ impl<P: SchemeParams> AffGStarProof<P> {
             return false;
         }
 
+        // C ∈ Z_{N_0^2}^*, Y ∈ Z_{N_1^2}^*
+        if !public.cap_c.is_invertible() || !public.cap_y.is_invertible() {
+            return false;
+        }
+
         for ((e_bit, commitment), element) in e
             .bits()
             .iter()
@@ -208,6 +213,11 @@ impl<P: SchemeParams> AffGStarProof<P> {
             .zip(self.commitments.iter())
             .zip(self.elements.iter())
         {
+            // w_j ∈ Z_{N_0}^*, \lambda_j ∈ Z_{N_1}^*
+            if !element.w.is_invertible(public.pk0) || !element.lambda.is_invertible(public.pk1) {
+                return false;
+            }
+
             // z_j ∈ ±2^{\ell + \eps}
             if !element.z.is_in_exponent_range(P::L_BOUND + P::EPS_BOUND) {
                 return false;
diff --git a/src/zk/dec.rs b/src/zk/dec.rs
index cb92ac8..e0aadae 100644
--- a/src/zk/dec.rs
+++ b/src/zk/dec.rs
@@ -206,6 +206,11 @@ impl<P: SchemeParams> DecProof<P> {
             return false;
         }
 
+        // K ∈ Z_{N_0^2}^*
+        if !public.cap_k.is_invertible() {
+            return false;
+        }
+
         for ((e_bit, commitment), element) in e
             .bits()
             .iter()
@@ -213,6 +218,11 @@ impl<P: SchemeParams> DecProof<P> {
             .zip(self.commitments.iter())
             .zip(self.elements.iter())
         {
+            // \nu_j ∈ Z_{N_0}^*
+            if !element.nu.is_invertible(public.pk0) {
+                return false;
+            }
+
             // enc(w_j, \nu_j) (+) K (*) (-z_j) == A_j (+) D (*) e_j
             let cap_a = commitment.cap_a.to_precomputed(public.pk0);
             let lhs = Ciphertext::new_public_wide_with_randomizer(public.pk0, &element.w, &element.nu)
diff --git a/src/zk/enc_elg.rs b/src/zk/enc_elg.rs
index 94fc985..bbd2a78 100644
--- a/src/zk/enc_elg.rs
+++ b/src/zk/enc_elg.rs
@@ -161,6 +161,11 @@ impl<P: SchemeParams> EncElgProof<P> {
             return false;
         }
 
+        // z_2 ∈ Z_{N_0}^*
+        if !self.z2.is_invertible(public.pk0) {
+            return false;
+        }
+
         // enc_0(z_1, z_2) == D (+) C (*) e
         let c = Ciphertext::new_public_with_randomizer(public.pk0, &self.z1, &self.z2);
         let cap_d = self.cap_d.to_precomputed(public.pk0);
diff --git a/src/zk/fac.rs b/src/zk/fac.rs
index f755b11..a23a460 100644
--- a/src/zk/fac.rs
+++ b/src/zk/fac.rs
@@ -186,6 +186,9 @@ impl<P: SchemeParams> FacProof<P> {
         // s^{z_1} t^{w_1} == A P^e \mod \hat{N}
         let cap_a = self.cap_a.to_precomputed(setup);
         let cap_p = self.cap_p.to_precomputed(setup);
+        if !cap_p.is_invertible() {
+            return false;
+        }
         if setup.commit(&self.z1, &self.w1) != &cap_a * &cap_p.pow(&e) {
             return false;
         }
@@ -193,6 +196,9 @@ impl<P: SchemeParams> FacProof<P> {
         // s^{z_2} t^{w_2} == B Q^e \mod \hat{N}
         let cap_b = self.cap_b.to_precomputed(setup);
         let cap_q = self.cap_q.to_precomputed(setup);
+        if !cap_q.is_invertible() {
+            return false;
+        }
         if setup.commit(&self.z2, &self.w2) != &cap_b * &cap_q.pow(&e) {
             return false;
         }
-- 
2.43.0


From 5a55da98158d0d5191a308d90788008d000b065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:40 +0000
Subject: [PATCH 10/17] fix: refuse threshold 0 and conversions with a wrong
 set of holders

ThresholdKeyShare::to_key_share only had debug assertions for the number of holders and
for the owner being one of them: a panic with debug assertions, a wrong key share without.
new_centralized() accepted threshold 0, giving shares that have no verifying key.
---
 src/entities/threshold.rs | 19 +++++++++++++++----
 1 file changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/entities/threshold.rs b/src/entities/threshold.rs
index bf49165..46f147a 100644
--- a/src/entities/threshold.rs
+++ b/src/entities/threshold.rs
@@ -67,9 +67,9 @@ where
         threshold: usize,
         signing_key: Option<&SigningKey<P::Curve>>,
     ) -> Result<BTreeMap<I, Self>, LocalError> {
-        if threshold > ids.len() {
+        if threshold == 0 || threshold > ids.len() {
             return Err(LocalError::new(format!(
-                "Invalid threshold ({threshold}). Must be smaller than {}",
+                "Invalid threshold ({threshold}). Must be positive and not greater than {}",
                 ids.len()
             )));
         }
@@ -143,8 +143,19 @@ where
     /// (for the `t` share indices supplied as `share_ids`)
     /// that can be used in the presigning/signing protocols.
     pub fn to_key_share(&self, ids: &BTreeSet<I>) -> Result<KeyShare<P, I>, LocalError> {
-        debug_assert!(ids.len() == self.threshold as usize);
-        debug_assert!(ids.iter().any(|id| id == &self.owner));
+        if ids.len() != self.threshold as usize {
+            return Err(LocalError::new(format!(
+                "Invalid number of share holders ({}). Must be equal to the threshold ({})",
+                ids.len(),
+                self.threshold
+            )));
+        }
+        if !ids.contains(&self.owner) {
+            return Err(LocalError::new(format!(
+                "The share holders must include the owner of the share ({:?})",
+                self.owner
+            )));
+        }
 
         let owner_share_id = self
             .share_ids
-- 
2.43.0


From 3940ae305da8c27a43d830129b81ad3c66d10b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:13 +0000
Subject: [PATCH 11/17] fix: KeyResharing checks its inputs and messages

- a public polynomial of a wrong length changed the threshold of the new shares, an empty one caused a panic;
- repeated (or zero) IDs of old shares replaced other holders' subshares, giving a wrong key undetected;
- shares that do not add up to the verifying key caused a panic;
- the methods used to verify evidence panicked, including those called when an error is reported;
- inconsistent inputs (impossible threshold, too few old holders, IDs missing from the holders,
  a share of another party) were accepted, ending in panics or unusable shares.
---
 src/protocols/key_resharing.rs | 131 ++++++++++++++++++++++++++-------
 src/tools/sss.rs               |   5 ++
 2 files changed, 108 insertions(+), 28 deletions(-)

diff --git a/src/protocols/key_resharing.rs b/src/protocols/key_resharing.rs
index 2a55759..55e06ee 100644
--- a/src/protocols/key_resharing.rs
+++ b/src/protocols/key_resharing.rs
@@ -12,9 +12,11 @@ use alloc::{
     boxed::Box,
     collections::{BTreeMap, BTreeSet},
     format,
-    vec::Vec,
 };
-use core::{fmt::Debug, marker::PhantomData};
+use core::{
+    fmt::{Debug, Display, Formatter},
+    marker::PhantomData,
+};
 
 use ecdsa::VerifyingKey;
 use manul::protocol::{
@@ -46,44 +48,57 @@ impl<P: SchemeParams, I: PartyId> Protocol<I> for KeyResharingProtocol<P, I> {
     type ProtocolError = KeyResharingError;
 
     fn verify_direct_message_is_invalid(
-        _format: &BoxedFormat,
-        _round_id: &RoundId,
-        _message: &DirectMessage,
+        format: &BoxedFormat,
+        round_id: &RoundId,
+        message: &DirectMessage,
     ) -> Result<(), MessageValidationError> {
-        unimplemented!()
+        match round_id {
+            r if r == &1 => message.verify_is_not::<Round1DirectMessage<P>>(format),
+            _ => Err(MessageValidationError::InvalidEvidence("Invalid round number".into())),
+        }
     }
 
     fn verify_echo_broadcast_is_invalid(
-        _format: &BoxedFormat,
-        _round_id: &RoundId,
-        _message: &EchoBroadcast,
+        format: &BoxedFormat,
+        round_id: &RoundId,
+        message: &EchoBroadcast,
     ) -> Result<(), MessageValidationError> {
-        unimplemented!()
+        match round_id {
+            r if r == &1 => message.verify_is_not::<Round1BroadcastMessage<P>>(format),
+            _ => Err(MessageValidationError::InvalidEvidence("Invalid round number".into())),
+        }
     }
 
     fn verify_normal_broadcast_is_invalid(
         _format: &BoxedFormat,
-        _round_id: &RoundId,
-        _message: &NormalBroadcast,
+        round_id: &RoundId,
+        message: &NormalBroadcast,
     ) -> Result<(), MessageValidationError> {
-        unimplemented!()
+        match round_id {
+            r if r == &1 => message.verify_is_some(),
+            _ => Err(MessageValidationError::InvalidEvidence("Invalid round number".into())),
+        }
     }
 }
 
-/// Provable faults of KeyResharing
-#[derive(displaydoc::Display, Debug, Clone, Copy, Serialize, Deserialize)]
-pub enum KeyResharingError {
-    /// Unexpected sender of a message (not one of the old holders)
-    UnexpectedSender,
-    /// Mismatch of the subshare
-    SubshareMismatch,
+/// Provable faults of KeyResharing.
+///
+/// There are none: a third party knows neither the new threshold nor the share ID of the receiver of a direct message,
+/// so the faults detected in [`Round::receive_message`] cannot be proven to it.
+#[derive(Debug, Clone, Copy, Serialize, Deserialize)]
+pub enum KeyResharingError {}
+
+impl Display for KeyResharingError {
+    fn fmt(&self, _f: &mut Formatter<'_>) -> Result<(), core::fmt::Error> {
+        match *self {}
+    }
 }
 
 impl<I> ProtocolError<I> for KeyResharingError {
     type AssociatedData = ();
 
     fn required_messages(&self) -> RequiredMessages {
-        unimplemented!()
+        match *self {}
     }
 
     fn verify_messages_constitute_error(
@@ -96,7 +111,7 @@ impl<I> ProtocolError<I> for KeyResharingError {
         _previous_messages: BTreeMap<RoundId, ProtocolMessage>,
         _combined_echos: BTreeMap<RoundId, BTreeMap<I, EchoBroadcast>>,
     ) -> Result<(), ProtocolValidationError> {
-        unimplemented!()
+        match *self {}
     }
 }
 
@@ -184,6 +199,43 @@ where
             return Err(LocalError::new("Either old holder or new holder data must be provided"));
         };
 
+        if self.new_threshold == 0 || self.new_threshold > self.new_holders.len() {
+            return Err(LocalError::new(format!(
+                "Invalid new threshold ({}). Must be positive and not greater than {}",
+                self.new_threshold,
+                self.new_holders.len()
+            )));
+        }
+
+        if let Some(old_holder) = self.old_holder.as_ref() {
+            if &old_holder.key_share.owner != id {
+                return Err(LocalError::new(format!(
+                    "The old share belongs to {:?}, but the node ID is {id:?}",
+                    old_holder.key_share.owner
+                )));
+            }
+        }
+
+        if let Some(new_holder) = self.new_holder.as_ref() {
+            if !self.new_holders.contains(id) {
+                return Err(LocalError::new(format!(
+                    "New holder data is provided, but {id:?} is not one of the new holders"
+                )));
+            }
+            if new_holder.old_holders.len() < new_holder.old_threshold {
+                return Err(LocalError::new(format!(
+                    "Not enough old holders ({}) for the old threshold {}",
+                    new_holder.old_holders.len(),
+                    new_holder.old_threshold
+                )));
+            }
+            if new_holder.old_holders.contains(id) != self.old_holder.is_some() {
+                return Err(LocalError::new(format!(
+                    "{id:?} must be listed in the old holders if and only if the old share is provided"
+                )));
+            }
+        }
+
         let message_destinations = if self.old_holder.is_some() {
             // It is possible that a party is both an old holder and a new holder.
             // This will be processed separately.
@@ -352,13 +404,25 @@ impl<P: SchemeParams, I: PartyId> Round<I> for Round1<P, I> {
                     "my_id={:?} is missing from the new_share_ids",
                     &self.my_id
                 )))?;
+
+                // A polynomial of a wrong length would change the threshold of the new shares.
+                if echo_broadcast.public_polynomial.num_coeffs() != self.new_threshold {
+                    return Err(ReceiveError::unprovable(format!(
+                        "Invalid length of the public polynomial (expected {}, got {})",
+                        self.new_threshold,
+                        echo_broadcast.public_polynomial.num_coeffs()
+                    )));
+                }
+
                 let public_subshare_from_poly = echo_broadcast.public_polynomial.evaluate(my_share_id);
                 let public_subshare_from_private = Secret::mul_by_generator(&direct_message.subshare);
 
                 // Check that the public polynomial sent in the broadcast corresponds to the secret share
                 // sent in the direct message.
                 if public_subshare_from_poly != public_subshare_from_private {
-                    return Err(ReceiveError::protocol(KeyResharingError::SubshareMismatch));
+                    return Err(ReceiveError::unprovable(
+                        "The public polynomial does not correspond to the subshare",
+                    ));
                 }
 
                 return Ok(Payload::new(Round1Payload {
@@ -368,7 +432,9 @@ impl<P: SchemeParams, I: PartyId> Round<I> for Round1<P, I> {
                 }));
             }
         }
-        Err(ReceiveError::protocol(KeyResharingError::UnexpectedSender))
+        Err(ReceiveError::unprovable(
+            "Unexpected sender of a message (not one of the old holders)",
+        ))
     }
 
     fn finalize(
@@ -404,13 +470,20 @@ impl<P: SchemeParams, I: PartyId> Round<I> for Round1<P, I> {
             }
         }
 
-        // Check that the 0-th coefficients of public polynomials (that is, the old shares)
-        // add up to the expected verifying key.
+        // The interpolation requires the share IDs to be different from each other and from zero
+        // (which is where the polynomial is interpolated).
 
         let old_share_ids = payloads
             .values()
             .map(|payload| payload.old_share_id)
-            .collect::<Vec<_>>();
+            .collect::<BTreeSet<_>>();
+        if old_share_ids.len() != payloads.len() || old_share_ids.contains(&ShareId::new(0)) {
+            // This is unattributable too, see below.
+            return Err(LocalError::new("Invalid share IDs of the old shares"));
+        }
+
+        // Check that the 0-th coefficients of public polynomials (that is, the old shares)
+        // add up to the expected verifying key.
 
         let vkey = payloads
             .values()
@@ -425,7 +498,9 @@ impl<P: SchemeParams, I: PartyId> Round<I> for Round1<P, I> {
             // TODO (#113): this is unattributable.
             // Should we add an enum variant to `FinalizeError`?
             // or take the public shares as an input (assuming the nodes published those previously)
-            panic!("Invalid shares");
+            return Err(LocalError::new(
+                "The old shares do not add up to the expected verifying key",
+            ));
         }
 
         // Assemble the new share.
diff --git a/src/tools/sss.rs b/src/tools/sss.rs
index c3e8783..aad6881 100644
--- a/src/tools/sss.rs
+++ b/src/tools/sss.rs
@@ -98,6 +98,11 @@ where
         evaluate_polynomial(&self.0, &x.0)
     }
 
+    /// The number of coefficients, that is the number of points that define the polynomial.
+    pub fn num_coeffs(&self) -> usize {
+        self.0.len()
+    }
+
     pub fn coeff0(&self) -> Result<&Point<P>, LocalError> {
         self.0
             .first()
-- 
2.43.0


From bebf54aeeb93f279e7304fc0f942128a8878dc11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:58 +0000
Subject: [PATCH 12/17] fix: refuse random contributions of a wrong length in
 KeyInit, KeyRefresh and AuxGen

Combining them asserts equal lengths, so one party could make all the others panic.
---
 src/protocols/aux_gen.rs     | 16 ++++++++++++++++
 src/protocols/key_init.rs    | 16 ++++++++++++++++
 src/protocols/key_refresh.rs | 16 ++++++++++++++++
 3 files changed, 48 insertions(+)

diff --git a/src/protocols/aux_gen.rs b/src/protocols/aux_gen.rs
index b2c75f6..d70db4a 100644
--- a/src/protocols/aux_gen.rs
+++ b/src/protocols/aux_gen.rs
@@ -107,6 +107,7 @@ impl<P, Id: PartyId> Display for AuxGenError<P, Id> {
             "{}",
             match self.error {
                 Error::R2HashMismatch => "Round 2: the previously sent hash does not match the public data.",
+                Error::R2InvalidRidLength => "Round 2: the length of `rid` is invalid.",
                 Error::R2PaillierModulusTooSmall => "Round 2: Paillier modulus is too small.",
                 Error::R2RPModulusTooSmall => "Round 2: ring-Pedersent modulus is too small.",
                 Error::R2PrmFailed => "Round 2: `П^{prm}` verification failed.",
@@ -121,6 +122,7 @@ impl<P, Id: PartyId> Display for AuxGenError<P, Id> {
 #[derive(Debug, Clone, Serialize, Deserialize)]
 enum Error<Id> {
     R2HashMismatch,
+    R2InvalidRidLength,
     R2PaillierModulusTooSmall,
     R2RPModulusTooSmall,
     R2PrmFailed,
@@ -146,6 +148,11 @@ fn reconstruct_rid<P: SchemeParams, Id: PartyId>(
         .deserialize::<Round2EchoBroadcast<P>>(format)?;
     let mut rid_combined = r2_eb.rid;
     for message in r2_ebs.values() {
+        if message.rid.bits().len() != rid_combined.bits().len() {
+            return Err(ProtocolValidationError::InvalidEvidence(
+                "The lengths of `rid` values are different".into(),
+            ));
+        }
         rid_combined ^= &message.rid;
     }
     Ok(rid_combined)
@@ -168,6 +175,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for AuxGenError<P, Id> {
                 Some([(1.into(), RequiredMessageParts::echo_broadcast())].into()),
                 None,
             ),
+            Error::R2InvalidRidLength => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R2PaillierModulusTooSmall => {
                 RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None)
             }
@@ -222,6 +230,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for AuxGenError<P, Id> {
                 };
                 verify_that(data.hash(&sid, guilty_party) != r1_eb.cap_v)
             }
+            Error::R2InvalidRidLength => {
+                let r2_eb = message.echo_broadcast.deserialize::<Round2EchoBroadcast<P>>(format)?;
+                verify_that(r2_eb.rid.bits().len() != P::SECURITY_PARAMETER)
+            }
             Error::R2PaillierModulusTooSmall => {
                 let r2_nb = message
                     .normal_broadcast
@@ -552,6 +564,10 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
             return Err(ReceiveError::protocol(Error::R2HashMismatch.into()));
         }
 
+        if data.rid.bits().len() != P::SECURITY_PARAMETER {
+            return Err(ReceiveError::protocol(Error::R2InvalidRidLength.into()));
+        }
+
         if data.paillier_pk.modulus().bits_vartime() < <P::Paillier as PaillierParams>::MODULUS_BITS - 2 {
             return Err(ReceiveError::protocol(Error::R2PaillierModulusTooSmall.into()));
         }
diff --git a/src/protocols/key_init.rs b/src/protocols/key_init.rs
index f494d57..5f2293d 100644
--- a/src/protocols/key_init.rs
+++ b/src/protocols/key_init.rs
@@ -107,6 +107,8 @@ impl<P: SchemeParams> From<Error> for KeyInitError<P> {
 enum Error {
     /// Round 2: the previously sent hash does not match the public data.
     R2HashMismatch,
+    /// Round 2: the length of `rho` is invalid.
+    R2InvalidRhoLength,
     /// Round 3: failed to verify `П^{{sch}}`.
     R3InvalidSchProof,
 }
@@ -128,6 +130,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyInitError<P> {
                 Some([(1.into(), RequiredMessageParts::echo_broadcast())].into()),
                 None,
             ),
+            Error::R2InvalidRhoLength => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R3InvalidSchProof => RequiredMessages::new(
                 RequiredMessageParts::normal_broadcast(),
                 Some([(2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast())].into()),
@@ -166,6 +169,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyInitError<P> {
                 };
                 verify_that(data.hash(&sid, guilty_party) != r1_eb.cap_v)
             }
+            Error::R2InvalidRhoLength => {
+                let r2_eb = message.echo_broadcast.deserialize::<Round2EchoBroadcast>(format)?;
+                verify_that(r2_eb.rho.bits().len() != P::SECURITY_PARAMETER)
+            }
             Error::R3InvalidSchProof => {
                 let r2_ebs = combined_echos
                     .get_round(2)?
@@ -184,6 +191,11 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyInitError<P> {
 
                 let mut rho = r2_eb.rho;
                 for message in r2_ebs.values() {
+                    if message.rho.bits().len() != rho.bits().len() {
+                        return Err(ProtocolValidationError::InvalidEvidence(
+                            "The lengths of `rho` values are different".into(),
+                        ));
+                    }
                     rho ^= &message.rho;
                 }
 
@@ -448,6 +460,10 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
             return Err(ReceiveError::protocol(Error::R2HashMismatch.into()));
         }
 
+        if data.rho.bits().len() != P::SECURITY_PARAMETER {
+            return Err(ReceiveError::protocol(Error::R2InvalidRhoLength.into()));
+        }
+
         Ok(Payload::new(Round2Payload {
             cap_x: data.cap_x,
             rho: data.rho,
diff --git a/src/protocols/key_refresh.rs b/src/protocols/key_refresh.rs
index adc6ba7..8b802e0 100644
--- a/src/protocols/key_refresh.rs
+++ b/src/protocols/key_refresh.rs
@@ -126,6 +126,7 @@ where
             "{}",
             match self.error {
                 Error::R2HashMismatch => "Round 2: the previously sent hash does not match the public data.",
+                Error::R2InvalidRidLength => "Round 2: the length of `rid` is invalid.",
                 Error::R2WrongIdsX => "Round 2: wrong IDs in public shares map.",
                 Error::R2WrongIdsY => "Round 2: wrong IDs in Elgamal keys map.",
                 Error::R2WrongIdsA => "Round 2: wrong IDs in Schnorr commitments map.",
@@ -153,6 +154,7 @@ where
     P: SchemeParams,
 {
     R2HashMismatch,
+    R2InvalidRidLength,
     R2WrongIdsX,
     R2WrongIdsY,
     R2WrongIdsA,
@@ -194,6 +196,11 @@ fn reconstruct_rid<P: SchemeParams, Id: PartyId>(
         .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
     let mut rid_combined = r2_eb.rid;
     for message in r2_ebs.values() {
+        if message.rid.bits().len() != rid_combined.bits().len() {
+            return Err(ProtocolValidationError::InvalidEvidence(
+                "The lengths of `rid` values are different".into(),
+            ));
+        }
         rid_combined ^= &message.rid;
     }
     Ok(rid_combined)
@@ -216,6 +223,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyRefreshError<P, Id>
                 Some([(1.into(), RequiredMessageParts::echo_broadcast())].into()),
                 None,
             ),
+            Error::R2InvalidRidLength => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R2WrongIdsX => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
             Error::R2WrongIdsY => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R2WrongIdsA => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
@@ -290,6 +298,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyRefreshError<P, Id>
                 };
                 verify_that(data.hash(&sid, guilty_party) != r1_eb.cap_v)
             }
+            Error::R2InvalidRidLength => {
+                let r2_eb = message.echo_broadcast.deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
+                verify_that(r2_eb.rid.bits().len() != P::SECURITY_PARAMETER)
+            }
             Error::R2WrongIdsX => {
                 let r2_nb = message
                     .normal_broadcast
@@ -766,6 +778,10 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
             return Err(ReceiveError::protocol(Error::R2HashMismatch.into()));
         }
 
+        if data.rid.bits().len() != P::SECURITY_PARAMETER {
+            return Err(ReceiveError::protocol(Error::R2InvalidRidLength.into()));
+        }
+
         if data.cap_xs.keys().cloned().collect::<BTreeSet<_>>() != self.context.all_ids {
             return Err(ReceiveError::protocol(Error::R2WrongIdsX.into()));
         }
-- 
2.43.0


From 838e0e473d506627e115adf9b40c999dc5f58564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:54 +0000
Subject: [PATCH 13/17] fix: signing round 1 proofs name the party they are
 made for

The proofs in the direct message depend on the ring-Pedersen parameters of the receiver, which the verification
of the evidence did not know: it used those of the accused party, so a valid accusation was refused and an honest
party's message could be presented as wrong. A message naming another party is refused (unprovably) by its receiver.
---
 src/protocols/interactive_signing.rs | 49 +++++++++++++++++++++++-----
 1 file changed, 41 insertions(+), 8 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 5a69056..df83918 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -79,7 +79,7 @@ impl<P: SchemeParams, Id: PartyId> Protocol<Id> for InteractiveSigningProtocol<P
         message: &DirectMessage,
     ) -> Result<(), MessageValidationError> {
         match round_id {
-            r if r == &1 => message.verify_is_not::<Round1DirectMessage<P>>(format),
+            r if r == &1 => message.verify_is_not::<Round1DirectMessage<P, Id>>(format),
             r if r == &2 => message.verify_is_some(),
             r if r == &3 => message.verify_is_some(),
             r if r == &4 => message.verify_is_some(),
@@ -364,12 +364,20 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
 
         match &self.error {
             Error::R1EncElg0Failed => {
-                let r1_dm = message.direct_message.deserialize::<Round1DirectMessage<P>>(format)?;
+                let r1_dm = message
+                    .direct_message
+                    .deserialize::<Round1DirectMessage<P, Id>>(format)?;
                 let r1_eb = message.echo_broadcast.deserialize::<Round1EchoBroadcast<P>>(format)?;
 
                 let public_aux = &associated_data.aux.as_map().try_get("aux infos", guilty_party)?;
                 let pk = public_aux.paillier_pk.clone().into_precomputed();
-                let rp = public_aux.rp_params.to_precomputed();
+                // The proof is verified with the parameters of the party the direct message was intended for.
+                let rp = associated_data
+                    .aux
+                    .as_map()
+                    .try_get("aux infos", &r1_dm.destination)?
+                    .rp_params
+                    .to_precomputed();
 
                 let aux = (&epid, guilty_party);
 
@@ -386,12 +394,20 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 ))
             }
             Error::R1EncElg1Failed => {
-                let r1_dm = message.direct_message.deserialize::<Round1DirectMessage<P>>(format)?;
+                let r1_dm = message
+                    .direct_message
+                    .deserialize::<Round1DirectMessage<P, Id>>(format)?;
                 let r1_eb = message.echo_broadcast.deserialize::<Round1EchoBroadcast<P>>(format)?;
 
                 let public_aux = &associated_data.aux.as_map().try_get("aux infos", guilty_party)?;
                 let pk = public_aux.paillier_pk.clone().into_precomputed();
-                let rp = public_aux.rp_params.to_precomputed();
+                // The proof is verified with the parameters of the party the direct message was intended for.
+                let rp = associated_data
+                    .aux
+                    .as_map()
+                    .try_get("aux infos", &r1_dm.destination)?
+                    .rp_params
+                    .to_precomputed();
 
                 let aux = (&epid, guilty_party);
 
@@ -1107,7 +1123,9 @@ pub(super) struct Round1EchoBroadcast<P: SchemeParams> {
 
 #[derive(Clone)]
 #[derive_where::derive_where(Serialize, Deserialize)]
-struct Round1DirectMessage<P: SchemeParams> {
+struct Round1DirectMessage<P: SchemeParams, Id: PartyId> {
+    /// The party whose ring-Pedersen parameters were used in the proofs.
+    destination: Id,
     psi0: EncElgProof<P>,
     psi1: EncElgProof<P>,
 }
@@ -1199,7 +1217,14 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round1<P, Id> {
         );
 
         Ok((
-            DirectMessage::new(format, Round1DirectMessage::<P> { psi0, psi1 })?,
+            DirectMessage::new(
+                format,
+                Round1DirectMessage::<P, Id> {
+                    destination: destination.clone(),
+                    psi0,
+                    psi1,
+                },
+            )?,
             None,
         ))
     }
@@ -1212,9 +1237,17 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round1<P, Id> {
     ) -> Result<Payload, ReceiveError<Id, Self::Protocol>> {
         message.normal_broadcast.assert_is_none()?;
 
-        let direct_message = message.direct_message.deserialize::<Round1DirectMessage<P>>(format)?;
+        let direct_message = message
+            .direct_message
+            .deserialize::<Round1DirectMessage<P, Id>>(format)?;
         let echo_broadcast = message.echo_broadcast.deserialize::<Round1EchoBroadcast<P>>(format)?;
 
+        if direct_message.destination != self.context.my_id {
+            return Err(ReceiveError::unprovable(
+                "Round 1: the direct message is intended for another party",
+            ));
+        }
+
         let aux = (&self.context.epid, from);
 
         let public_aux = self.context.public_aux(&self.context.my_id)?;
-- 
2.43.0


From 6c33b97ac56b0f737db2a38936449409331c5a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:54 +0000
Subject: [PATCH 14/17] fix: evidence of a wrong AffG proof uses the share of
 the accused party

Evidence of wrong sets of IDs in signing round 2 also covers the maps with hats, as the check made by the receiver does.
---
 src/protocols/interactive_signing.rs | 29 +++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index df83918..1fb2ed4 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -433,7 +433,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r2_nb.cap_ds.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(
+                    r2_nb.cap_ds.keys().collect::<BTreeSet<_>>() != expected_ids
+                        || r2_nb.hat_cap_ds.keys().collect::<BTreeSet<_>>() != expected_ids,
+                )
             }
             Error::R2WrongIdsF => {
                 let r2_eb = message
@@ -445,7 +448,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r2_eb.cap_fs.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(
+                    r2_eb.cap_fs.keys().collect::<BTreeSet<_>>() != expected_ids
+                        || r2_eb.hat_cap_fs.keys().collect::<BTreeSet<_>>() != expected_ids,
+                )
             }
             Error::R2WrongIdsPsi => {
                 let r2_nb = message
@@ -457,7 +463,10 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r2_nb.psis.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(
+                    r2_nb.psis.keys().collect::<BTreeSet<_>>() != expected_ids
+                        || r2_nb.hat_psis.keys().collect::<BTreeSet<_>>() != expected_ids,
+                )
             }
             Error::R2AffGPsiFailed { failed_for } => {
                 let r1_eb = combined_echos
@@ -510,7 +519,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .normal_broadcast
                     .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
 
-                let cap_x = associated_data.shares.as_map().try_get("shares", failed_for)?;
+                let cap_x = associated_data.shares.as_map().try_get("shares", guilty_party)?;
 
                 let failed_for_aux = &associated_data.aux.as_map().try_get("aux infos", failed_for)?;
                 let guilty_party_aux = &associated_data.aux.as_map().try_get("aux infos", guilty_party)?;
@@ -1590,15 +1599,21 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
 
         let expected_ids = self.context.all_ids.clone().without(from);
 
-        if normal_broadcast.cap_ds.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+        if normal_broadcast.cap_ds.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+            || normal_broadcast.hat_cap_ds.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+        {
             return Err(ReceiveError::protocol(Error::R2WrongIdsD.into()));
         }
 
-        if echo_broadcast.cap_fs.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+        if echo_broadcast.cap_fs.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+            || echo_broadcast.hat_cap_fs.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+        {
             return Err(ReceiveError::protocol(Error::R2WrongIdsF.into()));
         }
 
-        if normal_broadcast.psis.keys().cloned().collect::<BTreeSet<_>>() != expected_ids {
+        if normal_broadcast.psis.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+            || normal_broadcast.hat_psis.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+        {
             return Err(ReceiveError::protocol(Error::R2WrongIdsPsi.into()));
         }
 
-- 
2.43.0


From 71d1aee5644efc5149eb297db162e2a3885a6fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:54 +0000
Subject: [PATCH 15/17] fix: evidence of a wrong Elog proof in signing round 3
 uses the combined Gamma as the base

---
 src/protocols/interactive_signing.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 1fb2ed4..281d639 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -298,7 +298,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     ]
                     .into(),
                 ),
-                None,
+                Some([2.into()].into()),
             ),
             Error::R4InvalidSignatureShare => RequiredMessages::new(
                 RequiredMessageParts::normal_broadcast(),
@@ -587,18 +587,23 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .get_round(2)?
                     .echo_broadcast
                     .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
+                let r2_ebs = combined_echos
+                    .get_round(2)?
+                    .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r3_nb = message
                     .normal_broadcast
                     .deserialize::<Round3NormalBroadcast<P>>(format)?;
                 let aux = (&epid, guilty_party);
 
+                let cap_gamma_combined = r2_eb.cap_gamma + r2_ebs.values().map(|eb| eb.cap_gamma).sum();
+
                 verify_that(!r3_nb.psi_prime.verify(
                     ElogPublicInputs {
                         cap_l: &r1_eb.cap_a1,
                         cap_m: &r1_eb.cap_a2,
                         cap_x: &r1_eb.cap_y,
                         cap_y: &r3_nb.cap_delta,
-                        h: &r2_eb.cap_gamma,
+                        h: &cap_gamma_combined,
                     },
                     &aux,
                 ))
-- 
2.43.0


From 00d92d9c72920f411d822e77abcaca3a84a143c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:54 +0000
Subject: [PATCH 16/17] fix: evidence of signing error rounds is verifiable and
 cannot frame

The accused party's ciphertexts D were only in normal (not echoed) broadcasts, so a party sending different ones to
different receivers made honest parties' proofs fail in the error rounds, and the evidence of a failed error round could
not be verified by a third party. The ciphertexts are now in the echo broadcast of round 2 as well and the two must agree.
---
 src/protocols/interactive_signing.rs | 237 ++++++++++++++++-----------
 1 file changed, 139 insertions(+), 98 deletions(-)

diff --git a/src/protocols/interactive_signing.rs b/src/protocols/interactive_signing.rs
index 281d639..2b56d9c 100644
--- a/src/protocols/interactive_signing.rs
+++ b/src/protocols/interactive_signing.rs
@@ -144,6 +144,7 @@ impl<P, Id: Debug> Display for InteractiveSigningError<P, Id> {
                 Error::R2AffGHatPsiFailed { .. } =>
                     "Round 2: failed to verify `\\hat{psi}` (`П^{aff-g}` proof for `\\hat{D}`).",
                 Error::R2ElogFailed => "Round 2: failed to verify `П^{elog}` proof.",
+                Error::R2MismatchD { .. } => "Round 2: `D` values in the two broadcasts do not match.",
                 Error::R3ElogFailed => "Round 3: failed to verify `П^{elog}` proof.",
                 Error::R4InvalidSignatureShare => "Round 4: signature share verification failed.",
                 Error::R5DecFailed => "Round 5: `П^{dec}` proof verification failed.",
@@ -176,6 +177,11 @@ enum Error<Id> {
         failed_for: Id,
     },
     R2ElogFailed,
+    R2MismatchD {
+        /// The index $k$ for which $D_{k,j}$ or $\hat{D}_{k,j}$ differs between the two broadcasts
+        /// (where $j$ is the index of the guilty party).
+        failed_for: Id,
+    },
     R3ElogFailed,
     R4InvalidSignatureShare,
     R5DecFailed,
@@ -271,7 +277,11 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             Error::R1EncElg1Failed => {
                 RequiredMessages::new(RequiredMessageParts::echo_broadcast().and_direct_message(), None, None)
             }
-            Error::R2WrongIdsD => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
+            Error::R2WrongIdsD => RequiredMessages::new(
+                RequiredMessageParts::echo_broadcast().and_normal_broadcast(),
+                None,
+                None,
+            ),
             Error::R2WrongIdsF => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R2WrongIdsPsi => RequiredMessages::new(RequiredMessageParts::normal_broadcast(), None, None),
             Error::R2AffGPsiFailed { .. } => RequiredMessages::new(
@@ -289,6 +299,11 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 Some([(1.into(), RequiredMessageParts::echo_broadcast())].into()),
                 None,
             ),
+            Error::R2MismatchD { .. } => RequiredMessages::new(
+                RequiredMessageParts::echo_broadcast().and_normal_broadcast(),
+                None,
+                None,
+            ),
             Error::R3ElogFailed => RequiredMessages::new(
                 RequiredMessageParts::normal_broadcast(),
                 Some(
@@ -316,8 +331,8 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 Some(
                     [
                         (1.into(), RequiredMessageParts::echo_broadcast()),
-                        (2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast()),
-                        (3.into(), RequiredMessageParts::normal_broadcast()),
+                        (2.into(), RequiredMessageParts::echo_broadcast()),
+                        (3.into(), RequiredMessageParts::echo_broadcast()),
                     ]
                     .into(),
                 ),
@@ -326,15 +341,15 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             Error::R5WrongIdsPsi => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R5AffGStarFailed { .. } => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast(),
-                Some([(2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast())].into()),
-                Some([1.into(), 2.into()].into()),
+                Some([(2.into(), RequiredMessageParts::echo_broadcast())].into()),
+                Some([1.into()].into()),
             ),
             Error::R6DecFailed => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast(),
                 Some(
                     [
                         (1.into(), RequiredMessageParts::echo_broadcast()),
-                        (2.into(), RequiredMessageParts::echo_broadcast().and_normal_broadcast()),
+                        (2.into(), RequiredMessageParts::echo_broadcast()),
                         (3.into(), RequiredMessageParts::normal_broadcast()),
                     ]
                     .into(),
@@ -344,8 +359,8 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             Error::R6WrongIdsPsi => RequiredMessages::new(RequiredMessageParts::echo_broadcast(), None, None),
             Error::R6AffGStarFailed { .. } => RequiredMessages::new(
                 RequiredMessageParts::echo_broadcast(),
-                None,
-                Some([1.into(), 2.into()].into()),
+                Some([(2.into(), RequiredMessageParts::echo_broadcast())].into()),
+                Some([1.into()].into()),
             ),
         }
     }
@@ -427,6 +442,9 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 let r2_nb = message
                     .normal_broadcast
                     .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
+                let r2_eb = message
+                    .echo_broadcast
+                    .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
                 let expected_ids = associated_data
                     .aux
                     .as_map()
@@ -435,7 +453,9 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .without(&guilty_party);
                 verify_that(
                     r2_nb.cap_ds.keys().collect::<BTreeSet<_>>() != expected_ids
-                        || r2_nb.hat_cap_ds.keys().collect::<BTreeSet<_>>() != expected_ids,
+                        || r2_nb.hat_cap_ds.keys().collect::<BTreeSet<_>>() != expected_ids
+                        || r2_eb.cap_ds.keys().collect::<BTreeSet<_>>() != expected_ids
+                        || r2_eb.hat_cap_ds.keys().collect::<BTreeSet<_>>() != expected_ids,
                 )
             }
             Error::R2WrongIdsF => {
@@ -578,6 +598,30 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     &aux,
                 ))
             }
+            Error::R2MismatchD { failed_for } => {
+                let r2_eb = message
+                    .echo_broadcast
+                    .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
+                let r2_nb = message
+                    .normal_broadcast
+                    .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
+
+                let failed_for_aux = &associated_data.aux.as_map().try_get("aux infos", failed_for)?;
+                let pk = failed_for_aux.paillier_pk.clone().into_precomputed();
+
+                let eb_cap_d = r2_eb.cap_ds.try_get("`D` map", failed_for)?.to_precomputed(&pk);
+                let nb_cap_d = r2_nb.cap_ds.try_get("`D` map", failed_for)?.to_precomputed(&pk);
+                let eb_hat_cap_d = r2_eb
+                    .hat_cap_ds
+                    .try_get("`\\hat{D}` map", failed_for)?
+                    .to_precomputed(&pk);
+                let nb_hat_cap_d = r2_nb
+                    .hat_cap_ds
+                    .try_get("`\\hat{D}` map", failed_for)?
+                    .to_precomputed(&pk);
+
+                verify_that(eb_cap_d != nb_cap_d || eb_hat_cap_d != nb_hat_cap_d)
+            }
             Error::R3ElogFailed => {
                 let r1_eb = previous_messages
                     .get_round(1)?
@@ -650,29 +694,25 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 let r2_ebs = combined_echos
                     .get_round(2)?
                     .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
-                let r2_nb = previous_messages
-                    .get_round(2)?
-                    .normal_broadcast
-                    .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
                 let r2_eb = previous_messages
                     .get_round(2)?
                     .echo_broadcast
                     .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
-                let r3_nb = previous_messages
+                let r3_eb = previous_messages
                     .get_round(3)?
-                    .normal_broadcast
-                    .deserialize::<Round3NormalBroadcast<P>>(format)?;
+                    .echo_broadcast
+                    .deserialize::<Round3EchoBroadcast<P>>(format)?;
                 let r5_eb = message
                     .echo_broadcast
                     .deserialize::<Round5EchoBroadcast<P, Id>>(format)?;
 
                 // Calculate `D_j` where `j = guilty_party`.
-                // `D_j = sum_{l != j}(D_{l,j} + F_{j,l})
+                // `D_j = sum_{l != j}(D_{j,l} + F_{l,j})`
                 //
-                // r2_eb: contains D_{l,j}, F_{l,j} for l != j
-                // => D_{l,j} = r2_eb.cap_ds[l]
-                // r2_ebs[i], i != j: contains D_{l,i}, F_{l,i} for l != i
-                // => F_{j,l} = r2_ebs[l].cap_fs[j]
+                // r2_ebs[l], l != j: contains D_{k,l} for k != l
+                // => D_{j,l} = r2_ebs[l].cap_ds[j]
+                // r2_eb: contains F_{l,j} for l != j
+                // => F_{l,j} = r2_eb.cap_fs[l]
 
                 let public_aux = &associated_data.aux.as_map().try_get("aux infos", guilty_party)?;
                 let pk = public_aux.paillier_pk.clone().into_precomputed();
@@ -687,18 +727,18 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .without(&guilty_party);
 
                 let cap_d = sum_non_empty(
-                    ids.iter()
-                        .map(|id| Ok(r2_nb.cap_ds.try_get("`D` map", id)?.to_precomputed(&pk))),
-                    ProtocolValidationError::InvalidEvidence("There must be at least two parties".into()),
-                )? + sum_non_empty(
                     ids.iter().map(|id| {
                         Ok(r2_ebs
                             .try_get("Round 2 echo broadcasts", id)?
-                            .cap_fs
-                            .try_get("`F` map", guilty_party)?
+                            .cap_ds
+                            .try_get("`D` map", guilty_party)?
                             .to_precomputed(&pk))
                     }),
                     ProtocolValidationError::InvalidEvidence("There must be at least two parties".into()),
+                )? + sum_non_empty(
+                    ids.iter()
+                        .map(|id| Ok(r2_eb.cap_fs.try_get("`F` map", id)?.to_precomputed(&pk))),
+                    ProtocolValidationError::InvalidEvidence("There must be at least two parties".into()),
                 )?;
 
                 let cap_k = r1_eb.cap_k.to_precomputed(&pk);
@@ -709,7 +749,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                         cap_k: &cap_k,
                         cap_x: &r2_eb.cap_gamma,
                         cap_d: &cap_d,
-                        cap_s: &r3_nb.cap_delta,
+                        cap_s: &r3_eb.delta.mul_by_generator(),
                         cap_g: &Point::generator(),
                         num_parties: associated_data.aux.num_parties(),
                     },
@@ -719,8 +759,8 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             }
             Error::R5WrongIdsPsi => {
                 // TODO (#188): currently unreachable from tests
-                let r5_nb = message
-                    .normal_broadcast
+                let r5_eb = message
+                    .echo_broadcast
                     .deserialize::<Round5EchoBroadcast<P, Id>>(format)?;
                 let expected_ids = associated_data
                     .aux
@@ -728,20 +768,14 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r5_nb.psis.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(r5_eb.psis.keys().collect::<BTreeSet<_>>() != expected_ids)
             }
             Error::R5AffGStarFailed { failed_for } => {
                 // TODO (#188): currently unreachable from tests
-                let r1_ebs = combined_echos
+                let r1_eb = combined_echos
                     .get_round(1)?
-                    .deserialize_all::<Round1EchoBroadcast<P>>(format)?;
-                let r2_ebs = combined_echos
-                    .get_round(2)?
-                    .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
-                let r2_nb = previous_messages
-                    .get_round(2)?
-                    .normal_broadcast
-                    .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
+                    .try_get("combined echos for Round 1", failed_for)?
+                    .deserialize::<Round1EchoBroadcast<P>>(format)?;
                 let r2_eb = previous_messages
                     .get_round(2)?
                     .echo_broadcast
@@ -760,30 +794,26 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
 
                 // l = failed_for
                 // j = guilty_party
-                // i = reported_by
+                // `K_l`, `D_{l,j}`, and `F_{l,j}`
 
-                let cap_d = r2_nb
+                let cap_k = r1_eb.cap_k.to_precomputed(&failed_for_pk);
+                let cap_d = r2_eb
                     .cap_ds
                     .try_get("`D` map", failed_for)?
                     .to_precomputed(&failed_for_pk);
-                let cap_k = r1_ebs
-                    .try_get("Round 1 echo broadcasts", failed_for)?
-                    .cap_k
-                    .to_precomputed(&failed_for_pk);
-                let cap_f = r2_ebs
-                    .try_get("Round 2 echo broadcasts", failed_for)?
+                let cap_f = r2_eb
                     .cap_fs
-                    .try_get("`F` map", guilty_party)?
+                    .try_get("`F` map", failed_for)?
                     .to_precomputed(&guilty_party_pk);
 
-                let psi = r5_eb.psis.try_get("`\\{psi}` map", failed_for)?;
+                let psi = r5_eb.psis.try_get("`\\psi` map", failed_for)?;
 
                 verify_that(!psi.verify(
                     AffGStarPublicInputs {
-                        pk0: &guilty_party_pk,
-                        pk1: &failed_for_pk,
-                        cap_c: &cap_d,
-                        cap_d: &cap_k,
+                        pk0: &failed_for_pk,
+                        pk1: &guilty_party_pk,
+                        cap_c: &cap_k,
+                        cap_d: &cap_d,
                         cap_y: &cap_f,
                         cap_x: &r2_eb.cap_gamma,
                     },
@@ -798,10 +828,6 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 let r2_ebs = combined_echos
                     .get_round(2)?
                     .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
-                let r2_nb = previous_messages
-                    .get_round(2)?
-                    .normal_broadcast
-                    .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
                 let r2_eb = previous_messages
                     .get_round(2)?
                     .echo_broadcast
@@ -810,17 +836,17 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .get_round(3)?
                     .normal_broadcast
                     .deserialize::<Round3NormalBroadcast<P>>(format)?;
-                let r5_eb = message
+                let r6_eb = message
                     .echo_broadcast
-                    .deserialize::<Round5EchoBroadcast<P, Id>>(format)?;
+                    .deserialize::<Round6EchoBroadcast<P, Id>>(format)?;
 
                 // Calculate `\hat{D}_j` where `j = guilty_party`.
-                // `\hat{D}_j = sum_{l != j}(\hat{D}_{l,j} + \hat{F}_{j,l})
+                // `\hat{D}_j = sum_{l != j}(\hat{D}_{j,l} + \hat{F}_{l,j})`
                 //
-                // r2_eb: contains \hat{D}_{l,j}, \hat{F}_{l,j} for l != j
-                // => \hat{D}_{l,j} = r2_eb.hat_cap_ds[l]
-                // r2_ebs[i], i != j: contains \hat{D}_{l,i}, \hat{F}_{l,i} for l != i
-                // => \hat{F}_{j,l} = r2_ebs[l].hat_cap_fs[j]
+                // r2_ebs[l], l != j: contains \hat{D}_{k,l} for k != l
+                // => \hat{D}_{j,l} = r2_ebs[l].hat_cap_ds[j]
+                // r2_eb: contains \hat{F}_{l,j} for l != j
+                // => \hat{F}_{l,j} = r2_eb.hat_cap_fs[l]
 
                 let public_aux = &associated_data.aux.as_map().try_get("aux infos", guilty_party)?;
                 let pk = public_aux.paillier_pk.clone().into_precomputed();
@@ -835,18 +861,18 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .without(&guilty_party);
 
                 let hat_cap_d = sum_non_empty(
-                    ids.iter()
-                        .map(|id| Ok(r2_nb.hat_cap_ds.try_get("`\\hat{D}` map", id)?.to_precomputed(&pk))),
-                    ProtocolValidationError::InvalidEvidence("There must be at least two parties".into()),
-                )? + sum_non_empty(
                     ids.iter().map(|id| {
                         Ok(r2_ebs
                             .try_get("Round 2 echo broadcasts", id)?
-                            .hat_cap_fs
-                            .try_get("`\\hat{F}` map", guilty_party)?
+                            .hat_cap_ds
+                            .try_get("`\\hat{D}` map", guilty_party)?
                             .to_precomputed(&pk))
                     }),
                     ProtocolValidationError::InvalidEvidence("There must be at least two parties".into()),
+                )? + sum_non_empty(
+                    ids.iter()
+                        .map(|id| Ok(r2_eb.hat_cap_fs.try_get("`\\hat{F}` map", id)?.to_precomputed(&pk))),
+                    ProtocolValidationError::InvalidEvidence("There must be at least two parties".into()),
                 )?;
 
                 let cap_k = r1_eb.cap_k.to_precomputed(&pk);
@@ -855,7 +881,7 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
 
                 let cap_x = associated_data.shares.as_map().try_get("`X` map", guilty_party)?;
 
-                verify_that(!r5_eb.psi_star.verify(
+                verify_that(!r6_eb.hat_psi_star.verify(
                     DecPublicInputs {
                         pk0: &pk,
                         cap_k: &cap_k,
@@ -871,8 +897,8 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
             }
             Error::R6WrongIdsPsi => {
                 // TODO (#188): currently unreachable from tests
-                let r6_nb = message
-                    .normal_broadcast
+                let r6_eb = message
+                    .echo_broadcast
                     .deserialize::<Round6EchoBroadcast<P, Id>>(format)?;
                 let expected_ids = associated_data
                     .aux
@@ -880,20 +906,18 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                     .keys()
                     .collect::<BTreeSet<_>>()
                     .without(&guilty_party);
-                verify_that(r6_nb.hat_psis.keys().collect::<BTreeSet<_>>() != expected_ids)
+                verify_that(r6_eb.hat_psis.keys().collect::<BTreeSet<_>>() != expected_ids)
             }
             Error::R6AffGStarFailed { failed_for } => {
                 // TODO (#188): currently unreachable from tests
-                let r1_ebs = combined_echos
+                let r1_eb = combined_echos
                     .get_round(1)?
-                    .deserialize_all::<Round1EchoBroadcast<P>>(format)?;
-                let r2_ebs = combined_echos
-                    .get_round(2)?
-                    .deserialize_all::<Round2EchoBroadcast<P, Id>>(format)?;
-                let r2_nb = previous_messages
+                    .try_get("combined echos for Round 1", failed_for)?
+                    .deserialize::<Round1EchoBroadcast<P>>(format)?;
+                let r2_eb = previous_messages
                     .get_round(2)?
-                    .normal_broadcast
-                    .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
+                    .echo_broadcast
+                    .deserialize::<Round2EchoBroadcast<P, Id>>(format)?;
                 let r6_eb = message
                     .echo_broadcast
                     .deserialize::<Round6EchoBroadcast<P, Id>>(format)?;
@@ -906,34 +930,29 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for InteractiveSigningError
                 let guilty_party_pk = guilty_party_aux.paillier_pk.clone().into_precomputed();
                 let aux = (&epid, guilty_party);
 
-                let cap_x = associated_data.shares.as_map().try_get("shares", failed_for)?;
-
                 // l = failed_for
                 // j = guilty_party
-                // i = reported_by
+                // `K_l`, `\hat{D}_{l,j}`, and `\hat{F}_{l,j}`
 
-                let hat_cap_d = r2_nb
+                let cap_k = r1_eb.cap_k.to_precomputed(&failed_for_pk);
+                let hat_cap_d = r2_eb
                     .hat_cap_ds
                     .try_get("`\\hat{D}` map", failed_for)?
                     .to_precomputed(&failed_for_pk);
-                let cap_k = r1_ebs
-                    .try_get("Round 1 echo broadcasts", failed_for)?
-                    .cap_k
-                    .to_precomputed(&failed_for_pk);
-                let hat_cap_f = r2_ebs
-                    .try_get("Round 2 echo broadcasts", failed_for)?
+                let hat_cap_f = r2_eb
                     .hat_cap_fs
-                    .try_get("`\\hat{F}` map", guilty_party)?
+                    .try_get("`\\hat{F}` map", failed_for)?
                     .to_precomputed(&guilty_party_pk);
+                let cap_x = associated_data.shares.as_map().try_get("shares", guilty_party)?;
 
                 let hat_psi = r6_eb.hat_psis.try_get("`\\hat{\\psi}` map", failed_for)?;
 
                 verify_that(!hat_psi.verify(
                     AffGStarPublicInputs {
-                        pk0: &guilty_party_pk,
-                        pk1: &failed_for_pk,
-                        cap_c: &hat_cap_d,
-                        cap_d: &cap_k,
+                        pk0: &failed_for_pk,
+                        pk1: &guilty_party_pk,
+                        cap_c: &cap_k,
+                        cap_d: &hat_cap_d,
                         cap_y: &hat_cap_f,
                         cap_x,
                     },
@@ -1528,6 +1547,10 @@ pub(super) struct Round2NormalBroadcast<P: SchemeParams, Id: PartyId> {
 #[derive_where::derive_where(Serialize, Deserialize)]
 pub(super) struct Round2EchoBroadcast<P: SchemeParams, Id: PartyId> {
     pub(super) cap_gamma: Point<P>,
+    // These repeat the values from the normal broadcast.
+    // The error rounds need all the parties to agree on them, so they have to be echoed.
+    cap_ds: SerializableMap<Id, CiphertextWire<P::Paillier>>,
+    hat_cap_ds: SerializableMap<Id, CiphertextWire<P::Paillier>>,
     pub(super) cap_fs: SerializableMap<Id, CiphertextWire<P::Paillier>>,
     pub(super) hat_cap_fs: SerializableMap<Id, CiphertextWire<P::Paillier>>,
 }
@@ -1579,6 +1602,8 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
             format,
             Round2EchoBroadcast::<P, Id> {
                 cap_gamma: self.cap_gamma,
+                cap_ds: self.cap_ds.map_values_ref(|cap_d| cap_d.to_wire()).into(),
+                hat_cap_ds: self.hat_cap_ds.map_values_ref(|hat_cap_d| hat_cap_d.to_wire()).into(),
                 cap_fs: self.cap_fs.map_values_ref(|cap_f| cap_f.to_wire()).into(),
                 hat_cap_fs: self.hat_cap_fs.map_values_ref(|hat_cap_f| hat_cap_f.to_wire()).into(),
             },
@@ -1606,6 +1631,8 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
 
         if normal_broadcast.cap_ds.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
             || normal_broadcast.hat_cap_ds.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+            || echo_broadcast.cap_ds.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
+            || echo_broadcast.hat_cap_ds.keys().cloned().collect::<BTreeSet<_>>() != expected_ids
         {
             return Err(ReceiveError::protocol(Error::R2WrongIdsD.into()));
         }
@@ -1705,6 +1732,20 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round2<P, Id> {
             return Err(ReceiveError::protocol(Error::R2ElogFailed.into()));
         }
 
+        for id in expected_ids.iter() {
+            let pk = &self.context.public_aux(id)?.paillier_pk;
+            let cap_d = echo_broadcast.cap_ds.safe_get("`D` map", id)?.to_precomputed(pk);
+            let hat_cap_d = echo_broadcast
+                .hat_cap_ds
+                .safe_get("`\\hat{D}` map", id)?
+                .to_precomputed(pk);
+            if &cap_d != cap_ds.safe_get("`D` map", id)? || &hat_cap_d != hat_cap_ds.safe_get("`\\hat{D}` map", id)? {
+                return Err(ReceiveError::protocol(
+                    Error::R2MismatchD { failed_for: id.clone() }.into(),
+                ));
+            }
+        }
+
         let alpha_uint = cap_ds
             .safe_get("`D` map", &self.context.my_id)?
             .decrypt(&self.context.aux_info.secret_aux.paillier_sk);
-- 
2.43.0


From f190b8e2363de12d74e4bd4c399c629f6f2f78e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:02 +0000
Subject: [PATCH 17/17] fix: last-round messages of AuxGen and KeyRefresh name
 the party they are made for

The factor proofs and encrypted shares depend on the data of the receiver, which the evidence did not contain, so an honest
party's message to one party could be presented by another as evidence against it. A message naming another party is
refused (unprovably) by its receiver.
---
 src/protocols/aux_gen.rs     | 28 +++++++++++++++++++++++++++-
 src/protocols/key_refresh.rs | 34 +++++++++++++++++++++++++++++++++-
 2 files changed, 60 insertions(+), 2 deletions(-)

diff --git a/src/protocols/aux_gen.rs b/src/protocols/aux_gen.rs
index d70db4a..3944f11 100644
--- a/src/protocols/aux_gen.rs
+++ b/src/protocols/aux_gen.rs
@@ -283,6 +283,11 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for AuxGenError<P, Id> {
                     .normal_broadcast
                     .deserialize::<Round2NormalBroadcast<P>>(format)?;
                 let r3_dm = message.direct_message.deserialize::<Round3DirectMessage<P>>(format)?;
+                if r3_dm.destination != Round3DirectMessage::<P>::destination_hash(&sid, reported_by) {
+                    return Err(ProtocolValidationError::InvalidEvidence(
+                        "The direct message is not intended for the reporting party".into(),
+                    ));
+                }
                 let paillier_pk = r2_bc.paillier_pk.into_precomputed();
                 let rp_params = r2_eb.rp_params.to_precomputed();
                 verify_that(!r3_dm.psi.verify(&paillier_pk, &rp_params, &aux))
@@ -643,9 +648,21 @@ pub(super) struct Round3NormalBroadcast<P: SchemeParams> {
 #[derive(Clone)]
 #[derive_where::derive_where(Serialize, Deserialize)]
 pub(super) struct Round3DirectMessage<P: SchemeParams> {
+    /// The hash of the ID of the party this message is intended for.
+    /// Binds the message to the recipient, so that it could not be presented as evidence by another party.
+    destination: HashOutput,
     pub(super) psi: FacProof<P>,
 }
 
+impl<P: SchemeParams> Round3DirectMessage<P> {
+    fn destination_hash<Id: PartyId>(sid: &Sid, destination: &Id) -> HashOutput {
+        Hasher::<P::Digest>::new_with_dst(b"AuxGen Round3 destination")
+            .chain(sid)
+            .chain(destination)
+            .finalize(P::SECURITY_BITS)
+    }
+}
+
 impl<P: SchemeParams, Id: PartyId> Round<Id> for Round3<P, Id> {
     type Protocol = AuxGenProtocol<P, Id>;
 
@@ -681,7 +698,10 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round3<P, Id> {
 
         let psi = FacProof::<P>::new(rng, &self.context.paillier_sk, &r2_payload.rp_params, &aux);
 
-        let message = Round3DirectMessage { psi };
+        let message = Round3DirectMessage {
+            destination: Round3DirectMessage::<P>::destination_hash(&self.context.sid, destination),
+            psi,
+        };
         let dm = DirectMessage::new(format, message)?;
         Ok((dm, None))
     }
@@ -700,6 +720,12 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round3<P, Id> {
 
         let my_id = &self.context.my_id;
 
+        if direct_message.destination != Round3DirectMessage::<P>::destination_hash(&self.context.sid, my_id) {
+            return Err(ReceiveError::unprovable(
+                "Round 3: the direct message is intended for another party",
+            ));
+        }
+
         let r2_payload = self.r2_payloads.safe_get("Round 2 payloads", from)?;
 
         let aux = (&self.context.sid, from, &self.rid_combined);
diff --git a/src/protocols/key_refresh.rs b/src/protocols/key_refresh.rs
index 8b802e0..8bd482a 100644
--- a/src/protocols/key_refresh.rs
+++ b/src/protocols/key_refresh.rs
@@ -388,6 +388,11 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyRefreshError<P, Id>
                     .normal_broadcast
                     .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
                 let r3_dm = message.direct_message.deserialize::<Round3DirectMessage<P>>(format)?;
+                if r3_dm.destination != Round3DirectMessage::<P>::destination_hash(&sid, reported_by) {
+                    return Err(ProtocolValidationError::InvalidEvidence(
+                        "The direct message is not intended for the reporting party".into(),
+                    ));
+                }
 
                 let x = r3_dm.cap_c - rho;
                 let cap_x_ji = r2_bc.cap_xs.try_get("public key share changes", reported_by)?;
@@ -419,6 +424,11 @@ impl<P: SchemeParams, Id: PartyId> ProtocolError<Id> for KeyRefreshError<P, Id>
                     .normal_broadcast
                     .deserialize::<Round2NormalBroadcast<P, Id>>(format)?;
                 let r3_dm = message.direct_message.deserialize::<Round3DirectMessage<P>>(format)?;
+                if r3_dm.destination != Round3DirectMessage::<P>::destination_hash(&sid, reported_by) {
+                    return Err(ProtocolValidationError::InvalidEvidence(
+                        "The direct message is not intended for the reporting party".into(),
+                    ));
+                }
                 let paillier_pk = r2_bc.paillier_pk.into_precomputed();
                 let rp_params = r2_eb.rp_params.to_precomputed();
                 verify_that(!r3_dm.psi.verify(&paillier_pk, &rp_params, &aux))
@@ -897,10 +907,22 @@ pub(super) struct Round3NormalBroadcast<P: SchemeParams> {
 #[derive(Clone)]
 #[derive_where::derive_where(Serialize, Deserialize)]
 pub(super) struct Round3DirectMessage<P: SchemeParams> {
+    /// The hash of the ID of the party this message is intended for.
+    /// Binds the message to the recipient, so that it could not be presented as evidence by another party.
+    destination: HashOutput,
     pub(super) psi: FacProof<P>,
     pub(super) cap_c: Scalar<P>,
 }
 
+impl<P: SchemeParams> Round3DirectMessage<P> {
+    fn destination_hash<Id: PartyId>(sid: &Sid, destination: &Id) -> HashOutput {
+        Hasher::<P::Digest>::new_with_dst(b"KeyRefresh Round3 destination")
+            .chain(sid)
+            .chain(destination)
+            .finalize(P::SECURITY_BITS)
+    }
+}
+
 struct Round3Payload<P: SchemeParams> {
     x: Secret<Scalar<P>>, // $x_j^i$, a secret share change received from the party $j$
 }
@@ -963,7 +985,11 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round3<P, Id> {
         let x = self.context.xs.safe_get("secret share changes", destination)?;
         let cap_c = *(x + &rho).expose_secret();
 
-        let message = Round3DirectMessage { psi, cap_c };
+        let message = Round3DirectMessage {
+            destination: Round3DirectMessage::<P>::destination_hash(&self.context.sid, destination),
+            psi,
+            cap_c,
+        };
         let dm = DirectMessage::new(format, message)?;
         Ok((dm, None))
     }
@@ -984,6 +1010,12 @@ impl<P: SchemeParams, Id: PartyId> Round<Id> for Round3<P, Id> {
 
         let my_id = &self.context.my_id;
 
+        if direct_message.destination != Round3DirectMessage::<P>::destination_hash(&self.context.sid, my_id) {
+            return Err(ReceiveError::unprovable(
+                "Round 3: the direct message is intended for another party",
+            ));
+        }
+
         let r2_payload = self.r2_payloads.safe_get("Round 2 payloads", from)?;
         let cap_y = r2_payload.cap_ys.safe_get("Elgamal public keys", my_id)?;
         let y = self.context.ys.safe_get("Elgamal secrets", from)?;
-- 
2.43.0

