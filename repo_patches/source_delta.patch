From c7ce530c49f93d2c57186e6f0206aa14e36eb39c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:03 +0000
Subject: [PATCH 01/53] fix: compute Z3 = 2 * Y1 * Z1 when doubling Jacobian
 points with a != 0

The a != 0 branch added Y1 and Z1 instead of multiplying them, so doubling
(and adding a point to itself) gave a wrong point on every curve with a
nonzero a coefficient unless Z1 happened to compensate.
---
 .../elliptic_curves/short_weierstrass/jacobian_point_impl.h     | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h b/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
index 658e880..a3c2fb6 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
+++ b/tachyon/math/elliptic_curves/short_weierstrass/jacobian_point_impl.h
@@ -298,7 +298,7 @@ constexpr void CLASS::DoDoubleImpl(const JacobianPoint& a, JacobianPoint& b) {
 
     // Z3 = (Y1 + Z1)² - YY - ZZ
     // Can be calculated as Z3 = 2 * Y1 * Z1, and this is faster.
-    b.z_ = a.y_ + a.z_;
+    b.z_ = a.y_ * a.z_;
     b.z_.DoubleInPlace();
 
     // Y3 = M * (S - X3) - 8 * YYYY
-- 
2.43.0


From b917f6a68fcc73ef87ab183d2e148cd5035137f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:50:11 +0000
Subject: [PATCH 02/53] fix: take the ZZ == 1 shortcut of PointXYZZ only when
 ZZZ == 1 as well

ZZ == 1 leaves ZZZ = 1 or -1 (e.g. a Jacobian point with Z = -1 converted to
XYZZ), so returning (X, Y) unchanged negated the point in the latter case.
---
 .../math/elliptic_curves/short_weierstrass/point_xyzz.h   | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h b/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
index 80333cf..e2709ad 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
+++ b/tachyon/math/elliptic_curves/short_weierstrass/point_xyzz.h
@@ -149,7 +149,7 @@ class PointXYZZ<_Curve,
       const PointXYZZ& point_xyzz = point_xyzzs[i];
       if (point_xyzz.zz_.IsZero()) {
         (*affine_points)[i] = AffinePoint<Curve>::Zero();
-      } else if (point_xyzz.zz_.IsOne()) {
+      } else if (point_xyzz.zz_.IsOne() && point_xyzz.zzz_.IsOne()) {
         (*affine_points)[i] = {point_xyzz.x_, point_xyzz.y_};
       } else {
         const BaseField& z_inv_cubic = zzz_inverses[i];
@@ -199,7 +199,7 @@ class PointXYZZ<_Curve,
   constexpr AffinePoint<Curve> ToAffine() const {
     if (IsZero()) {
       return AffinePoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_};
     } else {
       // NOTE(ashjeong): if |zzz_| is 0, |IsZero()| will also evaluate to true,
@@ -216,7 +216,7 @@ class PointXYZZ<_Curve,
   constexpr ProjectivePoint<Curve> ToProjective() const {
     if (IsZero()) {
       return ProjectivePoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_, BaseField::One()};
     } else {
       return {x_ * zzz_, y_ * zz_, zz_ * zzz_};
@@ -228,7 +228,7 @@ class PointXYZZ<_Curve,
   constexpr JacobianPoint<Curve> ToJacobian() const {
     if (IsZero()) {
       return JacobianPoint<Curve>::Zero();
-    } else if (zz_.IsOne()) {
+    } else if (zz_.IsOne() && zzz_.IsOne()) {
       return {x_, y_, BaseField::One()};
     } else {
       BaseField z = zz_ * zzz_;
-- 
2.43.0


From 7e5a9fc1d16e7deee93e9b5f8396ccd25353e0ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:10 +0000
Subject: [PATCH 03/53] fix: read the second operand before overwriting it in
 the Karatsuba product

---
 tachyon/math/finite_fields/quadratic_extension_field.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/finite_fields/quadratic_extension_field.h b/tachyon/math/finite_fields/quadratic_extension_field.h
index 2887478..c402669 100644
--- a/tachyon/math/finite_fields/quadratic_extension_field.h
+++ b/tachyon/math/finite_fields/quadratic_extension_field.h
@@ -344,11 +344,13 @@ class QuadraticExtensionField
       // v1 = a.c1 * b.c1
       BaseField v1 = a.c1_ * b.c1_;
 
+      // NOTE: |b| may alias |c|, so it must be read before |c| is written.
+      BaseField v2 = b.c0_ + b.c1_;
       // c.c1 = a.c0 + a.c1
       c.c1_ = a.c0_ + a.c1_;
       // c.c1 = (a.c0 + a.c1) * (b.c0 + b.c1)
       // c.c1 = a.c0 * b.c0 + a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
-      c.c1_ *= (b.c0_ + b.c1_);
+      c.c1_ *= v2;
       // c.c1 = a.c0 * b.c1 + a.c1 * b.c0 + a.c1 * b.c1
       c.c1_ -= v0;
       // c.c1 = a.c0 * b.c1 + a.c1 * b.c0
-- 
2.43.0


From 86b4842d115d6748b5f411f66f87117f28d924b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:36 +0000
Subject: [PATCH 04/53] fix: derive the Frobenius coefficients of Fp4 over Fp2
 from its own non-residue

---
 tachyon/math/finite_fields/fp4.h              | 24 +++++++++----------
 .../ext_field_generator.cc                    |  3 +--
 2 files changed, 12 insertions(+), 15 deletions(-)

diff --git a/tachyon/math/finite_fields/fp4.h b/tachyon/math/finite_fields/fp4.h
index 82e3508..0bd2a9d 100644
--- a/tachyon/math/finite_fields/fp4.h
+++ b/tachyon/math/finite_fields/fp4.h
@@ -43,8 +43,7 @@ class Fp4<Config, std::enable_if_t<Config::kDegreeOverBaseField == 2>> final
 
  private:
   static void DoInit() {
-    using BaseFieldConfig = typename BaseField::Config;
-    // x⁴ = q = |BaseFieldConfig::kNonResidue|
+    // x² = q = |Config::kNonResidue|
 
     Config::Init();
 
@@ -52,8 +51,7 @@ class Fp4<Config, std::enable_if_t<Config::kDegreeOverBaseField == 2>> final
     //    = α₀ᴾ + α₁ᴾxᴾ
     //    = ᾱ₀ + ᾱ₁xᴾ <- conjugate
     //    = ᾱ₀ + ᾱ₁xᴾ⁻¹x
-    //    = ᾱ₀ + ᾱ₁(x⁴)^((p - 1) / 4) * x
-    //    = ᾱ₀ - ᾱ₁ωx, where ω is a quartic root of unity.
+    //    = ᾱ₀ + ᾱ₁(x²)^((p - 1) / 2) * x
 
     using UnpackedBasePrimeField = MaybeUnpack<BasePrimeField>;
 
@@ -75,29 +73,29 @@ class Fp4<Config, std::enable_if_t<Config::kDegreeOverBaseField == 2>> final
 
 #undef SET_M
 
-#define SET_EXP_GMP(d) mpz_class exp##d##_gmp = (m##d - 1) / mpz_class(4)
+#define SET_EXP_GMP(d) mpz_class exp##d##_gmp = (m##d - 1) / mpz_class(2)
 
-    // exp₁ = (m₁ - 1) / 4 = (P¹ - 1) / 4
+    // exp₁ = (m₁ - 1) / 2 = (P¹ - 1) / 2
     SET_EXP_GMP(1);
-    // exp₂ = (m₂ - 1) / 4 = (P² - 1) / 4
+    // exp₂ = (m₂ - 1) / 2 = (P² - 1) / 2
     SET_EXP_GMP(2);
-    // exp₃ = (m₃ - 1) / 4 = (P³ - 1) / 4
+    // exp₃ = (m₃ - 1) / 2 = (P³ - 1) / 2
     SET_EXP_GMP(3);
 
 #undef SET_EXP_GMP
 
-    // |kFrobeniusCoeffs[0]| = q^((P⁰ - 1) / 4) = 1
+    // |kFrobeniusCoeffs[0]| = q^((P⁰ - 1) / 2) = 1
     Config::kFrobeniusCoeffs[0] = FrobeniusCoefficient::One();
 #define SET_FROBENIUS_COEFF(d)                \
   BigInt<d * N> exp##d(0);                    \
   gmp::CopyLimbs(exp##d##_gmp, exp##d.limbs); \
-  Config::kFrobeniusCoeffs[d] = BaseFieldConfig::kNonResidue.Pow(exp##d)
+  Config::kFrobeniusCoeffs[d] = Config::kNonResidue.Pow(exp##d)
 
-    // |kFrobeniusCoeffs[1]| = q^(exp₁) = q^((P¹ - 1) / 4) = ω
+    // |kFrobeniusCoeffs[1]| = q^(exp₁) = q^((P¹ - 1) / 2)
     SET_FROBENIUS_COEFF(1);
-    // |kFrobeniusCoeffs[2]| = q^(exp₂) = q^((P² - 1) / 4)
+    // |kFrobeniusCoeffs[2]| = q^(exp₂) = q^((P² - 1) / 2)
     SET_FROBENIUS_COEFF(2);
-    // |kFrobeniusCoeffs[3]| = q^(exp₃) = q^((P³ - 1) / 4)
+    // |kFrobeniusCoeffs[3]| = q^(exp₃) = q^((P³ - 1) / 2)
     SET_FROBENIUS_COEFF(3);
 
 #undef SET_FROBENIUS_COEFF
diff --git a/tachyon/math/finite_fields/generator/ext_field_generator/ext_field_generator.cc b/tachyon/math/finite_fields/generator/ext_field_generator/ext_field_generator.cc
index 1860e2f..e9eb9e1 100644
--- a/tachyon/math/finite_fields/generator/ext_field_generator/ext_field_generator.cc
+++ b/tachyon/math/finite_fields/generator/ext_field_generator/ext_field_generator.cc
@@ -119,8 +119,7 @@ int GenerationConfig::GenerateConfigHdr() const {
   }
 
   replacements["%{frobenius_coefficient}"] =
-      ((degree == 4 && base_field_degree == 2) ||
-       (degree == 6 && base_field_degree == 3) || degree == 12)
+      (degree == 6 && base_field_degree == 3) || degree == 12
           ? "typename BaseField::BaseField"
           : "BaseField";
 
-- 
2.43.0


From 5ea769c3fca44333a92b70d481df3d877a4adec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:27 +0000
Subject: [PATCH 05/53] fix: drop the GLV sections of the curve header when
 there are no GLV coefficients

---
 .../elliptic_curves/short_weierstrass/generator/cpu.h.tpl   | 6 +++---
 .../short_weierstrass/generator/generator.cc                | 3 +--
 2 files changed, 4 insertions(+), 5 deletions(-)

diff --git a/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl b/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
index b7884f6..a9678c7 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
+++ b/tachyon/math/elliptic_curves/short_weierstrass/generator/cpu.h.tpl
@@ -37,9 +37,9 @@ class %{class}CurveConfig {
   static Point2<BaseField> kGenerator;
 %{if HasGLVCoefficients}
   static BaseField kEndomorphismCoefficient;
-%{endif HasGLVCoefficients}
   static ScalarField kLambda;
   static mpz_class kGLVCoeffs[4];
+%{endif HasGLVCoefficients}
 
   static void Init() {
     static absl::once_flag once;
@@ -58,9 +58,9 @@ class %{class}CurveConfig {
 %{y_init}
 %{if HasGLVCoefficients}
 %{endomorphism_coefficient_init_code}
-%{endif HasGLVCoefficients}
 %{lambda_init_code}
 %{glv_coeffs_init_code}
+%{endif HasGLVCoefficients}
     VLOG(1) << "%{namespace}::%{class} initialized";
   }
 };
@@ -74,11 +74,11 @@ Point2<BaseField> %{class}CurveConfig<BaseField, ScalarField>::kGenerator;
 %{if HasGLVCoefficients}
 template <typename BaseField, typename ScalarField>
 BaseField %{class}CurveConfig<BaseField, ScalarField>::kEndomorphismCoefficient;
-%{endif HasGLVCoefficients}
 template <typename BaseField, typename ScalarField>
 ScalarField %{class}CurveConfig<BaseField, ScalarField>::kLambda;
 template <typename BaseField, typename ScalarField>
 mpz_class %{class}CurveConfig<BaseField, ScalarField>::kGLVCoeffs[4];
+%{endif HasGLVCoefficients}
 
 using %{class}Curve = SWCurve<%{class}CurveConfig<%{base_field}, %{scalar_field}>>;
 using %{class}AffinePoint = AffinePoint<%{class}Curve>;
diff --git a/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc b/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
index 345203d..6f2ae53 100644
--- a/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
+++ b/tachyon/math/elliptic_curves/short_weierstrass/generator/generator.cc
@@ -126,9 +126,8 @@ int GenerationConfig::GenerateConfigHdr() const {
                                  glv_coefficients[i]);
                            }),
         "\n");
-
-    RemoveOptionalLines(tpl_lines, "HasGLVCoefficients", has_glv_coefficients);
   }
+  RemoveOptionalLines(tpl_lines, "HasGLVCoefficients", has_glv_coefficients);
   tpl_content = absl::StrJoin(tpl_lines, "\n");
   std::string content = absl::StrReplaceAll(tpl_content, replacements);
   return WriteHdr(content, false);
-- 
2.43.0


From 45172566446cea4b61338bdfd23f6a093d428a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 06/53] fix: keep Goldilocks in Montgomery form when its asm
 implementation is not built

---
 BUILD.bazel                                                | 6 ++++++
 tachyon/math/finite_fields/goldilocks/internal/BUILD.bazel | 7 ++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/BUILD.bazel b/BUILD.bazel
index a06794c..03650a4 100644
--- a/BUILD.bazel
+++ b/BUILD.bazel
@@ -190,6 +190,12 @@ config_setting(
     flag_values = {"has_asm_prime_field": "true"},
 )
 
+config_setting(
+    name = "tachyon_has_asm_prime_field_x86_64",
+    constraint_values = ["@platforms//cpu:x86_64"],
+    flag_values = {"has_asm_prime_field": "true"},
+)
+
 config_setting(
     name = "tachyon_py_binding",
     flag_values = {"py_binding": "true"},
diff --git a/tachyon/math/finite_fields/goldilocks/internal/BUILD.bazel b/tachyon/math/finite_fields/goldilocks/internal/BUILD.bazel
index 541402e..53b1a7f 100644
--- a/tachyon/math/finite_fields/goldilocks/internal/BUILD.bazel
+++ b/tachyon/math/finite_fields/goldilocks/internal/BUILD.bazel
@@ -22,7 +22,12 @@ generate_large_fft_prime_fields(
     small_subgroup_base = "//tachyon/math/finite_fields/goldilocks:" + SMALL_SUBGROUP_BASE,
     subgroup_generator = "//tachyon/math/finite_fields/goldilocks:" + SUBGROUP_GENERATOR,
     # NOTE(chokobole): Polygon's Goldilocks doesn't use montgomery reduction by default.
-    use_montgomery = if_x86_64(False, True),
+    # It is used only if the asm prime field is enabled on x86_64. Otherwise, Goldilocks falls back to
+    # the generic prime field, which always uses montgomery reduction.
+    use_montgomery = select({
+        "@kroma_network_tachyon//:tachyon_has_asm_prime_field_x86_64": False,
+        "//conditions:default": True,
+    }),
 )
 
 generate_fp2s(
-- 
2.43.0


From 03f60cdc44009a9ae7f21a668a3f224e4760d7aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:03 +0000
Subject: [PATCH 07/53] fix: emit the roots of unity of non-Montgomery prime
 fields in plain form

---
 .../prime_field_generator/prime_field_generator.cc    | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc b/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
index 7400ef2..5c48f6b 100644
--- a/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
+++ b/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
@@ -261,6 +261,11 @@ int GenerationConfig::GenerateConfigHdr() const {
     RemoveOptionalLines(tpl_lines, "!kUseAsm", !use_asm);
   }
 
+  auto to_field_string = [this, &m](const mpz_class& value) {
+    return use_montgomery ? math::MpzClassToMontString(value, m)
+                          : math::MpzClassToString(value);
+  };
+
   bool has_two_adic_root_of_unity = !subgroup_generator.empty();
   replacements["%{has_two_adic_root_of_unity}"] =
       base::BoolToString(has_two_adic_root_of_unity);
@@ -270,7 +275,7 @@ int GenerationConfig::GenerateConfigHdr() const {
   if (has_two_adic_root_of_unity) {
     subgroup_generator_mpz = math::gmp::FromDecString(subgroup_generator);
     replacements["%{subgroup_generator}"] =
-        math::MpzClassToMontString(subgroup_generator_mpz, m);
+        to_field_string(subgroup_generator_mpz);
 
     // 1) 2ˢ * t = m - 1,
     // According to Fermat's Little Theorem, the following equations hold:
@@ -286,7 +291,7 @@ int GenerationConfig::GenerateConfigHdr() const {
     replacements["%{two_adicity}"] =
         base::NumberToString(math::ComputeAdicity(2, m - mpz_class(1)));
     replacements["%{two_adic_root_of_unity}"] =
-        math::MpzClassToMontString(two_adic_root_of_unity, m);
+        to_field_string(two_adic_root_of_unity);
   }
 
   bool has_large_subgroup_root_of_unity = !small_subgroup_base.empty();
@@ -318,7 +323,7 @@ int GenerationConfig::GenerateConfigHdr() const {
     replacements["%{small_subgroup_base}"] = small_subgroup_base;
     replacements["%{small_subgroup_adicity}"] = small_subgroup_adicity;
     replacements["%{large_subgroup_root_of_unity}"] =
-        math::MpzClassToMontString(large_subgroup_root_of_unity, m);
+        to_field_string(large_subgroup_root_of_unity);
   }
 
   tpl_content = absl::StrJoin(tpl_lines, "\n");
-- 
2.43.0


From e9f4828c5a2a6a59fcccfdd0ddf2548591d1876f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:12 +0000
Subject: [PATCH 08/53] fix: initialize the spare bit flag of 32 bit moduli in
 the prime field generator

---
 .../prime_field_generator/prime_field_generator.cc          | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc b/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
index 5c48f6b..b31d04d 100644
--- a/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
+++ b/tachyon/math/finite_fields/generator/prime_field_generator/prime_field_generator.cc
@@ -54,6 +54,9 @@ struct ModulusInfo {
     math::gmp::CopyLimbs(m_in, m.limbs);
 
     ModulusInfo ret;
+    ret.modulus_has_spare_bit = math::Modulus<N>::HasSpareBit(m);
+    ret.can_use_no_carry_mul_optimization =
+        math::Modulus<N>::CanUseNoCarryMulOptimization(m);
     if constexpr (N == 1) {
       // NOLINTNEXTLINE(runtime/int)
       if (m_in < mpz_class(static_cast<unsigned long>(uint64_t{1} << 32))) {
@@ -61,9 +64,6 @@ struct ModulusInfo {
         return ret;
       }
     }
-    ret.modulus_has_spare_bit = math::Modulus<N>::HasSpareBit(m);
-    ret.can_use_no_carry_mul_optimization =
-        math::Modulus<N>::CanUseNoCarryMulOptimization(m);
     math::BigInt<N> r = math::Modulus<N>::MontgomeryR(m);
     math::gmp::WriteLimbs(r.limbs, N, &ret.r);
     math::BigInt<N> r2 = math::Modulus<N>::MontgomeryR2(m);
-- 
2.43.0


From 0b5d8de83fabee1ae98789382496dcbe13fdf36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:53:16 +0000
Subject: [PATCH 09/53] fix: skip the leading zero bits of the BLS12 parameter
 in G2Prepared

The Miller loop iterates over the parameter without its leading zero bits,
so the prepared coefficients must be computed the same way.
---
 tachyon/math/elliptic_curves/bls12/g2_prepared.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/elliptic_curves/bls12/g2_prepared.h b/tachyon/math/elliptic_curves/bls12/g2_prepared.h
index 207f3e9..874aa2a 100644
--- a/tachyon/math/elliptic_curves/bls12/g2_prepared.h
+++ b/tachyon/math/elliptic_curves/bls12/g2_prepared.h
@@ -45,7 +45,7 @@ class G2Prepared : public G2PreparedBase<BLS12CurveConfig> {
       G2Projective<Config> r(q.x(), q.y(), Fp2::One());
       auto it = BitIteratorBE<BigInt<Config::kXLimbNums>>::begin(
           &Config::kX,
-          /*skip_leading_zeros=*/false);
+          /*skip_leading_zeros=*/true);
       ++it;
       auto end = BitIteratorBE<BigInt<Config::kXLimbNums>>::end(&Config::kX);
       while (it != end) {
-- 
2.43.0


From ef63cf194732a6a2add5e65e9e9ff0f2120cb34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:27 +0000
Subject: [PATCH 10/53] fix: do not alias the base term of the mixed radix
 butterfly

|base_term| was a reference to the element that the first iteration
overwrites, so every transform whose size is divisible by the small subgroup
base was wrong.
---
 .../math/polynomials/univariate/mixed_radix_evaluation_domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
index 5331a8b..7e7aaa8 100644
--- a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
@@ -249,7 +249,7 @@ class MixedRadixEvaluationDomain
         for (size_t k = 0; k < n; k += q * m) {
           F w_j = F::One();  // ωⱼ is ωₘʲ
           for (size_t j = 0; j < m; ++j) {
-            const F& base_term = a[k + j];
+            F base_term = a[k + j];
             F w_j_i = w_j;
             for (size_t i = 1; i < q; ++i) {
               terms[i - 1] = a[k + j + i * m];
-- 
2.43.0


From 61d94e7025f791412e73202096fcef74d76b4b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:41 +0000
Subject: [PATCH 11/53] fix: forward reverse_at_last in the lvalue overload of
 CosetLDEBatch

---
 tachyon/math/polynomials/univariate/radix2_evaluation_domain.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
index aafcf3e..c4e78c7 100644
--- a/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/radix2_evaluation_domain.h
@@ -123,7 +123,7 @@ class Radix2EvaluationDomain
       const Eigen::MatrixBase<Derived>& mat, size_t added_bits, F shift,
       Eigen::MatrixBase<Derived>& out, bool reverse_at_last = true) const {
     Derived mat_tmp = mat;
-    CosetLDEBatch(std::move(mat_tmp), added_bits, shift, out);
+    CosetLDEBatch(std::move(mat_tmp), added_bits, shift, out, reverse_at_last);
   }
 
   template <typename Derived>
-- 
2.43.0


From ce1fb3f404681326a5c76a44521e022c64935787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:41 +0000
Subject: [PATCH 12/53] fix: normalize the filter polynomial of coset domains

The filter polynomial of a domain with an offset evaluated to offset^size
instead of 1 on the subdomain, and EvaluateFilterPolynomial() disagreed with
GetFilterPolynomial().
---
 .../polynomials/univariate/univariate_evaluation_domain.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h b/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
index e911a35..4d62c42 100644
--- a/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/univariate_evaluation_domain.h
@@ -404,7 +404,8 @@ class UnivariateEvaluationDomain : public EvaluationDomain<F, MaxDegree> {
                                          subdomain.offset_pow_size_}}));
     SparsePoly subdomain_vanishing_poly =
         subdomain.GetVanishingPolynomial() *
-        SparsePoly(SparseCoeffs({{0, size_as_field_element_}}));
+        SparsePoly(
+            SparseCoeffs({{0, size_as_field_element_ * offset_pow_size_}}));
     std::optional<DivResult<DensePoly>> result =
         domain_vanishing_poly.DivMod(subdomain_vanishing_poly);
     CHECK(result);
@@ -424,9 +425,10 @@ class UnivariateEvaluationDomain : public EvaluationDomain<F, MaxDegree> {
     } else {
       const std::optional<F> div =
           EvaluateVanishingPolynomial(tau) /
-          (size_as_field_element_ * v_subdomain_of_tau);
+          (size_as_field_element_ * offset_pow_size_ * v_subdomain_of_tau);
       if (LIKELY(div)) {
-        return subdomain.size_as_field_element_ * *div;
+        return subdomain.size_as_field_element_ * subdomain.offset_pow_size_ *
+               *div;
       }
       return std::nullopt;
     }
-- 
2.43.0


From 068c64d93c21c35b76573e9aa4ad05aa8265dfe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:04:59 +0000
Subject: [PATCH 13/53] fix: compute the largest degree of a mixed radix domain

The loop variable shadowed the accumulated power of the small subgroup base,
so domains larger than the two-adic subgroup were rejected.
---
 .../univariate/mixed_radix_evaluation_domain.h            | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
index 7e7aaa8..b076d71 100644
--- a/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
+++ b/tachyon/math/polynomials/univariate/mixed_radix_evaluation_domain.h
@@ -38,11 +38,11 @@ namespace tachyon::math {
 
 template <typename F>
 constexpr size_t MaxDegreeForMixedRadixEvaluationDomain() {
-  size_t i = 1;
-  for (size_t i = 0; i <= F::Config::kSmallSubgroupAdicity; ++i) {
-    i *= F::Config::kSmallSubgroupBase;
+  size_t q_part = 1;
+  for (size_t i = 0; i < F::Config::kSmallSubgroupAdicity; ++i) {
+    q_part *= F::Config::kSmallSubgroupBase;
   }
-  return i * (size_t{1} << F::Config::kTwoAdicity) - 1;
+  return q_part * (size_t{1} << F::Config::kTwoAdicity) - 1;
 }
 
 // Defines a domain over which finite field (I)FFTs can be performed. Works only
-- 
2.43.0


From 71b2354d00c22c6f97167bf521a549f859f01c4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:05:22 +0000
Subject: [PATCH 14/53] fix: complete packed-only twiddles when a full domain
 is created

inserting into the map kept the packed-only item, so a domain created after
CosetLDEBatch() had cached the same size indexed empty vectors. The flag was
also left uninitialized for domains of size 1.
---
 .../univariate/radix2_twiddle_cache.h         | 20 +++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h b/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
index d3ae1d9..cd8d2cc 100644
--- a/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
+++ b/tachyon/math/polynomials/univariate/radix2_twiddle_cache.h
@@ -57,10 +57,10 @@ class Radix2TwiddleCache {
     template <typename Domain>
     Item(const Domain* domain, bool packed_vec_only) {
       TRACE_EVENT("Utils", "Radix2TwiddleCache<F>::Item::Init");
-      if (domain->log_size_of_group() == 0) return;
-
       this->packed_vec_only = packed_vec_only;
 
+      if (domain->log_size_of_group() == 0) return;
+
       roots_vec.resize(domain->log_size_of_group());
       inv_roots_vec.resize(domain->log_size_of_group());
 
@@ -100,6 +100,15 @@ class Radix2TwiddleCache {
 
       if (packed_vec_only) return;
 
+      PrepareRemainingRootsVec(domain);
+    }
+
+    // Fill every vector of |roots_vec| and |inv_roots_vec| but the largest.
+    template <typename Domain>
+    void PrepareRemainingRootsVec(const Domain* domain) {
+      packed_vec_only = false;
+      if (domain->log_size_of_group() == 0) return;
+
       // Prepare space in each vector for the others.
       size_t size = domain->size() / 2;
       for (size_t i = 1; i < domain->log_size_of_group(); ++i) {
@@ -128,12 +137,15 @@ class Radix2TwiddleCache {
     absl::MutexLock lock(&twiddle_cache->mutex_);
     auto it = twiddle_cache->items_.find(
         std::make_pair(domain->size(), domain->group_gen()));
-    if (it == twiddle_cache->items_.end() ||
-        (it->second->packed_vec_only && !packed_vec_only)) {
+    if (it == twiddle_cache->items_.end()) {
       it = twiddle_cache->items_.insert(
           it,
           std::make_pair(std::make_pair(domain->size(), domain->group_gen()),
                          std::make_unique<Item>(domain, packed_vec_only)));
+    } else if (it->second->packed_vec_only && !packed_vec_only) {
+      // NOTE: Other domains may be using the packed vectors of this item, so it
+      // must be completed rather than replaced.
+      it->second->PrepareRemainingRootsVec(domain);
     }
     return it->second.get();
   }
-- 
2.43.0


From e0beb8b84347b0accb1565be346300060777859b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 15/53] fix: report division of a zero sparse polynomial by the
 zero polynomial

---
 .../polynomials/univariate/univariate_polynomial_ops.h | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h b/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
index ed8e669..665476e 100644
--- a/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
+++ b/tachyon/math/polynomials/univariate/univariate_polynomial_ops.h
@@ -741,9 +741,6 @@ class UnivariatePolynomialOp<UnivariateSparseCoefficients<F, MaxDegree>> {
   constexpr static std::optional<UnivariatePolynomial<D>> Div(
       const UnivariatePolynomial<S>& self,
       const UnivariatePolynomial<DOrS>& other) {
-    if (self.IsZero()) {
-      return UnivariatePolynomial<D>::Zero();
-    }
     return self.ToDense() / other;
   }
 
@@ -751,9 +748,6 @@ class UnivariatePolynomialOp<UnivariateSparseCoefficients<F, MaxDegree>> {
   constexpr static std::optional<UnivariatePolynomial<D>> Mod(
       const UnivariatePolynomial<S>& self,
       const UnivariatePolynomial<DOrS>& other) {
-    if (self.IsZero()) {
-      return other.ToDense();
-    }
     return self.ToDense() % other;
   }
 
@@ -761,10 +755,6 @@ class UnivariatePolynomialOp<UnivariateSparseCoefficients<F, MaxDegree>> {
   constexpr static std::optional<DivResult<UnivariatePolynomial<D>>> DivMod(
       const UnivariatePolynomial<S>& self,
       const UnivariatePolynomial<DOrS>& other) {
-    if (self.IsZero()) {
-      return DivResult<UnivariatePolynomial<D>>{UnivariatePolynomial<D>::Zero(),
-                                                other.ToDense()};
-    }
     return self.ToDense().DivMod(other);
   }
 
-- 
2.43.0


From 5f712a34b351da4804edeb2e00c3348445b80320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:17 +0000
Subject: [PATCH 16/53] fix: UnivariateDenseCoefficients::Fold read past the
 last coefficient

---
 .../math/polynomials/univariate/univariate_dense_coefficients.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
index 0f60684..db8dfb7 100644
--- a/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
+++ b/tachyon/math/polynomials/univariate/univariate_dense_coefficients.h
@@ -184,7 +184,7 @@ class UnivariateDenseCoefficients {
     std::vector<F> coefficients((size + 1) >> 1);
     base::ParallelizeFill(coefficients, F::Zero(),
                           /*threshold=*/ParallelizeThreshold::kFieldInit);
-    OMP_PARALLEL_FOR(size_t i = 0; i < size; i += 2) {
+    OMP_PARALLEL_FOR(size_t i = 0; i + 1 < size; i += 2) {
       coefficients[i >> 1] = coefficients_[i + 1] * r;
       coefficients[i >> 1] += coefficients_[i];
     }
-- 
2.43.0


From b03ba30ef0e23559ef54539d26482b20fc8ab249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:07 +0000
Subject: [PATCH 17/53] fix: do not dereference the end iterator when
 compacting a zero multivariate polynomial

---
 .../polynomials/multivariate/multivariate_sparse_coefficients.h  | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 4aa522e..c01dc08 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -301,6 +301,7 @@ class MultivariateSparseCoefficients {
   }
 
   void Compact() {
+    if (terms_.empty()) return;
     auto write_itr = terms_.begin();
     for (auto read_itr = terms_.begin() + 1; read_itr != terms_.end();
          ++read_itr) {
-- 
2.43.0


From a9ae528577ebad6ee21a2e55749c79335d01b0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:07 +0000
Subject: [PATCH 18/53] fix: order multivariate monomials that share their last
 variable

---
 .../multivariate/multivariate_sparse_coefficients.h       | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index c01dc08..7874de7 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -82,7 +82,13 @@ class MultivariateSparseCoefficients {
 
     bool operator<(const Literal& other) const {
       if (elements.back() == other.elements.back()) {
-        return elements.size() < other.elements.size();
+        if (elements.size() != other.elements.size()) {
+          return elements.size() < other.elements.size();
+        }
+        // At this point, only the preceding elements can tell them apart.
+        return std::lexicographical_compare(
+            elements.rbegin(), elements.rend(), other.elements.rbegin(),
+            other.elements.rend());
       } else {
         return elements.back() < other.elements.back();
       }
-- 
2.43.0


From 58dfd6e446564e668684537f208a24ffbedd946a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:07 +0000
Subject: [PATCH 19/53] fix: take the degree of a multivariate polynomial over
 all its terms

---
 .../multivariate/multivariate_sparse_coefficients.h        | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 7874de7..5dc05c0 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -269,8 +269,11 @@ class MultivariateSparseCoefficients {
   }
 
   constexpr size_t Degree() const {
-    if (IsConstant()) return 0;
-    return terms_.back().Degree();
+    size_t degree = 0;
+    for (const Term& term : terms_) {
+      degree = std::max(degree, term.Degree());
+    }
+    return degree;
   }
 
   constexpr F Evaluate(const Point& points) const {
-- 
2.43.0


From 48f322d7d7e2fc21a7cda4a7074386d1133433ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:07 +0000
Subject: [PATCH 20/53] fix: set the number of variables of multivariate sums
 and differences

---
 .../math/polynomials/multivariate/multivariate_polynomial_ops.h | 2 ++
 .../polynomials/multivariate/multivariate_sparse_coefficients.h | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h b/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
index c821869..201fc98 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_polynomial_ops.h
@@ -149,6 +149,8 @@ class MultivariatePolynomialOp<MultivariateSparseCoefficients<F, MaxDegree>> {
       }
     }
 
+    c.coefficients_.num_vars_ =
+        std::max(a.coefficients_.num_vars_, b.coefficients_.num_vars_);
     c.coefficients_.terms_ = std::move(c_terms);
     c.coefficients_.Compact();
   }
diff --git a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
index 5dc05c0..97542ad 100644
--- a/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
+++ b/tachyon/math/polynomials/multivariate/multivariate_sparse_coefficients.h
@@ -356,7 +356,7 @@ class MultivariateSparseCoefficients {
         });
   }
 
-  size_t num_vars_;
+  size_t num_vars_ = 0;
   std::vector<Term> terms_;
 };
 
-- 
2.43.0


From ece6e5230e1cfc8e16cf788b8227388193a51023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:07 +0000
Subject: [PATCH 21/53] fix: compare the evaluations of both sumcheck proving
 keys

---
 tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h b/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
index 9e91e95..599a7ad 100644
--- a/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
+++ b/tachyon/crypto/sumcheck/multilinear/sumcheck_proving_key.h
@@ -29,7 +29,7 @@ struct SumcheckProvingKey {
 
   bool operator==(const SumcheckProvingKey& other) const {
     return verifying_key == other.verifying_key && terms == other.terms &&
-           flattened_ml_evaluations == flattened_ml_evaluations;
+           flattened_ml_evaluations == other.flattened_ml_evaluations;
   }
   bool operator!=(const SumcheckProvingKey& other) const {
     return !operator==(other);
-- 
2.43.0


From cf7892f5d2ec89fbbb573c09964eab4a696b98da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:05 +0000
Subject: [PATCH 22/53] fix: serialize all bytes of strings of wide characters

---
 tachyon/base/buffer/copyable.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/tachyon/base/buffer/copyable.h b/tachyon/base/buffer/copyable.h
index 398e299..18ef5f6 100644
--- a/tachyon/base/buffer/copyable.h
+++ b/tachyon/base/buffer/copyable.h
@@ -47,7 +47,7 @@ class Copyable<std::basic_string_view<CharTy>> {
                       Buffer* buffer) {
     if (!buffer->Write(value.size())) return false;
     return buffer->Write(reinterpret_cast<const uint8_t*>(value.data()),
-                         value.size());
+                         value.size() * sizeof(CharTy));
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
@@ -57,7 +57,7 @@ class Copyable<std::basic_string_view<CharTy>> {
   }
 
   static size_t EstimateSize(const std::basic_string_view<CharTy>& value) {
-    return sizeof(size_t) + value.size();
+    return sizeof(size_t) + value.size() * sizeof(CharTy);
   }
 };
 
@@ -67,7 +67,7 @@ class Copyable<std::basic_string<CharTy>> {
   static bool WriteTo(const std::basic_string<CharTy>& value, Buffer* buffer) {
     if (!buffer->Write(value.size())) return false;
     return buffer->Write(reinterpret_cast<const uint8_t*>(value.data()),
-                         value.size());
+                         value.size() * sizeof(CharTy));
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
@@ -75,11 +75,12 @@ class Copyable<std::basic_string<CharTy>> {
     size_t size;
     if (!buffer.Read(&size)) return false;
     value->resize(size);
-    return buffer.Read(reinterpret_cast<uint8_t*>(value->data()), size);
+    return buffer.Read(reinterpret_cast<uint8_t*>(value->data()),
+                       size * sizeof(CharTy));
   }
 
   static size_t EstimateSize(const std::basic_string<CharTy>& value) {
-    return sizeof(size_t) + value.size();
+    return sizeof(size_t) + value.size() * sizeof(CharTy);
   }
 };
 
-- 
2.43.0


From a48b6d240533c5b1731ab13a5d01cb33891e8bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:05 +0000
Subject: [PATCH 23/53] fix: WriteManyAt and ReadManyAt advance past each value

---
 tachyon/base/buffer/buffer.h           | 2 +-
 tachyon/base/buffer/read_only_buffer.h | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tachyon/base/buffer/buffer.h b/tachyon/base/buffer/buffer.h
index 29daf9d..6579f3e 100644
--- a/tachyon/base/buffer/buffer.h
+++ b/tachyon/base/buffer/buffer.h
@@ -128,7 +128,7 @@ class TACHYON_EXPORT Buffer : public ReadOnlyBuffer {
   [[nodiscard]] bool WriteManyAt(size_t buffer_offset, const T& value,
                                  const Args&... args) {
     if (!WriteAt(buffer_offset, value)) return false;
-    return WriteManyAt(buffer_offset, args...);
+    return WriteMany(args...);
   }
 
   [[nodiscard]] virtual bool Grow(size_t size) { return false; }
diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 1b39223..6e4e5ad 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -199,7 +199,7 @@ class TACHYON_EXPORT ReadOnlyBuffer {
     return ReadMany(std::forward<Args>(args)...);
   }
 
-  template <typename T, size_t N>
+  template <typename T>
   [[nodiscard]] bool ReadManyAt(size_t buffer_offset, T&& value) const {
     return ReadAt(buffer_offset, std::forward<T>(value));
   }
@@ -208,7 +208,7 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   [[nodiscard]] bool ReadManyAt(size_t buffer_offset, T&& value,
                                 Args&&... args) const {
     if (!ReadAt(buffer_offset, std::forward<T>(value))) return false;
-    return ReadManyAt(buffer_offset, std::forward<Args>(args)...);
+    return ReadMany(std::forward<Args>(args)...);
   }
 
  protected:
-- 
2.43.0


From 053ad6bd8e0346d27a30442390fab601683f32c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:54:05 +0000
Subject: [PATCH 24/53] fix: ReadPtrAt rejects counts whose size in bytes
 overflows

---
 tachyon/base/buffer/read_only_buffer.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/base/buffer/read_only_buffer.h b/tachyon/base/buffer/read_only_buffer.h
index 6e4e5ad..299bc18 100644
--- a/tachyon/base/buffer/read_only_buffer.h
+++ b/tachyon/base/buffer/read_only_buffer.h
@@ -137,16 +137,16 @@ class TACHYON_EXPORT ReadOnlyBuffer {
   template <typename T>
   [[nodiscard]] bool ReadPtrAt(size_t buffer_offset, T** ptr,
                                size_t ptr_num) const {
-    size_t size = sizeof(T) * ptr_num;
-    base::CheckedNumeric<size_t> len = buffer_offset;
+    base::CheckedNumeric<size_t> size = ptr_num;
+    size *= sizeof(T);
     size_t size_needed;
-    if (!(len + size).AssignIfValid(&size_needed)) return false;
+    if (!(size + buffer_offset).AssignIfValid(&size_needed)) return false;
     if (size_needed > buffer_len_) {
       return false;
     }
     const char* buffer = reinterpret_cast<const char*>(buffer_);
     *ptr = const_cast<T*>(reinterpret_cast<const T*>(&buffer[buffer_offset]));
-    buffer_offset_ = buffer_offset + size;
+    buffer_offset_ = size_needed;
     return true;
   }
 
-- 
2.43.0


From 85e630162dfe48ceca802120a40730de1073cd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:42 +0000
Subject: [PATCH 25/53] fix: do not shift by the word size when reversing zero
 bits

---
 tachyon/base/bits.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/base/bits.h b/tachyon/base/bits.h
index fa454f5..efb7fb5 100644
--- a/tachyon/base/bits.h
+++ b/tachyon/base/bits.h
@@ -165,6 +165,7 @@ TACHYON_EXPORT uint64_t BitRev(uint64_t n);
 
 // Reverses the |bit_len| least significant bits of |x|.
 inline size_t ReverseBitsLen(size_t x, size_t bit_len) {
+  if (bit_len == 0) return 0;
   return BitRev(x) >> (sizeof(size_t) * 8 - bit_len);
 }
 
-- 
2.43.0


From 748cd8a3e55cda46428d492f000c4d984d35f4e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:21:42 +0000
Subject: [PATCH 26/53] fix: iterate both GLV halves from the same bit

---
 tachyon/math/elliptic_curves/msm/glv.h | 37 +++++++++++++-------------
 1 file changed, 18 insertions(+), 19 deletions(-)

diff --git a/tachyon/math/elliptic_curves/msm/glv.h b/tachyon/math/elliptic_curves/msm/glv.h
index a9925d2..671571e 100644
--- a/tachyon/math/elliptic_curves/msm/glv.h
+++ b/tachyon/math/elliptic_curves/msm/glv.h
@@ -6,8 +6,12 @@
 #ifndef TACHYON_MATH_ELLIPTIC_CURVES_MSM_GLV_H_
 #define TACHYON_MATH_ELLIPTIC_CURVES_MSM_GLV_H_
 
-#include "tachyon/math/base/bit_iterator.h"
-#include "tachyon/math/base/gmp/bit_traits.h"
+#include <stddef.h>
+
+#include <algorithm>
+#include <limits>
+
+#include "tachyon/math/base/gmp/gmp_util.h"
 #include "tachyon/math/base/gmp/signed_value.h"
 #include "tachyon/math/elliptic_curves/semigroups.h"
 #include "tachyon/math/matrix/gmp_num_traits.h"
@@ -84,36 +88,31 @@ class GLV {
 
     RetPoint b1b2 = b1 + b2;
 
-    auto k1_begin = BitIteratorBE<mpz_class>::begin(&result.k1.abs_value);
-    auto k1_end = BitIteratorBE<mpz_class>::end(&result.k1.abs_value);
-    auto k2_begin = BitIteratorBE<mpz_class>::begin(&result.k2.abs_value);
+    // NOTE: |k1| and |k2| may have different numbers of limbs, so both should
+    // be iterated from the same bit position.
+    size_t num_bits = std::max(gmp::GetNumBits(result.k1.abs_value),
+                               gmp::GetNumBits(result.k2.abs_value));
 
     RetPoint ret = RetPoint::Zero();
     bool skip_zeros = true;
-    auto k1_it = k1_begin;
-    auto k2_it = k2_begin;
-    while (k1_it != k1_end) {
-      if (skip_zeros && !(*k1_it) && !(*k2_it)) {
-        skip_zeros = false;
-        ++k1_it;
-        ++k2_it;
-        continue;
-      }
+    for (size_t i = num_bits - 1; i != std::numeric_limits<size_t>::max();
+         --i) {
+      bool k1_bit = gmp::TestBit(result.k1.abs_value, i);
+      bool k2_bit = gmp::TestBit(result.k2.abs_value, i);
+      if (skip_zeros && !k1_bit && !k2_bit) continue;
       skip_zeros = false;
       ret.DoubleInPlace();
-      if ((*k1_it)) {
-        if (*(k2_it)) {
+      if (k1_bit) {
+        if (k2_bit) {
           ret += b1b2;
         } else {
           ret += b1;
         }
       } else {
-        if (*(k2_it)) {
+        if (k2_bit) {
           ret += b2;
         }
       }
-      ++k1_it;
-      ++k2_it;
     }
     return ret;
   }
-- 
2.43.0


From 635de9729460eeda38e25dc6d9f7827cd169471a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:06 +0000
Subject: [PATCH 27/53] fix: permute whenever a Poseidon squeeze needs the next
 block

---
 tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
index e68f8b3..7c8e5af 100644
--- a/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
+++ b/tachyon/crypto/hashes/sponge/poseidon/poseidon_sponge_base.h
@@ -227,9 +227,8 @@ struct PoseidonSpongeBase : public FieldBasedCryptographicSponge<Derived> {
             state[Params::kCapacity + rate_start_index + i];
       }
 
-      if (output_remaining_size != Params::kRate) {
-        derived.Permute(state);
-      }
+      // there are elements left to squeeze, so the next block is needed
+      derived.Permute(state);
       output_idx += num_elements_squeezed;
       rate_start_index = 0;
     }
-- 
2.43.0


From 9b3ac4957e35b4b149fd288454bb58212492b45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:06 +0000
Subject: [PATCH 28/53] fix: reduce digits split from a big field modulo the
 small field

---
 tachyon/crypto/challenger/multi_field32_conversions.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/crypto/challenger/multi_field32_conversions.h b/tachyon/crypto/challenger/multi_field32_conversions.h
index 9a3e44a..ca58cb3 100644
--- a/tachyon/crypto/challenger/multi_field32_conversions.h
+++ b/tachyon/crypto/challenger/multi_field32_conversions.h
@@ -61,7 +61,7 @@ std::array<SmallF, N> Split(const BigF& value) {
     if constexpr (SmallF::Config::kUseMontgomery) {
       ret[i] = SmallF::FromMontgomery(SmallF::Config::ToMontgomery(digit));
     } else {
-      ret[i] = SmallF(digit);
+      ret[i] = SmallF(static_cast<uint32_t>(digit % SmallF::Config::kModulus));
     }
     value_bigint >>= 64;
   }
-- 
2.43.0


From 9f8ec9609248da063404729f56b2f4e1c52b3c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:06 +0000
Subject: [PATCH 29/53] fix: build Merkle trees of one leaf and with one-leaf
 subtrees

---
 .../merkle_tree/binary_merkle_tree/binary_merkle_tree.h       | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
index 7b5036f..3d44a70 100644
--- a/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
+++ b/tachyon/crypto/commitments/merkle_tree/binary_merkle_tree/binary_merkle_tree.h
@@ -143,13 +143,13 @@ class BinaryMerkleTree final
   }
 
   void BuildTreeFromLeaves(base::Range<size_t> range) const {
-    while (range.GetSize() > 0) {
+    while (range.GetSize() > 1) {
       for (size_t i = range.from; i < range.to; i += 2) {
         storage_->SetHash(i >> 1,
                           hasher_->ComputeParentHash(storage_->GetHash(i),
                                                      storage_->GetHash(i + 1)));
       }
-      range = base::Range<size_t>(range.from >> 1, (range.to >> 1) - 1);
+      range = base::Range<size_t>(range.from >> 1, range.to >> 1);
     }
   }
 
-- 
2.43.0


From 230656ab58e20b1f42fa96afa969a82d4261d7d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:05 +0000
Subject: [PATCH 30/53] fix: serialize and compare the internal shifts of
 Poseidon2Config

---
 .../sponge/poseidon2/poseidon2_config.h       | 33 ++++++++++++++++---
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index ca0dfea..da54104 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -63,6 +63,24 @@ struct Poseidon2Config : public PoseidonConfigBase<Params> {
                   math::Vector<F>&& internal_diagonal_minus_one)
       : PoseidonConfigBase<Params>(std::move(base)),
         internal_diagonal_minus_one(std::move(internal_diagonal_minus_one)) {}
+  Poseidon2Config(PoseidonConfigBase<Params>&& base,
+                  math::Vector<F>&& internal_diagonal_minus_one,
+                  math::Vector<uint8_t>&& internal_shifts)
+      : PoseidonConfigBase<Params>(std::move(base)),
+        internal_diagonal_minus_one(std::move(internal_diagonal_minus_one)),
+        internal_shifts(std::move(internal_shifts)) {}
+
+  bool operator==(const Poseidon2Config& other) const {
+    return PoseidonConfigBase<Params>::operator==(other) &&
+           internal_diagonal_minus_one.size() ==
+               other.internal_diagonal_minus_one.size() &&
+           internal_diagonal_minus_one == other.internal_diagonal_minus_one &&
+           internal_shifts.size() == other.internal_shifts.size() &&
+           internal_shifts == other.internal_shifts;
+  }
+  bool operator!=(const Poseidon2Config& other) const {
+    return !operator==(other);
+  }
 
   constexpr static Poseidon2Config CreateDefault() {
     // TODO(chokobole): Only |BabyBear| has both shift and diagonal arrays.
@@ -166,25 +184,30 @@ class Copyable<crypto::Poseidon2Config<Params>> {
                       Buffer* buffer) {
     return Copyable<crypto::PoseidonConfigBase<Params>>::WriteTo(config,
                                                                  buffer) &&
-           buffer->WriteMany(config.internal_diagonal_minus_one);
+           buffer->WriteMany(config.internal_diagonal_minus_one,
+                             config.internal_shifts);
   }
 
   static bool ReadFrom(const ReadOnlyBuffer& buffer,
                        crypto::Poseidon2Config<Params>* config) {
     crypto::PoseidonConfigBase<Params> base;
-    math::Matrix<F> internal_diagonal_minus_one;
-    if (!buffer.ReadMany(&base, &internal_diagonal_minus_one)) {
+    math::Vector<F> internal_diagonal_minus_one;
+    math::Vector<uint8_t> internal_shifts;
+    if (!buffer.ReadMany(&base, &internal_diagonal_minus_one,
+                         &internal_shifts)) {
       return false;
     }
 
-    *config = {std::move(base), std::move(internal_diagonal_minus_one)};
+    *config = {std::move(base), std::move(internal_diagonal_minus_one),
+               std::move(internal_shifts)};
     return true;
   }
 
   static size_t EstimateSize(const crypto::Poseidon2Config<Params>& config) {
     const crypto::PoseidonConfigBase<Params>& base =
         static_cast<const crypto::PoseidonConfigBase<Params>&>(config);
-    return base::EstimateSize(base, config.internal_diagonal_minus_one);
+    return base::EstimateSize(base, config.internal_diagonal_minus_one,
+                              config.internal_shifts);
   }
 };
 
-- 
2.43.0


From a8e54ee987194f7b5d27cbaa652b6b5d6aabbe29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:23:49 +0000
Subject: [PATCH 31/53] fix: width-24 BabyBear Poseidon2 internal diagonal

---
 .../param_traits/poseidon2_baby_bear.h        | 20 +++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h
index 372fe66..09e25c3 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/param_traits/poseidon2_baby_bear.h
@@ -37,14 +37,18 @@ struct Poseidon2ParamsTraits<math::BabyBear, 23, 7> {
   constexpr static std::array<math::BabyBear, 24>
   GetPoseidon2InternalDiagonalArray() {
     return {
-        math::BabyBear{0x0a632d94}, math::BabyBear{0x6db657b7},
-        math::BabyBear{0x56fbdc9e}, math::BabyBear{0x052b3d8a},
-        math::BabyBear{0x33745201}, math::BabyBear{0x5c03108c},
-        math::BabyBear{0x0beba37b}, math::BabyBear{0x258c2e8b},
-        math::BabyBear{0x12029f39}, math::BabyBear{0x694909ce},
-        math::BabyBear{0x6d231724}, math::BabyBear{0x21c3b222},
-        math::BabyBear{0x3c0904a5}, math::BabyBear{0x01d6acda},
-        math::BabyBear{0x27705c83}, math::BabyBear{0x5231c802},
+        math::BabyBear{0x409133f0}, math::BabyBear{0x1667a8a1},
+        math::BabyBear{0x06a6c7b6}, math::BabyBear{0x6f53160e},
+        math::BabyBear{0x273b11d1}, math::BabyBear{0x03176c5d},
+        math::BabyBear{0x72f9bbf9}, math::BabyBear{0x73ceba91},
+        math::BabyBear{0x5cdef81d}, math::BabyBear{0x01393285},
+        math::BabyBear{0x46daee06}, math::BabyBear{0x065d7ba6},
+        math::BabyBear{0x52d72d6f}, math::BabyBear{0x05dd05e0},
+        math::BabyBear{0x3bab4b63}, math::BabyBear{0x6ada3842},
+        math::BabyBear{0x2fc5fbec}, math::BabyBear{0x770d61b0},
+        math::BabyBear{0x5715aae9}, math::BabyBear{0x03ef0e90},
+        math::BabyBear{0x75b6c770}, math::BabyBear{0x242adf5f},
+        math::BabyBear{0x00d0ca4c}, math::BabyBear{0x36c0e388},
     };
   }
   constexpr static std::array<uint8_t, 23> GetPoseidon2InternalShiftArray() {
-- 
2.43.0


From 29d97e1c4c5eb7f53fa68c9c406dce1da67e6529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:36:13 +0000
Subject: [PATCH 32/53] fix: clear the unused round constants of Poseidon2
 partial rounds

---
 tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
index da54104..40761f4 100644
--- a/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
+++ b/tachyon/crypto/hashes/sponge/poseidon2/poseidon2_config.h
@@ -40,6 +40,7 @@ void FindPoseidon2ARK(const PoseidonGrainLFSRConfig& config,
     if (i < partial_rounds_start || i >= partial_rounds_end) {
       ark.row(i) = lfsr.GetFieldElementsRejectionSampling(config.state_len);
     } else {
+      ark.row(i).setZero();
       ark.row(i)[0] = lfsr.GetFieldElementsRejectionSampling(1)[0];
     }
   }
-- 
2.43.0


From 688f57388544063f953289cf176417b164e6ae20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:52 +0000
Subject: [PATCH 33/53] fix: selectors on a coset larger than the trace domain

---
 .../commitments/fri/two_adic_multiplicative_coset.h   | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h b/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
index 976e352..a25891d 100644
--- a/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
+++ b/tachyon/crypto/commitments/fri/two_adic_multiplicative_coset.h
@@ -87,26 +87,29 @@ class TwoAdicMultiplicativeCoset {
 
     CHECK_EQ(domain_->offset(), F::One());
     CHECK_NE(coset_shift, F::One());
-    CHECK_GE(domain_->log_size_of_group(), coset.domain()->log_size_of_group());
+    CHECK_LE(domain_->log_size_of_group(), coset.domain()->log_size_of_group());
     uint32_t rate_bits =
         coset.domain()->log_size_of_group() - domain_->log_size_of_group();
     F s_pow_n = coset_shift.ExpPowOfTwo(domain_->log_size_of_group());
+    F g_pow_n = coset.domain()->group_gen().ExpPowOfTwo(
+        domain_->log_size_of_group());
 
     // Evals of Z_H(X) = Xⁿ - 1
     size_t evals_size = size_t{1} << rate_bits;
     std::vector<F> evals(evals_size);
     std::vector<F> inv_denoms_inv_zeroifier(evals_size);
     base::Parallelize(
-        evals_size, [this, &s_pow_n, &evals, &inv_denoms_inv_zeroifier](
+        evals_size, [&s_pow_n, &g_pow_n, &evals, &inv_denoms_inv_zeroifier](
                         size_t len, size_t chunk_offset, size_t chunk_size) {
           size_t start = chunk_offset * chunk_size;
-          F eval = s_pow_n * domain_->group_gen().Pow(start);
+          F eval = s_pow_n * g_pow_n.Pow(start);
           for (size_t i = start; i < start + len; ++i) {
             evals[i] = eval - F::One();
             inv_denoms_inv_zeroifier[i] = evals[i];
+            eval *= g_pow_n;
           }
           absl::Span<F> inv_denoms_inv_zeroifier_chunk =
-              absl::MakeSpan(&inv_denoms_inv_zeroifier[start], chunk_size);
+              absl::MakeSpan(&inv_denoms_inv_zeroifier[start], len);
           CHECK(F::BatchInverseInPlaceSerial(inv_denoms_inv_zeroifier_chunk));
         });
 
-- 
2.43.0


From a96c2c1b507943ae570801a3f487370606f21054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:12:49 +0000
Subject: [PATCH 34/53] fix: SimpleFRI verifier binds the openings to the
 queried positions

---
 tachyon/crypto/commitments/fri/simple_fri.h | 29 ++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/tachyon/crypto/commitments/fri/simple_fri.h b/tachyon/crypto/commitments/fri/simple_fri.h
index a631e05..f29e6c8 100644
--- a/tachyon/crypto/commitments/fri/simple_fri.h
+++ b/tachyon/crypto/commitments/fri/simple_fri.h
@@ -129,10 +129,26 @@ class SimpleFRI final
     F beta;
     F evaluation;
     F evaluation_sym;
+    if (proof.paths.size() != num_layers ||
+        proof.paths_sym.size() != num_layers ||
+        proof.evaluations.size() != num_layers ||
+        proof.evaluations_sym.size() != num_layers) {
+      LOG(ERROR) << "Proof doesn't have " << num_layers << " layers";
+      return false;
+    }
     for (uint32_t i = 0; i < num_layers; ++i) {
       BinaryMerkleTreeStorage<F>* layer = storage_->GetLayer(i);
       BinaryMerkleTree<F, F, MaxDegree + 1> tree(layer, hasher_);
 
+      size_t leaf_index = index % domain_size;
+      size_t leaf_index_sym = (index + (domain_size >> 1)) % domain_size;
+      if (!IsPathOf(leaf_index, domain_size, proof.paths[i]) ||
+          !IsPathOf(leaf_index_sym, domain_size, proof.paths_sym[i])) {
+        LOG(ERROR) << "Path doesn't lead to the queried leaf at layer [" << i
+                   << "]";
+        return false;
+      }
+
       if (!reader->ReadFromProof(&root)) return false;
       if (!tree.VerifyOpeningProof(root, proof.evaluations[i], proof.paths[i]))
         return false;
@@ -161,7 +177,6 @@ class SimpleFRI final
       // Substituting Pᵢ_even and Pᵢ_odd:
       // Pᵢ₊₁(ω²ʲ) = (Pᵢ(ωʲ) + Pᵢ(-ωʲ)) / 2 + β * (Pᵢ(ωʲ) - Pᵢ(-ωʲ)) / (2 * ωʲ)
       //           = ((1 + β * ω⁻ʲ) * Pᵢ(ωʲ) + (1 - β * ω⁻ʲ) * Pᵢ(-ωʲ)) / 2
-      size_t leaf_index = index % domain_size;
       if (i == 0) {
         evaluation = proof.evaluations[i];
         evaluation_sym = proof.evaluations_sym[i];
@@ -201,6 +216,18 @@ class SimpleFRI final
   }
 
  private:
+  // Returns true if |proof| is a path from the leaf at |leaf_index| to the root
+  // of a tree with |num_leaves| leaves.
+  static bool IsPathOf(size_t leaf_index, size_t num_leaves,
+                       const BinaryMerkleProof<F>& proof) {
+    for (const BinaryMerklePath<F>& path : proof.paths) {
+      if (num_leaves == 1 || path.left != (leaf_index % 2 == 1)) return false;
+      leaf_index >>= 1;
+      num_leaves >>= 1;
+    }
+    return num_leaves == 1;
+  }
+
   // not owned
   const Domain* domain_ = nullptr;
   // not owned
-- 
2.43.0


From 21cfd27ddc1cf01597e20253c693166fcb5e6220 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:17:09 +0000
Subject: [PATCH 35/53] fix: SimpleFRI commitment to the zero polynomial

---
 tachyon/crypto/commitments/fri/simple_fri.h | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tachyon/crypto/commitments/fri/simple_fri.h b/tachyon/crypto/commitments/fri/simple_fri.h
index f29e6c8..887119b 100644
--- a/tachyon/crypto/commitments/fri/simple_fri.h
+++ b/tachyon/crypto/commitments/fri/simple_fri.h
@@ -57,7 +57,7 @@ class SimpleFRI final
     BinaryMerkleTree<F, F, MaxDegree + 1> tree(storage_->GetLayer(0), hasher_);
     Evals evals = domain_->FFT(poly);
     F root;
-    if (!tree.Commit(evals.evaluations(), &root)) return false;
+    if (!tree.Commit(GetLeaves(evals, domain_->size()), &root)) return false;
     if (!writer->WriteToProof(root)) return false;
     const Poly* cur_poly = &poly;
 
@@ -74,7 +74,8 @@ class SimpleFRI final
         BinaryMerkleTree<F, F, MaxDegree + 1> tree(storage_->GetLayer(i),
                                                    hasher_);
         evals = sub_domains_[i - 1]->FFT(folded_poly);
-        if (!tree.Commit(evals.evaluations(), &root)) return false;
+        if (!tree.Commit(GetLeaves(evals, sub_domains_[i - 1]->size()), &root))
+          return false;
         if (!writer->WriteToProof(root)) return false;
         cur_poly = &folded_poly;
       }
@@ -216,6 +217,14 @@ class SimpleFRI final
   }
 
  private:
+  // Returns the |size| evaluations. Note that the FFT of the zero polynomial has
+  // no evaluations.
+  static std::vector<F> GetLeaves(const Evals& evals, size_t size) {
+    std::vector<F> leaves = evals.evaluations();
+    leaves.resize(size, F::Zero());
+    return leaves;
+  }
+
   // Returns true if |proof| is a path from the leaf at |leaf_index| to the root
   // of a tree with |num_leaves| leaves.
   static bool IsPathOf(size_t leaf_index, size_t num_leaves,
-- 
2.43.0


From ff324028e336d8b069044da0826508a881494e70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:48 +0000
Subject: [PATCH 36/53] fix: MulMatVec of matrices that are not square

---
 tachyon/math/matrix/matrix_operations.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/math/matrix/matrix_operations.h b/tachyon/math/matrix/matrix_operations.h
index 19fe5a6..b47b2a8 100644
--- a/tachyon/math/matrix/matrix_operations.h
+++ b/tachyon/math/matrix/matrix_operations.h
@@ -42,7 +42,7 @@ math::Vector<F> MulMatVec(const Eigen::MatrixBase<Derived>& matrix,
                           const Eigen::MatrixBase<Derived2>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   OMP_PARALLEL_FOR(Eigen::Index i = 0; i < matrix.rows(); ++i) {
     for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
       ret[i] += matrix(i, j) * vector[j];
@@ -57,7 +57,7 @@ math::Vector<F> MulMatVecSerial(const Eigen::MatrixBase<Derived>& matrix,
                                 const Eigen::MatrixBase<Derived2>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   for (Eigen::Index i = 0; i < matrix.rows(); ++i) {
     for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
       ret[i] += matrix(i, j) * vector[j];
@@ -73,7 +73,7 @@ math::Vector<F> MulMatVec(
     const Eigen::DenseCoeffsBase<Derived2, Level>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   if (vector.rows() == 1) {
     OMP_PARALLEL_FOR(Eigen::Index i = 0; i < matrix.rows(); ++i) {
       for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
@@ -99,7 +99,7 @@ math::Vector<F> MulMatVecSerial(
     const Eigen::DenseCoeffsBase<Derived2, Level>& vector) {
   static_assert(std::is_same_v<F, typename Derived2::Scalar>);
 
-  math::Vector<F> ret = math::Vector<F>::Constant(vector.size(), F::Zero());
+  math::Vector<F> ret = math::Vector<F>::Constant(matrix.rows(), F::Zero());
   if (vector.rows() == 1) {
     for (Eigen::Index i = 0; i < matrix.rows(); ++i) {
       for (Eigen::Index j = 0; j < matrix.cols(); ++j) {
-- 
2.43.0


From 5dc046b5c4948d1a216745a638b70a03a6a482de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:48 +0000
Subject: [PATCH 37/53] fix: number of columns of sparse matrices with empty
 rows

---
 tachyon/math/matrix/sparse/sparse_matrix.h | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/tachyon/math/matrix/sparse/sparse_matrix.h b/tachyon/math/matrix/sparse/sparse_matrix.h
index ae4f9bc..61271c5 100644
--- a/tachyon/math/matrix/sparse/sparse_matrix.h
+++ b/tachyon/math/matrix/sparse/sparse_matrix.h
@@ -97,11 +97,12 @@ class ELLSparseMatrix {
 
   // NOTE: Returns a valid value when |this| is sorted.
   size_t MaxCols() const {
-    auto it = std::max_element(elements_list_.begin(), elements_list_.end(),
-                               [](const Elements& a, const Elements& b) {
-                                 return a.back().index < b.back().index;
-                               });
-    return it->back().index + 1;
+    size_t max_cols = 0;
+    for (const Elements& elements : elements_list_) {
+      if (elements.empty()) continue;
+      max_cols = std::max(max_cols, elements.back().index + 1);
+    }
+    return max_cols;
   }
 
   size_t NonZeros() const {
@@ -247,6 +248,7 @@ class CSRSparseMatrix {
 
   // NOTE: Returns a valid value when |this| is sorted.
   size_t MaxCols() const {
+    if (elements_.empty()) return 0;
     auto it = std::max_element(
         elements_.begin(), elements_.end(),
         [](const Element& a, const Element& b) { return a.index < b.index; });
-- 
2.43.0


From fa31f25a58b5fd85149f23929c62c97326c26de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:48 +0000
Subject: [PATCH 38/53] fix: RationalField is one only if its numerator equals
 its denominator

---
 tachyon/math/base/rational_field.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/math/base/rational_field.h b/tachyon/math/base/rational_field.h
index eb1bc8f..5506088 100644
--- a/tachyon/math/base/rational_field.h
+++ b/tachyon/math/base/rational_field.h
@@ -81,11 +81,11 @@ class RationalField : public Field<RationalField<F>> {
   constexpr bool IsZero() const { return numerator_.IsZero(); }
 
   constexpr bool IsOne() const {
-    return numerator_.IsOne() || numerator_ == denominator_;
+    return numerator_ == denominator_;
   }
 
   constexpr bool IsMinusOne() const {
-    return numerator_.IsMinusOne() || (numerator_ + denominator_).IsZero();
+    return (numerator_ + denominator_).IsZero();
   }
 
   std::string ToString() const {
-- 
2.43.0


From da25d79f92e0764301fa6bf3d50cca2dc1929b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:48 +0000
Subject: [PATCH 39/53] fix: RationalField::BatchEvaluate ignores the
 coefficient

---
 tachyon/math/base/rational_field.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/tachyon/math/base/rational_field.h b/tachyon/math/base/rational_field.h
index 5506088..c55d39d 100644
--- a/tachyon/math/base/rational_field.h
+++ b/tachyon/math/base/rational_field.h
@@ -61,13 +61,14 @@ class RationalField : public Field<RationalField<F>> {
       return false;
     }
     base::Parallelize(*results,
-                      [&ration_fields](absl::Span<F> chunk, size_t chunk_offset,
-                                       size_t chunk_size) {
+                      [&ration_fields, &coeff](absl::Span<F> chunk,
+                                               size_t chunk_offset,
+                                               size_t chunk_size) {
                         size_t start = chunk_offset * chunk_size;
                         for (size_t i = 0; i < chunk.size(); ++i) {
                           chunk[i] = ration_fields[start + i].denominator_;
                         }
-                        CHECK(F::BatchInverseInPlaceSerial(chunk));
+                        CHECK(F::BatchInverseInPlaceSerial(chunk, coeff));
                         for (size_t i = 0; i < chunk.size(); ++i) {
                           chunk[i] *= ration_fields[start + i].numerator_;
                         }
-- 
2.43.0


From 7d6990ddd2ed60d2397694eee1c6efbf2bd5db02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:55:34 +0000
Subject: [PATCH 40/53] fix: MMCS verifier refuses paths of a wrong length

---
 .../merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
index 20829be..b5c4ab8 100644
--- a/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
+++ b/tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree_mmcs.h
@@ -15,6 +15,7 @@
 
 #include "tachyon/base/bits.h"
 #include "tachyon/base/containers/container_util.h"
+#include "tachyon/base/logging.h"
 #include "tachyon/base/profiler.h"
 #include "tachyon/crypto/commitments/merkle_tree/field_merkle_tree/field_merkle_tree.h"
 #include "tachyon/crypto/commitments/mixed_matrix_commitment_scheme.h"
@@ -186,6 +187,12 @@ class FieldMerkleTreeMMCS final
 
     size_t next_layer =
         absl::bit_ceil(remaining_dimensions_list.front().dimensions.height);
+    // NOTE: A shorter proof would leave out the matrices of the layers above.
+    if (proof.size() != base::bits::CheckedLog2(next_layer)) {
+      LOG(ERROR) << "Proof has " << proof.size()
+                 << " siblings, but the tree has " << next_layer << " leaves";
+      return false;
+    }
     size_t next_layer_size = CountLayers(next_layer, remaining_dimensions_list);
     Digest root = hasher_.Hash(GetOpenedValuesAsPrimeFieldVectors(
         opened_values, remaining_dimensions_list.subspan(0, next_layer_size)));
-- 
2.43.0


From a655f887b2f63453dda0a83a128951bdd28f33bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:34 +0000
Subject: [PATCH 41/53] fix: TwoAdicFRI verifier refuses proofs of a wrong
 shape

---
 tachyon/crypto/commitments/fri/two_adic_fri.h | 27 +++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/tachyon/crypto/commitments/fri/two_adic_fri.h b/tachyon/crypto/commitments/fri/two_adic_fri.h
index 96fb772..604231a 100644
--- a/tachyon/crypto/commitments/fri/two_adic_fri.h
+++ b/tachyon/crypto/commitments/fri/two_adic_fri.h
@@ -15,6 +15,7 @@
 #include "absl/container/flat_hash_map.h"
 
 #include "tachyon/base/bits.h"
+#include "tachyon/base/logging.h"
 #include "tachyon/base/parallelize.h"
 #include "tachyon/base/profiler.h"
 #include "tachyon/crypto/commitments/fri/fri_proof.h"
@@ -229,6 +230,12 @@ class TwoAdicFRI {
       const OpenedValues& opened_values_by_round, const FRIProof& proof,
       Challenger& challenger) const {
     TRACE_EVENT("ProofVerification", "TwoAdicFRI::VerifyOpeningProof");
+    // NOTE: The degrees that the folding proves are bounded by the number of
+    // layers, so that the layers must be as many as the domains require.
+    if (!HasValidShape(domains_by_round, proof)) {
+      LOG(ERROR) << "The shape of the proof doesn't match with the domains";
+      return false;
+    }
     // Batch combination challenge
     const ExtF alpha = challenger.template SampleExtElement<ExtF>();
     VLOG(2) << "FRI(alpha): " << alpha.ToHexString(true);
@@ -327,6 +334,26 @@ class TwoAdicFRI {
   friend class c::crypto::TwoAdicFRIImpl<ExtF, InputMMCS, ChallengeMMCS,
                                          Challenger>;
 
+  static bool HasValidShape(
+      const std::vector<std::vector<Domain>>& domains_by_round,
+      const FRIProof& proof) {
+    size_t num_layers = 0;
+    for (const std::vector<Domain>& domains : domains_by_round) {
+      for (const Domain& domain : domains) {
+        num_layers = std::max(
+            num_layers, size_t{domain.domain()->log_size_of_group()});
+      }
+    }
+    if (proof.commit_phase_commits.size() != num_layers) return false;
+    for (const auto& query_proof : proof.query_proofs) {
+      if (query_proof.input_proof.size() != domains_by_round.size() ||
+          query_proof.commit_phase_openings.size() != num_layers) {
+        return false;
+      }
+    }
+    return true;
+  }
+
   static absl::flat_hash_map<ExtF, std::vector<ExtF>>
   ComputeInverseDenominators(
       const std::vector<absl::Span<
-- 
2.43.0


From bb4c16605106c79e8b79326019d3784e0ea3d5ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:05 +0000
Subject: [PATCH 42/53] fix: deserialized GWC and SHPlonk verify with the same
 G2 points as a setup

---
 tachyon/crypto/commitments/kzg/gwc.h     | 4 ++--
 tachyon/crypto/commitments/kzg/shplonk.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/tachyon/crypto/commitments/kzg/gwc.h b/tachyon/crypto/commitments/kzg/gwc.h
index bb6ebb9..ec51448 100644
--- a/tachyon/crypto/commitments/kzg/gwc.h
+++ b/tachyon/crypto/commitments/kzg/gwc.h
@@ -55,8 +55,8 @@ class GWC final : public UnivariatePolynomialCommitmentScheme<
   GWC(KZG<G1Point, MaxDegree, Commitment>&& kzg, G2Point&& s_g2)
       : KZGFamily<G1Point, MaxDegree, Commitment>(std::move(kzg)),
         s_g2_(std::move(s_g2)),
-        g2_arr_({G2Prepared::From(G2Point::Generator()),
-                 G2Prepared::From(-s_g2)}) {}
+        g2_arr_({G2Prepared::From(s_g2_),
+                 G2Prepared::From(-G2Point::Generator())}) {}
 
   const G2Point& s_g2() const { return s_g2_; }
 
diff --git a/tachyon/crypto/commitments/kzg/shplonk.h b/tachyon/crypto/commitments/kzg/shplonk.h
index 41950c9..9c4d82b 100644
--- a/tachyon/crypto/commitments/kzg/shplonk.h
+++ b/tachyon/crypto/commitments/kzg/shplonk.h
@@ -56,8 +56,8 @@ class SHPlonk final : public UnivariatePolynomialCommitmentScheme<
   SHPlonk(KZG<G1Point, MaxDegree, Commitment>&& kzg, G2Point&& s_g2)
       : KZGFamily<G1Point, MaxDegree, Commitment>(std::move(kzg)),
         s_g2_(std::move(s_g2)),
-        g2_arr_({G2Prepared::From(G2Point::Generator()),
-                 G2Prepared::From(-s_g2)}) {}
+        g2_arr_({G2Prepared::From(s_g2_),
+                 G2Prepared::From(-G2Point::Generator())}) {}
 
   const G2Point& s_g2() const { return s_g2_; }
 
-- 
2.43.0


From 290fd8e380eb6d1115529fdf84e7a4f24ffcd723 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:12 +0000
Subject: [PATCH 43/53] fix: SHPlonk verifier refuses two values of a
 commitment at one point

---
 tachyon/crypto/commitments/kzg/shplonk.h         |  5 +++++
 tachyon/crypto/commitments/polynomial_openings.h | 14 ++++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/tachyon/crypto/commitments/kzg/shplonk.h b/tachyon/crypto/commitments/kzg/shplonk.h
index 9c4d82b..5558f37 100644
--- a/tachyon/crypto/commitments/kzg/shplonk.h
+++ b/tachyon/crypto/commitments/kzg/shplonk.h
@@ -14,6 +14,7 @@
 #include "gtest/gtest_prod.h"
 
 #include "tachyon/base/containers/contains.h"
+#include "tachyon/base/logging.h"
 #include "tachyon/crypto/commitments/kzg/kzg_family.h"
 #include "tachyon/crypto/commitments/polynomial_openings.h"
 #include "tachyon/crypto/commitments/univariate_polynomial_commitment_scheme.h"
@@ -247,6 +248,10 @@ class SHPlonk final : public UnivariatePolynomialCommitmentScheme<
 
     PolynomialOpeningGrouper<Poly, Commitment> grouper;
     grouper.GroupByPolyOracleAndPoints(poly_openings);
+    if (grouper.HasConflictingOpenings(poly_openings)) {
+      LOG(ERROR) << "A commitment is opened to different values at a point";
+      return false;
+    }
 
     // Group |poly_openings| to |grouped_poly_openings_vec|.
     // {[C₀, C₁, C₂], [x₀, x₁, x₂]}
diff --git a/tachyon/crypto/commitments/polynomial_openings.h b/tachyon/crypto/commitments/polynomial_openings.h
index aa64eca..3d3a3a8 100644
--- a/tachyon/crypto/commitments/polynomial_openings.h
+++ b/tachyon/crypto/commitments/polynomial_openings.h
@@ -1,6 +1,7 @@
 #ifndef TACHYON_CRYPTO_COMMITMENTS_POLYNOMIAL_OPENINGS_H_
 #define TACHYON_CRYPTO_COMMITMENTS_POLYNOMIAL_OPENINGS_H_
 
+#include <algorithm>
 #include <string>
 #include <utility>
 #include <vector>
@@ -212,6 +213,19 @@ class PolynomialOpeningGrouper {
     }
   }
 
+  // Return true if an oracle is opened to different values at the same point.
+  // Used by SHPlonk, which keeps a single opening per oracle and point.
+  bool HasConflictingOpenings(
+      const std::vector<PolynomialOpening<Poly, PolyOracle>>& poly_openings)
+      const {
+    return std::any_of(
+        poly_openings.begin(), poly_openings.end(),
+        [&poly_openings](const PolynomialOpening<Poly, PolyOracle>& opening) {
+          return GetOpeningFromPolyOpenings(poly_openings, opening.poly_oracle,
+                                            opening.point) != opening.opening;
+        });
+  }
+
   // Used by SHPlonk.
   void GroupByPolyOracleAndPoints(
       const std::vector<PolynomialOpening<Poly, PolyOracle>>& poly_openings) {
-- 
2.43.0


From bb228f7e8d64920e76af34c4242d87b93e81b6e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:43 +0000
Subject: [PATCH 44/53] fix: R1CS matrix rows skip the zero variable

---
 tachyon/zk/r1cs/constraint_system/constraint_system.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/r1cs/constraint_system/constraint_system.h b/tachyon/zk/r1cs/constraint_system/constraint_system.h
index 5950f87..0befc70 100644
--- a/tachyon/zk/r1cs/constraint_system/constraint_system.h
+++ b/tachyon/zk/r1cs/constraint_system/constraint_system.h
@@ -78,7 +78,8 @@ class ConstraintSystem {
   std::vector<Cell<F>> MakeRow(const LinearCombination<F>& lc) const {
     std::vector<Cell<F>> row;
     for (const Term<F>& term : lc.terms()) {
-      if (!term.coefficient.IsZero()) {
+      // NOTE: The zero variable has no column.
+      if (!term.coefficient.IsZero() && !term.variable.IsZero()) {
         row.push_back({term.coefficient,
                        *term.variable.GetIndex(num_instance_variables_)});
       }
-- 
2.43.0


From 87ac26410e2dba6e96348651877838c6c2d2bdbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:43 +0000
Subject: [PATCH 45/53] fix: R1CS counts uses of linear combinations by index

---
 tachyon/zk/r1cs/constraint_system/constraint_system.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/r1cs/constraint_system/constraint_system.h b/tachyon/zk/r1cs/constraint_system/constraint_system.h
index 0befc70..4b937d2 100644
--- a/tachyon/zk/r1cs/constraint_system/constraint_system.h
+++ b/tachyon/zk/r1cs/constraint_system/constraint_system.h
@@ -161,7 +161,9 @@ class ConstraintSystem {
   // constraint system
   std::vector<size_t> ComputeLCNumTimesUsed(bool count_sinks) const {
     std::vector<size_t> num_times_used;
-    num_times_used.resize(lc_map_.size());
+    // NOTE: |lc_map_| can hold less than |num_linear_combinations_| entries
+    // after linear combinations are inlined or outlined.
+    num_times_used.resize(num_linear_combinations_);
 
     for (const std::pair<const size_t, LinearCombination<F>>& entry : lc_map_) {
       num_times_used[entry.first] += size_t{count_sinks};
-- 
2.43.0


From 2dfc7c0a91bc2a5649ffefedca160667d0cab654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:43 +0000
Subject: [PATCH 46/53] fix: Groth16 re-randomization draws again if any scalar
 is zero

---
 tachyon/zk/r1cs/groth16/prove.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/zk/r1cs/groth16/prove.h b/tachyon/zk/r1cs/groth16/prove.h
index 30a5033..74d10f8 100644
--- a/tachyon/zk/r1cs/groth16/prove.h
+++ b/tachyon/zk/r1cs/groth16/prove.h
@@ -256,7 +256,7 @@ Proof<Curve> ReRandomizeProof(const VerifyingKey<Curve>& vk,
     F r1;
     F r2;
 
-    bool AreZeroes() const { return r1.IsZero() && r2.IsZero(); }
+    bool HasZero() const { return r1.IsZero() || r2.IsZero(); }
 
     void Sample() {
       r1 = F::Random();
@@ -265,7 +265,7 @@ Proof<Curve> ReRandomizeProof(const VerifyingKey<Curve>& vk,
   };
 
   Randoms randoms;
-  while (randoms.AreZeroes()) {
+  while (randoms.HasZero()) {
     randoms.Sample();
   }
 
-- 
2.43.0


From ae5cb497ebe27123427ec84e2913335ab8d98f8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:20 +0000
Subject: [PATCH 47/53] fix: the identifier of a scaled expression includes the
 expression

---
 tachyon/zk/plonk/expressions/evaluator/identifier.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/tachyon/zk/plonk/expressions/evaluator/identifier.h b/tachyon/zk/plonk/expressions/evaluator/identifier.h
index ee471b4..678c5ea 100644
--- a/tachyon/zk/plonk/expressions/evaluator/identifier.h
+++ b/tachyon/zk/plonk/expressions/evaluator/identifier.h
@@ -50,6 +50,7 @@ class Identifier : public Evaluator<F, void> {
         ss_ << ")";
         return;
       case ExpressionType::kScaled:
+        Evaluate(input->ToScaled()->expr());
         ss_ << "*";
         ss_ << input->ToScaled()->scale().ToString();
         return;
-- 
2.43.0


From 20f548bac6f7cdc304f67935aad55ee3081c43ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:27:20 +0000
Subject: [PATCH 48/53] fix: combining simple selectors respects the degree of
 the joining selector

---
 tachyon/zk/plonk/constraint_system/selector_compressor.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/zk/plonk/constraint_system/selector_compressor.h b/tachyon/zk/plonk/constraint_system/selector_compressor.h
index 923e744..f851dcf 100644
--- a/tachyon/zk/plonk/constraint_system/selector_compressor.h
+++ b/tachyon/zk/plonk/constraint_system/selector_compressor.h
@@ -218,9 +218,9 @@ class SelectorCompressor {
         if (excluded) continue;
 
         // Can the new selector join the combination? Reminder: we use
-        // |selector.max_degree() - 1| to omit the influence of the virtual
+        // |max_degree() - 1| to omit the influence of the virtual
         // selector on the degree, as it will be substituted.
-        size_t new_d = std::max(d, selector.max_degree() - 1);
+        size_t new_d = std::max(d, selectors_[j].max_degree() - 1);
         if (new_d + combination.size() + 1 > max_degree) {
           // Guess not.
           continue;
-- 
2.43.0


From ea0b453851ee4a873c66e00e16ea47620c084f59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:43 +0000
Subject: [PATCH 49/53] fix: lookup inputs are only chunked with inputs of the
 same table

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index 61fc823..4731991 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -303,6 +303,8 @@ class ConstraintSystem {
     size_t minimum_degree = minimum_degree_.value();
 
     for (const auto& [_, lookup_tracker] : lookups_map_) {
+      // The |lookup_arguments| of this table are those from |first| on.
+      size_t first = lookups_.size();
       std::vector<std::unique_ptr<Expression<F>>> cloned_input =
           Expression<F>::CloneExpressions(lookup_tracker.inputs[0]);
       std::vector<std::unique_ptr<Expression<F>>> cloned_table =
@@ -316,8 +318,9 @@ class ConstraintSystem {
         size_t cur_input_degree = ComputeColumnDegree(*input);
 
         bool added = false;
-        for (lookup::Argument<F>& lookup_argument : lookups_) {
+        for (size_t i = first; i < lookups_.size(); ++i) {
           // Try to fit input into one of the |lookup_arguments|.
+          lookup::Argument<F>& lookup_argument = lookups_[i];
           size_t cur_argument_degree = lookup_argument.RequiredDegree();
           size_t new_potential_degree = cur_argument_degree + cur_input_degree;
           if (new_potential_degree <= minimum_degree) {
-- 
2.43.0


From 0a519205a77df3778d900d0a3bc38c89ebab53b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:43 +0000
Subject: [PATCH 50/53] fix: cells of lookups and shuffles are queried

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index 4731991..8d428f6 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -232,6 +232,8 @@ class ConstraintSystem {
           CHECK(!ContainsSimpleSelector(pair.input().get()))
               << "expression containing simple selector "
                  "supplied to lookup argument";
+          QueryCells(pair.input().get(), cells);
+          QueryCells(pair.table().get(), cells);
         }
         lookups_.emplace_back(name, std::move(pairs));
         break;
@@ -247,6 +249,8 @@ class ConstraintSystem {
           CHECK(!ContainsSimpleSelector(pair.input().get()))
               << "expression containing simple selector "
                  "supplied to lookup argument";
+          QueryCells(pair.input().get(), cells);
+          QueryCells(pair.table().get(), cells);
 
           input_expressions.push_back(std::move(pair).TakeInput());
           table_expressions.push_back(std::move(pair).TakeTable());
@@ -358,6 +362,8 @@ class ConstraintSystem {
     shuffle_expressions.reserve(pairs.size());
 
     for (shuffle::Pair<std::unique_ptr<Expression<F>>>& pair : pairs) {
+      QueryCells(pair.input().get(), cells);
+      QueryCells(pair.shuffle().get(), cells);
       input_expressions.push_back(std::move(pair).TakeInput());
       shuffle_expressions.push_back(std::move(pair).TakeShuffle());
     }
-- 
2.43.0


From ffc5044e49a598a2a4a97b78e11a8d1b92cf105b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:43 +0000
Subject: [PATCH 51/53] fix: degree and blinding factors follow later changes
 of the constraint system

---
 tachyon/zk/plonk/constraint_system/constraint_system.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tachyon/zk/plonk/constraint_system/constraint_system.h b/tachyon/zk/plonk/constraint_system/constraint_system.h
index 8d428f6..beea4a6 100644
--- a/tachyon/zk/plonk/constraint_system/constraint_system.h
+++ b/tachyon/zk/plonk/constraint_system/constraint_system.h
@@ -143,6 +143,7 @@ class ConstraintSystem {
   // larger amount than actually needed. This can be used, for example, to
   // force the permutation argument to involve more columns in the same set.
   void set_minimum_degree(size_t degree) {
+    cached_degree_.reset();
     if (minimum_degree_) {
       minimum_degree_ = std::max(minimum_degree_.value(), degree);
     } else {
@@ -175,6 +176,7 @@ class ConstraintSystem {
   // |callback| returns a map between the input expressions and the table
   // columns they need to match.
   void Lookup(std::string_view name, LookupCallback callback) {
+    cached_degree_.reset();
     VirtualCells cells(this);
     lookup::Pairs<std::unique_ptr<Expression<F>>, LookupTableColumn> pairs =
         std::move(callback).Run(cells);
@@ -222,6 +224,7 @@ class ConstraintSystem {
   // |callback| returns a map between the input expressions and the table
   // expressions they need to match.
   void LookupAny(std::string_view name, LookupAnyCallback callback) {
+    cached_degree_.reset();
     VirtualCells cells(this);
     lookup::Pairs<std::unique_ptr<Expression<F>>> pairs =
         std::move(callback).Run(cells);
@@ -268,6 +271,7 @@ class ConstraintSystem {
   // |lookup_arguments| of chunks smaller than the |minimum_degree| from the
   // |lookups_map|.
   void ChunkLookups() {
+    cached_degree_.reset();
     CHECK_EQ(lookup_type_, lookup::Type::kLogDerivativeHalo2);
 
     if (lookups_map_.empty()) {
@@ -351,6 +355,7 @@ class ConstraintSystem {
 
   // Add a shuffle argument for some input expressions and shuffle expressions.
   size_t Shuffle(std::string_view name, ShuffleCallback callback) {
+    cached_degree_.reset();
     VirtualCells cells(this);
     shuffle::Pairs<std::unique_ptr<Expression<F>>> pairs =
         std::move(callback).Run(cells);
@@ -389,6 +394,7 @@ class ConstraintSystem {
     if (QueryIndex(advice_queries_, column, at, &index)) return index;
 
     // Make a new query
+    cached_blinding_factors_.reset();
     advice_queries_.emplace_back(at, column);
     ++num_advice_queries_[column.index()];
     return advice_queries_.size() - 1;
@@ -458,6 +464,7 @@ class ConstraintSystem {
   // A gate is required to contain polynomial constraints. This method will
   // crash if |constrain| returns an empty iterator.
   void CreateGate(std::string_view name, ConstrainCallback constrain) {
+    cached_degree_.reset();
     VirtualCells cells(this);
     std::vector<Constraint<F>> constraints = std::move(constrain).Run(cells);
     std::vector<Selector> queried_selectors =
-- 
2.43.0


From ff613a4d11ee0f42f5e04e2c0bb4271c26e188e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:16 +0000
Subject: [PATCH 52/53] fix: shuffle evaluator pairs each shuffle with its own
 product

---
 tachyon/zk/shuffle/evaluator.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tachyon/zk/shuffle/evaluator.h b/tachyon/zk/shuffle/evaluator.h
index a8c773e..d64f780 100644
--- a/tachyon/zk/shuffle/evaluator.h
+++ b/tachyon/zk/shuffle/evaluator.h
@@ -74,7 +74,7 @@ class Evaluator {
     for (size_t i = 0; i < evaluators_.size(); i += 2) {
       const plonk::GraphEvaluator<F>& input_evaluator = evaluators_[i];
       const plonk::GraphEvaluator<F>& evaluator = evaluators_[i + 1];
-      const EvalsOrExtendedEvals& product_coset = product_cosets_[i];
+      const EvalsOrExtendedEvals& product_coset = product_cosets_[i / 2];
 
       plonk::EvaluationInput<EvalsOrExtendedEvals> input_eval_data =
           builder.ExtractEvaluationInput(
-- 
2.43.0


From 491f1d844fc9e5eb3dcf2d08bc392f0019d6bf03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:03:16 +0000
Subject: [PATCH 53/53] fix: copy constraints reject the row past the last

---
 tachyon/zk/plonk/permutation/permutation_assembly.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tachyon/zk/plonk/permutation/permutation_assembly.h b/tachyon/zk/plonk/permutation/permutation_assembly.h
index 6fa67d0..8bf0f27 100644
--- a/tachyon/zk/plonk/permutation/permutation_assembly.h
+++ b/tachyon/zk/plonk/permutation/permutation_assembly.h
@@ -59,8 +59,8 @@ class TACHYON_EXPORT PermutationAssembly {
 
   void Copy(const AnyColumnKey& left_column, RowIndex left_row,
             const AnyColumnKey& right_column, RowIndex right_row) {
-    CHECK_LE(left_row, rows_);
-    CHECK_LE(right_row, rows_);
+    CHECK_LT(left_row, rows_);
+    CHECK_LT(right_row, rows_);
 
     // Get indices of each column.
     size_t left_col_idx = GetColumnIndex(left_column);
-- 
2.43.0

