From 44e57e7e1c13c31ae021f30262cf9fa23577c824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 01/13] fix: get_root_of_unity rejects orders of 2^32 and above

The power-of-two test shifted a 32-bit one, so n = 2^32 (valid for fields with
two-adicity of at least 32) was refused.
---
 libff/algebra/field_utils/field_utils.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/field_utils/field_utils.tcc b/libff/algebra/field_utils/field_utils.tcc
index 6bfefed..aeaa236 100755
--- a/libff/algebra/field_utils/field_utils.tcc
+++ b/libff/algebra/field_utils/field_utils.tcc
@@ -101,7 +101,7 @@ typename std::enable_if<!std::is_same<FieldT, Double>::value, FieldT>::type
 get_root_of_unity(const size_t n)
 {
     const size_t logn = log2(n);
-    if (n != (1u << logn)) throw std::invalid_argument("libff::get_root_of_unity: expected n == (1u << logn)");
+    if (n != (static_cast<size_t>(1) << logn)) throw std::invalid_argument("libff::get_root_of_unity: expected n == (1u << logn)");
     if (logn > FieldT::s) throw std::invalid_argument("libff::get_root_of_unity: expected logn <= FieldT::s");
 
     FieldT omega = FieldT::root_of_unity;
-- 
2.43.0


From ac3d1005396f939a09c7c0b5b73400ae1a6dd5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 02/13] fix: find_wnaf loses the carry out of the top limb

For scalars close to 2^(64 n) the negative digit rounds the remainder up past
the top limb; the lost carry made the digits sum to scalar - 2^(64 n).
---
 libff/algebra/scalar_multiplication/wnaf.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/algebra/scalar_multiplication/wnaf.tcc b/libff/algebra/scalar_multiplication/wnaf.tcc
index 760df2c..075d082 100755
--- a/libff/algebra/scalar_multiplication/wnaf.tcc
+++ b/libff/algebra/scalar_multiplication/wnaf.tcc
@@ -27,6 +27,7 @@ std::vector<long> find_wnaf(const size_t window_size, const bigint<n> &scalar)
     while (!c.is_zero())
     {
         long u;
+        mp_limb_t carry = 0; // bit above the top limb, if the addition below overflows
         if ((c.data[0] & 1) == 1)
         {
             u = c.data[0] % (1u << (window_size+1));
@@ -41,7 +42,7 @@ std::vector<long> find_wnaf(const size_t window_size, const bigint<n> &scalar)
             }
             else
             {
-                mpn_add_1(c.data, c.data, n, -u);
+                carry = mpn_add_1(c.data, c.data, n, -u);
             }
         }
         else
@@ -52,6 +53,7 @@ std::vector<long> find_wnaf(const size_t window_size, const bigint<n> &scalar)
         ++j;
 
         mpn_rshift(c.data, c.data, n, 1); // c = c/2
+        c.data[n-1] |= carry << (GMP_NUMB_BITS - 1);
     }
 
     return res;
-- 
2.43.0


From 281a12023d7ffa7560302b30aa0e277b09ba8133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:58 +0000
Subject: [PATCH 03/13] fix: alt_bn128/bls12_381 G2::mul_by_b multiplies by the
 twist coefficient b

The helper multiplied component-wise by coeff_b * Fq2::non_residue (copied
from the curves twisted by a square root), which is not the coefficient b
of the twisted curve.
---
 libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp | 2 +-
 libff/algebra/curves/bls12_381/bls12_381_g2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
index bee3553..11e5146 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
@@ -35,7 +35,7 @@ alt_bn128_G2::alt_bn128_G2()
 
 alt_bn128_Fq2 alt_bn128_G2::mul_by_b(const alt_bn128_Fq2 &elt)
 {
-    return alt_bn128_Fq2(alt_bn128_twist_mul_by_b_c0 * elt.c0, alt_bn128_twist_mul_by_b_c1 * elt.c1);
+    return alt_bn128_twist_coeff_b * elt;
 }
 
 void alt_bn128_G2::print() const
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
index 99da73c..4683235 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
@@ -24,7 +24,7 @@ bls12_381_G2::bls12_381_G2()
 
 bls12_381_Fq2 bls12_381_G2::mul_by_b(const bls12_381_Fq2 &elt)
 {
-    return bls12_381_Fq2(bls12_381_twist_mul_by_b_c0 * elt.c0, bls12_381_twist_mul_by_b_c1 * elt.c1);
+    return bls12_381_twist_coeff_b * elt;
 }
 
 void bls12_381_G2::print() const
-- 
2.43.0


From 65aa21ab9644fa9fbc85a88587e407315e7e15a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:51 +0000
Subject: [PATCH 04/13] fix: vector operator>> is declared for std::istream

The declaration named std::ostream, so extracting a vector from a
std::stringstream was ambiguous and reserialize<std::vector<T>> did not compile.
---
 libff/common/serialization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/common/serialization.hpp b/libff/common/serialization.hpp
index dbe4a51..8db2e79 100755
--- a/libff/common/serialization.hpp
+++ b/libff/common/serialization.hpp
@@ -82,7 +82,7 @@ template<typename T>
 std::ostream& operator<<(std::ostream& out, const std::vector<T> &v);
 
 template<typename T>
-std::istream& operator>>(std::ostream& out, std::vector<T> &v);
+std::istream& operator>>(std::istream& in, std::vector<T> &v);
 
 template<typename T1, typename T2>
 std::ostream& operator<<(std::ostream& out, const std::map<T1, T2> &m);
-- 
2.43.0


From 4276be28c5ef9de0717109537de2046361927324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:42 +0000
Subject: [PATCH 05/13] fix: gf192::multiplicative_generator generates the
 whole multiplicative group

---
 libff/algebra/fields/binary/gf192.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/fields/binary/gf192.cpp b/libff/algebra/fields/binary/gf192.cpp
index ddcdf51..f9f3f13 100644
--- a/libff/algebra/fields/binary/gf192.cpp
+++ b/libff/algebra/fields/binary/gf192.cpp
@@ -19,7 +19,7 @@ namespace libff {
 using std::size_t;
 
 const uint64_t gf192::modulus_;
-gf192 gf192::multiplicative_generator = gf192(2);
+gf192 gf192::multiplicative_generator = gf192(7); // gf192(2) lies in the subgroup of index 3*241
 
 gf192::gf192() : value_{0, 0, 0}
 {
-- 
2.43.0


From 5598b1df581c30c1983a60f8532656ad07c7f604 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:56 +0000
Subject: [PATCH 06/13] fix: mnt6 affine reduced pairing accounts for the
 negative ate loop count

---
 libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
index 5af861b..85e77df 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
@@ -748,7 +748,12 @@ mnt6_GT mnt6_affine_reduced_pairing(const mnt6_G1 &P,
     const mnt6_affine_ate_G1_precomputation prec_P = mnt6_affine_ate_precompute_G1(P);
     const mnt6_affine_ate_G2_precomputation prec_Q = mnt6_affine_ate_precompute_G2(Q);
     const mnt6_Fq6 f = mnt6_affine_ate_miller_loop(prec_P, prec_Q);
-    const mnt6_GT result = mnt6_final_exponentiation(f);
+    mnt6_GT result = mnt6_final_exponentiation(f);
+    if (mnt6_ate_is_loop_count_neg)
+    {
+        /* the affine Miller loop runs over the absolute value of the loop count */
+        result = result.unitary_inverse();
+    }
     return result;
 }
 
-- 
2.43.0


From 51852e71c0cdb4178202c6b77f9baab7b1f5897a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:49 +0000
Subject: [PATCH 07/13] fix: find_wnaf window arithmetic overflowed int for
 windows of 30 and more

---
 libff/algebra/scalar_multiplication/wnaf.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libff/algebra/scalar_multiplication/wnaf.tcc b/libff/algebra/scalar_multiplication/wnaf.tcc
index 075d082..de52af0 100755
--- a/libff/algebra/scalar_multiplication/wnaf.tcc
+++ b/libff/algebra/scalar_multiplication/wnaf.tcc
@@ -30,10 +30,10 @@ std::vector<long> find_wnaf(const size_t window_size, const bigint<n> &scalar)
         mp_limb_t carry = 0; // bit above the top limb, if the addition below overflows
         if ((c.data[0] & 1) == 1)
         {
-            u = c.data[0] % (1u << (window_size+1));
-            if (u > (1 << window_size))
+            u = c.data[0] % (1ul << (window_size+1));
+            if (u > (1l << window_size))
             {
-                u = u - (1 << (window_size+1));
+                u = u - (1l << (window_size+1));
             }
 
             if (u > 0)
-- 
2.43.0


From b35652a5f49a4ab09ee1d56c46e4c40c8e61a673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:54 +0000
Subject: [PATCH 08/13] fix: div_ceil rounds up only positive inexact quotients
 and does not overflow

---
 libff/common/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/common/utils.cpp b/libff/common/utils.cpp
index 90d9f88..52eccbe 100755
--- a/libff/common/utils.cpp
+++ b/libff/common/utils.cpp
@@ -104,7 +104,8 @@ long long div_ceil(long long x, long long y)
     {
         throw std::invalid_argument("libff::div_ceil: division by zero, second argument must be non-zero");
     }
-    return (x + (y-1)) / y;
+    // x / y truncates toward zero: round up when the exact quotient is positive and not an integer
+    return x / y + (x % y != 0 && (x < 0) == (y < 0) ? 1 : 0);
 }
 
 bool is_little_endian()
-- 
2.43.0


From a60bf4f3a358ed443bdec1a3114d612c52c8ce1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:55 +0000
Subject: [PATCH 09/13] fix: get_root_of_unity checks the supported size before
 shifting by it

---
 libff/algebra/field_utils/field_utils.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/field_utils/field_utils.tcc b/libff/algebra/field_utils/field_utils.tcc
index aeaa236..f02833d 100755
--- a/libff/algebra/field_utils/field_utils.tcc
+++ b/libff/algebra/field_utils/field_utils.tcc
@@ -101,8 +101,8 @@ typename std::enable_if<!std::is_same<FieldT, Double>::value, FieldT>::type
 get_root_of_unity(const size_t n)
 {
     const size_t logn = log2(n);
-    if (n != (static_cast<size_t>(1) << logn)) throw std::invalid_argument("libff::get_root_of_unity: expected n == (1u << logn)");
     if (logn > FieldT::s) throw std::invalid_argument("libff::get_root_of_unity: expected logn <= FieldT::s");
+    if (n != (static_cast<size_t>(1) << logn)) throw std::invalid_argument("libff::get_root_of_unity: expected n == (1u << logn)");
 
     FieldT omega = FieldT::root_of_unity;
     for (size_t i = FieldT::s; i > logn; --i)
-- 
2.43.0


From bc0b31b325522a8e06c09a35ec08381f6a7d54cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 10/13] fix: binary field elements honour BINARY_OUTPUT, so
 adjacent elements stay separable

---
 libff/algebra/fields/binary/gf128.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf192.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf256.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf32.cpp  | 8 ++++++++
 libff/algebra/fields/binary/gf64.cpp  | 8 ++++++++
 5 files changed, 40 insertions(+)

diff --git a/libff/algebra/fields/binary/gf128.cpp b/libff/algebra/fields/binary/gf128.cpp
index a0ee6cd..0671f97 100644
--- a/libff/algebra/fields/binary/gf128.cpp
+++ b/libff/algebra/fields/binary/gf128.cpp
@@ -291,13 +291,21 @@ gf128 gf128::one()
 
 std::ostream& operator<<(std::ostream &out, const gf128 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*) &el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf128 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*) &el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf192.cpp b/libff/algebra/fields/binary/gf192.cpp
index f9f3f13..e215c61 100644
--- a/libff/algebra/fields/binary/gf192.cpp
+++ b/libff/algebra/fields/binary/gf192.cpp
@@ -345,13 +345,21 @@ gf192 gf192::one()
 
 std::ostream& operator<<(std::ostream &out, const gf192 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*) &el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1] << " " << el.value_[2];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf192 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*) &el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1] >> el.value_[2];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf256.cpp b/libff/algebra/fields/binary/gf256.cpp
index 90d26c0..3d1437c 100644
--- a/libff/algebra/fields/binary/gf256.cpp
+++ b/libff/algebra/fields/binary/gf256.cpp
@@ -422,13 +422,21 @@ gf256 gf256::one()
 
 std::ostream& operator<<(std::ostream &out, const gf256 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*) &el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1] << " " << el.value_[2] << " " << el.value_[3];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf256 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*) &el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1] >> el.value_[2] >> el.value_[3];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf32.cpp b/libff/algebra/fields/binary/gf32.cpp
index f0c2766..41eedec 100644
--- a/libff/algebra/fields/binary/gf32.cpp
+++ b/libff/algebra/fields/binary/gf32.cpp
@@ -251,13 +251,21 @@ gf32 gf32::random_element()
 
 std::ostream& operator<<(std::ostream &out, const gf32 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*) &el.value_, sizeof(el.value_));
+#else
     out << el.value_;
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf32 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*) &el.value_, sizeof(el.value_));
+#else
     in >> el.value_;
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf64.cpp b/libff/algebra/fields/binary/gf64.cpp
index 1268029..f3237bb 100644
--- a/libff/algebra/fields/binary/gf64.cpp
+++ b/libff/algebra/fields/binary/gf64.cpp
@@ -292,13 +292,21 @@ gf64 gf64::random_element()
 
 std::ostream& operator<<(std::ostream &out, const gf64 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*) &el.value_, sizeof(el.value_));
+#else
     out << el.value_;
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf64 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*) &el.value_, sizeof(el.value_));
+#else
     in >> el.value_;
+#endif
     return in;
 }
 
-- 
2.43.0


From 408953a3486cc06a3b652ea075a5958b287a948f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 11/13] fix: define the stream operators declared for vectors
 of Fp6_2over3_model

---
 .../fields/prime_extension/fp6_2over3.tcc     | 35 +++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/libff/algebra/fields/prime_extension/fp6_2over3.tcc b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
index 11abe2d..8732f58 100755
--- a/libff/algebra/fields/prime_extension/fp6_2over3.tcc
+++ b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
@@ -382,5 +382,40 @@ std::istream& operator>>(std::istream &in, Fp6_2over3_model<n, modulus> &el)
     return in;
 }
 
+template<mp_size_t n, const bigint<n>& modulus>
+std::ostream& operator<<(std::ostream& out, const std::vector<Fp6_2over3_model<n, modulus> > &v)
+{
+    out << v.size() << "\n";
+    for (const Fp6_2over3_model<n, modulus>& t : v)
+    {
+        out << t << OUTPUT_NEWLINE;
+    }
+
+    return out;
+}
+
+template<mp_size_t n, const bigint<n>& modulus>
+std::istream& operator>>(std::istream& in, std::vector<Fp6_2over3_model<n, modulus> > &v)
+{
+    v.clear();
+
+    size_t s;
+    in >> s;
+
+    char b;
+    in.read(&b, 1);
+
+    v.reserve(s);
+
+    for (size_t i = 0; i < s; ++i)
+    {
+        Fp6_2over3_model<n, modulus> el;
+        in >> el;
+        v.emplace_back(el);
+    }
+
+    return in;
+}
+
 } // namespace libff
 #endif // FP6_2OVER3_TCC_
-- 
2.43.0


From 6c106884a5e823f64c7156f1ab47884b898a2e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:16 +0000
Subject: [PATCH 12/13] fix: compressed G2 points keep the sign of y when its
 first coefficient is zero

---
 libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp | 13 +++++++++++--
 libff/algebra/curves/bls12_381/bls12_381_g2.cpp | 13 +++++++++++--
 libff/algebra/curves/edwards/edwards_g2.cpp     | 13 +++++++++++--
 libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp       | 13 +++++++++++--
 libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp       | 13 +++++++++++--
 5 files changed, 55 insertions(+), 10 deletions(-)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
index 11e5146..1ad5eae 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
@@ -380,6 +380,15 @@ alt_bn128_G2 alt_bn128_G2::random_element()
     return (alt_bn128_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* LSB of the first nonzero coefficient of Y, which differs between Y and -Y */
+static unsigned char sign_bit(const alt_bn128_Fq2 &Y)
+{
+    const alt_bn128_Fq &c = Y.c0.is_zero() ? Y.c1 : Y.c0;
+    return c.as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const alt_bn128_G2 &g)
 {
     alt_bn128_G2 copy(g);
@@ -389,7 +398,7 @@ std::ostream& operator<<(std::ostream &out, const alt_bn128_G2 &g)
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
     /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    out << copy.X << OUTPUT_SEPARATOR << (int) sign_bit(copy.Y);
 #endif
 
     return out;
@@ -421,7 +430,7 @@ std::istream& operator>>(std::istream &in, alt_bn128_G2 &g)
         alt_bn128_Fq2 tY2 = tX2 * tX + alt_bn128_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (sign_bit(tY) != Y_lsb)
         {
             tY = -tY;
         }
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
index 4683235..5c12588 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
@@ -366,6 +366,15 @@ bls12_381_G2 bls12_381_G2::random_element()
     return (bls12_381_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* LSB of the first nonzero coefficient of Y, which differs between Y and -Y */
+static unsigned char sign_bit(const bls12_381_Fq2 &Y)
+{
+    const bls12_381_Fq &c = Y.c0.is_zero() ? Y.c1 : Y.c0;
+    return c.as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const bls12_381_G2 &g)
 {
     bls12_381_G2 copy(g);
@@ -375,7 +384,7 @@ std::ostream& operator<<(std::ostream &out, const bls12_381_G2 &g)
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
     /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    out << copy.X << OUTPUT_SEPARATOR << (int) sign_bit(copy.Y);
 #endif
 
     return out;
@@ -407,7 +416,7 @@ std::istream& operator>>(std::istream &in, bls12_381_G2 &g)
         bls12_381_Fq2 tY2 = tX2 * tX + bls12_381_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (sign_bit(tY) != Y_lsb)
         {
             tY = -tY;
         }
diff --git a/libff/algebra/curves/edwards/edwards_g2.cpp b/libff/algebra/curves/edwards/edwards_g2.cpp
index 0224662..a6301f0 100755
--- a/libff/algebra/curves/edwards/edwards_g2.cpp
+++ b/libff/algebra/curves/edwards/edwards_g2.cpp
@@ -330,6 +330,15 @@ edwards_G2 edwards_G2::random_element()
     return edwards_Fr::random_element().as_bigint() * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* LSB of the first nonzero coefficient of Y, which differs between Y and -Y */
+static unsigned char sign_bit(const edwards_Fq3 &Y)
+{
+    const edwards_Fq &c = !Y.c0.is_zero() ? Y.c0 : (!Y.c1.is_zero() ? Y.c1 : Y.c2);
+    return c.as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const edwards_G2 &g)
 {
     edwards_G2 copy(g);
@@ -338,7 +347,7 @@ std::ostream& operator<<(std::ostream &out, const edwards_G2 &g)
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
     /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    out << copy.X << OUTPUT_SEPARATOR << (int) sign_bit(copy.Y);
 #endif
     return out;
 }
@@ -369,7 +378,7 @@ std::istream& operator>>(std::istream &in, edwards_G2 &g)
         (edwards_Fq3::one() - edwards_G2::mul_by_d(tX2)).inverse();
     tY = tY2.sqrt();
 
-    if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+    if (sign_bit(tY) != Y_lsb)
     {
         tY = -tY;
     }
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
index f99c2c3..8caf15e 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
@@ -416,6 +416,15 @@ mnt4_G2 mnt4_G2::random_element()
     return (mnt4_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* LSB of the first nonzero coefficient of Y, which differs between Y and -Y */
+static unsigned char sign_bit(const mnt4_Fq2 &Y)
+{
+    const mnt4_Fq &c = Y.c0.is_zero() ? Y.c1 : Y.c0;
+    return c.as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const mnt4_G2 &g)
 {
     mnt4_G2 copy(g);
@@ -426,7 +435,7 @@ std::ostream& operator<<(std::ostream &out, const mnt4_G2 &g)
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
     /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    out << copy.X << OUTPUT_SEPARATOR << (int) sign_bit(copy.Y);
 #endif
 
     return out;
@@ -458,7 +467,7 @@ std::istream& operator>>(std::istream &in, mnt4_G2 &g)
         mnt4_Fq2 tY2 = (tX2 + mnt4_twist_coeff_a ) * tX + mnt4_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (sign_bit(tY) != Y_lsb)
         {
             tY = -tY;
         }
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
index d56e8f4..b9faac4 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
@@ -422,6 +422,15 @@ mnt6_G2 mnt6_G2::random_element()
     return (mnt6_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* LSB of the first nonzero coefficient of Y, which differs between Y and -Y */
+static unsigned char sign_bit(const mnt6_Fq3 &Y)
+{
+    const mnt6_Fq &c = !Y.c0.is_zero() ? Y.c0 : (!Y.c1.is_zero() ? Y.c1 : Y.c2);
+    return c.as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const mnt6_G2 &g)
 {
     mnt6_G2 copy(g);
@@ -432,7 +441,7 @@ std::ostream& operator<<(std::ostream &out, const mnt6_G2 &g)
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
     /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    out << copy.X << OUTPUT_SEPARATOR << (int) sign_bit(copy.Y);
 #endif
 
     return out;
@@ -464,7 +473,7 @@ std::istream& operator>>(std::istream &in, mnt6_G2 &g)
         const mnt6_Fq3 tY2 = (tX2 + mnt6_twist_coeff_a) * tX + mnt6_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (sign_bit(tY) != Y_lsb)
         {
             tY = -tY;
         }
-- 
2.43.0


From ddb570a5923a12bf1d84aa75bd6cb253749a1625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:47:16 +0000
Subject: [PATCH 13/13] fix: vectors of extension-field elements consume the
 newline after each element when read (text encoding)

---
 libff/algebra/fields/prime_extension/fp12_2over3over2.tcc | 1 +
 libff/algebra/fields/prime_extension/fp2.tcc              | 1 +
 libff/algebra/fields/prime_extension/fp3.tcc              | 1 +
 libff/algebra/fields/prime_extension/fp6_2over3.tcc       | 1 +
 libff/algebra/fields/prime_extension/fp6_3over2.tcc       | 1 +
 5 files changed, 5 insertions(+)

diff --git a/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc b/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
index 9f8ab88..90025a7 100755
--- a/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
+++ b/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
@@ -562,6 +562,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp12_2over3over2_model<n,
     {
         Fp12_2over3over2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp2.tcc b/libff/algebra/fields/prime_extension/fp2.tcc
index b9e0eca..92e316f 100755
--- a/libff/algebra/fields/prime_extension/fp2.tcc
+++ b/libff/algebra/fields/prime_extension/fp2.tcc
@@ -305,6 +305,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp2_model<n, modulus> > &
     {
         Fp2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp3.tcc b/libff/algebra/fields/prime_extension/fp3.tcc
index 494e04d..78dd4e5 100755
--- a/libff/algebra/fields/prime_extension/fp3.tcc
+++ b/libff/algebra/fields/prime_extension/fp3.tcc
@@ -307,6 +307,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp3_model<n, modulus> > &
     {
         Fp3_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp6_2over3.tcc b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
index 8732f58..df2b4fa 100755
--- a/libff/algebra/fields/prime_extension/fp6_2over3.tcc
+++ b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
@@ -411,6 +411,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp6_2over3_model<n, modul
     {
         Fp6_2over3_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp6_3over2.tcc b/libff/algebra/fields/prime_extension/fp6_3over2.tcc
index 7c6590a..2ed0bc2 100755
--- a/libff/algebra/fields/prime_extension/fp6_3over2.tcc
+++ b/libff/algebra/fields/prime_extension/fp6_3over2.tcc
@@ -322,6 +322,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp6_3over2_model<n, modul
     {
         Fp6_3over2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
-- 
2.43.0

