From bd7f832a0fedd057066767893f0190790b6ac214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 01/28] fix: binary-mode serialization of binary field elements

The gf32..gf256 stream operators always wrote space-separated decimal text.
In BINARY_OUTPUT mode the separators are empty, so consecutive elements (for
example a vector of them) ran together and could not be read back. Write and
read the raw words in BINARY_OUTPUT mode, as the other fields do.
---
 libff/algebra/fields/binary/gf128.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf192.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf256.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf32.cpp  | 8 ++++++++
 libff/algebra/fields/binary/gf64.cpp  | 8 ++++++++
 5 files changed, 40 insertions(+)

diff --git a/libff/algebra/fields/binary/gf128.cpp b/libff/algebra/fields/binary/gf128.cpp
index a0ee6cd..1a84273 100644
--- a/libff/algebra/fields/binary/gf128.cpp
+++ b/libff/algebra/fields/binary/gf128.cpp
@@ -291,13 +291,21 @@ gf128 gf128::one()
 
 std::ostream& operator<<(std::ostream &out, const gf128 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf128 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf192.cpp b/libff/algebra/fields/binary/gf192.cpp
index ddcdf51..1847b47 100644
--- a/libff/algebra/fields/binary/gf192.cpp
+++ b/libff/algebra/fields/binary/gf192.cpp
@@ -345,13 +345,21 @@ gf192 gf192::one()
 
 std::ostream& operator<<(std::ostream &out, const gf192 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1] << " " << el.value_[2];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf192 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1] >> el.value_[2];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf256.cpp b/libff/algebra/fields/binary/gf256.cpp
index 90d26c0..bda9946 100644
--- a/libff/algebra/fields/binary/gf256.cpp
+++ b/libff/algebra/fields/binary/gf256.cpp
@@ -422,13 +422,21 @@ gf256 gf256::one()
 
 std::ostream& operator<<(std::ostream &out, const gf256 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)el.value_, sizeof(el.value_));
+#else
     out << el.value_[0] << " " << el.value_[1] << " " << el.value_[2] << " " << el.value_[3];
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf256 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)el.value_, sizeof(el.value_));
+#else
     in >> el.value_[0] >> el.value_[1] >> el.value_[2] >> el.value_[3];
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf32.cpp b/libff/algebra/fields/binary/gf32.cpp
index f0c2766..6404701 100644
--- a/libff/algebra/fields/binary/gf32.cpp
+++ b/libff/algebra/fields/binary/gf32.cpp
@@ -251,13 +251,21 @@ gf32 gf32::random_element()
 
 std::ostream& operator<<(std::ostream &out, const gf32 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)&el.value_, sizeof(el.value_));
+#else
     out << el.value_;
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf32 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)&el.value_, sizeof(el.value_));
+#else
     in >> el.value_;
+#endif
     return in;
 }
 
diff --git a/libff/algebra/fields/binary/gf64.cpp b/libff/algebra/fields/binary/gf64.cpp
index 1268029..a9efc60 100644
--- a/libff/algebra/fields/binary/gf64.cpp
+++ b/libff/algebra/fields/binary/gf64.cpp
@@ -292,13 +292,21 @@ gf64 gf64::random_element()
 
 std::ostream& operator<<(std::ostream &out, const gf64 &el)
 {
+#ifdef BINARY_OUTPUT
+    out.write((const char*)&el.value_, sizeof(el.value_));
+#else
     out << el.value_;
+#endif
     return out;
 }
 
 std::istream& operator>>(std::istream &in, gf64 &el)
 {
+#ifdef BINARY_OUTPUT
+    in.read((char*)&el.value_, sizeof(el.value_));
+#else
     in >> el.value_;
+#endif
     return in;
 }
 
-- 
2.43.0


From 2f7c68f2b7dfa9142926d5a4479730d7691a1ead Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 02/28] fix: declare stream extraction of std::vector with an
 input stream

operator>>(std::ostream&, std::vector<T>&) was declared by mistake; it made
extraction of a vector from a std::stringstream (and hence reserialize of a
vector) ambiguous.
---
 libff/common/serialization.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/common/serialization.hpp b/libff/common/serialization.hpp
index dbe4a51..8db2e79 100755
--- a/libff/common/serialization.hpp
+++ b/libff/common/serialization.hpp
@@ -82,7 +82,7 @@ template<typename T>
 std::ostream& operator<<(std::ostream& out, const std::vector<T> &v);
 
 template<typename T>
-std::istream& operator>>(std::ostream& out, std::vector<T> &v);
+std::istream& operator>>(std::istream& in, std::vector<T> &v);
 
 template<typename T1, typename T2>
 std::ostream& operator<<(std::ostream& out, const std::map<T1, T2> &m);
-- 
2.43.0


From 637d83c85e1f38a8f79e2683db05e75646b269de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 03/28] fix: get_root_of_unity for orders of 2^32 and above

1u << logn wraps for logn >= 32, so valid orders up to 2^s (s is 32 for the
BLS12-381 and 34 for the MNT4/MNT6 scalar fields) were rejected.
---
 libff/algebra/field_utils/field_utils.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/field_utils/field_utils.tcc b/libff/algebra/field_utils/field_utils.tcc
index 6bfefed..47aab6e 100755
--- a/libff/algebra/field_utils/field_utils.tcc
+++ b/libff/algebra/field_utils/field_utils.tcc
@@ -101,8 +101,8 @@ typename std::enable_if<!std::is_same<FieldT, Double>::value, FieldT>::type
 get_root_of_unity(const size_t n)
 {
     const size_t logn = log2(n);
-    if (n != (1u << logn)) throw std::invalid_argument("libff::get_root_of_unity: expected n == (1u << logn)");
     if (logn > FieldT::s) throw std::invalid_argument("libff::get_root_of_unity: expected logn <= FieldT::s");
+    if (n != (1ul << logn)) throw std::invalid_argument("libff::get_root_of_unity: expected n == (1ul << logn)");
 
     FieldT omega = FieldT::root_of_unity;
     for (size_t i = FieldT::s; i > logn; --i)
-- 
2.43.0


From 69bfee32251bd7ee8132c82a12d38a203e3e006a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:17 +0000
Subject: [PATCH 04/28] fix: keep the carry when computing the wNAF of a scalar
 near 2^(64n)

A negative digit adds to the remaining scalar, which can overflow its n
limbs; the carry was dropped and the resulting wNAF had the wrong value.
---
 libff/algebra/scalar_multiplication/wnaf.tcc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/libff/algebra/scalar_multiplication/wnaf.tcc b/libff/algebra/scalar_multiplication/wnaf.tcc
index 760df2c..c1fc135 100755
--- a/libff/algebra/scalar_multiplication/wnaf.tcc
+++ b/libff/algebra/scalar_multiplication/wnaf.tcc
@@ -27,6 +27,7 @@ std::vector<long> find_wnaf(const size_t window_size, const bigint<n> &scalar)
     while (!c.is_zero())
     {
         long u;
+        mp_limb_t carry = 0;
         if ((c.data[0] & 1) == 1)
         {
             u = c.data[0] % (1u << (window_size+1));
@@ -41,7 +42,7 @@ std::vector<long> find_wnaf(const size_t window_size, const bigint<n> &scalar)
             }
             else
             {
-                mpn_add_1(c.data, c.data, n, -u);
+                carry = mpn_add_1(c.data, c.data, n, -u);
             }
         }
         else
@@ -52,6 +53,10 @@ std::vector<long> find_wnaf(const size_t window_size, const bigint<n> &scalar)
         ++j;
 
         mpn_rshift(c.data, c.data, n, 1); // c = c/2
+        if (carry)
+        {
+            c.data[n-1] |= ((mp_limb_t)1) << (GMP_NUMB_BITS-1);
+        }
     }
 
     return res;
-- 
2.43.0


From b65249068ea0639480d8c610c11a67eccb034802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:27 +0000
Subject: [PATCH 05/28] fix: define the binary fields' operation counters once

With PROFILE_OP_COUNTS the counters of gf32..gf256 were defined in their
headers, so any two translation units including them failed to link.
---
 libff/algebra/fields/binary/gf128.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf128.hpp | 8 --------
 libff/algebra/fields/binary/gf192.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf192.hpp | 8 --------
 libff/algebra/fields/binary/gf256.cpp | 8 ++++++++
 libff/algebra/fields/binary/gf256.hpp | 8 --------
 libff/algebra/fields/binary/gf32.cpp  | 8 ++++++++
 libff/algebra/fields/binary/gf32.hpp  | 8 --------
 libff/algebra/fields/binary/gf64.cpp  | 8 ++++++++
 libff/algebra/fields/binary/gf64.hpp  | 8 --------
 10 files changed, 40 insertions(+), 40 deletions(-)

diff --git a/libff/algebra/fields/binary/gf128.cpp b/libff/algebra/fields/binary/gf128.cpp
index 1a84273..8f330f1 100644
--- a/libff/algebra/fields/binary/gf128.cpp
+++ b/libff/algebra/fields/binary/gf128.cpp
@@ -18,6 +18,14 @@ namespace libff {
 
 using std::size_t;
 
+#ifdef PROFILE_OP_COUNTS
+long long gf128::add_cnt = 0;
+long long gf128::sub_cnt = 0;
+long long gf128::mul_cnt = 0;
+long long gf128::sqr_cnt = 0;
+long long gf128::inv_cnt = 0;
+#endif
+
 const uint64_t gf128::modulus_;
 gf128 gf128::multiplicative_generator = gf128(2);
 
diff --git a/libff/algebra/fields/binary/gf128.hpp b/libff/algebra/fields/binary/gf128.hpp
index 7b50aa6..aed94ab 100644
--- a/libff/algebra/fields/binary/gf128.hpp
+++ b/libff/algebra/fields/binary/gf128.hpp
@@ -99,14 +99,6 @@ private:
     uint64_t value_[2];
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf128::add_cnt = 0;
-long long gf128::sub_cnt = 0;
-long long gf128::mul_cnt = 0;
-long long gf128::sqr_cnt = 0;
-long long gf128::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf128.tcc>
 
diff --git a/libff/algebra/fields/binary/gf192.cpp b/libff/algebra/fields/binary/gf192.cpp
index 1847b47..bfc62ff 100644
--- a/libff/algebra/fields/binary/gf192.cpp
+++ b/libff/algebra/fields/binary/gf192.cpp
@@ -18,6 +18,14 @@ namespace libff {
 
 using std::size_t;
 
+#ifdef PROFILE_OP_COUNTS
+long long gf192::add_cnt = 0;
+long long gf192::sub_cnt = 0;
+long long gf192::mul_cnt = 0;
+long long gf192::sqr_cnt = 0;
+long long gf192::inv_cnt = 0;
+#endif
+
 const uint64_t gf192::modulus_;
 gf192 gf192::multiplicative_generator = gf192(2);
 
diff --git a/libff/algebra/fields/binary/gf192.hpp b/libff/algebra/fields/binary/gf192.hpp
index d6d4069..23465cb 100644
--- a/libff/algebra/fields/binary/gf192.hpp
+++ b/libff/algebra/fields/binary/gf192.hpp
@@ -99,14 +99,6 @@ private:
     uint64_t value_[3];
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf192::add_cnt = 0;
-long long gf192::sub_cnt = 0;
-long long gf192::mul_cnt = 0;
-long long gf192::sqr_cnt = 0;
-long long gf192::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf192.tcc>
 
diff --git a/libff/algebra/fields/binary/gf256.cpp b/libff/algebra/fields/binary/gf256.cpp
index bda9946..b68a473 100644
--- a/libff/algebra/fields/binary/gf256.cpp
+++ b/libff/algebra/fields/binary/gf256.cpp
@@ -18,6 +18,14 @@ namespace libff {
 
 using std::size_t;
 
+#ifdef PROFILE_OP_COUNTS
+long long gf256::add_cnt = 0;
+long long gf256::sub_cnt = 0;
+long long gf256::mul_cnt = 0;
+long long gf256::sqr_cnt = 0;
+long long gf256::inv_cnt = 0;
+#endif
+
 const uint64_t gf256::modulus_;
 gf256 gf256::multiplicative_generator = gf256(2);
 
diff --git a/libff/algebra/fields/binary/gf256.hpp b/libff/algebra/fields/binary/gf256.hpp
index 48fcc8a..cbcdd78 100644
--- a/libff/algebra/fields/binary/gf256.hpp
+++ b/libff/algebra/fields/binary/gf256.hpp
@@ -101,14 +101,6 @@ private:
     uint64_t value_[4];
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf256::add_cnt = 0;
-long long gf256::sub_cnt = 0;
-long long gf256::mul_cnt = 0;
-long long gf256::sqr_cnt = 0;
-long long gf256::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf256.tcc>
 
diff --git a/libff/algebra/fields/binary/gf32.cpp b/libff/algebra/fields/binary/gf32.cpp
index 6404701..77b97d9 100644
--- a/libff/algebra/fields/binary/gf32.cpp
+++ b/libff/algebra/fields/binary/gf32.cpp
@@ -18,6 +18,14 @@ namespace libff {
 
 using std::size_t;
 
+#ifdef PROFILE_OP_COUNTS
+long long gf32::add_cnt = 0;
+long long gf32::sub_cnt = 0;
+long long gf32::mul_cnt = 0;
+long long gf32::sqr_cnt = 0;
+long long gf32::inv_cnt = 0;
+#endif
+
 const uint64_t gf32::modulus_;
 gf32 gf32::multiplicative_generator = gf32(2);
 
diff --git a/libff/algebra/fields/binary/gf32.hpp b/libff/algebra/fields/binary/gf32.hpp
index 3ad888a..cd10e26 100644
--- a/libff/algebra/fields/binary/gf32.hpp
+++ b/libff/algebra/fields/binary/gf32.hpp
@@ -95,14 +95,6 @@ private:
     uint32_t value_;
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf32::add_cnt = 0;
-long long gf32::sub_cnt = 0;
-long long gf32::mul_cnt = 0;
-long long gf32::sqr_cnt = 0;
-long long gf32::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf32.tcc>
 
diff --git a/libff/algebra/fields/binary/gf64.cpp b/libff/algebra/fields/binary/gf64.cpp
index a9efc60..091605c 100644
--- a/libff/algebra/fields/binary/gf64.cpp
+++ b/libff/algebra/fields/binary/gf64.cpp
@@ -18,6 +18,14 @@ namespace libff {
 
 using std::size_t;
 
+#ifdef PROFILE_OP_COUNTS
+long long gf64::add_cnt = 0;
+long long gf64::sub_cnt = 0;
+long long gf64::mul_cnt = 0;
+long long gf64::sqr_cnt = 0;
+long long gf64::inv_cnt = 0;
+#endif
+
 const uint64_t gf64::modulus_;
 gf64 gf64::multiplicative_generator = gf64(2);
 
diff --git a/libff/algebra/fields/binary/gf64.hpp b/libff/algebra/fields/binary/gf64.hpp
index 497b7a5..85f112a 100644
--- a/libff/algebra/fields/binary/gf64.hpp
+++ b/libff/algebra/fields/binary/gf64.hpp
@@ -96,14 +96,6 @@ private:
     uint64_t value_;
 };
 
-#ifdef PROFILE_OP_COUNTS
-long long gf64::add_cnt = 0;
-long long gf64::sub_cnt = 0;
-long long gf64::mul_cnt = 0;
-long long gf64::sqr_cnt = 0;
-long long gf64::inv_cnt = 0;
-#endif
-
 } // namespace libff
 #include <libff/algebra/fields/binary/gf64.tcc>
 
-- 
2.43.0


From ded8ed6fe4e7e384b3ed06032673ddeafced91be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:27 +0000
Subject: [PATCH 06/28] fix: make the pairing steps' invariant check compile

test_invariant was static but reads members in its assertion, so builds
without NDEBUG failed to compile.
---
 libff/algebra/curves/edwards/edwards_pairing.cpp | 4 ++--
 libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp   | 2 +-
 libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp   | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/libff/algebra/curves/edwards/edwards_pairing.cpp b/libff/algebra/curves/edwards/edwards_pairing.cpp
index 537c33d..d3cb37e 100755
--- a/libff/algebra/curves/edwards/edwards_pairing.cpp
+++ b/libff/algebra/curves/edwards/edwards_pairing.cpp
@@ -246,7 +246,7 @@ struct extended_edwards_G1_projective {
         T.print();
     }
 
-    static void test_invariant()
+    void test_invariant() const
     {
         assert(T*Z == X*Y);
     }
@@ -464,7 +464,7 @@ struct extended_edwards_G2_projective {
             T.print();
         }
 
-    static void test_invariant()
+    void test_invariant() const
         {
             assert(T*Z == X*Y);
         }
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
index 53c936e..7eeb7f2 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
@@ -403,7 +403,7 @@ struct extended_mnt4_G2_projective {
         T.print();
     }
 
-    static void test_invariant()
+    void test_invariant() const
     {
         assert(T == Z.squared());
     }
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
index 5af861b..35e8623 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
@@ -409,7 +409,7 @@ struct extended_mnt6_G2_projective {
         T.print();
     }
 
-    static void test_invariant()
+    void test_invariant() const
     {
         assert(T == Z.squared());
     }
-- 
2.43.0


From 439de2e8ee9d84573168bd2b748d0897d28b4f02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:10 +0000
Subject: [PATCH 07/28] fix: pairings of the identity element

The G2 precomputations ran the Miller loop steps on placeholder affine
coordinates when given the identity, and the MNT Miller loops evaluated lines
at the placeholder coordinates of the G1 identity, so e(0,Q) and e(P,0) were
not one. Skip the line functions for the identity; its Miller loop is one.
---
 .../curves/alt_bn128/alt_bn128_pairing.cpp    | 17 ++++++++
 .../curves/bls12_381/bls12_381_pairing.cpp    | 17 ++++++++
 .../curves/edwards/edwards_pairing.cpp        | 17 ++++++++
 .../algebra/curves/mnt/mnt4/mnt4_pairing.cpp  | 40 +++++++++++++++++++
 .../algebra/curves/mnt/mnt6/mnt6_pairing.cpp  | 40 +++++++++++++++++++
 5 files changed, 131 insertions(+)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
index eb368fd..216b635 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_pairing.cpp
@@ -314,6 +314,13 @@ alt_bn128_ate_G2_precomp alt_bn128_ate_precompute_G2(const alt_bn128_G2& Q)
     result.QX = Qcopy.X;
     result.QY = Qcopy.Y;
 
+    if (Q.is_zero())
+    {
+        /* there are no line functions for the identity */
+        leave_block("Call to alt_bn128_ate_precompute_G2");
+        return result;
+    }
+
     alt_bn128_G2 R;
     R.X = Qcopy.X;
     R.Y = Qcopy.Y;
@@ -367,6 +374,11 @@ alt_bn128_ate_G2_precomp alt_bn128_ate_precompute_G2(const alt_bn128_G2& Q)
 alt_bn128_Fq12 alt_bn128_ate_miller_loop(const alt_bn128_ate_G1_precomp &prec_P,
                                      const alt_bn128_ate_G2_precomp &prec_Q)
 {
+    if (prec_Q.coeffs.empty())
+    {
+        return alt_bn128_Fq12::one();
+    }
+
     enter_block("Call to alt_bn128_ate_miller_loop");
 
     alt_bn128_Fq12 f = alt_bn128_Fq12::one();
@@ -423,6 +435,11 @@ alt_bn128_Fq12 alt_bn128_ate_double_miller_loop(const alt_bn128_ate_G1_precomp &
                                      const alt_bn128_ate_G1_precomp &prec_P2,
                                      const alt_bn128_ate_G2_precomp &prec_Q2)
 {
+    if (prec_Q1.coeffs.empty() || prec_Q2.coeffs.empty())
+    {
+        return alt_bn128_ate_miller_loop(prec_P1, prec_Q1) * alt_bn128_ate_miller_loop(prec_P2, prec_Q2);
+    }
+
     enter_block("Call to alt_bn128_ate_double_miller_loop");
 
     alt_bn128_Fq12 f = alt_bn128_Fq12::one();
diff --git a/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp b/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
index 20b7cde..343896b 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_pairing.cpp
@@ -277,6 +277,13 @@ bls12_381_ate_G2_precomp bls12_381_ate_precompute_G2(const bls12_381_G2& Q)
     result.QX = Qcopy.X;
     result.QY = Qcopy.Y;
 
+    if (Q.is_zero())
+    {
+        /* there are no line functions for the identity */
+        leave_block("Call to bls12_381_ate_precompute_G2");
+        return result;
+    }
+
     bls12_381_G2 R;
     R.X = Qcopy.X;
     R.Y = Qcopy.Y;
@@ -313,6 +320,11 @@ bls12_381_ate_G2_precomp bls12_381_ate_precompute_G2(const bls12_381_G2& Q)
 bls12_381_Fq12 bls12_381_ate_miller_loop(const bls12_381_ate_G1_precomp &prec_P,
                                      const bls12_381_ate_G2_precomp &prec_Q)
 {
+    if (prec_Q.coeffs.empty())
+    {
+        return bls12_381_Fq12::one();
+    }
+
     enter_block("Call to bls12_381_ate_miller_loop");
 
     bls12_381_Fq12 f = bls12_381_Fq12::one();
@@ -363,6 +375,11 @@ bls12_381_Fq12 bls12_381_ate_double_miller_loop(const bls12_381_ate_G1_precomp &
                                      const bls12_381_ate_G1_precomp &prec_P2,
                                      const bls12_381_ate_G2_precomp &prec_Q2)
 {
+    if (prec_Q1.coeffs.empty() || prec_Q2.coeffs.empty())
+    {
+        return bls12_381_ate_miller_loop(prec_P1, prec_Q1) * bls12_381_ate_miller_loop(prec_P2, prec_Q2);
+    }
+
     enter_block("Call to bls12_381_ate_double_miller_loop");
 
     bls12_381_Fq12 f = bls12_381_Fq12::one();
diff --git a/libff/algebra/curves/edwards/edwards_pairing.cpp b/libff/algebra/curves/edwards/edwards_pairing.cpp
index d3cb37e..0250417 100755
--- a/libff/algebra/curves/edwards/edwards_pairing.cpp
+++ b/libff/algebra/curves/edwards/edwards_pairing.cpp
@@ -594,6 +594,13 @@ edwards_ate_G2_precomp edwards_ate_precompute_G2(const edwards_G2& Q)
     edwards_G2 Qcopy(Q);
     Qcopy.to_affine_coordinates();
 
+    if (Q.is_zero())
+    {
+        /* there are no line functions for the identity */
+        leave_block("Call to edwards_ate_precompute_G2");
+        return result;
+    }
+
     extended_edwards_G2_projective Q_ext;
     Q_ext.X = Qcopy.X;
     Q_ext.Y = Qcopy.Y;
@@ -630,6 +637,11 @@ edwards_ate_G2_precomp edwards_ate_precompute_G2(const edwards_G2& Q)
 edwards_Fq6 edwards_ate_miller_loop(const edwards_ate_G1_precomp &prec_P,
                                     const edwards_ate_G2_precomp &prec_Q)
 {
+    if (prec_Q.empty())
+    {
+        return edwards_Fq6::one();
+    }
+
     enter_block("Call to edwards_ate_miller_loop");
     const bigint<edwards_Fr::num_limbs> &loop_count = edwards_ate_loop_count;
 
@@ -673,6 +685,11 @@ edwards_Fq6 edwards_ate_double_miller_loop(const edwards_ate_G1_precomp &prec_P1
                                            const edwards_ate_G1_precomp &prec_P2,
                                            const edwards_ate_G2_precomp &prec_Q2)
 {
+    if (prec_Q1.empty() || prec_Q2.empty())
+    {
+        return edwards_ate_miller_loop(prec_P1, prec_Q1) * edwards_ate_miller_loop(prec_P2, prec_Q2);
+    }
+
     enter_block("Call to edwards_ate_double_miller_loop");
     const bigint<edwards_Fr::num_limbs> &loop_count = edwards_ate_loop_count;
 
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
index 7eeb7f2..d1c75e6 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_pairing.cpp
@@ -232,6 +232,11 @@ mnt4_affine_ate_G1_precomputation mnt4_affine_ate_precompute_G1(const mnt4_G1& P
 
     mnt4_G1 Pcopy = P;
     Pcopy.to_affine_coordinates();
+    if (P.is_zero())
+    {
+        /* (0, 0) is not on the curve: it stands for the identity */
+        Pcopy.Y = mnt4_Fq::zero();
+    }
 
     mnt4_affine_ate_G1_precomputation result;
     result.PX = Pcopy.X;
@@ -253,6 +258,13 @@ mnt4_affine_ate_G2_precomputation mnt4_affine_ate_precompute_G2(const mnt4_G2& Q
     result.QX = Qcopy.X;
     result.QY = Qcopy.Y;
 
+    if (Q.is_zero())
+    {
+        /* there are no line functions for the identity */
+        leave_block("Call to mnt4_affine_ate_precompute_G2");
+        return result;
+    }
+
     mnt4_Fq2 RX = Qcopy.X;
     mnt4_Fq2 RY = Qcopy.Y;
 
@@ -325,6 +337,11 @@ mnt4_affine_ate_G2_precomputation mnt4_affine_ate_precompute_G2(const mnt4_G2& Q
 mnt4_Fq4 mnt4_affine_ate_miller_loop(const mnt4_affine_ate_G1_precomputation &prec_P,
                                      const mnt4_affine_ate_G2_precomputation &prec_Q)
 {
+    if ((prec_P.PX.is_zero() && prec_P.PY.is_zero()) || prec_Q.coeffs.empty())
+    {
+        return mnt4_Fq4::one();
+    }
+
     enter_block("Call to mnt4_affine_ate_miller_loop");
 
     mnt4_Fq4 f = mnt4_Fq4::one();
@@ -471,6 +488,11 @@ mnt4_ate_G1_precomp mnt4_ate_precompute_G1(const mnt4_G1& P)
 
     mnt4_G1 Pcopy = P;
     Pcopy.to_affine_coordinates();
+    if (P.is_zero())
+    {
+        /* (0, 0) is not on the curve: it stands for the identity */
+        Pcopy.Y = mnt4_Fq::zero();
+    }
 
     mnt4_ate_G1_precomp result;
     result.PX = Pcopy.X;
@@ -496,6 +518,13 @@ mnt4_ate_G2_precomp mnt4_ate_precompute_G2(const mnt4_G2& Q)
     result.QX_over_twist = Qcopy.X * mnt4_twist.inverse();
     result.QY_over_twist = Qcopy.Y * mnt4_twist.inverse();
 
+    if (Q.is_zero())
+    {
+        /* there are no line functions for the identity */
+        leave_block("Call to mnt4_ate_precompute_G2");
+        return result;
+    }
+
     extended_mnt4_G2_projective R;
     R.X = Qcopy.X;
     R.Y = Qcopy.Y;
@@ -546,6 +575,11 @@ mnt4_ate_G2_precomp mnt4_ate_precompute_G2(const mnt4_G2& Q)
 mnt4_Fq4 mnt4_ate_miller_loop(const mnt4_ate_G1_precomp &prec_P,
                               const mnt4_ate_G2_precomp &prec_Q)
 {
+    if ((prec_P.PX.is_zero() && prec_P.PY.is_zero()) || prec_Q.dbl_coeffs.empty())
+    {
+        return mnt4_Fq4::one();
+    }
+
     enter_block("Call to mnt4_ate_miller_loop");
 
     mnt4_Fq2 L1_coeff = mnt4_Fq2(prec_P.PX, mnt4_Fq::zero()) - prec_Q.QX_over_twist;
@@ -604,6 +638,12 @@ mnt4_Fq4 mnt4_ate_double_miller_loop(const mnt4_ate_G1_precomp &prec_P1,
                                      const mnt4_ate_G1_precomp &prec_P2,
                                      const mnt4_ate_G2_precomp &prec_Q2)
 {
+    if ((prec_P1.PX.is_zero() && prec_P1.PY.is_zero()) || prec_Q1.dbl_coeffs.empty() ||
+        (prec_P2.PX.is_zero() && prec_P2.PY.is_zero()) || prec_Q2.dbl_coeffs.empty())
+    {
+        return mnt4_ate_miller_loop(prec_P1, prec_Q1) * mnt4_ate_miller_loop(prec_P2, prec_Q2);
+    }
+
     enter_block("Call to mnt4_ate_double_miller_loop");
 
     mnt4_Fq2 L1_coeff1 = mnt4_Fq2(prec_P1.PX, mnt4_Fq::zero()) - prec_Q1.QX_over_twist;
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
index 35e8623..b67bb3a 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
@@ -237,6 +237,11 @@ mnt6_affine_ate_G1_precomputation mnt6_affine_ate_precompute_G1(const mnt6_G1& P
 
     mnt6_G1 Pcopy = P;
     Pcopy.to_affine_coordinates();
+    if (P.is_zero())
+    {
+        /* (0, 0) is not on the curve: it stands for the identity */
+        Pcopy.Y = mnt6_Fq::zero();
+    }
 
     mnt6_affine_ate_G1_precomputation result;
     result.PX = Pcopy.X;
@@ -258,6 +263,13 @@ mnt6_affine_ate_G2_precomputation mnt6_affine_ate_precompute_G2(const mnt6_G2& Q
     result.QX = Qcopy.X;
     result.QY = Qcopy.Y;
 
+    if (Q.is_zero())
+    {
+        /* there are no line functions for the identity */
+        leave_block("Call to mnt6_affine_ate_precompute_G2");
+        return result;
+    }
+
     mnt6_Fq3 RX = Qcopy.X;
     mnt6_Fq3 RY = Qcopy.Y;
 
@@ -330,6 +342,11 @@ mnt6_affine_ate_G2_precomputation mnt6_affine_ate_precompute_G2(const mnt6_G2& Q
 mnt6_Fq6 mnt6_affine_ate_miller_loop(const mnt6_affine_ate_G1_precomputation &prec_P,
                                      const mnt6_affine_ate_G2_precomputation &prec_Q)
 {
+    if ((prec_P.PX.is_zero() && prec_P.PY.is_zero()) || prec_Q.coeffs.empty())
+    {
+        return mnt6_Fq6::one();
+    }
+
     enter_block("Call to mnt6_affine_ate_miller_loop");
 
     mnt6_Fq6 f = mnt6_Fq6::one();
@@ -477,6 +494,11 @@ mnt6_ate_G1_precomp mnt6_ate_precompute_G1(const mnt6_G1& P)
 
     mnt6_G1 Pcopy = P;
     Pcopy.to_affine_coordinates();
+    if (P.is_zero())
+    {
+        /* (0, 0) is not on the curve: it stands for the identity */
+        Pcopy.Y = mnt6_Fq::zero();
+    }
 
     mnt6_ate_G1_precomp result;
     result.PX = Pcopy.X;
@@ -504,6 +526,13 @@ mnt6_ate_G2_precomp mnt6_ate_precompute_G2(const mnt6_G2& Q)
     result.QX_over_twist = Qcopy.X * mnt6_twist_inv;
     result.QY_over_twist = Qcopy.Y * mnt6_twist_inv;
 
+    if (Q.is_zero())
+    {
+        /* there are no line functions for the identity */
+        leave_block("Call to mnt6_ate_precompute_G2");
+        return result;
+    }
+
     extended_mnt6_G2_projective R;
     R.X = Qcopy.X;
     R.Y = Qcopy.Y;
@@ -555,6 +584,11 @@ mnt6_ate_G2_precomp mnt6_ate_precompute_G2(const mnt6_G2& Q)
 mnt6_Fq6 mnt6_ate_miller_loop(const mnt6_ate_G1_precomp &prec_P,
                               const mnt6_ate_G2_precomp &prec_Q)
 {
+    if ((prec_P.PX.is_zero() && prec_P.PY.is_zero()) || prec_Q.dbl_coeffs.empty())
+    {
+        return mnt6_Fq6::one();
+    }
+
     enter_block("Call to mnt6_ate_miller_loop");
 
     mnt6_Fq3 L1_coeff = mnt6_Fq3(prec_P.PX, mnt6_Fq::zero(), mnt6_Fq::zero()) - prec_Q.QX_over_twist;
@@ -615,6 +649,12 @@ mnt6_Fq6 mnt6_ate_double_miller_loop(const mnt6_ate_G1_precomp &prec_P1,
                                      const mnt6_ate_G1_precomp &prec_P2,
                                      const mnt6_ate_G2_precomp &prec_Q2)
 {
+    if ((prec_P1.PX.is_zero() && prec_P1.PY.is_zero()) || prec_Q1.dbl_coeffs.empty() ||
+        (prec_P2.PX.is_zero() && prec_P2.PY.is_zero()) || prec_Q2.dbl_coeffs.empty())
+    {
+        return mnt6_ate_miller_loop(prec_P1, prec_Q1) * mnt6_ate_miller_loop(prec_P2, prec_Q2);
+    }
+
     enter_block("Call to mnt6_ate_double_miller_loop");
 
     mnt6_Fq3 L1_coeff1 = mnt6_Fq3(prec_P1.PX, mnt6_Fq::zero(), mnt6_Fq::zero()) - prec_Q1.QX_over_twist;
-- 
2.43.0


From a7020d2d4c360b68e753472ad9f8cf0e5d0aea29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 08/28] fix: range check of from_words outside Montgomery mode

Without MONTGOMERY_OUTPUT the comparison with the modulus came after the
conversion to Montgomery form, which reduces, so from_words returned true for
words that represent a value of the modulus or more.
---
 libff/algebra/fields/prime_base/fp.tcc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/algebra/fields/prime_base/fp.tcc b/libff/algebra/fields/prime_base/fp.tcc
index 75304b0..f55b28d 100755
--- a/libff/algebra/fields/prime_base/fp.tcc
+++ b/libff/algebra/fields/prime_base/fp.tcc
@@ -800,10 +800,11 @@ bool Fp_model<n,modulus>::from_words(std::vector<uint64_t> words)
     std::copy(words.begin() + start_word, words.end(), this->mont_repr.data);
     // Zero out the left-most bit_offset bits.
     this->mont_repr.data[n - 1] = mp_limb_t((uint64_t(this->mont_repr.data[n - 1]) << bit_offset) >> bit_offset);
+    const bool valid = this->mont_repr < modulus;
 #ifndef MONTGOMERY_OUTPUT
     this->mul_reduce(Rsquared);
 #endif
-    return this->mont_repr < modulus;
+    return valid;
 }
 
 template<mp_size_t n, const bigint<n>& modulus>
-- 
2.43.0


From 2627664d9f70842fa8cb09e546fe17be9b7ac92a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 09/28] fix: signed overflow constructing a field element from
 LONG_MIN

---
 libff/algebra/fields/prime_base/fp.tcc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/fields/prime_base/fp.tcc b/libff/algebra/fields/prime_base/fp.tcc
index f55b28d..dc0608e 100755
--- a/libff/algebra/fields/prime_base/fp.tcc
+++ b/libff/algebra/fields/prime_base/fp.tcc
@@ -210,7 +210,7 @@ Fp_model<n,modulus>::Fp_model(const long x, const bool is_unsigned)
     }
     else
     {
-        const mp_limb_t borrow = mpn_sub_1(this->mont_repr.data, modulus.data, n, (mp_limb_t)-x);
+        const mp_limb_t borrow = mpn_sub_1(this->mont_repr.data, modulus.data, n, -(mp_limb_t)x);
 #ifndef NDEBUG
             assert(borrow == 0);
 #else
-- 
2.43.0


From 5fe7c70ec487541b74c83001b2cc720280108090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 10/28] fix: leave the profiling block that
 edwards_tate_reduced_pairing enters

The name differed from the one entered, which fails the assertion of
leave_block in builds without NDEBUG.
---
 libff/algebra/curves/edwards/edwards_pairing.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/curves/edwards/edwards_pairing.cpp b/libff/algebra/curves/edwards/edwards_pairing.cpp
index 0250417..ae1e080 100755
--- a/libff/algebra/curves/edwards/edwards_pairing.cpp
+++ b/libff/algebra/curves/edwards/edwards_pairing.cpp
@@ -445,7 +445,7 @@ edwards_GT edwards_tate_reduced_pairing(const edwards_G1 &P, const edwards_G2 &Q
     enter_block("Call to edwards_tate_reduced_pairing");
     const edwards_Fq6 f = edwards_tate_pairing(P, Q);
     const edwards_GT result = edwards_final_exponentiation(f);
-    leave_block("Call to edwards_tate_reduce_pairing");
+    leave_block("Call to edwards_tate_reduced_pairing");
     return result;
 }
 
-- 
2.43.0


From 00544a7a0a7283fa7effeaac01033c5aa886fffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:49 +0000
Subject: [PATCH 11/28] fix: per-block operation counts while profiling output
 is inhibited

enter_block recorded the operation counters only when it also printed, but
leave_block always accumulates the difference to the recorded values, so with
inhibit_profiling_info set the counts included operations outside the block.
---
 libff/common/profiling.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index dcf41c7..57cccce 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -260,6 +260,11 @@ void enter_block(const std::string &msg, const bool indent)
     long long cpu_t = get_nsec_cpu_time();
     enter_cpu_times[msg] = cpu_t;
 
+#ifdef MULTICORE
+#pragma omp critical
+#endif
+    op_profiling_enter(msg);
+
     if (inhibit_profiling_info)
     {
         return;
@@ -269,8 +274,6 @@ void enter_block(const std::string &msg, const bool indent)
 #pragma omp critical
 #endif
     {
-        op_profiling_enter(msg);
-
         print_indent();
         printf("(enter) %-35s\t", msg.c_str());
         print_times_from_last_and_start(t, t, cpu_t, cpu_t);
-- 
2.43.0


From 3606bbf0168ec53f9dcf8c6d05f3ec866eca6f22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:04 +0000
Subject: [PATCH 12/28] fix: multiplicative generator of gf192

x has order (2^192-1)/(3*241) modulo x^192+x^7+x^2+x+1, so gf192(2) does not
generate the multiplicative group. x^2+x+1 is the least element that does.
---
 libff/algebra/fields/binary/gf192.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libff/algebra/fields/binary/gf192.cpp b/libff/algebra/fields/binary/gf192.cpp
index bfc62ff..793d33f 100644
--- a/libff/algebra/fields/binary/gf192.cpp
+++ b/libff/algebra/fields/binary/gf192.cpp
@@ -27,7 +27,7 @@ long long gf192::inv_cnt = 0;
 #endif
 
 const uint64_t gf192::modulus_;
-gf192 gf192::multiplicative_generator = gf192(2);
+gf192 gf192::multiplicative_generator = gf192(7); // x^2 + x + 1; x itself is not a generator
 
 gf192::gf192() : value_{0, 0, 0}
 {
-- 
2.43.0


From cb00344da61b23a98a83b3fc4c5de696442ad0af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:49 +0000
Subject: [PATCH 13/28] fix: G2::mul_by_b multiplies by the twist's coefficient
 b (alt_bn128, bls12_381)

The D- and M-type sextic twists have b' = b/xi and b' = b xi, with xi in Fq2;
mul_by_b used b times the quadratic non-residue (-b) instead.
---
 libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp | 2 +-
 libff/algebra/curves/bls12_381/bls12_381_g2.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
index bee3553..11e5146 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
@@ -35,7 +35,7 @@ alt_bn128_G2::alt_bn128_G2()
 
 alt_bn128_Fq2 alt_bn128_G2::mul_by_b(const alt_bn128_Fq2 &elt)
 {
-    return alt_bn128_Fq2(alt_bn128_twist_mul_by_b_c0 * elt.c0, alt_bn128_twist_mul_by_b_c1 * elt.c1);
+    return alt_bn128_twist_coeff_b * elt;
 }
 
 void alt_bn128_G2::print() const
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
index 99da73c..4683235 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
@@ -24,7 +24,7 @@ bls12_381_G2::bls12_381_G2()
 
 bls12_381_Fq2 bls12_381_G2::mul_by_b(const bls12_381_Fq2 &elt)
 {
-    return bls12_381_Fq2(bls12_381_twist_mul_by_b_c0 * elt.c0, bls12_381_twist_mul_by_b_c1 * elt.c1);
+    return bls12_381_twist_coeff_b * elt;
 }
 
 void bls12_381_G2::print() const
-- 
2.43.0


From caec556f12b4f21749f3004696be5baed50bed4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 14/28] fix: the assembly comparison of Bos-Coster exponents
 declares that it reads memory

Without the clobber the compiler may keep or drop pending stores to the
exponents around the statement: with -O2 -DUSE_ASM multi_exp with
multi_exp_method_bos_coster returned wrong sums, e.g. for the scalars 1,1,1.
---
 libff/algebra/scalar_multiplication/multiexp.tcc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/libff/algebra/scalar_multiplication/multiexp.tcc b/libff/algebra/scalar_multiplication/multiexp.tcc
index 5b9d8fb..a15d328 100755
--- a/libff/algebra/scalar_multiplication/multiexp.tcc
+++ b/libff/algebra/scalar_multiplication/multiexp.tcc
@@ -52,7 +52,7 @@ public:
                  "done%=:                         \n\t"
                  : [res] "=&r" (res)
                  : [A] "r" (other.r.data), [mod] "r" (this->r.data)
-                 : "cc", "%rax");
+                 : "cc", "memory", "%rax");
             return res;
         }
         else if (n == 4)
@@ -71,7 +71,7 @@ public:
                  "done%=:                         \n\t"
                  : [res] "=&r" (res)
                  : [A] "r" (other.r.data), [mod] "r" (this->r.data)
-                 : "cc", "%rax");
+                 : "cc", "memory", "%rax");
             return res;
         }
         else if (n == 5)
@@ -91,7 +91,7 @@ public:
                  "done%=:                         \n\t"
                  : [res] "=&r" (res)
                  : [A] "r" (other.r.data), [mod] "r" (this->r.data)
-                 : "cc", "%rax");
+                 : "cc", "memory", "%rax");
             return res;
         }
         else
-- 
2.43.0


From 01cfd51c65b34b64778776cb608323c6f7276ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:56 +0000
Subject: [PATCH 15/28] fix: the sign of the loop count in the affine ate
 Miller loop of mnt6

---
 .../algebra/curves/mnt/mnt6/mnt6_pairing.cpp  | 25 +++----------------
 1 file changed, 3 insertions(+), 22 deletions(-)

diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
index b67bb3a..df0f4b3 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_pairing.cpp
@@ -320,21 +320,6 @@ mnt6_affine_ate_G2_precomputation mnt6_affine_ate_precompute_G2(const mnt6_G2& Q
         }
     }
 
-    /* TODO: maybe handle neg
-    if (mnt6_ate_is_loop_count_neg)
-    {
-    	mnt6_ate_add_coeffs ac;
-		mnt6_affine_ate_dbl_coeffs c;
-		c.old_RX = RX;
-		c.old_RY = -RY;
-		old_RX_2 = c.old_RY.squared();
-		c.gamma = (old_RX_2 + old_RX_2 + old_RX_2 + mnt6_coeff_a) * (c.old_RY + c.old_RY).inverse();
-		c.gamma_twist = c.gamma * mnt6_twist;
-		c.gamma_X = c.gamma * c.old_RX;
-		result.coeffs.push_back(c);
-    }
-    */
-
     leave_block("Call to mnt6_affine_ate_precompute_G2");
     return result;
 }
@@ -393,16 +378,12 @@ mnt6_Fq6 mnt6_affine_ate_miller_loop(const mnt6_affine_ate_G1_precomputation &pr
 
     }
 
-    /* TODO: maybe handle neg
     if (mnt6_ate_is_loop_count_neg)
     {
-    	// TODO:
-    	mnt6_affine_ate_coeffs ac = prec_Q.coeffs[idx++];
-    	mnt6_Fq6 g_RnegR_at_P = mnt6_Fq6(prec_P.PY_twist_squared,
-                                          - prec_P.PX * c.gamma_twist + c.gamma_X - c.old_RY);
-    	f = (f * g_RnegR_at_P).inverse();
+        /* the vertical line between R and -R lies in a proper subfield, so the
+           final exponentiation would kill its value */
+        f = f.inverse();
     }
-    */
 
     leave_block("Call to mnt6_affine_ate_miller_loop");
 
-- 
2.43.0


From 239e886119c65b210bb89b50a0b727d116d7b248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:56 +0000
Subject: [PATCH 16/28] fix: Tate pairing of the identity element on the
 Edwards curve

---
 .../curves/edwards/edwards_pairing.cpp        | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/libff/algebra/curves/edwards/edwards_pairing.cpp b/libff/algebra/curves/edwards/edwards_pairing.cpp
index ae1e080..86a1496 100755
--- a/libff/algebra/curves/edwards/edwards_pairing.cpp
+++ b/libff/algebra/curves/edwards/edwards_pairing.cpp
@@ -224,6 +224,14 @@ edwards_tate_G2_precomp edwards_tate_precompute_G2(const edwards_G2& Q)
     edwards_G2 Qcopy = Q;
     Qcopy.to_affine_coordinates();
     edwards_tate_G2_precomp result;
+    if (Q.is_zero())
+    {
+        /* X is zero, so (Z+Y)/(nqr*X) is undefined: eta = 0 stands for the identity */
+        result.y0 = edwards_Fq3::one();
+        result.eta = edwards_Fq3::zero();
+        leave_block("Call to edwards_tate_precompute_G2");
+        return result;
+    }
     result.y0 = Qcopy.Y * Qcopy.Z.inverse(); // Y/Z
     result.eta = (Qcopy.Z+Qcopy.Y) * edwards_Fq6::mul_by_non_residue(Qcopy.X).inverse(); // (Z+Y)/(nqr*X)
     leave_block("Call to edwards_tate_precompute_G2");
@@ -353,6 +361,13 @@ edwards_tate_G1_precomp edwards_tate_precompute_G1(const edwards_G1& P)
     edwards_G1 Pcopy = P;
     Pcopy.to_affine_coordinates();
 
+    if (P.is_zero())
+    {
+        /* there are no line functions for the identity */
+        leave_block("Call to edwards_tate_precompute_G1");
+        return result;
+    }
+
     extended_edwards_G1_projective P_ext;
     P_ext.X = Pcopy.X;
     P_ext.Y = Pcopy.Y;
@@ -393,6 +408,11 @@ edwards_tate_G1_precomp edwards_tate_precompute_G1(const edwards_G1& P)
 edwards_Fq6 edwards_tate_miller_loop(const edwards_tate_G1_precomp &prec_P,
                           const edwards_tate_G2_precomp &prec_Q)
 {
+    if (prec_P.empty() || prec_Q.eta.is_zero())
+    {
+        return edwards_Fq6::one();
+    }
+
     enter_block("Call to edwards_tate_miller_loop");
 
     edwards_Fq6 f = edwards_Fq6::one();
-- 
2.43.0


From 19a8561797beeb8f4480c2c4e46bc8d886e38e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 17/28] fix: consume the newline after the last element of a
 vector of extension field elements

In text mode the writers end every element with OUTPUT_NEWLINE, but the readers
left the last one in the stream, unlike all other vector readers.
---
 libff/algebra/fields/prime_extension/fp12_2over3over2.tcc | 1 +
 libff/algebra/fields/prime_extension/fp2.tcc              | 1 +
 libff/algebra/fields/prime_extension/fp3.tcc              | 1 +
 libff/algebra/fields/prime_extension/fp6_3over2.tcc       | 1 +
 4 files changed, 4 insertions(+)

diff --git a/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc b/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
index 9f8ab88..90025a7 100755
--- a/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
+++ b/libff/algebra/fields/prime_extension/fp12_2over3over2.tcc
@@ -562,6 +562,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp12_2over3over2_model<n,
     {
         Fp12_2over3over2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp2.tcc b/libff/algebra/fields/prime_extension/fp2.tcc
index b9e0eca..92e316f 100755
--- a/libff/algebra/fields/prime_extension/fp2.tcc
+++ b/libff/algebra/fields/prime_extension/fp2.tcc
@@ -305,6 +305,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp2_model<n, modulus> > &
     {
         Fp2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp3.tcc b/libff/algebra/fields/prime_extension/fp3.tcc
index 494e04d..78dd4e5 100755
--- a/libff/algebra/fields/prime_extension/fp3.tcc
+++ b/libff/algebra/fields/prime_extension/fp3.tcc
@@ -307,6 +307,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp3_model<n, modulus> > &
     {
         Fp3_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
diff --git a/libff/algebra/fields/prime_extension/fp6_3over2.tcc b/libff/algebra/fields/prime_extension/fp6_3over2.tcc
index 7c6590a..2ed0bc2 100755
--- a/libff/algebra/fields/prime_extension/fp6_3over2.tcc
+++ b/libff/algebra/fields/prime_extension/fp6_3over2.tcc
@@ -322,6 +322,7 @@ std::istream& operator>>(std::istream& in, std::vector<Fp6_3over2_model<n, modul
     {
         Fp6_3over2_model<n, modulus> el;
         in >> el;
+        consume_OUTPUT_NEWLINE(in);
         v.emplace_back(el);
     }
 
-- 
2.43.0


From bcefc73dd7d3b0006826e157169890d119aa88c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:10 +0000
Subject: [PATCH 18/28] fix: define the stream operators of vectors of
 Fp6_2over3 elements

They were declared but not defined, so any use failed to link.
---
 .../fields/prime_extension/fp6_2over3.tcc     | 36 +++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/libff/algebra/fields/prime_extension/fp6_2over3.tcc b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
index 11abe2d..df2b4fa 100755
--- a/libff/algebra/fields/prime_extension/fp6_2over3.tcc
+++ b/libff/algebra/fields/prime_extension/fp6_2over3.tcc
@@ -382,5 +382,41 @@ std::istream& operator>>(std::istream &in, Fp6_2over3_model<n, modulus> &el)
     return in;
 }
 
+template<mp_size_t n, const bigint<n>& modulus>
+std::ostream& operator<<(std::ostream& out, const std::vector<Fp6_2over3_model<n, modulus> > &v)
+{
+    out << v.size() << "\n";
+    for (const Fp6_2over3_model<n, modulus>& t : v)
+    {
+        out << t << OUTPUT_NEWLINE;
+    }
+
+    return out;
+}
+
+template<mp_size_t n, const bigint<n>& modulus>
+std::istream& operator>>(std::istream& in, std::vector<Fp6_2over3_model<n, modulus> > &v)
+{
+    v.clear();
+
+    size_t s;
+    in >> s;
+
+    char b;
+    in.read(&b, 1);
+
+    v.reserve(s);
+
+    for (size_t i = 0; i < s; ++i)
+    {
+        Fp6_2over3_model<n, modulus> el;
+        in >> el;
+        consume_OUTPUT_NEWLINE(in);
+        v.emplace_back(el);
+    }
+
+    return in;
+}
+
 } // namespace libff
 #endif // FP6_2OVER3_TCC_
-- 
2.43.0


From 1f76db8a8d5b29f68390d5d368da82c877d5e88d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:54 +0000
Subject: [PATCH 19/28] fix: deserialize_bit_vector consumes what
 serialize_bit_vector writes

It left the newline after the size or the last bit in the stream, unlike
input_bool_vector, so an object after it was misread.
---
 libff/common/utils.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libff/common/utils.cpp b/libff/common/utils.cpp
index 90d9f88..becd5c2 100755
--- a/libff/common/utils.cpp
+++ b/libff/common/utils.cpp
@@ -11,6 +11,7 @@
 #include <cstdarg>
 #include <cstdint>
 
+#include <libff/common/serialization.hpp>
 #include <libff/common/utils.hpp>
 
 namespace libff {
@@ -139,11 +140,13 @@ void deserialize_bit_vector(std::istream &in, bit_vector &v)
 {
     size_t size;
     in >> size;
+    consume_newline(in);
     v.resize(size);
     for (size_t i = 0; i < size; ++i)
     {
         bool b;
         in >> b;
+        consume_newline(in);
         v[i] = b;
     }
 }
-- 
2.43.0


From cec81df5ada2bf14b8ded0f7d44288eb5b48d6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:50 +0000
Subject: [PATCH 20/28] fix: div_ceil of negative numbers and near the limits
 of long long

---
 libff/common/utils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libff/common/utils.cpp b/libff/common/utils.cpp
index becd5c2..0ed695c 100755
--- a/libff/common/utils.cpp
+++ b/libff/common/utils.cpp
@@ -105,7 +105,8 @@ long long div_ceil(long long x, long long y)
     {
         throw std::invalid_argument("libff::div_ceil: division by zero, second argument must be non-zero");
     }
-    return (x + (y-1)) / y;
+    /* integer division truncates, that is, already rounds negative quotients up */
+    return x / y + ((x % y != 0 && (x < 0) == (y < 0)) ? 1 : 0);
 }
 
 bool is_little_endian()
-- 
2.43.0


From fdad24b350fdc1c95b0f041caa8ac1e75bd21425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:51 +0000
Subject: [PATCH 21/28] fix: Double zero to the power zero

---
 libff/common/double.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libff/common/double.cpp b/libff/common/double.cpp
index e19671e..df8dc31 100755
--- a/libff/common/double.cpp
+++ b/libff/common/double.cpp
@@ -132,11 +132,15 @@ bool Double::operator>(const Double &other) const
 
 Double Double::operator^(const libff::bigint<1> power) const
 {
-    return Double(pow(val, power.as_ulong()));
+    return *this ^ (size_t) power.as_ulong();
 }
 
 Double Double::operator^(const size_t power) const
 {
+    if (power == 0) {
+        return one(); /* pow(0, 0) of complex numbers is not a number */
+    }
+
     return Double(pow(val, power));
 }
 
-- 
2.43.0


From 293bed64889e861754dd2f011ef1228772f026d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 22/28] fix: multiplication count of squarings by the assembly
 routine

---
 libff/algebra/fields/prime_base/fp.tcc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libff/algebra/fields/prime_base/fp.tcc b/libff/algebra/fields/prime_base/fp.tcc
index dc0608e..852001a 100755
--- a/libff/algebra/fields/prime_base/fp.tcc
+++ b/libff/algebra/fields/prime_base/fp.tcc
@@ -617,7 +617,6 @@ Fp_model<n,modulus> Fp_model<n,modulus>::squared() const
 {
 #ifdef PROFILE_OP_COUNTS
     this->sqr_cnt++;
-    this->mul_cnt--; // zero out the upcoming mul
 #endif
     /* stupid pre-processor tricks; beware */
 #if defined(__x86_64__) && defined(USE_ASM)
@@ -655,6 +654,9 @@ Fp_model<n,modulus> Fp_model<n,modulus>::squared() const
     else
 #endif
     {
+#ifdef PROFILE_OP_COUNTS
+        this->mul_cnt--; // zero out the upcoming mul
+#endif
         Fp_model<n, modulus> r(*this);
         return (r *= r);
     }
-- 
2.43.0


From b3abb7b34d4215f430311068d540e369d81b86ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:47 +0000
Subject: [PATCH 23/28] fix: count the additions of bls12_381 points

---
 libff/algebra/curves/bls12_381/bls12_381_g1.cpp | 4 ++++
 libff/algebra/curves/bls12_381/bls12_381_g2.cpp | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/libff/algebra/curves/bls12_381/bls12_381_g1.cpp b/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
index e90c9c2..e3ce041 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g1.cpp
@@ -171,6 +171,10 @@ bls12_381_G1 bls12_381_G1::operator+(const bls12_381_G1 &other) const
         return this->dbl();
     }
 
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
+
     // rest of add case
     bls12_381_Fq H = U2 - U1;                            // H = U2-U1
     bls12_381_Fq S2_minus_S1 = S2-S1;
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
index 4683235..f32c733 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
@@ -181,6 +181,10 @@ bls12_381_G2 bls12_381_G2::operator+(const bls12_381_G2 &other) const
         return this->dbl();
     }
 
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
+
     // rest of add case
     bls12_381_Fq2 H = U2 - U1;                            // H = U2-U1
     bls12_381_Fq2 S2_minus_S1 = S2-S1;
-- 
2.43.0


From a84835dff4d1b3f24b4af2c2e55c324e8cbbe5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:53 +0000
Subject: [PATCH 24/28] fix: count the additions and doublings of mnt4 and mnt6
 points by operator+

---
 libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp | 6 ++++++
 libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp | 6 ++++++
 libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp | 6 ++++++
 libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp | 6 ++++++
 4 files changed, 24 insertions(+)

diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
index e0d3123..5690a41 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
@@ -179,6 +179,9 @@ mnt4_G1 mnt4_G1::operator+(const mnt4_G1 &other) const
     if (X1Z2 == X2Z1 && Y1Z2 == Y2Z1)
     {
         // perform dbl case
+#ifdef PROFILE_OP_COUNTS
+        this->dbl_cnt++;
+#endif
         const mnt4_Fq XX   = (this->X).squared();                   // XX  = X1^2
         const mnt4_Fq ZZ   = (this->Z).squared();                   // ZZ  = Z1^2
         const mnt4_Fq w    = mnt4_G1::coeff_a * ZZ + (XX + XX + XX); // w   = a*ZZ + 3*XX
@@ -198,6 +201,9 @@ mnt4_G1 mnt4_G1::operator+(const mnt4_G1 &other) const
     }
 
     // if we have arrived here we are in the add case
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
     const mnt4_Fq Z1Z2 = (this->Z) * (other.Z);        // Z1Z2 = Z1*Z2
     const mnt4_Fq u    = Y2Z1 - Y1Z2; // u    = Y2*Z1-Y1Z2
     const mnt4_Fq uu   = u.squared();                  // uu   = u^2
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
index f99c2c3..860a22f 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
@@ -195,6 +195,9 @@ mnt4_G2 mnt4_G2::operator+(const mnt4_G2 &other) const
     if (X1Z2 == X2Z1 && Y1Z2 == Y2Z1)
     {
         // perform dbl case
+#ifdef PROFILE_OP_COUNTS
+        this->dbl_cnt++;
+#endif
         const mnt4_Fq2 XX   = (this->X).squared();                   // XX  = X1^2
         const mnt4_Fq2 ZZ   = (this->Z).squared();                   // ZZ  = Z1^2
         const mnt4_Fq2 w    = mnt4_G2::mul_by_a(ZZ) + (XX + XX + XX); // w   = a*ZZ + 3*XX
@@ -214,6 +217,9 @@ mnt4_G2 mnt4_G2::operator+(const mnt4_G2 &other) const
     }
 
     // if we have arrived here we are in the add case
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
     const mnt4_Fq2 Z1Z2 = (this->Z) * (other.Z);      // Z1Z2 = Z1*Z2
     const mnt4_Fq2 u    = Y2Z1 - Y1Z2;                  // u    = Y2*Z1-Y1Z2
     const mnt4_Fq2 uu   = u.squared();                  // uu   = u^2
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
index d5a3640..ebff53b 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
@@ -179,6 +179,9 @@ mnt6_G1 mnt6_G1::operator+(const mnt6_G1 &other) const
     if (X1Z2 == X2Z1 && Y1Z2 == Y2Z1)
     {
         // perform dbl case
+#ifdef PROFILE_OP_COUNTS
+        this->dbl_cnt++;
+#endif
         const mnt6_Fq XX   = (this->X).squared();                   // XX  = X1^2
         const mnt6_Fq ZZ   = (this->Z).squared();                   // ZZ  = Z1^2
         const mnt6_Fq w    = mnt6_G1::coeff_a * ZZ + (XX + XX + XX); // w   = a*ZZ + 3*XX
@@ -198,6 +201,9 @@ mnt6_G1 mnt6_G1::operator+(const mnt6_G1 &other) const
     }
 
     // if we have arrived here we are in the add case
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
     const mnt6_Fq Z1Z2 = (this->Z) * (other.Z);      // Z1Z2 = Z1*Z2
     const mnt6_Fq u    = Y2Z1 - Y1Z2;                  // u    = Y2*Z1-Y1Z2
     const mnt6_Fq uu   = u.squared();                  // uu   = u^2
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
index d56e8f4..e531171 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
@@ -201,6 +201,9 @@ mnt6_G2 mnt6_G2::operator+(const mnt6_G2 &other) const
     if (X1Z2 == X2Z1 && Y1Z2 == Y2Z1)
     {
         // perform dbl case
+#ifdef PROFILE_OP_COUNTS
+        this->dbl_cnt++;
+#endif
         const mnt6_Fq3 XX   = (this->X).squared();                   // XX  = X1^2
         const mnt6_Fq3 ZZ   = (this->Z).squared();                   // ZZ  = Z1^2
         const mnt6_Fq3 w    = mnt6_G2::mul_by_a(ZZ) + (XX + XX + XX); // w   = a*ZZ + 3*XX
@@ -220,6 +223,9 @@ mnt6_G2 mnt6_G2::operator+(const mnt6_G2 &other) const
     }
 
     // if we have arrived here we are in the add case
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
     const mnt6_Fq3 Z1Z2 = (this->Z) * (other.Z);   // Z1Z2 = Z1*Z2
     const mnt6_Fq3 u    = Y2Z1 - Y1Z2;               // u    = Y2*Z1-Y1Z2
     const mnt6_Fq3 uu   = u.squared();               // uu   = u^2
-- 
2.43.0


From de44b0393f28cae136f76fbf1a2d4248988a0081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:50 +0000
Subject: [PATCH 25/28] fix: do not count a mixed addition of equal mnt4 or
 mnt6 points twice

---
 libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp | 7 ++++---
 libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp | 7 ++++---
 libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp | 7 ++++---
 libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp | 7 ++++---
 4 files changed, 16 insertions(+), 12 deletions(-)

diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
index 5690a41..2b812ad 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g1.cpp
@@ -277,9 +277,6 @@ mnt4_G1 mnt4_G1::add(const mnt4_G1 &other) const
 
 mnt4_G1 mnt4_G1::mixed_add(const mnt4_G1 &other) const
 {
-#ifdef PROFILE_OP_COUNTS
-    this->add_cnt++;
-#endif
     // NOTE: does not handle O and pts of order 2,4
     // http://www.hyperelliptic.org/EFD/g1p/auto-shortw-projective.html#addition-add-1998-cmo-2
     //assert(other.Z == mnt4_Fq::one());
@@ -311,6 +308,10 @@ mnt4_G1 mnt4_G1::mixed_add(const mnt4_G1 &other) const
         return this->dbl();
     }
 
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
+
     const mnt4_Fq u = Y2Z1 - this->Y;              // u = Y2*Z1-Y1
     const mnt4_Fq uu = u.squared();                 // uu = u2
     const mnt4_Fq v = X2Z1 - this->X;              // v = X2*Z1-X1
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
index 860a22f..f43e951 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
@@ -293,9 +293,6 @@ mnt4_G2 mnt4_G2::add(const mnt4_G2 &other) const
 
 mnt4_G2 mnt4_G2::mixed_add(const mnt4_G2 &other) const
 {
-#ifdef PROFILE_OP_COUNTS
-    this->add_cnt++;
-#endif
     // NOTE: does not handle O and pts of order 2,4
     // http://www.hyperelliptic.org/EFD/g1p/auto-shortw-projective.html#addition-add-1998-cmo-2
     //assert(other.Z == mnt4_Fq2::one());
@@ -327,6 +324,10 @@ mnt4_G2 mnt4_G2::mixed_add(const mnt4_G2 &other) const
         return this->dbl();
     }
 
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
+
     const mnt4_Fq2 u = Y2Z1 - this->Y;              // u = Y2*Z1-Y1
     const mnt4_Fq2 uu = u.squared();                 // uu = u2
     const mnt4_Fq2 v = X2Z1 - this->X;              // v = X2*Z1-X1
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
index ebff53b..51fce11 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g1.cpp
@@ -277,9 +277,6 @@ mnt6_G1 mnt6_G1::add(const mnt6_G1 &other) const
 
 mnt6_G1 mnt6_G1::mixed_add(const mnt6_G1 &other) const
 {
-#ifdef PROFILE_OP_COUNTS
-    this->add_cnt++;
-#endif
     // NOTE: does not handle O and pts of order 2,4
     // http://www.hyperelliptic.org/EFD/g1p/auto-shortw-projective.html#addition-add-1998-cmo-2
     //assert(other.Z == mnt6_Fq::one());
@@ -311,6 +308,10 @@ mnt6_G1 mnt6_G1::mixed_add(const mnt6_G1 &other) const
         return this->dbl();
     }
 
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
+
     mnt6_Fq u = Y2Z1 - this->Y;             // u = Y2*Z1-Y1
     mnt6_Fq uu = u.squared();                // uu = u2
     mnt6_Fq v = X2Z1 - this->X;             // v = X2*Z1-X1
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
index e531171..af30f15 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
@@ -299,9 +299,6 @@ mnt6_G2 mnt6_G2::add(const mnt6_G2 &other) const
 
 mnt6_G2 mnt6_G2::mixed_add(const mnt6_G2 &other) const
 {
-#ifdef PROFILE_OP_COUNTS
-    this->add_cnt++;
-#endif
     // NOTE: does not handle O and pts of order 2,4
     // http://www.hyperelliptic.org/EFD/g1p/auto-shortw-projective.html#addition-add-1998-cmo-2
     //assert(other.Z == mnt6_Fq3::one());
@@ -333,6 +330,10 @@ mnt6_G2 mnt6_G2::mixed_add(const mnt6_G2 &other) const
         return this->dbl();
     }
 
+#ifdef PROFILE_OP_COUNTS
+    this->add_cnt++;
+#endif
+
     const mnt6_Fq3 u = Y2Z1 - this->Y;             // u = Y2*Z1-Y1
     const mnt6_Fq3 uu = u.squared();                // uu = u2
     const mnt6_Fq3 v = X2Z1 - this->X;             // v = X2*Z1-X1
-- 
2.43.0


From a62ea27f2f429d75b3ad97896a79c422ed7f0518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:30 +0000
Subject: [PATCH 26/28] fix: clear_profiling_counters also clears the operation
 counts

---
 libff/common/profiling.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index 57cccce..accad74 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -101,6 +101,7 @@ void clear_profiling_counters()
     last_times.clear();
     last_cpu_times.clear();
     cumulative_times.clear();
+    cumulative_op_counts.clear(); // but not op_counts: blocks may be open
 }
 
 void print_cumulative_time_entry(const std::string &key, const long long factor)
-- 
2.43.0


From 5c282938ba05e19fc2605b35218cf4aa66ab8af3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:44 +0000
Subject: [PATCH 27/28] fix: enter_block and leave_block changed the shared
 profiling records from several threads without synchronisation

---
 libff/common/profiling.cpp | 44 ++++++++++++++++++++++----------------
 1 file changed, 26 insertions(+), 18 deletions(-)

diff --git a/libff/common/profiling.cpp b/libff/common/profiling.cpp
index accad74..93d3057 100755
--- a/libff/common/profiling.cpp
+++ b/libff/common/profiling.cpp
@@ -255,16 +255,18 @@ void enter_block(const std::string &msg, const bool indent)
         return;
     }
 
-    block_names.emplace_back(msg);
-    long long t = get_nsec_time();
-    enter_times[msg] = t;
-    long long cpu_t = get_nsec_cpu_time();
-    enter_cpu_times[msg] = cpu_t;
+    const long long t = get_nsec_time();
+    const long long cpu_t = get_nsec_cpu_time();
 
 #ifdef MULTICORE
 #pragma omp critical
 #endif
-    op_profiling_enter(msg);
+    {
+        block_names.emplace_back(msg);
+        enter_times[msg] = t;
+        enter_cpu_times[msg] = cpu_t;
+        op_profiling_enter(msg);
+    }
 
     if (inhibit_profiling_info)
     {
@@ -295,26 +297,32 @@ void leave_block(const std::string &msg, const bool indent)
         return;
     }
 
+    const long long t = get_nsec_time();
+    const long long cpu_t = get_nsec_cpu_time();
+
+#ifdef MULTICORE
+#pragma omp critical
+#endif
+    {
 #ifndef MULTICORE
-    assert(*(--block_names.end()) == msg);
+        assert(*(--block_names.end()) == msg);
 #endif
-    block_names.pop_back();
+        block_names.pop_back();
 
-    ++invocation_counts[msg];
+        ++invocation_counts[msg];
 
-    long long t = get_nsec_time();
-    last_times[msg] = (t - enter_times[msg]);
-    cumulative_times[msg] += (t - enter_times[msg]);
+        last_times[msg] = (t - enter_times[msg]);
+        cumulative_times[msg] += (t - enter_times[msg]);
 
-    long long cpu_t = get_nsec_cpu_time();
-    last_cpu_times[msg] = (cpu_t - enter_cpu_times[msg]);
+        last_cpu_times[msg] = (cpu_t - enter_cpu_times[msg]);
 
 #ifdef PROFILE_OP_COUNTS
-    for (std::pair<std::string, long long*> p : op_data_points)
-    {
-        cumulative_op_counts[std::make_pair(msg, p.first)] += *(p.second)-op_counts[std::make_pair(msg, p.first)];
-    }
+        for (std::pair<std::string, long long*> p : op_data_points)
+        {
+            cumulative_op_counts[std::make_pair(msg, p.first)] += *(p.second)-op_counts[std::make_pair(msg, p.first)];
+        }
 #endif
+    }
 
     if (inhibit_profiling_info)
     {
-- 
2.43.0


From 6b7da3dbc4c09ad694360d3bc4f9a5cf8c1e06b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:17 +0000
Subject: [PATCH 28/28] fix: compressed G2 points whose Y has a zero first
 coefficient lost the sign of Y

---
 libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp | 12 ++++++++++--
 libff/algebra/curves/bls12_381/bls12_381_g2.cpp | 12 ++++++++++--
 libff/algebra/curves/edwards/edwards_g2.cpp     | 12 ++++++++++--
 libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp       | 12 ++++++++++--
 libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp       | 12 ++++++++++--
 5 files changed, 50 insertions(+), 10 deletions(-)

diff --git a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
index 11e5146..4560ee2 100755
--- a/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
+++ b/libff/algebra/curves/alt_bn128/alt_bn128_g2.cpp
@@ -380,6 +380,14 @@ alt_bn128_G2 alt_bn128_G2::random_element()
     return (alt_bn128_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* distinguishes Y from -Y: LSB of the first non-zero coefficient */
+static mp_limb_t sign_of(const alt_bn128_Fq2 &y)
+{
+    return (y.c0.is_zero() ? y.c1 : y.c0).as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const alt_bn128_G2 &g)
 {
     alt_bn128_G2 copy(g);
@@ -389,7 +397,7 @@ std::ostream& operator<<(std::ostream &out, const alt_bn128_G2 &g)
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
     /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    out << copy.X << OUTPUT_SEPARATOR << sign_of(copy.Y);
 #endif
 
     return out;
@@ -421,7 +429,7 @@ std::istream& operator>>(std::istream &in, alt_bn128_G2 &g)
         alt_bn128_Fq2 tY2 = tX2 * tX + alt_bn128_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (sign_of(tY) != Y_lsb)
         {
             tY = -tY;
         }
diff --git a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
index f32c733..2834d29 100755
--- a/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
+++ b/libff/algebra/curves/bls12_381/bls12_381_g2.cpp
@@ -370,6 +370,14 @@ bls12_381_G2 bls12_381_G2::random_element()
     return (bls12_381_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* distinguishes Y from -Y: LSB of the first non-zero coefficient */
+static mp_limb_t sign_of(const bls12_381_Fq2 &y)
+{
+    return (y.c0.is_zero() ? y.c1 : y.c0).as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const bls12_381_G2 &g)
 {
     bls12_381_G2 copy(g);
@@ -379,7 +387,7 @@ std::ostream& operator<<(std::ostream &out, const bls12_381_G2 &g)
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
     /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    out << copy.X << OUTPUT_SEPARATOR << sign_of(copy.Y);
 #endif
 
     return out;
@@ -411,7 +419,7 @@ std::istream& operator>>(std::istream &in, bls12_381_G2 &g)
         bls12_381_Fq2 tY2 = tX2 * tX + bls12_381_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (sign_of(tY) != Y_lsb)
         {
             tY = -tY;
         }
diff --git a/libff/algebra/curves/edwards/edwards_g2.cpp b/libff/algebra/curves/edwards/edwards_g2.cpp
index 0224662..9398604 100755
--- a/libff/algebra/curves/edwards/edwards_g2.cpp
+++ b/libff/algebra/curves/edwards/edwards_g2.cpp
@@ -330,6 +330,14 @@ edwards_G2 edwards_G2::random_element()
     return edwards_Fr::random_element().as_bigint() * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* distinguishes Y from -Y: LSB of the first non-zero coefficient */
+static mp_limb_t sign_of(const edwards_Fq3 &y)
+{
+    return (!y.c0.is_zero() ? y.c0 : !y.c1.is_zero() ? y.c1 : y.c2).as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const edwards_G2 &g)
 {
     edwards_G2 copy(g);
@@ -338,7 +346,7 @@ std::ostream& operator<<(std::ostream &out, const edwards_G2 &g)
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
     /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    out << copy.X << OUTPUT_SEPARATOR << sign_of(copy.Y);
 #endif
     return out;
 }
@@ -369,7 +377,7 @@ std::istream& operator>>(std::istream &in, edwards_G2 &g)
         (edwards_Fq3::one() - edwards_G2::mul_by_d(tX2)).inverse();
     tY = tY2.sqrt();
 
-    if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+    if (sign_of(tY) != Y_lsb)
     {
         tY = -tY;
     }
diff --git a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
index f43e951..0577122 100755
--- a/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt4/mnt4_g2.cpp
@@ -423,6 +423,14 @@ mnt4_G2 mnt4_G2::random_element()
     return (mnt4_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* distinguishes Y from -Y: LSB of the first non-zero coefficient */
+static mp_limb_t sign_of(const mnt4_Fq2 &y)
+{
+    return (y.c0.is_zero() ? y.c1 : y.c0).as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const mnt4_G2 &g)
 {
     mnt4_G2 copy(g);
@@ -433,7 +441,7 @@ std::ostream& operator<<(std::ostream &out, const mnt4_G2 &g)
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
     /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    out << copy.X << OUTPUT_SEPARATOR << sign_of(copy.Y);
 #endif
 
     return out;
@@ -465,7 +473,7 @@ std::istream& operator>>(std::istream &in, mnt4_G2 &g)
         mnt4_Fq2 tY2 = (tX2 + mnt4_twist_coeff_a ) * tX + mnt4_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (sign_of(tY) != Y_lsb)
         {
             tY = -tY;
         }
diff --git a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
index af30f15..0906819 100755
--- a/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
+++ b/libff/algebra/curves/mnt/mnt6/mnt6_g2.cpp
@@ -429,6 +429,14 @@ mnt6_G2 mnt6_G2::random_element()
     return (mnt6_Fr::random_element().as_bigint()) * G2_one;
 }
 
+#ifndef NO_PT_COMPRESSION
+/* distinguishes Y from -Y: LSB of the first non-zero coefficient */
+static mp_limb_t sign_of(const mnt6_Fq3 &y)
+{
+    return (!y.c0.is_zero() ? y.c0 : !y.c1.is_zero() ? y.c1 : y.c2).as_bigint().data[0] & 1;
+}
+#endif
+
 std::ostream& operator<<(std::ostream &out, const mnt6_G2 &g)
 {
     mnt6_G2 copy(g);
@@ -439,7 +447,7 @@ std::ostream& operator<<(std::ostream &out, const mnt6_G2 &g)
     out << copy.X << OUTPUT_SEPARATOR << copy.Y;
 #else
     /* storing LSB of Y */
-    out << copy.X << OUTPUT_SEPARATOR << (copy.Y.c0.as_bigint().data[0] & 1);
+    out << copy.X << OUTPUT_SEPARATOR << sign_of(copy.Y);
 #endif
 
     return out;
@@ -471,7 +479,7 @@ std::istream& operator>>(std::istream &in, mnt6_G2 &g)
         const mnt6_Fq3 tY2 = (tX2 + mnt6_twist_coeff_a) * tX + mnt6_twist_coeff_b;
         tY = tY2.sqrt();
 
-        if ((tY.c0.as_bigint().data[0] & 1) != Y_lsb)
+        if (sign_of(tY) != Y_lsb)
         {
             tY = -tY;
         }
-- 
2.43.0

