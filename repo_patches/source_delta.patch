From 8545ff6acc476549d248852ec9f182ef709a0ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 01/15] fix: output gate returns its individual mask share, not
 its mask

---
 src/tp/output_gate.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/tp/output_gate.h b/src/tp/output_gate.h
index d8bfb48..b6be1a8 100644
--- a/src/tp/output_gate.h
+++ b/src/tp/output_gate.h
@@ -52,7 +52,7 @@ namespace tp {
 	mIndvShrLambdaC = mLeft->GetIndvShrLambda();
 	mIndvShrLambdaCSet = true;
       }
-      return mLambda;
+      return mIndvShrLambdaC;
     }    
 
     FF GetDn07Share() {
-- 
2.43.0


From c1da3ce6d5ca1764009ea67b3324ccfcd8926b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 02/15] fix: a multiplication batch's dummy preprocessing is
 the party's share at its own point

---
 src/tp/mult_gate.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/tp/mult_gate.h b/src/tp/mult_gate.h
index 4aecdbf..a36dd22 100644
--- a/src/tp/mult_gate.h
+++ b/src/tp/mult_gate.h
@@ -127,13 +127,13 @@ namespace tp {
       
       // Using deg = BatchSize-1 ensures there's no randomness involved
       auto poly_A = scl::details::EvPolyFromSecretsAndDegree(lambda_A, mBatchSize-1, mPRG);
-      mPackedShrLambdaA = poly_A.Evaluate(FF(mID));
+      mPackedShrLambdaA = poly_A.Evaluate(FF(mID+1));
 	
       auto poly_B = scl::details::EvPolyFromSecretsAndDegree(lambda_B, mBatchSize-1, mPRG);
-      mPackedShrLambdaB = poly_B.Evaluate(FF(mID));
+      mPackedShrLambdaB = poly_B.Evaluate(FF(mID+1));
 
       auto poly_C = scl::details::EvPolyFromSecretsAndDegree(delta_C, mBatchSize-1, mPRG);
-      mPackedShrDeltaC = poly_C.Evaluate(FF(mID));
+      mPackedShrDeltaC = poly_C.Evaluate(FF(mID+1));
     }
 
     // For cleartext evaluation: calls GetClear on all its gates to
-- 
2.43.0


From 99a93a526e31f1202dc4a4efe40e350e9cb0dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 03/15] fix: only the zero sharings left after the
 multiplication batches become input/output preprocessing

---
 src/tp/fi_prep.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/tp/fi_prep.cc b/src/tp/fi_prep.cc
index da5a30d..ed05dcf 100644
--- a/src/tp/fi_prep.cc
+++ b/src/tp/fi_prep.cc
@@ -155,8 +155,8 @@ namespace tp {
 	  shr += mVandermonde[j][shr_idx] * recv_shares[j];
 	}
 	if (ctr < mNMultBatches) mMultBatchFIPrep[ctr].mShrO1 = shr; 
-	if ((mNMultBatches <= ctr) && (ctr < 2*mNMultBatches)) mMultBatchFIPrep[ctr - mNMultBatches].mShrO2 = shr;
-	if ((2*mNMultBatches <= ctr) && (ctr < 3*mNMultBatches)) mMultBatchFIPrep[ctr - 2*mNMultBatches].mShrO3 = shr;
+	else if ((mNMultBatches <= ctr) && (ctr < 2*mNMultBatches)) mMultBatchFIPrep[ctr - mNMultBatches].mShrO2 = shr;
+	else if ((2*mNMultBatches <= ctr) && (ctr < 3*mNMultBatches)) mMultBatchFIPrep[ctr - 2*mNMultBatches].mShrO3 = shr;
 	else {
 	  IOBatchFIPrep tmp;
 	  tmp.mShrO = shr;
-- 
2.43.0


From 3b515ae4467958db084ae8a70e89e97f6d132d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:30 +0000
Subject: [PATCH 04/15] fix: every wire value of a padding gate is zero

---
 src/tp/input_gate.h  | 2 ++
 src/tp/mult_gate.h   | 3 +++
 src/tp/output_gate.h | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/src/tp/input_gate.h b/src/tp/input_gate.h
index 9bb1042..fb1f8b6 100644
--- a/src/tp/input_gate.h
+++ b/src/tp/input_gate.h
@@ -117,6 +117,8 @@ namespace tp {
     FF GetMu() override { return FF(0); }
     FF GetDummyLambda() override { return FF(0); }
     FF GetIndvShrLambda() override { return FF(0); }
+    FF GetDn07Share() override { return FF(0); }
+    FF GetClear() override { return FF(0); }
 
   private:
   };
diff --git a/src/tp/mult_gate.h b/src/tp/mult_gate.h
index a36dd22..48dfaa0 100644
--- a/src/tp/mult_gate.h
+++ b/src/tp/mult_gate.h
@@ -69,6 +69,9 @@ namespace tp {
 
     FF GetMu() override { return FF(0); }
     FF GetDummyLambda() override { return FF(0); }
+    FF GetIndvShrLambda() override { return FF(0); }
+    FF GetDn07Share() override { return FF(0); }
+    FF GetClear() override { return FF(0); }
 
     // Just a technicality needed to make the parents of this gate be
     // itself when instantiated
diff --git a/src/tp/output_gate.h b/src/tp/output_gate.h
index b6be1a8..d489030 100644
--- a/src/tp/output_gate.h
+++ b/src/tp/output_gate.h
@@ -126,6 +126,9 @@ namespace tp {
 
     FF GetMu() override { return FF(0); }
     FF GetDummyLambda() override { return FF(0); }
+    FF GetIndvShrLambda() override { return FF(0); }
+    FF GetDn07Share() override { return FF(0); }
+    FF GetClear() override { return FF(0); }
 
     void UpdateParent(std::shared_ptr<Gate> left) {
       mLeft = left;
-- 
2.43.0


From 41ff4d4e49d71610ab9b99354e5c76d070ed17e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:49 +0000
Subject: [PATCH 05/15] fix: a hash absorbs every byte of a word, not its
 second byte six times

---
 secure-computation-library/include/scl/hash.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/secure-computation-library/include/scl/hash.h b/secure-computation-library/include/scl/hash.h
index e0b66a0..45ff57a 100644
--- a/secure-computation-library/include/scl/hash.h
+++ b/secure-computation-library/include/scl/hash.h
@@ -146,9 +146,9 @@ Hash<B> &Hash<B>::Update(const unsigned char *bytes, std::size_t nbytes) {
   for (std::size_t i = 0; i < words; ++i) {
     const uint64_t t =
         (uint64_t)(p[0]) | ((uint64_t)(p[1]) << 8 * 1) |
-        ((uint64_t)(p[1]) << 8 * 2) | ((uint64_t)(p[1]) << 8 * 3) |
-        ((uint64_t)(p[1]) << 8 * 4) | ((uint64_t)(p[1]) << 8 * 5) |
-        ((uint64_t)(p[1]) << 8 * 6) | ((uint64_t)(p[1]) << 8 * 7);
+        ((uint64_t)(p[2]) << 8 * 2) | ((uint64_t)(p[3]) << 8 * 3) |
+        ((uint64_t)(p[4]) << 8 * 4) | ((uint64_t)(p[5]) << 8 * 5) |
+        ((uint64_t)(p[6]) << 8 * 6) | ((uint64_t)(p[7]) << 8 * 7);
 
     mState[mWordIndex] ^= t;
 
-- 
2.43.0


From e78f9b877b5efd57afee5442e9474b08bac4d077 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:22 +0000
Subject: [PATCH 06/15] fix: a received matrix's size limit is not bypassed by
 32-bit overflow of rows*cols

---
 secure-computation-library/include/scl/net/channel.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/include/scl/net/channel.h b/secure-computation-library/include/scl/net/channel.h
index c454fae..72cfa6e 100644
--- a/secure-computation-library/include/scl/net/channel.h
+++ b/secure-computation-library/include/scl/net/channel.h
@@ -210,9 +210,10 @@ class Channel {
   void Recv(Mat<T>& mat) {
     auto rows = RecvSize();
     auto cols = RecvSize();
-    if (rows * cols > MAX_MAT_READ_SIZE)
+    auto size = static_cast<std::size_t>(rows) * cols;
+    if (size > MAX_MAT_READ_SIZE)
       throw std::logic_error("received matrix exceeds size limit");
-    auto n = rows * cols * T::ByteSize();
+    auto n = size * T::ByteSize();
     auto buf = std::make_unique<unsigned char[]>(n);
     Recv(_SCL_C(buf.get()), n);
     mat = Mat<T>::Read(rows, cols, _SCL_CC(buf.get()));
-- 
2.43.0


From 15c2286692f35237984007cde99d1edffec35410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:56 +0000
Subject: [PATCH 07/15] fix: a TCP channel whose peer closed reports it instead
 of returning unreceived bytes

---
 secure-computation-library/src/scl/net/tcp_channel.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/tcp_channel.cc b/secure-computation-library/src/scl/net/tcp_channel.cc
index 47a32d9..a25401f 100644
--- a/secure-computation-library/src/scl/net/tcp_channel.cc
+++ b/secure-computation-library/src/scl/net/tcp_channel.cc
@@ -1,5 +1,7 @@
 #include "scl/net/tcp_channel.h"
 
+#include <stdexcept>
+
 #include "scl/net/tcp_utils.h"
 
 void scl::TcpChannel::Close() {
@@ -28,7 +30,7 @@ void scl::TcpChannel::Recv(unsigned char* dst, std::size_t n) {
 
   while (rem > 0) {
     auto recv = scl::details::ReadFromSocket(mSocket, dst + offset, rem);
-    if (!recv) break;
+    if (!recv) throw std::runtime_error("connection closed by remote");
     if (recv < 0) scl::details::ThrowError("read failed");
 
     rem -= recv;
-- 
2.43.0


From 37941e33b4806816090cb61b05d3fd7783b6abc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:30 +0000
Subject: [PATCH 08/15] fix: a party is found by its id, not by its position in
 the list of parties

---
 secure-computation-library/include/scl/net/config.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/net/config.h b/secure-computation-library/include/scl/net/config.h
index 5c588b1..54a218f 100644
--- a/secure-computation-library/include/scl/net/config.h
+++ b/secure-computation-library/include/scl/net/config.h
@@ -24,6 +24,7 @@
 
 #include <memory>
 #include <sstream>
+#include <stdexcept>
 #include <string>
 #include <vector>
 
@@ -128,7 +129,12 @@ class NetworkConfig {
   /**
    * @brief Get information about a party.
    */
-  Party GetParty(unsigned id) const { return mParties[id]; };
+  Party GetParty(unsigned id) const {
+    for (const auto& party : mParties) {
+      if (party.id == id) return party;
+    }
+    throw std::invalid_argument("no party with that ID in config");
+  };
 
   /**
    * @brief Return a string representation of this network config.
-- 
2.43.0


From 9ae048bdbbdf0f193d1dea7bd7cd9448536bec50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:00 +0000
Subject: [PATCH 09/15] fix: a connection announcing an id that is not awaited
 is dropped instead of written out of bounds

---
 secure-computation-library/src/scl/net/network.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/src/scl/net/network.cc b/secure-computation-library/src/scl/net/network.cc
index b6f2fb3..a55433f 100644
--- a/secure-computation-library/src/scl/net/network.cc
+++ b/secure-computation-library/src/scl/net/network.cc
@@ -18,13 +18,20 @@ static inline void AcceptConnections(
   if (n) {
     auto port = config.GetParty(my_id).port;
     int ssock = scl::details::CreateServerSocket(port, n);
-    for (std::size_t i = config.Id() + 1; i < config.NetworkSize(); ++i) {
+    std::size_t connected = 0;
+    while (connected < n) {
       auto ac = scl::details::AcceptConnection(ssock);
       std::shared_ptr<scl::Channel> channel =
           std::make_shared<scl::TcpChannel>(ac.socket);
       unsigned id;
       channel->Recv(id);
+      if (id <= my_id || id >= config.NetworkSize() || channels[id]) {
+        // Not a party we are waiting for.
+        channel->Close();
+        continue;
+      }
       channels[id] = channel;
+      connected++;
     }
     scl::details::CloseSocket(ssock);
   }
-- 
2.43.0


From 05b95c812c5546785ba1df97c102806ed9c59d33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:04 +0000
Subject: [PATCH 10/15] fix: the mask of Z2k for K the width of its word is all
 ones, without an undefined shift

---
 secure-computation-library/include/scl/math/z2k/details.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/math/z2k/details.h b/secure-computation-library/include/scl/math/z2k/details.h
index 039b729..def9c6a 100644
--- a/secure-computation-library/include/scl/math/z2k/details.h
+++ b/secure-computation-library/include/scl/math/z2k/details.h
@@ -95,7 +95,7 @@ void InvertZ2k(T& v) {
   v = z;
 }
 
-#define _SCL_MASK(T, K) ((static_cast<T>(1) << K) - 1)
+#define _SCL_MASK(T, K) (~static_cast<T>(0) >> (8 * sizeof(T) - (K)))
 
 /**
  * @brief Compute equality modulo a power of 2.
-- 
2.43.0


From 2455f42a93923e4ce531c531fb3ffa5f1e03e55c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:06 +0000
Subject: [PATCH 11/15] fix: reading a Z2k element reads its ByteSize() bytes,
 not its word's

---
 secure-computation-library/include/scl/math/z2k/details.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/math/z2k/details.h b/secure-computation-library/include/scl/math/z2k/details.h
index def9c6a..d5af960 100644
--- a/secure-computation-library/include/scl/math/z2k/details.h
+++ b/secure-computation-library/include/scl/math/z2k/details.h
@@ -110,7 +110,8 @@ bool EqualZ2k(const T& a, const T& b) {
  */
 template <typename T, std::size_t K, std::enable_if_t<(K <= 128), bool> = true>
 void ReadZ2k(T& v, const unsigned char* src) {
-  v = *(const T*)src;
+  v = 0;
+  std::memcpy(&v, src, (K - 1) / 8 + 1);
   v &= _SCL_MASK(T, K);
 }
 
-- 
2.43.0


From e6cb3243b2f6bc0c16edaf73456f0f0dc02dd79d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:41 +0000
Subject: [PATCH 12/15] fix: packing more secrets than the degree admits is
 rejected instead of looping on an underflowed count

---
 secure-computation-library/include/scl/ss/packed.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/secure-computation-library/include/scl/ss/packed.h b/secure-computation-library/include/scl/ss/packed.h
index aca19bb..c279eca 100644
--- a/secure-computation-library/include/scl/ss/packed.h
+++ b/secure-computation-library/include/scl/ss/packed.h
@@ -71,6 +71,8 @@ namespace scl {
      */
     template <typename T>
     EvPolynomial<T> EvPolyFromSecretsAndDegree(const Vec<T>& secrets, std::size_t degree, PRG& prg) {
+      if (degree + 1 < secrets.Size())
+	throw std::invalid_argument("degree too small for the number of secrets");
       Vec<T> x_points;
       x_points.Reserve(degree+1);
       for (std::size_t i = 0; i < secrets.Size(); i++) { x_points.Emplace(T(-i)); }
-- 
2.43.0


From c5a90fd8ced7e2e85f9ccd2dc2f1fb1816dd2bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:44 +0000
Subject: [PATCH 13/15] fix: an empty base64 string is read without touching
 memory before it

---
 secure-computation-library/include/scl/math/str.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/secure-computation-library/include/scl/math/str.h b/secure-computation-library/include/scl/math/str.h
index 032ebb2..a77f5de 100644
--- a/secure-computation-library/include/scl/math/str.h
+++ b/secure-computation-library/include/scl/math/str.h
@@ -156,7 +156,7 @@ void FromStringBase64(T& t, const std::string& s) {
 
   t = 0;
   std::size_t i = 0;
-  bool has_padding = s[n - 1] == '=';
+  bool has_padding = n != 0 && s[n - 1] == '=';
   auto m = n - (has_padding ? 4 : 0);
 
   while (i < m) {
-- 
2.43.0


From e800ab87166190a61e511573cf28498063f52cfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:19 +0000
Subject: [PATCH 14/15] fix: scale vectors and matrices correctly when the
 factor is one of their entries

---
 secure-computation-library/include/scl/math/mat.h | 3 ++-
 secure-computation-library/include/scl/math/vec.h | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/include/scl/math/mat.h b/secure-computation-library/include/scl/math/mat.h
index 0ba5ca8..12581f9 100644
--- a/secure-computation-library/include/scl/math/mat.h
+++ b/secure-computation-library/include/scl/math/mat.h
@@ -259,7 +259,8 @@ class Mat {
    * @return this scaled by \p scalar.
    */
   Mat& ScalarMultiplyInPlace(const T& scalar) {
-    for (auto& v : mValues) v *= scalar;
+    const T s = scalar;  // scalar may be one of our own entries
+    for (auto& v : mValues) v *= s;
     return *this;
   };
 
diff --git a/secure-computation-library/include/scl/math/vec.h b/secure-computation-library/include/scl/math/vec.h
index 213090a..30e607d 100644
--- a/secure-computation-library/include/scl/math/vec.h
+++ b/secure-computation-library/include/scl/math/vec.h
@@ -257,7 +257,8 @@ class Vec {
    * @return a scaled version of this vector.
    */
   Vec& ScalarMultiplyInPlace(const T& scalar) {
-    for (auto& v : mValues) v *= scalar;
+    const T s = scalar;  // scalar may be one of our own entries
+    for (auto& v : mValues) v *= s;
     return *this;
   };
 
-- 
2.43.0


From 23a88b4fd077387328d72c73d1d7cd870fc44778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:19 +0000
Subject: [PATCH 15/15] fix: row operations use the factor passed even when it
 is an entry of the matrix

---
 secure-computation-library/include/scl/math/la.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/secure-computation-library/include/scl/math/la.h b/secure-computation-library/include/scl/math/la.h
index fceb288..34f31db 100644
--- a/secure-computation-library/include/scl/math/la.h
+++ b/secure-computation-library/include/scl/math/la.h
@@ -54,7 +54,8 @@ void SwapRows(Mat<T>& A, std::size_t k, std::size_t h) {
  */
 template <typename T>
 void MultiplyRow(Mat<T>& A, std::size_t row, const T& m) {
-  for (std::size_t j = 0; j < A.Cols(); ++j) A(row, j) *= m;
+  const T s = m;  // m may be an entry of A
+  for (std::size_t j = 0; j < A.Cols(); ++j) A(row, j) *= s;
 }
 
 /**
@@ -66,7 +67,8 @@ void MultiplyRow(Mat<T>& A, std::size_t row, const T& m) {
  */
 template <typename T>
 void AddRows(Mat<T>& A, std::size_t dst, std::size_t op, const T& m) {
-  for (std::size_t j = 0; j < A.Cols(); ++j) A(dst, j) += A(op, j) * m;
+  const T s = m;  // m may be an entry of A
+  for (std::size_t j = 0; j < A.Cols(); ++j) A(dst, j) += A(op, j) * s;
 }
 
 /**
-- 
2.43.0

