From f3bf581fc84ae1f6a3b28aeddec5b0d9b02e917a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:59 +0000
Subject: [PATCH 01/44] fix: EncRelation challenge binds the instance and vec_G

The Fiat-Shamir challenge covered only B, A, C, D, so vec_G could be chosen
after the challenge and a false statement proved. Compute vec_G before the
challenge and hash it together with the instance.
---
 zkp/nizk/nizk_enc_relation.hpp | 49 +++++++++++++++++++++++-----------
 1 file changed, 33 insertions(+), 16 deletions(-)

diff --git a/zkp/nizk/nizk_enc_relation.hpp b/zkp/nizk/nizk_enc_relation.hpp
index ffa08f2..9f080bf 100755
--- a/zkp/nizk/nizk_enc_relation.hpp
+++ b/zkp/nizk/nizk_enc_relation.hpp
@@ -76,6 +76,15 @@ std::vector<size_t> Decompose(size_t l, size_t n, size_t m)
     return vec_index;  
 }  
 
+// the challenge must bind the statement being proved
+void AppendInstance(std::string &transcript_str, Instance &instance)
+{
+    transcript_str += instance.ek.ToByteString(); 
+    for(auto i = 0; i < instance.vec_CT.size(); i++){
+        transcript_str += TwistedExponentialElGamal::CTToByteString(instance.vec_CT[i]);
+    }
+}
+
 Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcript_str)
 {    
     Proof proof;
@@ -126,22 +135,6 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
     }
     proof.D = Pedersen::Commit(pp.com_part, vec_d, rD);
 
-    transcript_str += proof.B.ToByteString(); 
-    transcript_str += proof.A.ToByteString();
-    transcript_str += proof.C.ToByteString();
-    transcript_str += proof.D.ToByteString(); 
-
-    // compute the challenge
-    BigInt x = Hash::StringToBigInt(transcript_str); // apply FS-transform to generate the challenge
-
-    // compute the response     
-    proof.vec_f.resize(pp.m * pp.n); 
-    for(auto i = 0; i < pp.m * pp.n; i++){
-        proof.vec_f[i] = vec_delta[i] * x + vec_a[i];
-    }
-    proof.zA = (rB * x + rA) % order; 
-    proof.zC = (rC * x + rD) % order; 
-
     std::vector<BigInt> vec_rho = GenRandomBigIntVectorLessThan(pp.m, order);
 
     proof.vec_G.resize(pp.m);
@@ -177,6 +170,26 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
         proof.vec_G[k] = TwistedExponentialElGamal::HomoAdd(proof.vec_G[k], vec_mask_CT[k]);
     }
 
+    AppendInstance(transcript_str, instance); 
+    transcript_str += proof.B.ToByteString(); 
+    transcript_str += proof.A.ToByteString();
+    transcript_str += proof.C.ToByteString();
+    transcript_str += proof.D.ToByteString(); 
+    for(auto k = 0; k < proof.vec_G.size(); k++){
+        transcript_str += TwistedExponentialElGamal::CTToByteString(proof.vec_G[k]);
+    }
+
+    // compute the challenge
+    BigInt x = Hash::StringToBigInt(transcript_str); // apply FS-transform to generate the challenge
+
+    // compute the response     
+    proof.vec_f.resize(pp.m * pp.n); 
+    for(auto i = 0; i < pp.m * pp.n; i++){
+        proof.vec_f[i] = vec_delta[i] * x + vec_a[i];
+    }
+    proof.zA = (rB * x + rA) % order; 
+    proof.zC = (rC * x + rD) % order; 
+
     std::vector<BigInt> exp_x(pp.m+1);
     exp_x[0] = bn_1;  
     for(auto k = 1; k <= pp.m; k++){
@@ -199,10 +212,14 @@ bool Verify(PP &pp, Instance &instance, std::string &transcript_str, Proof &proo
     size_t N = instance.vec_CT.size();
     pp.m = log(N)/log(pp.n);
     
+    AppendInstance(transcript_str, instance); 
     transcript_str += proof.B.ToByteString(); 
     transcript_str += proof.A.ToByteString();
     transcript_str += proof.C.ToByteString();
     transcript_str += proof.D.ToByteString(); 
+    for(auto k = 0; k < proof.vec_G.size(); k++){
+        transcript_str += TwistedExponentialElGamal::CTToByteString(proof.vec_G[k]);
+    }
 
     // compute the challenge
     BigInt x = Hash::StringToBigInt(transcript_str); // apply FS-transform to generate the challenge
-- 
2.43.0


From 456a90d7245b6bd1be41d7ef0d908ce26453d09f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:59 +0000
Subject: [PATCH 02/44] fix: EncRelation responses are reduced modulo the group
 order

vec_f and z were sent as plain integers: their size and divisibility by the
challenge disclose the secret index and the encryption randomness.
---
 zkp/nizk/nizk_enc_relation.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/zkp/nizk/nizk_enc_relation.hpp b/zkp/nizk/nizk_enc_relation.hpp
index 9f080bf..2833965 100755
--- a/zkp/nizk/nizk_enc_relation.hpp
+++ b/zkp/nizk/nizk_enc_relation.hpp
@@ -185,7 +185,7 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
     // compute the response     
     proof.vec_f.resize(pp.m * pp.n); 
     for(auto i = 0; i < pp.m * pp.n; i++){
-        proof.vec_f[i] = vec_delta[i] * x + vec_a[i];
+        proof.vec_f[i] = (vec_delta[i] * x + vec_a[i]) % order;
     }
     proof.zA = (rB * x + rA) % order; 
     proof.zC = (rC * x + rD) % order; 
@@ -200,6 +200,7 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
     for(auto k = 0; k < pp.m; k++){
         proof.z -= vec_rho[k] * exp_x[k]; 
     }
+    proof.z = proof.z % order; 
 
     return proof;
 
@@ -231,7 +232,7 @@ bool Verify(PP &pp, Instance &instance, std::string &transcript_str, Proof &proo
         for(auto i = 1; i < pp.n; i++){
             right += -proof.vec_f[j * pp.n + i]; 
         }
-        if(proof.vec_f[j * pp.n] != right) vec_condition[0] = false;
+        if((proof.vec_f[j * pp.n] - right) % order != bn_0) vec_condition[0] = false;
     }
 
     // check condition 2
-- 
2.43.0


From b7f1ae516543fe9361fb54a5cc64de438806ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:59 +0000
Subject: [PATCH 03/44] fix: EncRelation uses an exact integer logarithm for
 the number of digits

log(N)/log(n) rounds below the exact value for some powers (243 = 3^5), and
honest proofs for such lists were rejected.
---
 zkp/nizk/nizk_enc_relation.hpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/zkp/nizk/nizk_enc_relation.hpp b/zkp/nizk/nizk_enc_relation.hpp
index 2833965..e5b7f83 100755
--- a/zkp/nizk/nizk_enc_relation.hpp
+++ b/zkp/nizk/nizk_enc_relation.hpp
@@ -53,6 +53,17 @@ struct Proof
 };
  
 
+// the largest m such that n^m <= N (floating-point log ratios round down for e.g. N=243, n=3)
+size_t IntegerLog(size_t N, size_t n)
+{
+    size_t m = 0; 
+    while(N >= n){
+        N = N / n; 
+        m++; 
+    }
+    return m; 
+}
+
 /* Setup algorithm */ 
 PP Setup(Pedersen::PP &com_pp, TwistedExponentialElGamal::PP &enc_pp, size_t n)
 { 
@@ -60,7 +71,7 @@ PP Setup(Pedersen::PP &com_pp, TwistedExponentialElGamal::PP &enc_pp, size_t n)
     pp.com_part = com_pp;
     pp.enc_part = enc_pp; 
     pp.n = n;
-    pp.m = log(pp.com_part.N_max)/log(pp.n); // the default value 
+    pp.m = IntegerLog(pp.com_part.N_max, pp.n); // the default value 
 
     return pp; 
 }
@@ -89,7 +100,7 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
 {    
     Proof proof;
     size_t N = instance.vec_CT.size();
-    pp.m = log(N)/log(pp.n);
+    pp.m = IntegerLog(N, pp.n);
 
     std::vector<size_t> vec_index_star = Decompose(witness.l, pp.n, pp.m);     
     
@@ -211,7 +222,7 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
 bool Verify(PP &pp, Instance &instance, std::string &transcript_str, Proof &proof)
 {    
     size_t N = instance.vec_CT.size();
-    pp.m = log(N)/log(pp.n);
+    pp.m = IntegerLog(N, pp.n);
     
     AppendInstance(transcript_str, instance); 
     transcript_str += proof.B.ToByteString(); 
-- 
2.43.0


From 95e7208666ca8d665e0bee4b424e1e33b77f5f5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:01:14 +0000
Subject: [PATCH 04/44] fix: ring signature challenge binds ct_vk and ct_s

ct_s was chosen freely after the challenge: anyone could pick z_s, z_t and
solve for ct_s, i.e. sign for the ring without any secret key.
---
 signature/accountable_ring_sig.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/signature/accountable_ring_sig.hpp b/signature/accountable_ring_sig.hpp
index 4149cec..7e4d3e2 100644
--- a/signature/accountable_ring_sig.hpp
+++ b/signature/accountable_ring_sig.hpp
@@ -105,6 +105,8 @@ Signature Sign(PP &pp, BigInt &sk, std::vector<ECPoint> &vec_R, std::string &mes
     nizk_witness.l = l;
 
     std::string transcript_str = message; 
+    transcript_str += TwistedExponentialElGamal::CTToByteString(sigma.ct_vk); 
+    transcript_str += TwistedExponentialElGamal::CTToByteString(sigma.ct_s); 
 
     sigma.correct_encryption_proof = EncRelation::Prove(nizk_pp, nizk_instance, nizk_witness, transcript_str); 
 
@@ -138,6 +140,8 @@ bool Verify(PP &pp, std::vector<ECPoint> &vec_R, std::string &message, Signature
     std::vector<bool> vec_condition(2, true); 
 
     std::string transcript_str = message;     
+    transcript_str += TwistedExponentialElGamal::CTToByteString(sigma.ct_vk); 
+    transcript_str += TwistedExponentialElGamal::CTToByteString(sigma.ct_s); 
     vec_condition[0] = EncRelation::Verify(nizk_pp, nizk_instance, transcript_str, sigma.correct_encryption_proof); 
 
     BigInt x = Hash::StringToBigInt(transcript_str);
-- 
2.43.0


From 719f25d3bceb61dacd4178eb1117cb1b3c5365b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:07 +0000
Subject: [PATCH 05/44] fix: BigInt::ModNegate returns the canonical residue
 for every multiple of the modulus

---
 crypto/bigint.hpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/crypto/bigint.hpp b/crypto/bigint.hpp
index 1a49aa1..9028d7c 100644
--- a/crypto/bigint.hpp
+++ b/crypto/bigint.hpp
@@ -473,10 +473,11 @@ BigInt BigInt::ModSquareRoot(const BigInt& modulus) const {
 // Computes -a mod m.
 // Causes a check failure if the operation fails.
 BigInt BigInt::ModNegate(const BigInt& modulus) const {
-    if (IsZero()) {
-        return *this;
+    BigInt residue = Mod(modulus);
+    if (residue.IsZero()) {
+        return residue;
     }
-    return modulus - Mod(modulus);
+    return modulus - residue;
 }
 
 // Returns a BigInt whose value is (*this >> n).
-- 
2.43.0


From 26b78aa41393468ed040cfb542e7f6da3ab9abe8 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:25:08 +0000
Subject: [PATCH 06/44] fix: ProofToByteString of plaintext equality proofs
 encodes B, z and t

---
 zkp/nizk/nizk_plaintext_equality.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zkp/nizk/nizk_plaintext_equality.hpp b/zkp/nizk/nizk_plaintext_equality.hpp
index 90921cb..ac74b66 100755
--- a/zkp/nizk/nizk_plaintext_equality.hpp
+++ b/zkp/nizk/nizk_plaintext_equality.hpp
@@ -105,9 +105,9 @@ std::string ProofToByteString(Proof &proof)
     for(auto i = 0; i < proof.vec_A.size(); i++){
         str += proof.vec_A[i].ToByteString();
     }
-    proof.B.ToByteString(); 
-    proof.z.ToByteString(); 
-    proof.t.ToByteString(); 
+    str += proof.B.ToByteString(); 
+    str += proof.z.ToByteString(); 
+    str += proof.t.ToByteString(); 
     return str; 
 } 
 
-- 
2.43.0


From c2f7f3eaa913ee3c7c54eef0c1fd5ae40002f35a Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:25:08 +0000
Subject: [PATCH 07/44] fix: store the length of BigInt and ECPoint vectors so
 that they can be read back

---
 crypto/bigint.hpp   | 5 +++++
 crypto/ec_point.hpp | 5 +++++
 2 files changed, 10 insertions(+)

diff --git a/crypto/bigint.hpp b/crypto/bigint.hpp
index 9028d7c..1c9bc73 100644
--- a/crypto/bigint.hpp
+++ b/crypto/bigint.hpp
@@ -644,6 +644,8 @@ std::ifstream &operator>>(std::ifstream &fin, BigInt &a)
 
 std::ofstream &operator<<(std::ofstream &fout, const std::vector<BigInt>& vec_a)
 { 
+    size_t LEN = vec_a.size(); 
+    fout.write(reinterpret_cast<const char *>(&LEN), sizeof(size_t)); 
     for(auto i = 0; i < vec_a.size(); i++){
         fout << vec_a[i]; 
     }
@@ -652,6 +654,9 @@ std::ofstream &operator<<(std::ofstream &fout, const std::vector<BigInt>& vec_a)
  
 std::ifstream &operator>>(std::ifstream &fin, std::vector<BigInt>& vec_a)
 { 
+    size_t LEN; 
+    fin.read(reinterpret_cast<char *>(&LEN), sizeof(size_t)); 
+    vec_a.resize(LEN); 
     for(auto i = 0; i < vec_a.size(); i++){
         fin >> vec_a[i]; 
     }
diff --git a/crypto/ec_point.hpp b/crypto/ec_point.hpp
index ee427c7..17908d2 100644
--- a/crypto/ec_point.hpp
+++ b/crypto/ec_point.hpp
@@ -314,6 +314,8 @@ std::ifstream &operator>>(std::ifstream &fin, ECPoint &A)
 
 std::ofstream &operator<<(std::ofstream &fout, const std::vector<ECPoint> &vec_A)
 { 
+    size_t LEN = vec_A.size(); 
+    fout.write(reinterpret_cast<const char *>(&LEN), sizeof(size_t)); 
     for(auto i = 0; i < vec_A.size(); i++){
         fout << vec_A[i];
     }
@@ -322,6 +324,9 @@ std::ofstream &operator<<(std::ofstream &fout, const std::vector<ECPoint> &vec_A
  
 std::ifstream &operator>>(std::ifstream &fin, std::vector<ECPoint> &vec_A)
 { 
+    size_t LEN; 
+    fin.read(reinterpret_cast<char *>(&LEN), sizeof(size_t)); 
+    vec_A.resize(LEN); 
     for(auto i = 0; i < vec_A.size(); i++){
         fin >> vec_A[i];
     }
-- 
2.43.0


From caf53612c193a860f1104a55d707e6dab9f334cb Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:25:08 +0000
Subject: [PATCH 08/44] fix: the point at infinity survives writing to and
 reading from a file

---
 crypto/ec_point.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/crypto/ec_point.hpp b/crypto/ec_point.hpp
index 17908d2..7104a65 100644
--- a/crypto/ec_point.hpp
+++ b/crypto/ec_point.hpp
@@ -279,10 +279,12 @@ std::ofstream &operator<<(std::ofstream &fout, const ECPoint &A)
     int thread_num = omp_get_thread_num();
 	#ifdef ECPOINT_COMPRESSED
 		unsigned char buffer[POINT_COMPRESSED_BYTE_LEN];
+		memset(buffer, 0, POINT_COMPRESSED_BYTE_LEN); // the point at infinity is encoded by one zero byte
 		EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
         fout.write(reinterpret_cast<char *>(buffer), POINT_COMPRESSED_BYTE_LEN); 
 	#else
 		unsigned char buffer[POINT_BYTE_LEN];
+		memset(buffer, 0, POINT_BYTE_LEN); // the point at infinity is encoded by one zero byte
 		EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_UNCOMPRESSED, buffer, POINT_BYTE_LEN, bn_ctx[thread_num]);
         fout.write(reinterpret_cast<char *>(buffer), POINT_BYTE_LEN); 
 	#endif
@@ -296,11 +298,11 @@ std::ifstream &operator>>(std::ifstream &fin, ECPoint &A)
     #ifdef ECPOINT_COMPRESSED
         unsigned char buffer[POINT_COMPRESSED_BYTE_LEN];
         fin.read(reinterpret_cast<char *>(buffer), POINT_COMPRESSED_BYTE_LEN); 
-        EC_POINT_oct2point(group, A.point_ptr, buffer, POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
+        EC_POINT_oct2point(group, A.point_ptr, buffer, (buffer[0] == 0)? 1 : POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
     #else
         unsigned char buffer[POINT_BYTE_LEN];
         fin.read(reinterpret_cast<char *>(buffer), POINT_BYTE_LEN); 
-        EC_POINT_oct2point(group, A.point_ptr, buffer, POINT_BYTE_LEN, bn_ctx[thread_num]); 
+        EC_POINT_oct2point(group, A.point_ptr, buffer, (buffer[0] == 0)? 1 : POINT_BYTE_LEN, bn_ctx[thread_num]); 
     #endif
     return fin;            
 }
-- 
2.43.0


From e3b9d8ecb71d56ce68944c62ccc8fba92a705233 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:25:08 +0000
Subject: [PATCH 09/44] fix: fixed-length byte strings of numbers keep
 concatenated encodings unambiguous

---
 crypto/bigint.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/crypto/bigint.hpp b/crypto/bigint.hpp
index 1c9bc73..3392f34 100644
--- a/crypto/bigint.hpp
+++ b/crypto/bigint.hpp
@@ -288,10 +288,11 @@ void BigInt::ToByteString(unsigned char* buffer, size_t LEN) const
 
 std::string BigInt::ToByteString() const
 {
-    size_t LEN = this->GetByteLength();
+    // pad to the length of field elements, so that concatenated encodings are unambiguous
+    size_t LEN = std::max(this->GetByteLength(), BN_BYTE_LEN);
     unsigned char buffer[LEN];
     memset(buffer, 0, LEN);  
-    BN_bn2bin(this->bn_ptr, buffer);
+    BN_bn2binpad(this->bn_ptr, buffer, LEN);
     std::string result(reinterpret_cast<char *>(buffer), LEN); 
     return result;
 }  
-- 
2.43.0


From 7499fdcdcdbdddef6b18894f034624d565475b95 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:25:08 +0000
Subject: [PATCH 10/44] fix: load unaligned buffers with _mm_loadu_si128

---
 crypto/block.hpp    | 2 +-
 crypto/ec_point.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/crypto/block.hpp b/crypto/block.hpp
index 8040e91..3ca8b1b 100644
--- a/crypto/block.hpp
+++ b/crypto/block.hpp
@@ -201,7 +201,7 @@ std::ifstream &operator>>(std::ifstream &fin, block &a)
 { 
     char buffer[16];
     fin.read(buffer, 16); 
-    a = _mm_load_si128((block *)buffer); 
+    a = _mm_loadu_si128((block *)buffer); 
     return fin;            
 }
 
diff --git a/crypto/ec_point.hpp b/crypto/ec_point.hpp
index 7104a65..0950895 100644
--- a/crypto/ec_point.hpp
+++ b/crypto/ec_point.hpp
@@ -260,8 +260,8 @@ size_t ECPoint::FastToUint64() const
                        POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
 
     block data[2];
-    data[0] = _mm_load_si128((block *)(buffer));
-    data[1] = _mm_load_si128((block *)(buffer+16));
+    data[0] = _mm_loadu_si128((block *)(buffer));
+    data[1] = _mm_loadu_si128((block *)(buffer+16));
 
     AES::FastECBEnc(AES::fixed_enc_key, &data[0], 1);
 
-- 
2.43.0


From fb507bf1fc4efdd8985d2232830e02d7581db7d2 Mon Sep 17 00:00:00 2001
From: verif <v@v>
Date: Wed, 18 Nov 2026 09:28:10 +0000
Subject: [PATCH 11/44] fix: PRG seeds and parameters of DDHOPRF, IKNPOTE and
 ALSZOTE are written in binary so that they read back

---
 crypto/prg.hpp        | 3 +++
 mpc/oprf/ddh_oprf.hpp | 3 +++
 mpc/ot/alsz_ote.hpp   | 3 +++
 mpc/ot/iknp_ote.hpp   | 3 +++
 4 files changed, 12 insertions(+)

diff --git a/crypto/prg.hpp b/crypto/prg.hpp
index 2dd24f8..abf8c69 100644
--- a/crypto/prg.hpp
+++ b/crypto/prg.hpp
@@ -19,6 +19,9 @@ const char fixed_seed[] = "\x61\x7e\x8d\xa2\xa0\x51\x1e\x96\x5e\x41\xc2\x9b\x15\
 
 namespace PRG{
 
+using Serialization::operator<<; 
+using Serialization::operator>>; 
+
 struct Seed{ 
     size_t counter = 0; 
     AES::Key aes_key;
diff --git a/mpc/oprf/ddh_oprf.hpp b/mpc/oprf/ddh_oprf.hpp
index 6f7225a..199f972 100644
--- a/mpc/oprf/ddh_oprf.hpp
+++ b/mpc/oprf/ddh_oprf.hpp
@@ -11,6 +11,9 @@
 
 namespace DDHOPRF{
 
+using Serialization::operator<<; 
+using Serialization::operator>>; 
+
 
 /*
 ** the default domain element type is block, thus the default DOMAIN_SIZE is 16 bytes
diff --git a/mpc/ot/alsz_ote.hpp b/mpc/ot/alsz_ote.hpp
index fdda7e9..d504959 100644
--- a/mpc/ot/alsz_ote.hpp
+++ b/mpc/ot/alsz_ote.hpp
@@ -14,6 +14,9 @@ inline const size_t BASE_LEN = 128; // the default length of base OT
 
 namespace ALSZOTE{
 
+using Serialization::operator<<; 
+using Serialization::operator>>; 
+
 
 // check if the parameters are legal
 void CheckParameters(size_t ROW_NUM, size_t COLUMN_NUM)
diff --git a/mpc/ot/iknp_ote.hpp b/mpc/ot/iknp_ote.hpp
index 5530496..56094c5 100644
--- a/mpc/ot/iknp_ote.hpp
+++ b/mpc/ot/iknp_ote.hpp
@@ -11,6 +11,9 @@
 
 namespace IKNPOTE{
 
+using Serialization::operator<<; 
+using Serialization::operator>>; 
+
 
 // check if the parameters are legal
 void CheckParameters(size_t ROW_NUM, size_t COLUMN_NUM)
-- 
2.43.0


From b4421fd7d53486aa0a1a85ecb9fbe4872349a924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:59:41 +0000
Subject: [PATCH 12/44] fix: the point at infinity survives the network channel

---
 netio/stream_channel.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/netio/stream_channel.hpp b/netio/stream_channel.hpp
index f411deb..6707623 100644
--- a/netio/stream_channel.hpp
+++ b/netio/stream_channel.hpp
@@ -281,6 +281,7 @@ void NetIO::SendECPoints(const ECPoint* A, size_t LEN)
 	int thread_num = omp_get_thread_num();
 	#ifdef ECPOINT_COMPRESSED
 		unsigned char* buffer = new unsigned char[LEN*POINT_COMPRESSED_BYTE_LEN];
+		memset(buffer, 0, LEN*POINT_COMPRESSED_BYTE_LEN); // the point at infinity is encoded by one zero byte
 		for(auto i = 0; i < LEN; i++) {
     		EC_POINT_point2oct(group, A[i].point_ptr, POINT_CONVERSION_COMPRESSED, 
 				               buffer + i*POINT_COMPRESSED_BYTE_LEN, POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
@@ -288,6 +289,7 @@ void NetIO::SendECPoints(const ECPoint* A, size_t LEN)
 		SendBytes(buffer, LEN*POINT_COMPRESSED_BYTE_LEN);
 	#else
 		unsigned char* buffer = new unsigned char[LEN*POINT_BYTE_LEN];
+		memset(buffer, 0, LEN*POINT_BYTE_LEN); // the point at infinity is encoded by one zero byte
 		for(auto i = 0; i < LEN; i++) {
     		EC_POINT_point2oct(group, A[i].point_ptr, POINT_CONVERSION_UNCOMPRESSED, 
 				               buffer + i*POINT_BYTE_LEN, POINT_BYTE_LEN, bn_ctx[thread_num]);
@@ -306,13 +308,14 @@ void NetIO::ReceiveECPoints(ECPoint* A, size_t LEN)
 		ReceiveBytes(buffer, LEN*POINT_COMPRESSED_BYTE_LEN); 
 		for(auto i = 0; i < LEN; i++) {
 			EC_POINT_oct2point(group, A[i].point_ptr, buffer+i*POINT_COMPRESSED_BYTE_LEN, 
-			                   POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
+			                   (buffer[i*POINT_COMPRESSED_BYTE_LEN] == 0)? 1 : POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
 		}
 	#else
 		unsigned char* buffer = new unsigned char[LEN*POINT_BYTE_LEN];
 		ReceiveBytes(buffer, LEN*POINT_BYTE_LEN); 
 		for(auto i = 0; i < LEN; i++) {
-			EC_POINT_oct2point(group, A[i].point_ptr, buffer+i*POINT_BYTE_LEN, POINT_BYTE_LEN, bn_ctx[thread_num]);
+			EC_POINT_oct2point(group, A[i].point_ptr, buffer+i*POINT_BYTE_LEN, 
+			                   (buffer[i*POINT_BYTE_LEN] == 0)? 1 : POINT_BYTE_LEN, bn_ctx[thread_num]);
 		}
 	#endif
 
@@ -347,10 +350,12 @@ void NetIO::SendECPoint(const ECPoint &A)
 	int thread_num = omp_get_thread_num();
 	#ifdef ECPOINT_COMPRESSED
 		unsigned char buffer[POINT_COMPRESSED_BYTE_LEN];
+		memset(buffer, 0, POINT_COMPRESSED_BYTE_LEN); // the point at infinity is encoded by one zero byte
 		EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
 		SendBytes(buffer, POINT_COMPRESSED_BYTE_LEN);
 	#else
 		unsigned char buffer[POINT_BYTE_LEN];
+		memset(buffer, 0, POINT_BYTE_LEN); // the point at infinity is encoded by one zero byte
 		EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_UNCOMPRESSED, buffer, POINT_BYTE_LEN, bn_ctx[thread_num]);
 		SendBytes(buffer, POINT_BYTE_LEN);
 	#endif
@@ -362,11 +367,11 @@ void NetIO::ReceiveECPoint(ECPoint &A)
 	#ifdef ECPOINT_COMPRESSED
 		unsigned char buffer[POINT_COMPRESSED_BYTE_LEN];
 		ReceiveBytes(buffer, POINT_COMPRESSED_BYTE_LEN); 
-		EC_POINT_oct2point(group, A.point_ptr, buffer, POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
+		EC_POINT_oct2point(group, A.point_ptr, buffer, (buffer[0] == 0)? 1 : POINT_COMPRESSED_BYTE_LEN, bn_ctx[thread_num]);
 	#else
 		unsigned char buffer[POINT_BYTE_LEN];
 		ReceiveBytes(buffer, POINT_BYTE_LEN); 
-		EC_POINT_oct2point(group, A.point_ptr, buffer, POINT_BYTE_LEN, bn_ctx[thread_num]);
+		EC_POINT_oct2point(group, A.point_ptr, buffer, (buffer[0] == 0)? 1 : POINT_BYTE_LEN, bn_ctx[thread_num]);
 	#endif
 }
 
-- 
2.43.0


From 7ff22bc4ce2e7340d4883ce2ec6c3f624f75d11f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:55 +0000
Subject: [PATCH 13/44] fix: Block::ClearBit clears the bit instead of keeping
 only its complement

---
 crypto/block.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/crypto/block.hpp b/crypto/block.hpp
index 3ca8b1b..05a06c5 100644
--- a/crypto/block.hpp
+++ b/crypto/block.hpp
@@ -54,7 +54,7 @@ void SetBit(block &a, size_t n)
 // set the n-th bit = 0
 void ClearBit(block &a, size_t n)
 {
-    a = _mm_andnot_si128(a, GenMaskBlock(n));
+    a = _mm_andnot_si128(GenMaskBlock(n), a);
 }
 
 inline std::vector<block> AND(std::vector<block> &vec_a, std::vector<block> &vec_b) 
-- 
2.43.0


From 342ab62159c7736f1444c2d1af6ca390ffd3ab23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:12:55 +0000
Subject: [PATCH 14/44] fix: BitMatrixTranspose handles matrices with 8 rows or
 8 columns

---
 crypto/block.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/crypto/block.hpp b/crypto/block.hpp
index 05a06c5..8247cd9 100644
--- a/crypto/block.hpp
+++ b/crypto/block.hpp
@@ -286,7 +286,7 @@ inline void BitMatrixTranspose(uint8_t const *input, uint64_t ROW_NUM, uint64_t
     assert(ROW_NUM%8 == 0 && COLUMN_NUM%8 == 0);
 
     // Do the main body in 16x8 blocks:
-    for (rr = 0; rr <= ROW_NUM - 16; rr += 16) {
+    for (rr = 0; rr + 16 <= ROW_NUM; rr += 16) {
         for (cc = 0; cc < COLUMN_NUM; cc += 8) {
             vec = _mm_set_epi8(INPUT(rr + 15, cc), INPUT(rr + 14, cc), INPUT(rr + 13, cc),
                                INPUT(rr + 12, cc), INPUT(rr + 11, cc), INPUT(rr + 10, cc),
@@ -305,7 +305,7 @@ inline void BitMatrixTranspose(uint8_t const *input, uint64_t ROW_NUM, uint64_t
     if ((COLUMN_NUM%8 == 0 && COLUMN_NUM%16 != 0) || (ROW_NUM%8 == 0 && ROW_NUM%16 != 0)) {
         // The fancy optimizations in the else-branch don't work if the above if-condition
         // holds, so we use the simpler non-simd variant for that case.
-        for (cc = 0; cc <= COLUMN_NUM - 16; cc += 16) {
+        for (cc = 0; cc + 16 <= COLUMN_NUM; cc += 16) {
             for (i = 0; i < 8; ++i) {
                 tmp.b[i] = h = *(uint16_t const *)&INPUT(rr + i, cc);
                 tmp.b[i + 8] = h >> 8;
@@ -317,7 +317,7 @@ inline void BitMatrixTranspose(uint8_t const *input, uint64_t ROW_NUM, uint64_t
         }
     } 
     else {
-        for (cc = 0; cc <= COLUMN_NUM - 16; cc += 16) {
+        for (cc = 0; cc + 16 <= COLUMN_NUM; cc += 16) {
             vec = _mm_set_epi16(*(uint16_t const *)&INPUT(rr + 7, cc),
                                 *(uint16_t const *)&INPUT(rr + 6, cc),
                                 *(uint16_t const *)&INPUT(rr + 5, cc),
-- 
2.43.0


From d1ffaf758fea0c2b69758c69750d7e5b99e90a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:32:17 +0000
Subject: [PATCH 15/44] fix: ALSZ OT extension setup ignored the requested base
 length

---
 mpc/ot/alsz_ote.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpc/ot/alsz_ote.hpp b/mpc/ot/alsz_ote.hpp
index d504959..35b1999 100644
--- a/mpc/ot/alsz_ote.hpp
+++ b/mpc/ot/alsz_ote.hpp
@@ -66,6 +66,7 @@ PP Setup(size_t BASE_LEN)
     PP pp; 
     pp.malicious = 0; 
     pp.baseOT = NPOT::Setup();
+    pp.BASE_LEN = BASE_LEN;
     return pp;
 }
 
-- 
2.43.0


From 7a4444d9a6428aee8fa736491fc82703af87e4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:29 +0000
Subject: [PATCH 16/44] fix: OTE-OPRF evaluation advanced the common seed, so a
 second evaluation gave other values

---
 mpc/oprf/ote_oprf.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/mpc/oprf/ote_oprf.hpp b/mpc/oprf/ote_oprf.hpp
index 182289f..30c3629 100644
--- a/mpc/oprf/ote_oprf.hpp
+++ b/mpc/oprf/ote_oprf.hpp
@@ -315,7 +315,8 @@ std::vector<std::vector<uint8_t>> Evaluate(PP &pp, std::vector<uint8_t> &key, st
 
     // aes_key_num = t + 1 (t in page 17)
     size_t aes_key_num = (pp.MATRIX_WIDTH / split_bucket_size) + 2;
-    std::vector<block> vec_salt = PRG::GenRandomBlocks(pp.common_seed, aes_key_num);
+    PRG::Seed common_seed = pp.common_seed; // work on a copy: every evaluation must use the same salts
+    std::vector<block> vec_salt = PRG::GenRandomBlocks(common_seed, aes_key_num);
 
     std::vector<block> vec_Encode_X = Encode(vec_X, vec_salt[0]);
 
@@ -397,7 +398,8 @@ std::vector<std::vector<uint8_t>> Client(NetIO &io, PP &pp, std::vector<block> &
 
     // aes_key_num = t + 1 (t in page 17)
     size_t aes_key_num = (pp.MATRIX_WIDTH / split_bucket_size) + 2;
-    std::vector<block> vec_keysalt = PRG::GenRandomBlocks(pp.common_seed, aes_key_num); // AES keys used
+    PRG::Seed common_seed = pp.common_seed; // work on a copy: every evaluation must use the same salts
+    std::vector<block> vec_keysalt = PRG::GenRandomBlocks(common_seed, aes_key_num); // AES keys used
 
     std::vector<block> vec_Encode_Y = Encode(vec_Y, vec_keysalt[0]);
 
-- 
2.43.0


From 1d712ce3940e3d65dcefd0a03e85fe9f718b973e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:29 +0000
Subject: [PATCH 17/44] fix: x25519 ElGamal drew keys and coins from a constant
 seed

---
 pke/elgamal.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pke/elgamal.hpp b/pke/elgamal.hpp
index 19e5863..19c9d8f 100755
--- a/pke/elgamal.hpp
+++ b/pke/elgamal.hpp
@@ -280,7 +280,7 @@ PP Setup()
 std::tuple<EC25519Point, std::vector<uint8_t>> KeyGen(const PP &pp)
 { 
     std::vector<uint8_t> sk(32); 
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
+    PRG::Seed seed = PRG::SetSeed(); // initialize PRG with a fresh seed
     GenRandomBytes(seed, sk.data(), 32);  // pick a random generator
     EC25519Point pk = pp.g * sk; // pk = g^sk  
 
@@ -300,7 +300,7 @@ CT Enc(const PP &pp, const EC25519Point &pk, const EC25519Point &m)
     CT ct;
     // generate the random coins 
     std::vector<uint8_t> r(32); 
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
+    PRG::Seed seed = PRG::SetSeed(); // initialize PRG with a fresh seed
     GenRandomBytes(seed, r.data(), 32);  // pick a random number
 
     // begin encryption
-- 
2.43.0


From 2c30592dc3af14f6e653682d666250367c01b80a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:29 +0000
Subject: [PATCH 18/44] fix: cwPRF-based PSI and mqRPMT drew both secret keys
 from the same constant seed

---
 mpc/psi/cwprf_psi.hpp     | 4 ++--
 mpc/rpmt/cwprf_mqrpmt.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpc/psi/cwprf_psi.hpp b/mpc/psi/cwprf_psi.hpp
index 87f5251..844d6c1 100644
--- a/mpc/psi/cwprf_psi.hpp
+++ b/mpc/psi/cwprf_psi.hpp
@@ -128,7 +128,7 @@ void Send(NetIO &io, PP &pp, std::vector<block> &vec_Y)
     auto start_time = std::chrono::steady_clock::now(); 
 
     uint8_t k1[32];
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
+    PRG::Seed seed = PRG::SetSeed(); // initialize PRG with a fresh seed
     GenRandomBytes(seed, k1, 32);  // pick a key k1
 
     std::vector<EC25519Point> vec_Hash_Y(pp.SENDER_ITEM_NUM);
@@ -183,7 +183,7 @@ std::vector<block> Receive(NetIO &io, PP &pp, std::vector<block> &vec_X)
     auto start_time = std::chrono::steady_clock::now(); 
 
     uint8_t k2[32];
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
+    PRG::Seed seed = PRG::SetSeed(); // initialize PRG with a fresh seed
     GenRandomBytes(seed, k2, 32);  // pick a key k2
 
     std::vector<EC25519Point> vec_Hash_X(pp.RECEIVER_ITEM_NUM); 
diff --git a/mpc/rpmt/cwprf_mqrpmt.hpp b/mpc/rpmt/cwprf_mqrpmt.hpp
index 3f50b4a..9db2b1f 100644
--- a/mpc/rpmt/cwprf_mqrpmt.hpp
+++ b/mpc/rpmt/cwprf_mqrpmt.hpp
@@ -250,7 +250,7 @@ std::vector<uint8_t> Server(NetIO &io, PP &pp, std::vector<block> &vec_Y)
     auto start_time = std::chrono::steady_clock::now(); 
 
     std::vector<uint8_t> k1(32);
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
+    PRG::Seed seed = PRG::SetSeed(); // initialize PRG with a fresh seed
     GenRandomBytes(seed, k1.data(), 32);  // pick a key k1
 
     std::vector<EC25519Point> vec_Hash_Y(pp.SERVER_LEN);
@@ -327,7 +327,7 @@ void Client(NetIO &io, PP &pp, std::vector<block> &vec_X)
     auto start_time = std::chrono::steady_clock::now(); 
 
     std::vector<uint8_t> k2(32);
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); // initialize PRG
+    PRG::Seed seed = PRG::SetSeed(); // initialize PRG with a fresh seed
     GenRandomBytes(seed, k2.data(), 32);  // pick a key k2
 
     std::vector<EC25519Point> vec_Hash_X(pp.CLIENT_LEN); 
-- 
2.43.0


From 464b850cdff7759fe59aa70772ffb06361e44fee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:21:29 +0000
Subject: [PATCH 19/44] fix: OTE-OPRF drew the choice bits and base keys from a
 constant seed

---
 mpc/oprf/ote_oprf.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpc/oprf/ote_oprf.hpp b/mpc/oprf/ote_oprf.hpp
index 30c3629..22f1a6c 100644
--- a/mpc/oprf/ote_oprf.hpp
+++ b/mpc/oprf/ote_oprf.hpp
@@ -246,7 +246,7 @@ std::vector<uint8_t> Server(NetIO &io, PP &pp)
     auto start_time = std::chrono::steady_clock::now(); 
 
     /* step 1: base OT (page 10 figure 4 item1) */
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0);
+    PRG::Seed seed = PRG::SetSeed();
 	
     std::vector<uint8_t> vec_selection_bit = GenRandomBits(seed, pp.MATRIX_WIDTH); 
 
@@ -386,7 +386,7 @@ std::vector<std::vector<uint8_t>> Client(NetIO &io, PP &pp, std::vector<block> &
     auto start_time = std::chrono::steady_clock::now(); 
     
     /* step 1: base OT (page 10 figure 4 item1) */
-    PRG::Seed seed = PRG::SetSeed(fixed_seed, 0); 
+    PRG::Seed seed = PRG::SetSeed(); 
     std::vector<block> vec_K0 = PRG::GenRandomBlocks(seed, pp.MATRIX_WIDTH);
     std::vector<block> vec_K1 = PRG::GenRandomBlocks(seed, pp.MATRIX_WIDTH);
 
-- 
2.43.0


From e3cf457ecc82395c044b531163b912ea69616193 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:00 +0000
Subject: [PATCH 20/44] fix: PSI-card-sum receiver summed as many values as it
 has items itself, not as the sender sent

---
 mpc/pso/mqrpmt_psi_card_sum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc/pso/mqrpmt_psi_card_sum.hpp b/mpc/pso/mqrpmt_psi_card_sum.hpp
index 5c5a92e..87c0842 100644
--- a/mpc/pso/mqrpmt_psi_card_sum.hpp
+++ b/mpc/pso/mqrpmt_psi_card_sum.hpp
@@ -189,7 +189,7 @@ size_t Receive(NetIO &io, PP &pp, std::vector<block> &vec_Y)
     std::vector<std::vector<uint8_t>> vec_result = ALSZOTE::ReceiveByteVector(io, pp.ote_part, 
         vec_indication_bit, vec_indication_bit.size());
 
-    std::vector<BigInt> vec_v(pp.RECEIVER_ITEM_NUM); 
+    std::vector<BigInt> vec_v(vec_result.size()); // one value per sender item
 
     size_t CARDINALITY = 0; 
     for(auto i = 0; i < vec_indication_bit.size(); i++){
-- 
2.43.0


From 8f3fb3f7749d1e1d8eb977e833bc0aedbfe4248d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:30:00 +0000
Subject: [PATCH 21/44] fix: PSI-card-sum bounds of 2^64 and more overflowed

---
 mpc/pso/mqrpmt_psi_card_sum.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpc/pso/mqrpmt_psi_card_sum.hpp b/mpc/pso/mqrpmt_psi_card_sum.hpp
index 87c0842..e49056c 100644
--- a/mpc/pso/mqrpmt_psi_card_sum.hpp
+++ b/mpc/pso/mqrpmt_psi_card_sum.hpp
@@ -123,8 +123,8 @@ std::tuple<size_t, BigInt> Send(NetIO &io, PP &pp, std::vector<block> &vec_X, st
         exit(1); // EXIT_FAILURE 
     }
     
-    BigInt VALUE_BOUND = BigInt(pow(2, pp.LOG_VALUE_BOUND)); 
-    BigInt SUM_BOUND = BigInt(pow(2, pp.LOG_SUM_BOUND)); 
+    BigInt VALUE_BOUND = bn_2.Exp(BigInt(pp.LOG_VALUE_BOUND)); 
+    BigInt SUM_BOUND = bn_2.Exp(BigInt(pp.LOG_SUM_BOUND)); 
     std::vector<BigInt> vec_r = GenRandomBigIntVectorLessThan(pp.SENDER_ITEM_NUM, SUM_BOUND);
     
     BigInt mask = bn_0;
@@ -197,7 +197,7 @@ size_t Receive(NetIO &io, PP &pp, std::vector<block> &vec_Y)
     }
 
     BigInt masked_SUM = bn_0; 
-    BigInt SUM_BOUND = BigInt(pow(2, pp.LOG_SUM_BOUND)); 
+    BigInt SUM_BOUND = bn_2.Exp(BigInt(pp.LOG_SUM_BOUND)); 
     for(auto i = 0; i < vec_v.size(); i++){
         vec_v[i].FromByteVector(vec_result[i]); 
         masked_SUM += vec_v[i];  
-- 
2.43.0


From 2a1ae664cbefa78356100b09eb670e42030c43cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:33:52 +0000
Subject: [PATCH 22/44] fix: VOLE-OPRF client with fewer items than the
 parameter allows read past its input (unbalanced private-ID crashed)

---
 mpc/oprf/vole_oprf.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/mpc/oprf/vole_oprf.hpp b/mpc/oprf/vole_oprf.hpp
index 0f5c8d7..2d20fdc 100644
--- a/mpc/oprf/vole_oprf.hpp
+++ b/mpc/oprf/vole_oprf.hpp
@@ -107,10 +107,18 @@ namespace VOLEOPRF
         // Fig 4.Step 2:the receiver solves the systems
         auto size = pp.okvs_output_size;
         block a0 = _mm_set_epi64x(0ll, 0ll);
-        std::vector<block> vec_zero(ITEM_NUM,a0);
+        std::vector<block> vec_zero(pp.INPUT_NUM,a0);
         
+        // the OKVS encodes exactly INPUT_NUM keys: fill up with random dummy keys
+        std::vector<block> vec_key(vec_X.begin(), vec_X.begin() + ITEM_NUM);
+        if (ITEM_NUM < pp.INPUT_NUM)
+        {
+            std::vector<block> vec_dummy = PRG::GenRandomBlocks(seed, pp.INPUT_NUM - ITEM_NUM);
+            vec_key.insert(vec_key.end(), vec_dummy.begin(), vec_dummy.end());
+        }
+
         std::vector<block> P(size);
-        pp.okvs.solve(vec_X, vec_zero, P, nullptr, pp.thread_num);
+        pp.okvs.solve(vec_key, vec_zero, P, nullptr, pp.thread_num);
 
         // Fig 4.Step 3:VOLE
         std::vector<block> A;
@@ -258,10 +266,18 @@ namespace VOLEOPRF
         // Fig 4.Step 2:the receiver solves the systems
         auto size = pp.okvs_output_size;
         block a0 = _mm_set_epi64x(0ll, 0ll);
-        std::vector<block> vec_zero(ITEM_NUM,a0);
+        std::vector<block> vec_zero(pp.INPUT_NUM,a0);
         
+        // the OKVS encodes exactly INPUT_NUM keys: fill up with random dummy keys
+        std::vector<block> vec_key(vec_X.begin(), vec_X.begin() + ITEM_NUM);
+        if (ITEM_NUM < pp.INPUT_NUM)
+        {
+            std::vector<block> vec_dummy = PRG::GenRandomBlocks(seed, pp.INPUT_NUM - ITEM_NUM);
+            vec_key.insert(vec_key.end(), vec_dummy.begin(), vec_dummy.end());
+        }
+
         std::vector<block> P(size);
-        pp.okvs.solve(vec_X, vec_zero, P, nullptr, pp.thread_num);
+        pp.okvs.solve(vec_key, vec_zero, P, nullptr, pp.thread_num);
 
         // Fig 4.Step 3:VOLE
         std::vector<block> A;
-- 
2.43.0


From 6502d5c467166102ae6016bb9f3ddc9d4ff1c8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:37:49 +0000
Subject: [PATCH 23/44] fix: the filter hash lost entropy on inputs of odd
 length, giving frequent false positives in small filters

---
 utility/murmurhash3.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/utility/murmurhash3.hpp b/utility/murmurhash3.hpp
index 1fb222f..54ee3ed 100644
--- a/utility/murmurhash3.hpp
+++ b/utility/murmurhash3.hpp
@@ -375,7 +375,7 @@ inline uint32_t LiteMurmurHash(uint32_t salt, const void* input, size_t LEN)
 
    if (REMAINING_LEN == 1){
       e = *(reinterpret_cast<const uint8_t*>(itr)); itr += 1;
-      digest += (e ^ (digest * 0xA5A5A5A5)) + loop;
+      digest = (e ^ (digest * 0xA5A5A5A5)) + loop;
       REMAINING_LEN -= 1;  
    }
    
-- 
2.43.0


From 794e4f7410838036ef9cf941e119894571fd3a78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:07 +0000
Subject: [PATCH 24/44] fix: rrPKE-based mqRPMT left unconstrained encoding
 positions zero, so non-members were often reported as members

---
 mpc/okvs/baxos.hpp        | 12 +++++++++++-
 mpc/rpmt/rrpke_mqrpmt.hpp |  4 +++-
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/mpc/okvs/baxos.hpp b/mpc/okvs/baxos.hpp
index 5da7ab8..46de2b4 100644
--- a/mpc/okvs/baxos.hpp
+++ b/mpc/okvs/baxos.hpp
@@ -318,7 +318,17 @@ inline void Baxos<dense_type, value_type>::impl_solve(const std::vector<block> &
                     paxos.weight_statistic();
                     paxos.init_hcols();
                 }
-                paxos.encode(values_pointer, output_pointer, prng);
+                // the bins are encoded in parallel: each draws from a seed of its own
+                PRG::Seed bin_seed;
+                if (prng)
+                {
+#pragma omp critical
+                    {
+                        block seed_block = PRG::GenRandomBlocks(*prng, 1)[0];
+                        bin_seed = PRG::SetSeed(&seed_block, 0);
+                    }
+                }
+                paxos.encode(values_pointer, output_pointer, prng ? &bin_seed : nullptr);
 #ifndef NDEBUG
 
                 // Check in advance that the single encode process is executed correctly,
diff --git a/mpc/rpmt/rrpke_mqrpmt.hpp b/mpc/rpmt/rrpke_mqrpmt.hpp
index b76d127..7cc57d4 100644
--- a/mpc/rpmt/rrpke_mqrpmt.hpp
+++ b/mpc/rpmt/rrpke_mqrpmt.hpp
@@ -165,7 +165,9 @@ std::vector<uint8_t> Server(NetIO &io, PP &pp, std::vector<block> &vec_Y){
     auto out_length = baxos.bin_num * baxos.total_size;//calculate the output length of OKVS::decode(vec_Y,vec_out)
     std::vector<BlockArrayValue> vec_out(out_length);
     uint8_t baxos_thread_num = NUMBER_OF_THREADS;
-    baxos.solve(vec_Y, vec_value, vec_out, 0, baxos_thread_num);
+    // the unconstrained positions must be random: otherwise a key that was not encoded may decode to an encoded value
+    PRG::Seed okvs_seed = PRG::SetSeed();
+    baxos.solve(vec_Y, vec_value, vec_out, &okvs_seed, baxos_thread_num);
   
        
     //send the output of OKVS::decode to client
-- 
2.43.0


From 0b3f9ee171c472b5a26ba7b6d0ec6b85f7423d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:36 +0000
Subject: [PATCH 25/44] fix: OKVS encoding read past the keys when a thread has
 fewer than 32 of them

---
 mpc/okvs/baxos.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/mpc/okvs/baxos.hpp b/mpc/okvs/baxos.hpp
index 46de2b4..3b287b9 100644
--- a/mpc/okvs/baxos.hpp
+++ b/mpc/okvs/baxos.hpp
@@ -180,8 +180,7 @@ inline void Baxos<dense_type, value_type>::impl_solve(const std::vector<block> &
             std::array<uint64_t, 32> bin_idxes;
             uint64_t i = 0;
             auto idx = begin;
-            auto main_bound = len - 32;
-            for (; i <= main_bound; i += 32, keys_thread_pointer += 32)
+            for (; i + 32 <= len; i += 32, keys_thread_pointer += 32)
             {
                 // assert(keys_thread_pointer == keys_data + begin + i);
                 AES::FastECBEnc(seed.aes_key, keys_thread_pointer, 32, hashes.data());
-- 
2.43.0


From cea6f1514059006fe4139c7b28991cfbbe8052b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:36 +0000
Subject: [PATCH 26/44] fix: OKVS encoding with 256 and more bins never ended

---
 mpc/okvs/baxos.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mpc/okvs/baxos.hpp b/mpc/okvs/baxos.hpp
index 3b287b9..7358df6 100644
--- a/mpc/okvs/baxos.hpp
+++ b/mpc/okvs/baxos.hpp
@@ -135,21 +135,21 @@ inline void Baxos<dense_type, value_type>::impl_solve(const std::vector<block> &
                 -----------------------------------------------------------------------------------------------
         */
 
-        auto get_item_bin_thread = [&](uint8_t bin_idx, uint8_t thread_idx)
+        auto get_item_bin_thread = [&](uint64_t bin_idx, uint64_t thread_idx)
         {
             auto bin_begin = bin_idx * bin_size_all_thread;
             auto thread_begin = thread_idx * bin_size_per_thread;
 
             return item_to_bin_thread.get() + bin_begin + thread_begin;
         };
-        auto get_value_bin_thread = [&](uint8_t bin_idx, uint8_t thread_idx)
+        auto get_value_bin_thread = [&](uint64_t bin_idx, uint64_t thread_idx)
         {
             auto bin_begin = bin_idx * bin_size_all_thread;
             auto thread_begin = thread_idx * bin_size_per_thread;
 
             return value_to_bin_thread.get() + bin_begin + thread_begin;
         };
-        auto get_hash_bin_thread = [&](uint8_t bin_idx, uint8_t thread_idx)
+        auto get_hash_bin_thread = [&](uint64_t bin_idx, uint64_t thread_idx)
         {
             auto bin_begin = bin_idx * bin_size_all_thread;
             auto thread_begin = thread_idx * bin_size_per_thread;
@@ -233,7 +233,7 @@ inline void Baxos<dense_type, value_type>::impl_solve(const std::vector<block> &
 
             // Use different threads to process each bin.
             uint8_t thread_id = omp_get_thread_num();
-            for (auto bin_idx = thread_id; bin_idx < bin_num; bin_idx += thread_num)
+            for (uint64_t bin_idx = thread_id; bin_idx < bin_num; bin_idx += thread_num)
             {
                 uint32_t bin_size = 0;
                 for (auto bin_size_thread_bin : bin_size_thread)
-- 
2.43.0


From bd6ce0e462e278db641a8e0aef64dae934cf1561 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:59:36 +0000
Subject: [PATCH 27/44] fix: OKVS encoding looked up a key by an uninitialised
 index when a bin was empty

---
 mpc/okvs/baxos.hpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/mpc/okvs/baxos.hpp b/mpc/okvs/baxos.hpp
index 7358df6..bf1a25e 100644
--- a/mpc/okvs/baxos.hpp
+++ b/mpc/okvs/baxos.hpp
@@ -336,8 +336,6 @@ inline void Baxos<dense_type, value_type>::impl_solve(const std::vector<block> &
                 std::vector<value_type> temp(total_size);
                 memcpy(temp.data(), output_pointer, total_size * sizeof(value_type));
                 std::vector<value_type> v2(bin_size);
-                block t;
-                paxos.decode(&keys[get_item_bin_thread(bin_idx, thread_id)[0]], 1, output_pointer,values_pointer, &t);
                 paxos.decode(0, bin_size, output_pointer, v2.data(), paxos.h_dense);
                 // std::cout << bin_size << "  " << output_pointer << " " << bin_idx << " " << Block::BlockToInt64(output_pointer[0])
                 //           << " " << Block::BlockToInt64(values_pointer[bin_size - 1]) << " " << paxos.h_sparse[bin_size - 1][0] << std::endl;
-- 
2.43.0


From 31f2f703859cb692f8bff3de0422dd56c13f99ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:02:47 +0000
Subject: [PATCH 28/44] fix: OKVS bin capacity for sizes that are not powers of
 two was interpolated with swapped weights, so bins overflowed

---
 mpc/okvs/okvs_utility.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mpc/okvs/okvs_utility.hpp b/mpc/okvs/okvs_utility.hpp
index f83ae3d..df50564 100644
--- a/mpc/okvs/okvs_utility.hpp
+++ b/mpc/okvs/okvs_utility.hpp
@@ -764,10 +764,10 @@ inline uint64_t hashtable_bin_size(uint64_t bin_num, uint64_t item_num, uint8_t
 
     if (bin_num_high < sizes.size() && item_num_high < sizes[bin_num_high].size())
     {
-        auto a0 = (bin_diff)*sizes[bin_num_low][item_num_low] + (1 - bin_diff) * sizes[bin_num_high][item_num_low];
-        auto a1 = (bin_diff)*sizes[bin_num_low][item_num_high] + (1 - bin_diff) * sizes[bin_num_high][item_num_high];
+        auto a0 = (1 - bin_diff) * sizes[bin_num_low][item_num_low] + bin_diff * sizes[bin_num_high][item_num_low];
+        auto a1 = (1 - bin_diff) * sizes[bin_num_low][item_num_high] + bin_diff * sizes[bin_num_high][item_num_high];
 
-        auto b0 = (item_diff)*a0 + (1 - item_diff) * a1;
+        auto b0 = (1 - item_diff) * a0 + item_diff * a1;
 
         auto B = std::ceil(std::pow(2, b0));
         return B;
-- 
2.43.0


From 74329bfd17079bd255ded3b0f0ba8cbabd76b106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:33 +0000
Subject: [PATCH 29/44] fix: cuckoo filter wrote its victim flag over the table
 when saved to memory

---
 filter/cuckoo_filter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/cuckoo_filter.hpp b/filter/cuckoo_filter.hpp
index 087ade8..9b7a7cc 100644
--- a/filter/cuckoo_filter.hpp
+++ b/filter/cuckoo_filter.hpp
@@ -444,7 +444,7 @@ public:
 
         memcpy(buffer+48, &victim.bucket_index, 4);
         memcpy(buffer+52, &victim.tag, 4);
-        memcpy(buffer+66, &victim.used, 4);
+        memcpy(buffer+56, &victim.used, 4);
       
         memcpy(buffer+60, bucket_table.data(), bucket_table.size()); 
 
-- 
2.43.0


From 73d8c23a3ea4bcec0ef68e20df47db5cbe0156a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:33 +0000
Subject: [PATCH 30/44] fix: cuckoo filter read its table back from a file as
 text

---
 filter/cuckoo_filter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/cuckoo_filter.hpp b/filter/cuckoo_filter.hpp
index 9b7a7cc..de4f8a0 100644
--- a/filter/cuckoo_filter.hpp
+++ b/filter/cuckoo_filter.hpp
@@ -423,7 +423,7 @@ public:
         fin >> victim.used;
 
         bucket_table.resize(bucket_byte_size * bucket_num, static_cast<uint8_t>(0x00));
-        fin >> bucket_table.data(); 
+        fin >> bucket_table; 
       
         return true;
    } 
-- 
2.43.0


From 6b19118ba333518ca8689145e83e4d2c4303a3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:33 +0000
Subject: [PATCH 31/44] fix: cuckoo filter hashed uninitialised bytes along
 with a compressed point, so inserted points were not found

---
 filter/cuckoo_filter.hpp | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/filter/cuckoo_filter.hpp b/filter/cuckoo_filter.hpp
index de4f8a0..d52f0bc 100644
--- a/filter/cuckoo_filter.hpp
+++ b/filter/cuckoo_filter.hpp
@@ -154,9 +154,10 @@ public:
     // You can insert any custom-type data you like as below
     inline bool Insert(const ECPoint &A)
     {
-        unsigned char buffer[POINT_BYTE_LEN]; 
-        EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_BYTE_LEN, nullptr);
-        return PlainInsert(buffer, POINT_BYTE_LEN);
+        unsigned char buffer[POINT_COMPRESSED_BYTE_LEN]; 
+        memset(buffer, 0, POINT_COMPRESSED_BYTE_LEN); // the encoding of the point at infinity is shorter
+        EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_COMPRESSED_BYTE_LEN, nullptr);
+        return PlainInsert(buffer, POINT_COMPRESSED_BYTE_LEN);
     }
 
     inline bool Insert(const std::vector<ECPoint> &vec_A)
@@ -164,15 +165,11 @@ public:
         bool insert_status = true; 
 
         size_t num = vec_A.size();
-        unsigned char *buffer = new unsigned char[num*POINT_BYTE_LEN]; 
         for(auto i = 0; i < num; i++){
-            EC_POINT_point2oct(group, vec_A[i].point_ptr, POINT_CONVERSION_COMPRESSED, 
-                               buffer+i*POINT_BYTE_LEN, POINT_BYTE_LEN, nullptr);
-            if(PlainInsert(buffer+i*POINT_BYTE_LEN, POINT_BYTE_LEN) == false){
+            if(Insert(vec_A[i]) == false){
                 insert_status = false; break;
             } 
         }
-        delete[] buffer; 
         return insert_status; 
     }
 
@@ -231,9 +228,10 @@ public:
 
     inline bool Contain(const ECPoint& A) 
     {
-        unsigned char buffer[POINT_BYTE_LEN]; 
-        EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_BYTE_LEN, nullptr);
-        return PlainContain(buffer, POINT_BYTE_LEN);
+        unsigned char buffer[POINT_COMPRESSED_BYTE_LEN]; 
+        memset(buffer, 0, POINT_COMPRESSED_BYTE_LEN); // the encoding of the point at infinity is shorter
+        EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_COMPRESSED_BYTE_LEN, nullptr);
+        return PlainContain(buffer, POINT_COMPRESSED_BYTE_LEN);
     }
 
 
@@ -291,9 +289,10 @@ public:
 
     inline bool Delete(const ECPoint& A) 
     {
-        unsigned char buffer[POINT_BYTE_LEN]; 
-        EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_BYTE_LEN, nullptr);
-        return PlainDelete(buffer, POINT_BYTE_LEN);
+        unsigned char buffer[POINT_COMPRESSED_BYTE_LEN]; 
+        memset(buffer, 0, POINT_COMPRESSED_BYTE_LEN); // the encoding of the point at infinity is shorter
+        EC_POINT_point2oct(group, A.point_ptr, POINT_CONVERSION_COMPRESSED, buffer, POINT_COMPRESSED_BYTE_LEN, nullptr);
+        return PlainDelete(buffer, POINT_COMPRESSED_BYTE_LEN);
     }
 
     // read tag from i-th bucket j-th slot
-- 
2.43.0


From 1feb58b0e2b0c9d3a3d421c6f8937973d8c7db97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:33 +0000
Subject: [PATCH 32/44] fix: cuckoo filter deletion removed up to three copies
 of a tag, losing other elements with the same tag

---
 filter/cuckoo_filter.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/filter/cuckoo_filter.hpp b/filter/cuckoo_filter.hpp
index d52f0bc..afc6e48 100644
--- a/filter/cuckoo_filter.hpp
+++ b/filter/cuckoo_filter.hpp
@@ -262,13 +262,14 @@ public:
             TrySaveVictim(index1, delete_slot_index, tag);
         }
     
-        if (DeleteTagFromBucket(index2, tag, delete_slot_index)) {
+        // remove only one copy of the tag: the others belong to other elements
+        else if (DeleteTagFromBucket(index2, tag, delete_slot_index)) {
             inserted_element_num--;
             delete_status = true;
             TrySaveVictim(index2, delete_slot_index, tag);
         } 
     
-        if (victim.used && tag == victim.tag && (index1 == victim.bucket_index || index2 == victim.bucket_index)) {
+        else if (victim.used && tag == victim.tag && (index1 == victim.bucket_index || index2 == victim.bucket_index)) {
             victim.used = 0;
             delete_status = true;
         }
-- 
2.43.0


From 0d2e6c2fae79c8485e9fdd21998f87134dc7f2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:33 +0000
Subject: [PATCH 33/44] fix: cuckoo filter inserted the bytes of the container
 object instead of its elements when the container is const

---
 filter/cuckoo_filter.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/filter/cuckoo_filter.hpp b/filter/cuckoo_filter.hpp
index afc6e48..f4335d6 100644
--- a/filter/cuckoo_filter.hpp
+++ b/filter/cuckoo_filter.hpp
@@ -187,7 +187,7 @@ public:
     }
 
     template <class T, class Allocator, template <class,class> class Container>
-    inline bool Insert(Container<T, Allocator>& container)
+    inline bool Insert(const Container<T, Allocator>& container)
     {
         bool insert_status = true; 
         for(auto i = 0; i < container.size(); i++){
-- 
2.43.0


From 9bead5a827a35b9c15353a0bea600050a89e0e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:16 +0000
Subject: [PATCH 34/44] fix: discrete-log search covered only half of the range
 when the range length is odd

---
 pke/calculate_dlog.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/pke/calculate_dlog.hpp b/pke/calculate_dlog.hpp
index 3b5ca55..d90ce86 100755
--- a/pke/calculate_dlog.hpp
+++ b/pke/calculate_dlog.hpp
@@ -11,7 +11,7 @@ this hpp implements DLOG algorithm
 ** Shanks algorithm for DLOG problem: given (g, h) find x \in [0, n = 2^RANGE_LEN) s.t. g^x = h 
 ** g^{j*giantstep_size + i} = g^x; giantstep_num = n/giantstep_size
 ** babystep keytable size = 2^(RANGE_LEN/2+TRADEOFF_NUM)
-** giantstep num/loop num = 2^(RANGE_LEN/2-TRADEOFF_NUM)
+** giantstep num/loop num = 2^(RANGE_LEN-RANGE_LEN/2-TRADEOFF_NUM)
 */
 
 #include "../crypto/ec_point.hpp"
@@ -66,7 +66,7 @@ std::string GetTableFileName(ECPoint &g, size_t RANGE_LEN, size_t TRADEOFF_NUM)
     std::string str_base = std::to_string(2);
     std::string str_exp0 = std::to_string(RANGE_LEN);    // range size
     std::string str_exp1 = std::to_string(RANGE_LEN/2+TRADEOFF_NUM);  // babystep key table size
-    std::string str_exp2 = std::to_string(RANGE_LEN/2-TRADEOFF_NUM-(size_t)log2(SEARCH_TASK_NUM));  // (log) giant step amplification factor: default value=0 
+    std::string str_exp2 = std::to_string(RANGE_LEN-RANGE_LEN/2-TRADEOFF_NUM-(size_t)log2(SEARCH_TASK_NUM));  // (log) giant step amplification factor: default value=0 
     // use 8-byte uint64_t hash value as an identifier of EC Point 
     std::string str_suffix = ToHexString(Hash::ECPointToString(g));
     str_suffix = str_suffix.substr(0,16);
@@ -139,7 +139,7 @@ void BuildSaveTable(ECPoint &g, size_t RANGE_LEN, size_t TRADEOFF_NUM, std::stri
     }  
 
     // part 2: build giantstep aux info 
-    size_t GIANTSTEP_NUM = pow(2, RANGE_LEN/2 - TRADEOFF_NUM); 
+    size_t GIANTSTEP_NUM = pow(2, RANGE_LEN - RANGE_LEN/2 - TRADEOFF_NUM); 
     
     /*
     ** each search task will search in #SLICED_GIANTSTEP_NUM GIANTSTEP
@@ -305,7 +305,7 @@ bool SearchSlicedRange(size_t SEARCH_TASK_INDEX, ECPoint target, size_t &SLICED_
 bool ShanksDLOG(const ECPoint &g, const ECPoint &h, size_t RANGE_LEN, size_t TRADEOFF_NUM, BigInt &x)
 {    
     size_t BABYSTEP_NUM  = pow(2, RANGE_LEN/2 + TRADEOFF_NUM); // babystep_num = giantstep_size
-    size_t GIANTSTEP_NUM = pow(2, RANGE_LEN/2 - TRADEOFF_NUM); 
+    size_t GIANTSTEP_NUM = pow(2, RANGE_LEN - RANGE_LEN/2 - TRADEOFF_NUM); 
 
     size_t SLICED_GIANTSTEP_NUM = GIANTSTEP_NUM/SEARCH_TASK_NUM;  
     
-- 
2.43.0


From 2d49fb189389be13906d88eecc243f639f8bc289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:10:16 +0000
Subject: [PATCH 35/44] fix: loading a discrete-log table kept the entries of
 the table loaded before

---
 pke/calculate_dlog.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pke/calculate_dlog.hpp b/pke/calculate_dlog.hpp
index d90ce86..36baac7 100755
--- a/pke/calculate_dlog.hpp
+++ b/pke/calculate_dlog.hpp
@@ -241,6 +241,7 @@ void LoadTable(std::string table_filename, size_t RANGE_LEN, size_t TRADEOFF_NUM
         #pragma omp section
         {
             size_t hashkey; 
+            encoding2index_map.clear(); // drop the entries of a table loaded before
             encoding2index_map.reserve(BABYSTEP_NUM); 
             /* point_to_index_map[ECn_to_String(babystep)] = i */
             for(auto i = 0; i < BABYSTEP_NUM; i++)
-- 
2.43.0


From 40ae5338e1727e8419c63da5e7501fa7d9bd03f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:43:49 +0000
Subject: [PATCH 36/44] fix: encoding a short pair of vectors with the
 expand-convolute code ran past their end

---
 mpc/vole/exconvcode.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpc/vole/exconvcode.hpp b/mpc/vole/exconvcode.hpp
index f622030..c3c5d14 100644
--- a/mpc/vole/exconvcode.hpp
+++ b/mpc/vole/exconvcode.hpp
@@ -163,7 +163,7 @@ namespace VOLE {
 		// generate n alpha_i for convolution; alpha_i.size < = accumulatorSize; 
 		std::vector<uint8_t> rnd = PRG::GenRandomBits(mSeed, size * accumulatorSize);
 		uint8_t* __restrict rrnd = rnd.data();
-		auto main = (uint32_t)std::max<int64_t>(0, size - accumulatorSize);
+		auto main = (uint32_t)std::max<int32_t>(0, size - accumulatorSize);
 		
 		for (; i < main; ++i) {
 			j = i + 1;
-- 
2.43.0


From b14baec658f3f077dec89b479c110b8fbff6cc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:10 +0000
Subject: [PATCH 37/44] fix: a range proof did not bind the commitments, so one
 could be chosen to fit a finished proof

---
 zkp/bulletproofs/bullet_proof.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zkp/bulletproofs/bullet_proof.hpp b/zkp/bulletproofs/bullet_proof.hpp
index f87091e..3dc26b7 100755
--- a/zkp/bulletproofs/bullet_proof.hpp
+++ b/zkp/bulletproofs/bullet_proof.hpp
@@ -194,6 +194,7 @@ void Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcript
     proof.S = ECPointVectorMul(vec_A, vec_a); // Eq (47) 
 
     // Eq (49, 50) compute y and z
+    for (auto i = 0; i < n; i++) transcript_str += instance.C[i].ToByteString(); // the statement is part of the transcript
     transcript_str += proof.A.ToByteString(); 
     BigInt y = Hash::StringToBigInt(transcript_str);
 
@@ -338,6 +339,7 @@ bool Verify(PP &pp, Instance &instance, std::string &transcript_str, Proof &proo
 
     bool V1, V2, Validity; // variables for checking results
 
+    for (auto i = 0; i < instance.C.size(); i++) transcript_str += instance.C[i].ToByteString(); 
     transcript_str += proof.A.ToByteString(); 
     BigInt y = Hash::StringToBigInt(transcript_str);  //recover the challenge y
     BigInt y_inverse = y.ModInverse(order);  
@@ -493,6 +495,7 @@ bool FastVerify(const PP &pp, Instance &instance, std::string &transcript_str, P
     #endif
 
     // prepare Eq (97)
+    for (auto i = 0; i < instance.C.size(); i++) transcript_str += instance.C[i].ToByteString(); 
     transcript_str += proof.A.ToByteString(); 
     BigInt y = Hash::StringToBigInt(transcript_str);  //recover the challenge y
     BigInt y_inverse = y.ModInverse(order); 
-- 
2.43.0


From f86dc26f068bf42a445693896c558bc15f25fee4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:10 +0000
Subject: [PATCH 38/44] fix: writing a range proof into an object that held one
 kept the old round messages

---
 zkp/bulletproofs/bullet_proof.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/zkp/bulletproofs/bullet_proof.hpp b/zkp/bulletproofs/bullet_proof.hpp
index 3dc26b7..1da2428 100755
--- a/zkp/bulletproofs/bullet_proof.hpp
+++ b/zkp/bulletproofs/bullet_proof.hpp
@@ -324,6 +324,8 @@ void Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcript
 
     ip_instance.P = ECPointVectorMul(vec_A, vec_a);  
  
+    proof.ip_proof.vec_L.clear(); // the round messages are appended one by one
+    proof.ip_proof.vec_R.clear();
     InnerProduct::Prove(ip_pp, ip_instance, ip_witness, transcript_str, proof.ip_proof); 
 
     #ifdef DEBUG
-- 
2.43.0


From 256f63cf38ac33a2d291cd9e54df42d8c1e7ec3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:00:10 +0000
Subject: [PATCH 39/44] fix: the range proof verifiers ran past the end of a
 proof with a wrong number of round messages

---
 zkp/bulletproofs/bullet_proof.hpp       | 1 +
 zkp/bulletproofs/innerproduct_proof.hpp | 4 ++++
 2 files changed, 5 insertions(+)

diff --git a/zkp/bulletproofs/bullet_proof.hpp b/zkp/bulletproofs/bullet_proof.hpp
index 1da2428..808c805 100755
--- a/zkp/bulletproofs/bullet_proof.hpp
+++ b/zkp/bulletproofs/bullet_proof.hpp
@@ -524,6 +524,7 @@ bool FastVerify(const PP &pp, Instance &instance, std::string &transcript_str, P
         exit(EXIT_FAILURE); 
     }
     size_t LOG_VECTOR_LEN = log2(VECTOR_LEN); 
+    if(proof.ip_proof.vec_L.size() != LOG_VECTOR_LEN || proof.ip_proof.vec_R.size() != LOG_VECTOR_LEN) return false; // malformed proof
 
     std::vector<BigInt> vec_1_power(VECTOR_LEN, bn_1); // vec_unary = 1^nm    
     std::vector<BigInt> vec_short_1_power(pp.RANGE_LEN, bn_1); 
diff --git a/zkp/bulletproofs/innerproduct_proof.hpp b/zkp/bulletproofs/innerproduct_proof.hpp
index 2d600ec..3b7766d 100755
--- a/zkp/bulletproofs/innerproduct_proof.hpp
+++ b/zkp/bulletproofs/innerproduct_proof.hpp
@@ -335,6 +335,8 @@ bool Verify(PP &pp, Instance &instance, std::string &transcript_str, Proof &proo
         exit(EXIT_FAILURE); 
     }
 
+    if(proof.vec_L.size() != pp.LOG_VECTOR_LEN || proof.vec_R.size() != pp.LOG_VECTOR_LEN) return false; // malformed proof
+
     bool Validity;
 
     // auto start_time = std::chrono::steady_clock::now(); // start to count the time
@@ -460,6 +462,8 @@ bool FastVerify(PP &pp, Instance &instance, std::string &transcript_str, Proof &
     }
 
 
+    if(proof.vec_L.size() != pp.LOG_VECTOR_LEN || proof.vec_R.size() != pp.LOG_VECTOR_LEN) return false; // malformed proof
+
     bool Validity;
 
     // recover the challenge
-- 
2.43.0


From 9347e27b18f7a3f9fb562293899ed03714920a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:26 +0000
Subject: [PATCH 40/44] fix: a confidential payment could be applied again, or
 against a balance it was not made for

---
 adcp/adcp.hpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/adcp/adcp.hpp b/adcp/adcp.hpp
index 8f8073c..5c18453 100755
--- a/adcp/adcp.hpp
+++ b/adcp/adcp.hpp
@@ -330,6 +330,8 @@ bool UpdateAccount(PP &pp, ToOneCTx &newCTx, Account &Acct_sender, Account &Acct
 {    
     std::cout << "update accounts >>>" << std::endl;
     
+    Acct_sender.sn = Acct_sender.sn + bn_1;
+
     TwistedExponentialElGamal::CT c_out; 
     c_out.X = newCTx.transfer_ct.vec_X[0]; c_out.Y = newCTx.transfer_ct.Y;
     TwistedExponentialElGamal::CT c_in; 
@@ -628,6 +630,12 @@ bool Miner(PP &pp, ToOneCTx &newCTx, Account &Acct_sender, Account &Acct_receive
         return false; 
     }
 
+    // a transaction spends the sender's current balance and can be applied only once
+    if (newCTx.sn != Acct_sender.sn || !(newCTx.sender_balance_ct == Acct_sender.balance_ct)){
+        std::cout << "CTx does not match the state of the sender's account" << std::endl; 
+        return false; 
+    }
+
     std::string ctx_file = GetCTxFileName(newCTx); 
     if(VerifyCTx(pp, newCTx) == true){
         UpdateAccount(pp, newCTx, Acct_sender, Acct_receiver);
@@ -1430,6 +1438,12 @@ bool Miner(PP &pp, ToManyCTx &newCTx, Account &Acct_sender, std::vector<Account>
         } 
     }
 
+    // a transaction spends the sender's current balance and can be applied only once
+    if (newCTx.sn != Acct_sender.sn || !(newCTx.sender_balance_ct == Acct_sender.balance_ct)){
+        std::cout << "CTx does not match the state of the sender's account" << std::endl; 
+        return false; 
+    }
+
     std::string ctx_file = GetCTxFileName(newCTx); 
     if(VerifyCTx(pp, newCTx) == true){
         UpdateAccount(pp, newCTx, Acct_sender, vec_Acct_receiver);
-- 
2.43.0


From 35f6b116ca6c18fb5b64c611b9e0b72575e1fb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:26 +0000
Subject: [PATCH 41/44] fix: a payment to many was applied to fewer accounts
 than it pays, losing the rest

---
 adcp/adcp.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/adcp/adcp.hpp b/adcp/adcp.hpp
index 5c18453..8ff7bbd 100755
--- a/adcp/adcp.hpp
+++ b/adcp/adcp.hpp
@@ -1431,6 +1431,10 @@ bool Miner(PP &pp, ToManyCTx &newCTx, Account &Acct_sender, std::vector<Account>
         std::cout << "sender does not match CTx" << std::endl; 
         return false; 
     }
+    if (newCTx.vec_pkr.size() != vec_Acct_receiver.size()){
+        std::cerr << "the number of receivers does not match ctx" << std::endl; 
+        return false;
+    }
     for(auto i = 0; i < vec_Acct_receiver.size(); i++){
         if (newCTx.vec_pkr[i] != vec_Acct_receiver[i].pk){
             std::cerr << i<<"-th receiver does not match ctx" << std::endl; 
-- 
2.43.0


From 1de1d9600305a09b9b9f6d95e458644b054ec50a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:08:26 +0000
Subject: [PATCH 42/44] fix: verifying a malformed payment to many ended the
 process or read out of bounds

---
 adcp/adcp.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/adcp/adcp.hpp b/adcp/adcp.hpp
index 8ff7bbd..a5116fc 100755
--- a/adcp/adcp.hpp
+++ b/adcp/adcp.hpp
@@ -1219,8 +1219,13 @@ ToManyCTx CreateCTx(PP &pp, Account &Acct_sender, std::vector<BigInt> &vec_v, st
 bool VerifyCTx(PP &pp, ToManyCTx &newCTx)
 {     
     size_t n = newCTx.vec_pkr.size(); 
-    if(IsPowerOfTwo(n+1) == false){
+    if(IsPowerOfTwo(n+1) == false || n > pp.MAX_RECEIVER_NUM){
         std::cerr << "receiver num must be 2^n-1" << std::endl;
+        return false; 
+    }
+    if(newCTx.vec_receiver_transfer_ct.size() != n || newCTx.vec_plaintext_equality_proof.size() != n){
+        std::cerr << "malformed ctx" << std::endl;
+        return false; 
     }
     std::string ctx_type = "(1-to-"+std::to_string(n)+")"; 
     
-- 
2.43.0


From d0e16a03ae7121758a55c82b99d29c393e5dd303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:10:29 +0000
Subject: [PATCH 43/44] fix: verifying a plaintext-equality proof with missing
 components read out of bounds

---
 zkp/nizk/nizk_plaintext_equality.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zkp/nizk/nizk_plaintext_equality.hpp b/zkp/nizk/nizk_plaintext_equality.hpp
index ac74b66..d178476 100755
--- a/zkp/nizk/nizk_plaintext_equality.hpp
+++ b/zkp/nizk/nizk_plaintext_equality.hpp
@@ -172,6 +172,9 @@ Proof Prove(PP &pp, Instance &instance, Witness &witness, std::string &transcrip
 // check NIZK proof PI for Ci = Enc(pki, m; r) the witness is (r1, r2, m)
 bool Verify(PP &pp, Instance &instance, std::string &transcript_str, Proof &proof)
 {
+    // a malformed instance or proof is not valid
+    if(instance.ct.vec_X.size() != instance.vec_pk.size() || proof.vec_A.size() != instance.vec_pk.size()) return false; 
+
     // initialize the transcript with instance
     for(auto i = 0; i < instance.vec_pk.size(); i++){
         transcript_str += instance.vec_pk[i].ToByteString();
-- 
2.43.0


From 446f35c9e4d8498479fa8ece4fa7ee358a15bd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:26:55 +0000
Subject: [PATCH 44/44] fix: VOLE read its oblivious-transfer parameters from a
 file of the working directory, possibly half written by the other party

---
 mpc/vole/basevole.hpp | 36 ++++--------------------------------
 mpc/vole/vole.hpp     | 18 ++----------------
 2 files changed, 6 insertions(+), 48 deletions(-)

diff --git a/mpc/vole/basevole.hpp b/mpc/vole/basevole.hpp
index 6702a40..48abb24 100644
--- a/mpc/vole/basevole.hpp
+++ b/mpc/vole/basevole.hpp
@@ -56,15 +56,8 @@ namespace VOLE {
 		std::vector<block> vec_k1 = PRG::GenRandomBlocks(seed_k, 128);
 		
 		// send vec_k0,vec_k1 to OT 
-		std::string pp_filename = "npot.pp";
 		NPOT::PP pp; 
-    		if(!FileExist(pp_filename)){
-        		pp = NPOT::Setup(); 
-        		NPOT::SavePP(pp, pp_filename); 
-    		}
-    		else{
-        	 	NPOT::FetchPP(pp, pp_filename); 
-    		}
+		pp = NPOT::Setup(); // a fixed function of its argument: nothing to share through files
 
 		
 		Send(io, pp, vec_k0, vec_k1, 128);
@@ -156,15 +149,8 @@ namespace VOLE {
 		}
 
 		// use vec_delta_bit to receive 128 K from OT 
-		std::string pp_filename = "npot.pp";
 		NPOT::PP pp;
-    		if(!FileExist(pp_filename)){
-        		pp = NPOT::Setup(); 
-        		NPOT::SavePP(pp, pp_filename); 
-    		}
-    		else{
-        		NPOT::FetchPP(pp, pp_filename); 
-    		}
+		pp = NPOT::Setup(); // a fixed function of its argument: nothing to share through files
 		
 		std::vector<block> vec_k = Receive(io, pp, vec_delta_bit, 128);
 		
@@ -217,14 +203,7 @@ namespace VOLE {
 		
 		// send vec_k0,vec_k1 to OT 
 		ALSZOTE::PP pp;
-		std::string pp_filename = "alszote.pp"; 
-    		if(!FileExist(pp_filename)){
-        		pp = ALSZOTE::Setup(BASE_LEN); 
-        		ALSZOTE::SavePP(pp, pp_filename); 
-    		}
-    		else{
-        		ALSZOTE::FetchPP(pp, pp_filename);
-    		}
+		pp = ALSZOTE::Setup(BASE_LEN); // a fixed function of its argument: nothing to share through files
 
 		
 		ALSZOTE::Send(server_io, pp, vec_k0, vec_k1, EXTEND_LEN);
@@ -307,14 +286,7 @@ namespace VOLE {
 
 		// use vec_delta_bit to receive 128 K from OT 
 		ALSZOTE::PP pp;
-		std::string pp_filename = "alszote.pp"; 
-    		if(!FileExist(pp_filename)){
-        		pp = ALSZOTE::Setup(BASE_LEN); 
-        		ALSZOTE::SavePP(pp, pp_filename); 
-    		}
-    		else{
-        		ALSZOTE::FetchPP(pp, pp_filename);
-    		}
+		pp = ALSZOTE::Setup(BASE_LEN); // a fixed function of its argument: nothing to share through files
 		std::vector<block> vec_k = ALSZOTE::Receive(client_io, pp, vec_select_bit, EXTEND_LEN);
 		
 		// set fixed seed for PRG 
diff --git a/mpc/vole/vole.hpp b/mpc/vole/vole.hpp
index 5237363..d766b94 100644
--- a/mpc/vole/vole.hpp
+++ b/mpc/vole/vole.hpp
@@ -145,16 +145,9 @@ namespace VOLE {
 			EXTEND_LEN = selection_len + add_mod;
 		}
 		else{EXTEND_LEN = selection_len;}
-    		std::string pp_filename = "alszote.pp"; 
     		ALSZOTE::PP pp; 
     		size_t BASE_LEN = 128;
-    		if(!FileExist(pp_filename)){
-        		pp = ALSZOTE::Setup(BASE_LEN); 
-        		ALSZOTE::SavePP(pp, pp_filename); 
-    		}
-    		else{
-        		ALSZOTE::FetchPP(pp, pp_filename);
-    		}
+		pp = ALSZOTE::Setup(BASE_LEN); // a fixed function of its argument: nothing to share through files
     		ALSZOTE::Send(server_io, pp, vec_m0, vec_m1, EXTEND_LEN);
 
         	
@@ -221,16 +214,9 @@ namespace VOLE {
 		
 		// receive vec_total_m by vec_select_bit
 		std::vector<block> vec_total_m;
-    		std::string pp_filename = "alszote.pp"; 
     		ALSZOTE::PP pp; 
     		size_t BASE_LEN = 128;
-    		if(!FileExist(pp_filename)){
-        		pp = ALSZOTE::Setup(BASE_LEN); 
-        		ALSZOTE::SavePP(pp, pp_filename); 
-    		}
-    		else{
-        		ALSZOTE::FetchPP(pp, pp_filename);
-    		} 	
+		pp = ALSZOTE::Setup(BASE_LEN); // a fixed function of its argument: nothing to share through files
 		uint64_t EXTEND_LEN;
 		if(select_len % 128){
 			uint64_t add_mod =128 - (select_len % 128);
-- 
2.43.0

