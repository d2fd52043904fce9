From a80ce5ae8bab331bc41e28cad8c0c19b0b5c1cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:57 +0000
Subject: [PATCH 01/18] hooks: cfg(qesa_verif)-guarded child modules for
 verification harnesses

---
 src/copy/copy.rs       | 5 +++++
 src/copy/mapping.rs    | 5 +++++
 src/copy/mod.rs        | 5 +++++
 src/ipa/alm_zk.rs      | 5 +++++
 src/ipa/gramschmidt.rs | 5 +++++
 src/ipa/no_zk.rs       | 5 +++++
 src/ipa/qesa_inner.rs  | 5 +++++
 src/lib.rs             | 5 +++++
 src/lmpa/no_zk.rs      | 4 ++++
 src/lmpa/simple_zk.rs  | 4 ++++
 src/qesa_zk.rs         | 5 +++++
 11 files changed, 53 insertions(+)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index d7f0af2..7169fb1 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -408,3 +408,8 @@ mod tests {
         (0..n).map(|_| Scalar::random(&mut rng)).collect()
     }
 }
+
+#[cfg(qesa_verif)]
+pub mod vp {
+    include!(concat!(env!("QESA_VERIF_HOOKS"), "/copy.rs"));
+}
diff --git a/src/copy/mapping.rs b/src/copy/mapping.rs
index b0ff932..691a2c0 100644
--- a/src/copy/mapping.rs
+++ b/src/copy/mapping.rs
@@ -218,3 +218,8 @@ fn test_random_compute_mapping() {
         }
     }
 }
+
+#[cfg(qesa_verif)]
+pub mod vp {
+    include!(concat!(env!("QESA_VERIF_HOOKS"), "/mapping.rs"));
+}
diff --git a/src/copy/mod.rs b/src/copy/mod.rs
index 1467674..f3ed4dc 100644
--- a/src/copy/mod.rs
+++ b/src/copy/mod.rs
@@ -1,2 +1,7 @@
 mod copy;
 mod mapping;
+
+#[cfg(qesa_verif)]
+pub mod vp {
+    include!(concat!(env!("QESA_VERIF_HOOKS"), "/copy_mod.rs"));
+}
diff --git a/src/ipa/alm_zk.rs b/src/ipa/alm_zk.rs
index c9701b2..5919106 100644
--- a/src/ipa/alm_zk.rs
+++ b/src/ipa/alm_zk.rs
@@ -155,3 +155,8 @@ mod tests {
         assert!(proof.verify(&mut verifier_transcript, &G, &H, &Q, n, C_w, t));
     }
 }
+
+#[cfg(qesa_verif)]
+pub mod vp {
+    include!(concat!(env!("QESA_VERIF_HOOKS"), "/alm_zk.rs"));
+}
diff --git a/src/ipa/gramschmidt.rs b/src/ipa/gramschmidt.rs
index a4834d1..cd8da86 100644
--- a/src/ipa/gramschmidt.rs
+++ b/src/ipa/gramschmidt.rs
@@ -95,3 +95,8 @@ fn test_sample_gram_schmidt_twice() {
     assert_eq!(inner_product(&res, &a), Scalar::zero());
     assert_eq!(inner_product(&res, &b), Scalar::zero());
 }
+
+#[cfg(qesa_verif)]
+pub mod vp {
+    include!(concat!(env!("QESA_VERIF_HOOKS"), "/gramschmidt.rs"));
+}
diff --git a/src/ipa/no_zk.rs b/src/ipa/no_zk.rs
index 3bdfe26..6d9fa5d 100644
--- a/src/ipa/no_zk.rs
+++ b/src/ipa/no_zk.rs
@@ -219,3 +219,8 @@ mod tests {
         assert!(proof.verify(&mut verifier_transcript, &G, &H, &Q, n, P, t));
     }
 }
+
+#[cfg(qesa_verif)]
+pub mod vp {
+    include!(concat!(env!("QESA_VERIF_HOOKS"), "/ipa_no_zk.rs"));
+}
diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index dc3cec1..84152fc 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -354,3 +354,8 @@ mod tests {
         assert!(proof.verify(&mut verifier_transcript, G, H, &Q, &matrix))
     }
 }
+
+#[cfg(qesa_verif)]
+pub mod vp {
+    include!(concat!(env!("QESA_VERIF_HOOKS"), "/qesa_inner.rs"));
+}
diff --git a/src/lib.rs b/src/lib.rs
index c596d75..428e363 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -6,6 +6,11 @@ pub mod matrix;
 pub mod qesa_zk;
 pub mod transcript;
 
+#[cfg(qesa_verif)]
+pub mod vp {
+    include!(concat!(env!("QESA_VERIF_HOOKS"), "/root.rs"));
+}
+
 #[cfg(test)]
 mod tests {
     #[test]
diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index d28f4af..3c1b21d 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -1005,3 +1005,7 @@ fn test_lmpa_almSnd_float_2() {
     assert_eq!(verifier_t, t);
 }
 
+#[cfg(qesa_verif)]
+pub mod vp {
+    include!(concat!(env!("QESA_VERIF_HOOKS"), "/lmpa_no_zk.rs"));
+}
diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index 5ab34ce..ec6f5ea 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -346,3 +346,7 @@ pub fn pedersen_commit(
     commitment
 }
 
+#[cfg(qesa_verif)]
+pub mod vp {
+    include!(concat!(env!("QESA_VERIF_HOOKS"), "/simple_zk.rs"));
+}
diff --git a/src/qesa_zk.rs b/src/qesa_zk.rs
index 5f4b0a0..8faa777 100644
--- a/src/qesa_zk.rs
+++ b/src/qesa_zk.rs
@@ -44,3 +44,8 @@ impl Zk {
         self.inner.verify(transcript, G_Vec, H_Vec, Q, gamma_i)
     }
 }
+
+#[cfg(qesa_verif)]
+pub mod vp {
+    include!(concat!(env!("QESA_VERIF_HOOKS"), "/qesa_zk.rs"));
+}
-- 
2.43.0


From ba4aa49f25384e0780493cd92200181dd2a3ec1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 02/18] fix: reject malformed inner product proofs instead of
 panicking or accepting

A proof with surplus R points was accepted, one with missing points or an
invalid encoding made the verifier panic.
---
 src/ipa/no_zk.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/ipa/no_zk.rs b/src/ipa/no_zk.rs
index 6d9fa5d..6a0ece0 100644
--- a/src/ipa/no_zk.rs
+++ b/src/ipa/no_zk.rs
@@ -122,11 +122,23 @@ impl NoZK {
         let mut G = G_Vec.to_owned();
         let mut H = H_Vec.to_owned();
 
-        let Ls: Vec<RistrettoPoint> = self.L_vec.iter().map(|L| L.decompress().unwrap()).collect();
-        let Rs: Vec<RistrettoPoint> = self.R_vec.iter().map(|R| R.decompress().unwrap()).collect();
-        assert_eq!(n, 1 << Ls.len());
+        // The proof must have exactly one pair (L, R) for each halving of `n`
+        if !n.is_power_of_two() || n != G.len() || n != H.len() {
+            return false;
+        }
+        let lg_n = n.trailing_zeros() as usize;
+        if self.L_vec.len() != lg_n || self.R_vec.len() != lg_n {
+            return false;
+        }
+
+        let Ls: Option<Vec<RistrettoPoint>> = self.L_vec.iter().map(|L| L.decompress()).collect();
+        let Rs: Option<Vec<RistrettoPoint>> = self.R_vec.iter().map(|R| R.decompress()).collect();
+        let (Ls, Rs) = match (Ls, Rs) {
+            (Some(Ls), Some(Rs)) => (Ls, Rs),
+            _ => return false,
+        };
 
-        let mut n = 1 << Ls.len();
+        let mut n = n;
 
         transcript.append_u64(b"n", n as u64);
 
-- 
2.43.0


From 8ba9d8d7d2a36de31c196d3e6fe7a3076f79ead6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 03/18] fix: reject proofs with an invalid point encoding
 instead of panicking

---
 src/copy/copy.rs      |  6 +++++-
 src/ipa/alm_zk.rs     |  5 ++++-
 src/ipa/qesa_inner.rs | 10 ++++++++--
 3 files changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index 7169fb1..1a99135 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -187,7 +187,11 @@ impl Copy {
             .zip(commitments.iter())
             .map(|(alpha, commitment)| commitment * alpha)
             .sum();
-        commitment = commitment + self.C_w.decompress().unwrap();
+        let C_w = match self.C_w.decompress() {
+            Some(C_w) => C_w,
+            None => return false,
+        };
+        commitment = commitment + C_w;
 
         // 3. Modify gamma to match the new commited values
         //
diff --git a/src/ipa/alm_zk.rs b/src/ipa/alm_zk.rs
index 5919106..5bdd0b2 100644
--- a/src/ipa/alm_zk.rs
+++ b/src/ipa/alm_zk.rs
@@ -90,7 +90,10 @@ impl AlmZK {
         //1. Decompress the commitment (C_r)
         //
         transcript.append_message(b"C_r", self.C_r.as_bytes());
-        let C_r = self.C_r.decompress().unwrap();
+        let C_r = match self.C_r.decompress() {
+            Some(C_r) => C_r,
+            None => return false,
+        };
 
         //3. Compute challenge based on C_r
         //
diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index 84152fc..3c0567f 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -127,7 +127,10 @@ impl Inner {
         //1. Decompress the commitment (C'_w)
         //
         transcript.append_message(b"c_prime_w", self.c_prime_w.as_bytes());
-        let c_prime_w = self.c_prime_w.decompress().unwrap();
+        let c_prime_w = match self.c_prime_w.decompress() {
+            Some(c_prime_w) => c_prime_w,
+            None => return false,
+        };
 
         //2. Compute challenges based on C'_w
         //
@@ -144,7 +147,10 @@ impl Inner {
 
         //5. Decompress the commitment (C''_w)
         //
-        let c_prime_prime_w = self.c_prime_prime_w.decompress().unwrap();
+        let c_prime_prime_w = match self.c_prime_prime_w.decompress() {
+            Some(c_prime_prime_w) => c_prime_prime_w,
+            None => return false,
+        };
         let c_prime_w = c_prime_w - (beta - Scalar::one()) * G_Vec[0];
         transcript.append_message(b"c_prime_prime_w", c_prime_prime_w.compress().as_bytes());
 
-- 
2.43.0


From 5ebea75b8ade3988824a7964173dcd637c3df9b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 04/18] fix: copy verifier ignored the commitment inside the
 sub-proof

Any value there, even an invalid encoding, was accepted.
---
 src/copy/copy.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/copy/copy.rs b/src/copy/copy.rs
index 1a99135..66a7d34 100644
--- a/src/copy/copy.rs
+++ b/src/copy/copy.rs
@@ -193,6 +193,11 @@ impl Copy {
         };
         commitment = commitment + C_w;
 
+        // The sub-proof is about this commitment and no other
+        if self.inner.c_prime_w != commitment.compress() {
+            return false;
+        }
+
         // 3. Modify gamma to match the new commited values
         //
         let zeroes: Vec<Scalar> = (0..n - 2).map(|_| Scalar::zero()).collect();
-- 
2.43.0


From 61f423c0aee2ad8190caf09409bc8712926c2139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:49 +0000
Subject: [PATCH 05/18] fix: linear map verifier compared only the first row of
 the image

A proof for t = Aw was also accepted for any t' that agrees with t in its
first entry.
---
 src/lmpa/no_zk.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 3c1b21d..131c5f1 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -280,7 +280,8 @@ impl NoZK {
 
         let expected_t = matrixpoint_vector_mul(&A, &base_witnes);
 
-        expected_t[0] == t[0]
+        // Every row of the image has to match, not only the first one
+        expected_t == t
     }
 }
 
-- 
2.43.0


From 72399a739534ca14bcc3dafe3084a2d8a82af486 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:49 +0000
Subject: [PATCH 06/18] fix: reject linear map proofs of the wrong shape

Missing entries made the verifier panic or drop rows of the image, surplus
ones were accepted.
---
 src/lmpa/no_zk.rs     | 12 ++++++++++++
 src/lmpa/simple_zk.rs |  5 +++++
 2 files changed, 17 insertions(+)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index 131c5f1..f9a9023 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -233,6 +233,18 @@ impl NoZK {
     ) -> bool {
         assert_eq!(n, G_Vec.len());
 
+        // The proof must have one pair (L, R) of vectors for each halving of `n`
+        // and these vectors must have one entry for each row of `A`
+        let rounds = n.trailing_zeros() as usize;
+        let m = A.len();
+        if t.len() != m
+            || self.L_Vec.len() != rounds
+            || self.R_Vec.len() != rounds
+            || self.L_Vec.iter().chain(self.R_Vec.iter()).any(|u| u.len() != m)
+        {
+            return false;
+        }
+
         let mut challenge_index = 0;
 
         while n != 1 {
diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index ec6f5ea..d8099e3 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -133,6 +133,11 @@ impl SimpleZK {
     ) -> bool {
         assert_eq!(n, G_Vec.len());
 
+        // `t` and the commitment to the blinding vector have one entry for each row of `A`
+        if t.len() != A.len() || self.a.len() != A.len() {
+            return false;
+        }
+
         for element in self.a.iter() {
             transcript.append_message(b"a", element.compress().as_bytes());
         }
-- 
2.43.0


From 16ff05b44e029ddb808b4aa962383f799fb27001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:33 +0000
Subject: [PATCH 07/18] fix: the general zero knowledge linear map proof used
 the unblinded witness

The blinded witness was computed and dropped, so the proof revealed a linear
function of the witness itself.
---
 src/lmpa/simple_zk.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index d8099e3..3effdc8 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -79,11 +79,18 @@ pub fn create_general(
         .map(|(witness, random)| beta * witness + random)
         .collect();
 
+    //The image of the blinded witness.
+    let t_prime: Vec<RistrettoPoint> = t
+        .iter()
+        .zip(a.iter())
+        .map(|(t_i, a_i)| beta * t_i + a_i)
+        .collect();
+
     let proof = no_zk::create_lmpa_noZK(
         transcript,
         A.clone(),
-        w,
-        t.clone(),
+        w_prime,
+        t_prime,
         n, //cols
         m, //rows
         k, //k
-- 
2.43.0


From 90c8ab23ce8ceec3b9c0eb77e2168a18ef28da0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:33 +0000
Subject: [PATCH 08/18] fix: k-ary linear map verifier did not use its own A
 and t

It folded the values found in the proof, so a proof of anything was accepted
for every statement. Also reject proofs of the wrong shape.
---
 src/lmpa/no_zk.rs     | 25 +++++++++++++++++++++----
 src/lmpa/simple_zk.rs |  5 +++++
 2 files changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index f9a9023..c0c37c4 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -319,8 +319,16 @@ impl lmpa_noZK {
             let shift = k-1; //to make the index begin with 0, index of -(k-1)
             let vec_len = 2*shift+1; // index 0~2*shift
             
+            // There are 2k-1 vectors for each round, the one in the middle is the current image
+            let u_vec = match self.u_proof_Block.get(challenge_index) {
+                Some(u_vec) => u_vec,
+                None => return false,
+            };
+            if u_vec.len() != vec_len || u_vec.iter().any(|u| u.len() != m) || u_vec[shift] != t {
+                return false;
+            }
 
-            for u_v in self.u_proof_Block[challenge_index].iter() {
+            for u_v in u_vec.iter() {
                 for u_l in u_v.iter() {
                     transcript.append_message(b"u_l", u_l.compress().as_bytes());
                 }
@@ -371,7 +379,7 @@ impl lmpa_noZK {
 
             let mut new_t: Vec<_> = Vec::new();
             while i < vec_len {
-                let tmp = vectorpoint_scalar_mul(&self.u_proof_Block[challenge_index][i], &z_vec[i]);
+                let tmp = vectorpoint_scalar_mul(&u_vec[i], &z_vec[i]);
                 if (new_t.len() == 0) {
                     new_t.push(tmp);
                 } else {
@@ -389,9 +397,18 @@ impl lmpa_noZK {
             challenge_index += 1;
         }
 
-        let expected_t = matrixpoint_vector_mul(&self.A_Matrix, &self.w_Vec);
+        // The folded statement in the proof has to be the one folded here, from the verifier's `A` and `t`
+        if self.u_proof_Block.len() != challenge_index
+            || self.A_Matrix != A
+            || self.t_Vec != t
+            || A.iter().any(|row| row.len() != self.w_Vec.len())
+        {
+            return false;
+        }
+
+        let expected_t = matrixpoint_vector_mul(&A, &self.w_Vec);
 
-        expected_t[0] == t[0]
+        expected_t == t
     }
 }
 
diff --git a/src/lmpa/simple_zk.rs b/src/lmpa/simple_zk.rs
index 3effdc8..7ebaac5 100644
--- a/src/lmpa/simple_zk.rs
+++ b/src/lmpa/simple_zk.rs
@@ -112,6 +112,11 @@ impl SimpleZK_general {
         k: usize,
     ) -> bool {
 
+        // `t` and the commitment to the blinding vector have one entry for each row of `A`
+        if t.len() != m || self.a.len() != m {
+            return false;
+        }
+
         for element in self.a.iter() {
             transcript.append_message(b"a", element.compress().as_bytes());
         }
-- 
2.43.0


From 6920eb5c627ec0649c1a802a259e425c716fffe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:32 +0000
Subject: [PATCH 09/18] fix: mapping accepted the reserved witness positions

---
 src/copy/mapping.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/copy/mapping.rs b/src/copy/mapping.rs
index 691a2c0..4bacaea 100644
--- a/src/copy/mapping.rs
+++ b/src/copy/mapping.rs
@@ -66,6 +66,8 @@ pub fn compute_mapping(
     witness_size: usize,
     sets_of_indices: &[BTreeSet<u16>],
 ) -> Mapping {
+    assert!(n <= u16::max_value() as usize, "indices are 16 bits wide");
+    assert!(witness_size <= n - 2, "the witness does not fit");
     let n = n as u16;
 
     let num_commitments = sets_of_indices.len();
@@ -78,7 +80,9 @@ pub fn compute_mapping(
         .collect();
 
     // The first element in the witness is reserved and so users cannot commit to it.
-    unique_indices.contains(&0);
+    assert!(!unique_indices.contains(&0));
+    // The last two elements carry the randomness and can not be committed to either.
+    assert!(unique_indices.iter().all(|i| *i < n - 2));
 
     // This is the total amount of messages that are being committed to
     // Which is equal to the total amount of indices
-- 
2.43.0


From ae450e9f70e00f6851301b64e62ab12656a258e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:05:37 +0000
Subject: [PATCH 10/18] fix: equations beyond the number of generators were
 never checked

---
 src/ipa/qesa_inner.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index 3c0567f..7258ece 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -41,8 +41,11 @@ pub fn create(
 
     //3. Compute challenges based on C'_w
     //
-    let x_challenges: Vec<Scalar> = vandemonde_challenge(transcript.challenge_scalar(b"x"), n);
-    assert_eq!(x_challenges.len(), n);
+    // One challenge per block
+    let num_challenges = std::cmp::max(n, gamma_i.block.len());
+    let x_challenges: Vec<Scalar> =
+        vandemonde_challenge(transcript.challenge_scalar(b"x"), num_challenges);
+    assert_eq!(x_challenges.len(), num_challenges);
 
     // 4. batch each matrix into a single matrix using the challenges
     //
@@ -134,7 +137,9 @@ impl Inner {
 
         //2. Compute challenges based on C'_w
         //
-        let x_challenges: Vec<Scalar> = vandemonde_challenge(transcript.challenge_scalar(b"x"), n);
+        let num_challenges = std::cmp::max(n, gamma_i.block.len());
+        let x_challenges: Vec<Scalar> =
+            vandemonde_challenge(transcript.challenge_scalar(b"x"), num_challenges);
 
         // 3. batch each matrix into a single matrix using the challenges
         //
-- 
2.43.0


From 5f84a6a254c18cee332b3ce9ae60c40da90adb03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:49 +0000
Subject: [PATCH 11/18] fix: draw the challenge that forces the first witness
 element independently

---
 src/ipa/qesa_inner.rs | 31 ++++++++++++++++---------------
 1 file changed, 16 insertions(+), 15 deletions(-)

diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index 7258ece..38f4aa4 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -53,28 +53,29 @@ pub fn create(
     // We use the challenges to batch all of them into one `n-2 x n-2` matrix
     let gamma = gamma_i.block_matrix_batch(&x_challenges);
 
-    //5. Fix the first element of the witness to be one (see paper)
-    //
-    let beta = x_challenges[1];
-    G_Vec[0] = G_Vec[0] * beta.invert();
-
-    //6. Compute r'' by rotating the r' by 90 degrees
+    //5. Compute r'' by rotating the r' by 90 degrees
     //
     let r_prime_prime = vec![-r_prime[1], r_prime[0]];
 
-    // 7. Compute w'' (extended witness)
+    // 6. Compute w'' (extended witness)
     //
     // Compute gamma * w
     let gamma_w = matrix_vector_mul(&gamma, &w);
     //
     let w_prime_prime = [&gamma_w[..], &r_prime_prime[..]].concat();
 
-    //8. Compute commitment (C''_w) to w''
+    //7. Compute commitment (C''_w) to w''
     //
     let c_prime_prime_w =
         RistrettoPoint::vartime_multiscalar_mul(w_prime_prime.iter(), H_Vec.iter());
     transcript.append_message(b"c_prime_prime_w", c_prime_prime_w.compress().as_bytes());
 
+    //8. Fix the first element of the witness to be one (see paper)
+    //
+    // An own challenge: with a power of x, equations could cancel against a wrong first element
+    let beta = transcript.challenge_scalar(b"beta");
+    G_Vec[0] = G_Vec[0] * beta.invert();
+
     //9. Compute `s` and `b` challenges
     //
     // `s` must be of size `n-2` and b must be of size `2`
@@ -145,20 +146,20 @@ impl Inner {
         //
         let gamma = gamma_i.block_matrix_batch(&x_challenges);
 
-        //4. Fix the first element of the witness to be one (see paper)
-        //
-        let beta = x_challenges[1];
-        G_Vec[0] = G_Vec[0] * beta.invert();
-
-        //5. Decompress the commitment (C''_w)
+        //4. Decompress the commitment (C''_w)
         //
         let c_prime_prime_w = match self.c_prime_prime_w.decompress() {
             Some(c_prime_prime_w) => c_prime_prime_w,
             None => return false,
         };
-        let c_prime_w = c_prime_w - (beta - Scalar::one()) * G_Vec[0];
         transcript.append_message(b"c_prime_prime_w", c_prime_prime_w.compress().as_bytes());
 
+        //5. Fix the first element of the witness to be one (see paper)
+        //
+        let beta = transcript.challenge_scalar(b"beta");
+        G_Vec[0] = G_Vec[0] * beta.invert();
+        let c_prime_w = c_prime_w - (beta - Scalar::one()) * G_Vec[0];
+
         //6. Compute `s` and `b` challenges
         //
         let s_challenges = vandemonde_challenge(transcript.challenge_scalar(b"s"), n - 2);
-- 
2.43.0


From ed95742e32186c7e06f288ee783d966f9f6d8073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:53 +0000
Subject: [PATCH 12/18] fix: the second commitment could change the witness
 after the equations were batched

---
 src/ipa/qesa_inner.rs | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index 38f4aa4..7e46cca 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -76,6 +76,10 @@ pub fn create(
     let beta = transcript.challenge_scalar(b"beta");
     G_Vec[0] = G_Vec[0] * beta.invert();
 
+    // C''_w is chosen after the equations were batched: a challenge of its own keeps it from changing the w' that was
+    // committed to in C'_w
+    let delta = transcript.challenge_scalar(b"delta");
+
     //9. Compute `s` and `b` challenges
     //
     // `s` must be of size `n-2` and b must be of size `2`
@@ -91,12 +95,13 @@ pub fn create(
     //
     // Recall that <a,b> = t
     //
-    let gamma_prime = compute_gamma_prime(&gamma, n);
+    let gamma_prime = matrix_scalar_mul(&compute_gamma_prime(&gamma, n), &delta);
     let gamma_prime_t = matrix_transpose(&gamma_prime);
     let gamma_prime_t_s_prime = matrix_vector_mul(&gamma_prime_t, &s_prime);
 
     let a = row_row_sub(&w_prime, &s_prime);
-    let b = row_row_add(&w_prime_prime, &gamma_prime_t_s_prime);
+    let delta_w_prime_prime: Vec<Scalar> = w_prime_prime.iter().map(|w| delta * w).collect();
+    let b = row_row_add(&delta_w_prime_prime, &gamma_prime_t_s_prime);
     let t = crate::math_utils::inner_product(&a, &b);
 
     // 12. Compute commitment (C_w) to witness
@@ -160,6 +165,8 @@ impl Inner {
         G_Vec[0] = G_Vec[0] * beta.invert();
         let c_prime_w = c_prime_w - (beta - Scalar::one()) * G_Vec[0];
 
+        let delta = transcript.challenge_scalar(b"delta");
+
         //6. Compute `s` and `b` challenges
         //
         let s_challenges = vandemonde_challenge(transcript.challenge_scalar(b"s"), n - 2);
@@ -172,7 +179,7 @@ impl Inner {
 
         // 8. Compute `t`
         //
-        let gamma_prime = compute_gamma_prime(&gamma, n);
+        let gamma_prime = matrix_scalar_mul(&compute_gamma_prime(&gamma, n), &delta);
 
         let gamma_prime_t = matrix_transpose(&gamma_prime);
         let gamma_prime_t_s_prime = matrix_vector_mul(&gamma_prime_t, &s_prime);
@@ -180,12 +187,12 @@ impl Inner {
         let gamma_t = matrix_transpose(&gamma);
         let gamma_t_s = matrix_vector_mul(&gamma_t, &s_challenges);
 
-        let t = -crate::math_utils::inner_product(&s_challenges, &gamma_t_s);
+        let t = -delta * crate::math_utils::inner_product(&s_challenges, &gamma_t_s);
 
         // 9. Compute commitment (C_w) to witness
         //
         let mut C_w = c_prime_w
-            + c_prime_prime_w
+            + delta * c_prime_prime_w
             + RistrettoPoint::vartime_multiscalar_mul(gamma_prime_t_s_prime.iter(), H_Vec.iter());
         C_w = C_w - RistrettoPoint::vartime_multiscalar_mul(s_prime.iter(), G_Vec.iter());
         transcript.append_message(b"c_w", C_w.compress().as_bytes());
-- 
2.43.0


From 7cf11fcf468d413211ec2e1a9378f08f9b9b85c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:57 +0000
Subject: [PATCH 13/18] fix: provers panicked on witnesses that are already
 orthogonal

---
 src/ipa/gramschmidt.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/ipa/gramschmidt.rs b/src/ipa/gramschmidt.rs
index cd8da86..d9c4822 100644
--- a/src/ipa/gramschmidt.rs
+++ b/src/ipa/gramschmidt.rs
@@ -32,7 +32,10 @@ pub fn orth(a: &[Scalar], b: &[Scalar]) -> Vec<Scalar> {
     let aa: Scalar = inner_product(&a, &a);
     let ab: Scalar = inner_product(&a, &b);
 
-    assert_ne!(Scalar::zero(), ab);
+    // Nothing to project away
+    if ab == Scalar::zero() {
+        return b.to_vec();
+    }
 
     let x: Scalar = ab * aa.invert();
 
-- 
2.43.0


From 490cbd73c98c0cff75f8ddb58f349ab946ceda0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:52:00 +0000
Subject: [PATCH 14/18] fix: mapping without generators was accepted in release
 builds

---
 src/copy/mapping.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/copy/mapping.rs b/src/copy/mapping.rs
index 4bacaea..dc58b5d 100644
--- a/src/copy/mapping.rs
+++ b/src/copy/mapping.rs
@@ -67,7 +67,7 @@ pub fn compute_mapping(
     sets_of_indices: &[BTreeSet<u16>],
 ) -> Mapping {
     assert!(n <= u16::max_value() as usize, "indices are 16 bits wide");
-    assert!(witness_size <= n - 2, "the witness does not fit");
+    assert!(n >= 2 && witness_size <= n - 2, "the witness does not fit");
     let n = n as u16;
 
     let num_commitments = sets_of_indices.len();
-- 
2.43.0


From aeba99abc7b5e98847fab6bdc7df414207f4323d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:52 +0000
Subject: [PATCH 15/18] fix: mapping panicked when there are no messages

---
 src/copy/mapping.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/copy/mapping.rs b/src/copy/mapping.rs
index dc58b5d..c0e2153 100644
--- a/src/copy/mapping.rs
+++ b/src/copy/mapping.rs
@@ -96,7 +96,11 @@ pub fn compute_mapping(
         .take(total_messages)
         .map(|x| x)
         .collect();
-    let last_index = *available_positions.last().unwrap();
+    // Without messages, the last position in use is the last one of the witness
+    let last_index = match available_positions.last() {
+        Some(last) => *last,
+        None => position.saturating_sub(1),
+    };
 
     // This checks if there are more messages than available positions in the witness
     // The take() method will `take` as many items as it can
-- 
2.43.0


From 54260df84fec7110786bd7d5031f7a2fc9ac3ab0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:56 +0000
Subject: [PATCH 16/18] fix: challenge vector of length zero underflowed, so
 the copy argument failed without commitments

---
 src/math_utils.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/math_utils.rs b/src/math_utils.rs
index 8fff771..0330181 100644
--- a/src/math_utils.rs
+++ b/src/math_utils.rs
@@ -10,11 +10,12 @@ pub fn inner_product(a: &[Scalar], b: &[Scalar]) -> Scalar {
 // XXX: double check that it is fine to use a vandermonde matrix in regards to testing distributions to
 // expand challenges instead of fetching each challenge from the distribution
 // so we don't need `n` different challenges
-pub fn vandemonde_challenge(mut x: Scalar, n: usize) -> Vec<Scalar> {
+pub fn vandemonde_challenge(x: Scalar, n: usize) -> Vec<Scalar> {
     let mut challenges: Vec<Scalar> = Vec::with_capacity(n);
-    challenges.push(x);
-    for i in 0..n-1 {
-        challenges.push(challenges[i] * x);
+    let mut power = x;
+    for _ in 0..n {
+        challenges.push(power);
+        power = power * x;
     }
     challenges
 }
-- 
2.43.0


From fc14870eb02c8e2b10100d96c5aee4981f3f7a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:07:03 +0000
Subject: [PATCH 17/18] fix: linear map verifiers ignored columns beyond the
 declared number

---
 src/lmpa/no_zk.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/lmpa/no_zk.rs b/src/lmpa/no_zk.rs
index c0c37c4..b2874ac 100644
--- a/src/lmpa/no_zk.rs
+++ b/src/lmpa/no_zk.rs
@@ -238,6 +238,7 @@ impl NoZK {
         let rounds = n.trailing_zeros() as usize;
         let m = A.len();
         if t.len() != m
+            || A.iter().any(|row| row.len() != n)
             || self.L_Vec.len() != rounds
             || self.R_Vec.len() != rounds
             || self.L_Vec.iter().chain(self.R_Vec.iter()).any(|u| u.len() != m)
@@ -309,6 +310,11 @@ impl lmpa_noZK {
         one: Scalar,
         zero: RistrettoPoint,
     ) -> bool {
+        // Columns beyond `n` would be ignored below
+        if A.len() != m || A.iter().any(|row| row.len() != n) {
+            return false;
+        }
+
         let mut challenge_index = 0;
         while n >= k {
             let chunk_size = n/k;
-- 
2.43.0


From 765e33e499d835a25a31f8dfd3e569c671df059a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:05:43 +0000
Subject: [PATCH 18/18] fix: proofs about systems without equations panicked

---
 src/ipa/qesa_inner.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ipa/qesa_inner.rs b/src/ipa/qesa_inner.rs
index 7e46cca..a5ba8a2 100644
--- a/src/ipa/qesa_inner.rs
+++ b/src/ipa/qesa_inner.rs
@@ -51,7 +51,7 @@ pub fn create(
     //
     // Given `k` matrices of size `n-2 x n-2`
     // We use the challenges to batch all of them into one `n-2 x n-2` matrix
-    let gamma = gamma_i.block_matrix_batch(&x_challenges);
+    let gamma = batch_equations(gamma_i, &x_challenges, n - 2);
 
     //5. Compute r'' by rotating the r' by 90 degrees
     //
@@ -149,7 +149,7 @@ impl Inner {
 
         // 3. batch each matrix into a single matrix using the challenges
         //
-        let gamma = gamma_i.block_matrix_batch(&x_challenges);
+        let gamma = batch_equations(gamma_i, &x_challenges, n - 2);
 
         //4. Decompress the commitment (C''_w)
         //
@@ -204,6 +204,14 @@ impl Inner {
     }
 }
 
+// Without any equations, there is nothing to batch and the witness is free
+fn batch_equations(gamma_i: &BlockMatrix, challenges: &[Scalar], size: usize) -> Vec<Vec<Scalar>> {
+    if gamma_i.block.is_empty() {
+        return vec![vec![Scalar::zero(); size]; size];
+    }
+    gamma_i.block_matrix_batch(challenges)
+}
+
 fn compute_gamma_prime(gamma: &Vec<Vec<Scalar>>, n: usize) -> Vec<Vec<Scalar>> {
     // Pad the gamma rows with zeroes at the end (iss#1)
     let mut gamma_prime: Vec<Vec<Scalar>> = gamma
-- 
2.43.0

