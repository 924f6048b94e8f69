From 1f6c236c42ae7671c5d446035f2ff289aebf3e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:34 +0000
Subject: [PATCH 01/40] fix: bind the opened row and its index in the
 BN128/BLS12381 Merkle path check

---
 starky/src/merklehash_bls12381.rs | 7 ++++---
 starky/src/merklehash_bn128.rs    | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index 19454f4..6d4ca62 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -116,12 +116,13 @@ impl MerkleTreeBLS12381 {
         if mp.len() == offset {
             return Ok(*value);
         }
-        //let cur_idx = idx & 0xF;
+        let cur_idx = idx & 0xF;
         let next_idx = idx >> 4;
         let mut vals: Vec<Fr> = vec![];
         for i in 0..16 {
             vals.push(mp[offset][i]);
         }
+        vals[cur_idx] = Fr(value.as_scalar::<Fr>());
         let init = Fr::zero();
         let next_value = self.poseidon.hash(&vals, &init)?;
         let next_value = <Self as MerkleTree>::MTNode::from_scalar(&next_value);
@@ -134,8 +135,8 @@ impl MerkleTreeBLS12381 {
         idx: usize,
         vals: &[FGL],
     ) -> Result<ElementDigest<4, Fr>> {
-        let h = self.h.hash_element_matrix(&[vals.to_vec()])?;
-        self.merkle_calculate_root_from_proof(mp, idx, &ElementDigest::<4, Fr>::from_scalar(&h), 0)
+        let h = self.h.hash_element_array(vals)?;
+        self.merkle_calculate_root_from_proof(mp, idx, &h, 0)
     }
 }
 
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index 54ae026..d647094 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -115,12 +115,13 @@ impl MerkleTreeBN128 {
         if mp.len() == offset {
             return Ok(*value);
         }
-        //let cur_idx = idx & 0xF;
+        let cur_idx = idx & 0xF;
         let next_idx = idx >> 4;
         let mut vals: Vec<Fr> = vec![];
         for i in 0..16 {
             vals.push(mp[offset][i]);
         }
+        vals[cur_idx] = Fr(value.as_scalar::<Fr>());
         let init = Fr::zero();
         let next_value = self.poseidon.hash(&vals, &init)?;
         let next_value = <Self as MerkleTree>::MTNode::from_scalar(&next_value);
@@ -133,8 +134,8 @@ impl MerkleTreeBN128 {
         idx: usize,
         vals: &[FGL],
     ) -> Result<ElementDigest<4, Fr>> {
-        let h = self.h.hash_element_matrix(&[vals.to_vec()])?;
-        self.merkle_calculate_root_from_proof(mp, idx, &ElementDigest::<4, Fr>::from_scalar(&h), 0)
+        let h = self.h.hash_element_array(vals)?;
+        self.merkle_calculate_root_from_proof(mp, idx, &h, 0)
     }
 }
 
-- 
2.43.0


From 9d14929a00281ac8c920e2ba5bbea0da7875b043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 02/40] fix: a Merkle tree of one row has its leaf digest as
 root

---
 starky/src/merklehash.rs          | 4 ++++
 starky/src/merklehash_bls12381.rs | 4 ++++
 starky/src/merklehash_bn128.rs    | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/starky/src/merklehash.rs b/starky/src/merklehash.rs
index af4649d..413c347 100644
--- a/starky/src/merklehash.rs
+++ b/starky/src/merklehash.rs
@@ -46,6 +46,10 @@ pub struct MerkleTreeGL {
 
 fn get_n_nodes(n_: usize) -> usize {
     let mut n = n_;
+    if n == 1 {
+        // the only leaf is the root
+        return 1;
+    }
     let mut next_n = (n - 1) / 2 + 1;
     let mut acc = next_n * 2;
     while n > 1 {
diff --git a/starky/src/merklehash_bls12381.rs b/starky/src/merklehash_bls12381.rs
index 6d4ca62..49cab09 100644
--- a/starky/src/merklehash_bls12381.rs
+++ b/starky/src/merklehash_bls12381.rs
@@ -26,6 +26,10 @@ pub struct MerkleTreeBLS12381 {
 
 fn get_n_nodes(n_: usize) -> usize {
     let mut n = n_;
+    if n == 1 {
+        // the only leaf is the root
+        return 1;
+    }
     let mut next_n = (n - 1) / 16 + 1;
     let mut acc = next_n * 16;
     while n > 1 {
diff --git a/starky/src/merklehash_bn128.rs b/starky/src/merklehash_bn128.rs
index d647094..933908f 100644
--- a/starky/src/merklehash_bn128.rs
+++ b/starky/src/merklehash_bn128.rs
@@ -25,6 +25,10 @@ pub struct MerkleTreeBN128 {
 
 fn get_n_nodes(n_: usize) -> usize {
     let mut n = n_;
+    if n == 1 {
+        // the only leaf is the root
+        return 1;
+    }
     let mut next_n = (n - 1) / 16 + 1;
     let mut acc = next_n * 16;
     while n > 1 {
-- 
2.43.0


From 9353819b2ebf03029ae012428e7716840abdb4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 03/40] fix: negation of quintic extension elements

---
 starky/src/f5g.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/starky/src/f5g.rs b/starky/src/f5g.rs
index 61e2299..874de5f 100644
--- a/starky/src/f5g.rs
+++ b/starky/src/f5g.rs
@@ -488,9 +488,9 @@ impl Neg for F5G {
     #[inline]
     fn neg(self) -> Self::Output {
         match self.dim {
-            3 => Self {
+            5 => Self {
                 cube: [-self.cube[0], -self.cube[1], -self.cube[2], -self.cube[3], -self.cube[4]],
-                dim: 3,
+                dim: 5,
             },
             1 => Self::from(-self.to_be()),
             _ => {
-- 
2.43.0


From bc2782ff1a7da7a6f985346dd251426551f6d9d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 04/40] fix: ordering of quintic extension elements

---
 starky/src/f5g.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/starky/src/f5g.rs b/starky/src/f5g.rs
index 874de5f..c631731 100644
--- a/starky/src/f5g.rs
+++ b/starky/src/f5g.rs
@@ -104,11 +104,7 @@ impl FieldExtension for F5G {
         let res = rhs.as_elements();
         match self.dim {
             5 => {
-                (les[0] > res[0]
-                    && (les[1] == res[1])
-                    && (les[2] == res[2])
-                    && (les[3] == res[3])
-                    && (les[4] == res[4]))
+                (les[0] > res[0])
                     || ((les[0] == res[0]) && (les[1] > res[1]))
                     || ((les[0] == res[0]) && (les[1] == res[1]) && (les[2] > res[2]))
                     || ((les[0] == res[0])
@@ -135,7 +131,7 @@ impl FieldExtension for F5G {
 
     #[inline]
     fn lt(&self, rhs: &Self) -> bool {
-        !self.gt(rhs) || self.lt(rhs)
+        !self.geq(rhs)
     }
 
     #[inline]
-- 
2.43.0


From db1a38f42d2c27823102778b1e9fa4bb4a4c1a0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:27 +0000
Subject: [PATCH 05/40] fix: bit length of a one-limb Goldilocks representation

---
 fields/src/field_gl.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/fields/src/field_gl.rs b/fields/src/field_gl.rs
index 1146e5d..b4bb13d 100644
--- a/fields/src/field_gl.rs
+++ b/fields/src/field_gl.rs
@@ -230,7 +230,7 @@ impl crate::ff::PrimeFieldRepr for FrRepr {
     }
     #[inline(always)]
     fn num_bits(&self) -> u32 {
-        let mut ret = (2usize as u32) * 64;
+        let mut ret = (self.0.len() as u32) * 64;
         for i in self.0.iter().rev() {
             let leading = i.leading_zeros();
             ret -= leading;
-- 
2.43.0


From 97414dcadb2ed270d3a5930b8adbab983647cef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 06/40] fix: refuse a truncated polynomial file instead of
 looping or dropping bytes

---
 starky/src/polsarray.rs | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/starky/src/polsarray.rs b/starky/src/polsarray.rs
index 325496b..cb48b33 100644
--- a/starky/src/polsarray.rs
+++ b/starky/src/polsarray.rs
@@ -150,22 +150,15 @@ impl PolsArray {
                 k / 1024 / 1024,
                 totalSize / 1024 / 1024
             );
-            let mut n = std::cmp::min(buff8.len() / 8, totalSize - k);
-            let rs = f.read(&mut buff8[..(n * 8)])?;
-            log::trace!(
-                "read size: read size = {}, n = {}, k = {}, totalSize = {}",
-                rs,
-                n,
-                k,
-                totalSize
-            );
+            let n = std::cmp::min(buff8.len() / 8, totalSize - k);
+            f.read_exact(&mut buff8[..(n * 8)])?;
+            log::trace!("read size: n = {}, k = {}, totalSize = {}", n, k, totalSize);
             let buff: &[u64] = unsafe {
                 std::slice::from_raw_parts(
                     buff8.as_ptr() as *const u64,
                     buff8.len() / std::mem::size_of::<u64>(),
                 )
             };
-            n = rs / 8;
 
             for l in 0..n {
                 self.array[i][j] = FGL::from(buff[l]);
-- 
2.43.0


From af1b5502182a4bc5d15b70e31ca7e541f8c7c5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 07/40] fix: write only the filled part of the last buffer of a
 polynomial file

---
 starky/src/polsarray.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/starky/src/polsarray.rs b/starky/src/polsarray.rs
index cb48b33..e3e7150 100644
--- a/starky/src/polsarray.rs
+++ b/starky/src/polsarray.rs
@@ -201,7 +201,7 @@ impl PolsArray {
             let buff8: &[u8] = unsafe {
                 std::slice::from_raw_parts(
                     buff.as_ptr() as *const u8,
-                    buff.len() * std::mem::size_of::<u64>(),
+                    p * std::mem::size_of::<u64>(),
                 )
             };
             writer.write_all(buff8)?;
-- 
2.43.0


From ba6b268427a557c61f9b177b41ae556a11dc3fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 08/40] fix: keep every declared column of a namespace in the
 definition map

---
 starky/src/polsarray.rs | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/starky/src/polsarray.rs b/starky/src/polsarray.rs
index e3e7150..9fb6e62 100644
--- a/starky/src/polsarray.rs
+++ b/starky/src/polsarray.rs
@@ -85,9 +85,7 @@ impl PolsArray {
                         polDeg: ref_.polDeg,
                     };
                     let arrayPols: Vec<usize> = vec![ref_.id];
-                    let mut ns: HashMap<String, Vec<usize>> = HashMap::new();
-                    ns.insert(namePols, arrayPols);
-                    def.insert(nameSpace, ns);
+                    def.entry(nameSpace).or_default().insert(namePols, arrayPols);
                     array[ref_.id] = vec![FGL::default(); ref_.polDeg];
                 }
             }
-- 
2.43.0


From fce21b5906fe951238f1e4b0e9ab9ae88ff5d2a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 09/40] fix: refuse a witness file with missing or out-of-range
 elements

---
 algebraic-gpu/src/reader.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/algebraic-gpu/src/reader.rs b/algebraic-gpu/src/reader.rs
index 18ba416..9ed2312 100644
--- a/algebraic-gpu/src/reader.rs
+++ b/algebraic-gpu/src/reader.rs
@@ -105,17 +105,13 @@ pub fn load_witness_from_bin_reader<E: PrimeField, R: Read>(mut reader: R) -> Re
     for _ in 0..witness_len {
         let mut repr = E::default().to_repr();
         let repr_slice = repr.as_mut();
-        if reader.read_exact(repr_slice).is_err() {
-            continue;
-        }
+        reader.read_exact(repr_slice)?;
         let maybe_field_elem = E::from_repr(repr);
         if maybe_field_elem.is_some().unwrap_u8() == 1 {
             result.push(maybe_field_elem.unwrap());
         } else {
-            continue;
+            bail!("invalid witness element");
         }
-        // repr.read_le(&mut reader)?;
-        // result.push(E::Fr::from_repr(repr)?);
     }
     Ok(result)
 }
-- 
2.43.0


From ccb1bfda2b2459b340e070fb7c92d22e67a84085 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:12 +0000
Subject: [PATCH 10/40] fix: refuse an R1CS file that ends inside a custom gate
 name instead of looping

---
 algebraic-gpu/src/r1cs_file.rs | 8 ++++----
 algebraic/src/r1cs_file.rs     | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/algebraic-gpu/src/r1cs_file.rs b/algebraic-gpu/src/r1cs_file.rs
index 928171a..bfdc062 100644
--- a/algebraic-gpu/src/r1cs_file.rs
+++ b/algebraic-gpu/src/r1cs_file.rs
@@ -122,18 +122,18 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
 }
 
 // TODO: why does the `read_to_end` not work?
-fn read_to_string<R: Read>(mut reader: R) -> String {
+fn read_to_string<R: Read>(mut reader: R) -> Result<String> {
     let mut name_buf = vec![1u8; 1];
     let mut buf = vec![];
     loop {
-        let name_size_res = reader.read_exact(&mut name_buf);
+        reader.read_exact(&mut name_buf)?;
         if name_buf[0] != 0 {
             buf.push(name_buf[0]);
         } else {
             break;
         }
     }
-    String::from_utf8_lossy(&buf).to_string()
+    Ok(String::from_utf8_lossy(&buf).to_string())
 }
 
 fn read_custom_gates_list<R: Read, E: PrimeField>(
@@ -145,7 +145,7 @@ fn read_custom_gates_list<R: Read, E: PrimeField>(
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     for i in 0..num {
         let mut custom_gate =
-            CustomGates::<E> { template_name: read_to_string(&mut reader), parameters: vec![] };
+            CustomGates::<E> { template_name: read_to_string(&mut reader)?, parameters: vec![] };
         let num_parameters = reader.read_u32::<LittleEndian>()?;
         for _i in 0..num_parameters {
             custom_gate.parameters.push(read_field::<&mut R, E>(&mut reader)?);
diff --git a/algebraic/src/r1cs_file.rs b/algebraic/src/r1cs_file.rs
index 22c10b9..0d41eac 100644
--- a/algebraic/src/r1cs_file.rs
+++ b/algebraic/src/r1cs_file.rs
@@ -117,18 +117,18 @@ fn read_map<R: Read>(mut reader: R, size: u64, header: &Header) -> Result<Vec<u6
 }
 
 // TODO: why does the `read_to_end` not work?
-fn read_to_string<R: Read>(mut reader: R) -> String {
+fn read_to_string<R: Read>(mut reader: R) -> Result<String> {
     let mut name_buf = vec![1u8; 1];
     let mut buf = vec![];
     loop {
-        let name_size_res = reader.read_exact(&mut name_buf);
+        reader.read_exact(&mut name_buf)?;
         if name_buf[0] != 0 {
             buf.push(name_buf[0]);
         } else {
             break;
         }
     }
-    String::from_utf8_lossy(&buf).to_string()
+    Ok(String::from_utf8_lossy(&buf).to_string())
 }
 
 fn read_custom_gates_list<R: Read, E: ScalarEngine>(
@@ -140,7 +140,7 @@ fn read_custom_gates_list<R: Read, E: ScalarEngine>(
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     for i in 0..num {
         let mut custom_gate =
-            CustomGates::<E> { template_name: read_to_string(&mut reader), parameters: vec![] };
+            CustomGates::<E> { template_name: read_to_string(&mut reader)?, parameters: vec![] };
         let num_parameters = reader.read_u32::<LittleEndian>()?;
         for _i in 0..num_parameters {
             custom_gate.parameters.push(read_field::<&mut R, E>(&mut reader)?);
-- 
2.43.0


From 57b6a9c5d6657099e38f8c0a56b7a703f3f3caf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 11/40] fix: refuse an R1CS file over another prime of the same
 size

---
 algebraic-gpu/src/r1cs_file.rs | 5 ++++-
 algebraic/src/r1cs_file.rs     | 4 +++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/algebraic-gpu/src/r1cs_file.rs b/algebraic-gpu/src/r1cs_file.rs
index bfdc062..2a65dd2 100644
--- a/algebraic-gpu/src/r1cs_file.rs
+++ b/algebraic-gpu/src/r1cs_file.rs
@@ -230,7 +230,10 @@ pub fn from_reader<R: Read + Seek, E: PrimeField>(mut reader: R) -> Result<R1CSF
             "This parser only supports 32-bytes or 8-bytes fields",
         ));
     }
-    if header.field_size != E::NUM_BITS.div_ceil(8) {
+    let mut modulus = hex::decode(E::MODULUS.trim_start_matches("0x"))
+        .map_err(|e| Error::new(ErrorKind::InvalidData, e))?;
+    modulus.reverse();
+    if header.field_size != E::NUM_BITS.div_ceil(8) || header.prime_size != modulus {
         return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
     }
     if !(header.prime_size
diff --git a/algebraic/src/r1cs_file.rs b/algebraic/src/r1cs_file.rs
index 0d41eac..146b7e9 100644
--- a/algebraic/src/r1cs_file.rs
+++ b/algebraic/src/r1cs_file.rs
@@ -225,7 +225,9 @@ pub fn from_reader<R: Read + Seek, E: ScalarEngine>(mut reader: R) -> Result<R1C
             "This parser only supports 32-bytes or 8-bytes fields",
         ));
     }
-    if header.field_size != E::Fr::NUM_BITS.div_ceil(8) {
+    let mut modulus = vec![];
+    E::Fr::char().write_le(&mut modulus)?;
+    if header.field_size != E::Fr::NUM_BITS.div_ceil(8) || header.prime_size != modulus {
         return Err(Error::new(ErrorKind::InvalidData, "Different prime"));
     }
     if !(header.prime_size
-- 
2.43.0


From 88ef57ca5c209a9d46df277fd3709148090395d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 12/40] fix: an invalid G2 point in JSON is an error, not a
 panic

---
 recursion-gnark/ffi/src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index 1470584..7993565 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -486,8 +486,8 @@ where
                 z.len()
             )))
         } else {
-            Ok(P::g2_from_strings_projective(&x[0], &x[1], &y[0], &y[1], &z[0], &z[1], self.check)
-                .unwrap())
+            P::g2_from_strings_projective(&x[0], &x[1], &y[0], &y[1], &z[0], &z[1], self.check)
+                .map_err(|_| de::Error::custom("Invalid projective point on G2.".to_owned()))
         }
     }
 }
-- 
2.43.0


From f59b200e42183d477e0e96ee3462e55399ac71a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:16 +0000
Subject: [PATCH 13/40] fix: serialise the G2 point at infinity

---
 recursion-gnark/ffi/src/traits.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index 7993565..1a52991 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -219,8 +219,14 @@ mod $mod_name {
             }
 
             fn serialize_g2<S: Serializer>(p: &Self::G2Affine, ser: S) -> Result<S::Ok, S::Error> {
-                let (x, y) = p.xy().unwrap();
                 let mut x_seq = ser.serialize_seq(Some(3))?;
+                let Some((x, y)) = p.xy() else {
+                    //point at infinity
+                    x_seq.serialize_element(&vec!["0", "0"])?;
+                    x_seq.serialize_element(&vec!["1", "0"])?;
+                    x_seq.serialize_element(&vec!["0", "0"])?;
+                    return x_seq.end();
+                };
                 x_seq.serialize_element(&vec![x.c0.to_string(), x.c1.to_string()])?;
                 x_seq.serialize_element(&vec![y.c0.to_string(), y.c1.to_string()])?;
                 x_seq.serialize_element(&vec!["1", "0"])?;
-- 
2.43.0


From 628e4d0150a1c9d2aec60df7a1004f318f421dd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:59 +0000
Subject: [PATCH 14/40] hook: open private starky modules to the conformance
 harness under cfg(eigen_verif)

---
 starky/src/lib.rs       | 21 +++++++++++++++++++++
 starky/src/stark_gen.rs | 14 ++++++++++++++
 2 files changed, 35 insertions(+)

diff --git a/starky/src/lib.rs b/starky/src/lib.rs
index c52bbea..f5dfad6 100644
--- a/starky/src/lib.rs
+++ b/starky/src/lib.rs
@@ -79,3 +79,24 @@ extern crate serde_json;
 extern crate ff;
 extern crate lazy_static;
 extern crate log;
+
+/// Opens private modules to the conformance harness; compiled only with `--cfg eigen_verif`.
+#[cfg(eigen_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    macro_rules! open {
+        ($($m:ident),*) => { $(pub mod $m { pub use crate::$m::*; })* };
+    }
+    open!(
+        digest,
+        expressionops,
+        field_bls12381,
+        fri,
+        interpreter,
+        poseidon_bls12381,
+        poseidon_bls12381_constants,
+        poseidon_bn128,
+        poseidon_bn128_constants,
+        starkinfo_codegen
+    );
+}
diff --git a/starky/src/stark_gen.rs b/starky/src/stark_gen.rs
index 61776f5..4799283 100644
--- a/starky/src/stark_gen.rs
+++ b/starky/src/stark_gen.rs
@@ -962,6 +962,20 @@ pub fn calculate_exps_parallel<F: FieldExtension>(
     }
 }
 
+/// Private steps of the prover, for the conformance harness (`--cfg eigen_verif`).
+#[cfg(eigen_verif)]
+#[doc(hidden)]
+pub mod verif_hooks {
+    use crate::traits::FieldExtension;
+
+    pub fn h1h2<F: FieldExtension>(f: Vec<F>, t: Vec<F>) -> (Vec<F>, Vec<F>) {
+        super::calculate_H1H2(f, t)
+    }
+    pub fn grand_product<F: FieldExtension>(num: Vec<F>, den: Vec<F>) -> Vec<F> {
+        super::calculate_Z(num, den)
+    }
+}
+
 #[cfg(test)]
 pub mod tests {
     use crate::field_bn128::Fr;
-- 
2.43.0


From e425a7512aaa2d071c002baae400da3d27d85a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 15/40] fix: drop unread parts of a challenge word when the
 256-bit transcripts absorb

---
 starky/src/transcript_bls12381.rs | 1 +
 starky/src/transcript_bn128.rs    | 1 +
 2 files changed, 2 insertions(+)

diff --git a/starky/src/transcript_bls12381.rs b/starky/src/transcript_bls12381.rs
index 1fc52ca..85cd135 100644
--- a/starky/src/transcript_bls12381.rs
+++ b/starky/src/transcript_bls12381.rs
@@ -32,6 +32,7 @@ impl TranscriptBLS128 {
     }
     fn add_1(&mut self, e: &Fr) -> Result<()> {
         self.out = VecDeque::new();
+        self.out3 = VecDeque::new();
         log::trace!("add_1: {:?}", fr_to_biguint(e));
         self.pending.push(*e);
         if self.pending.len() == 16 {
diff --git a/starky/src/transcript_bn128.rs b/starky/src/transcript_bn128.rs
index 7577ed8..0dba7a5 100644
--- a/starky/src/transcript_bn128.rs
+++ b/starky/src/transcript_bn128.rs
@@ -32,6 +32,7 @@ impl TranscriptBN128 {
     }
     fn add_1(&mut self, e: &Fr) -> Result<()> {
         self.out = VecDeque::new();
+        self.out3 = VecDeque::new();
         log::trace!("add_1: {:?}", fr_to_biguint(e));
         self.pending.push(*e);
         if self.pending.len() == 16 {
-- 
2.43.0


From 89cf75a57dc8f4cdf15e93579f6a29940e2dadfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:58 +0000
Subject: [PATCH 16/40] fix: no division by zero workers on a machine with a
 single CPU

---
 starky/src/constant.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/starky/src/constant.rs b/starky/src/constant.rs
index cd8442e..c2a340e 100644
--- a/starky/src/constant.rs
+++ b/starky/src/constant.rs
@@ -118,5 +118,6 @@ pub const MAX_OPS_PER_THREAD: usize = 1 << 18;
 pub const GLOBAL_L1: &str = "Global.L1";
 
 pub fn get_max_workers() -> usize {
-    num_cpus::get() - 1
+    // one worker on a machine with a single CPU
+    std::cmp::max(num_cpus::get() - 1, 1)
 }
-- 
2.43.0


From 16db4b13f11dcdecefc7e3ca683503d3ccf92e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:02 +0000
Subject: [PATCH 17/40] fix: hash rows of four values like longer ones; four
 64-bit limbs do not fit in one scalar

---
 starky/src/linearhash_bls12381.rs | 3 ++-
 starky/src/linearhash_bn128.rs    | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/starky/src/linearhash_bls12381.rs b/starky/src/linearhash_bls12381.rs
index 1eb9fa3..3c2e848 100644
--- a/starky/src/linearhash_bls12381.rs
+++ b/starky/src/linearhash_bls12381.rs
@@ -104,7 +104,8 @@ impl LinearHashBLS12381 {
     pub fn hash_element_array(&self, vals: &[FGL]) -> Result<ElementDigest<4, Fr>> {
         let mut st64 = [FGL::ZERO; 4];
         let mut digest: Fr = Fr::zero();
-        if vals.len() <= 4 {
+        // up to three values fit in one word of the scalar field
+        if vals.len() <= 3 {
             for (i, v) in vals.iter().enumerate() {
                 st64[i] = *v;
             }
diff --git a/starky/src/linearhash_bn128.rs b/starky/src/linearhash_bn128.rs
index f0eaee1..21a6779 100644
--- a/starky/src/linearhash_bn128.rs
+++ b/starky/src/linearhash_bn128.rs
@@ -105,7 +105,8 @@ impl LinearHashBN128 {
     pub fn hash_element_array(&self, vals: &[FGL]) -> Result<ElementDigest<4, Fr>> {
         let mut st64 = [FGL::ZERO; 4];
         let mut digest: Fr = Fr::zero();
-        if vals.len() <= 4 {
+        // up to three values fit in one word of the scalar field
+        if vals.len() <= 3 {
             for (i, v) in vals.iter().enumerate() {
                 st64[i] = *v;
             }
-- 
2.43.0


From 3a29eaa210ef1c98b401ca8f20a68d87f1294e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:54 +0000
Subject: [PATCH 18/40] fix: refuse digests in JSON with a wrong number of
 elements or a number out of range

---
 starky/src/digest.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/starky/src/digest.rs b/starky/src/digest.rs
index a4a4ea7..97e25b5 100644
--- a/starky/src/digest.rs
+++ b/starky/src/digest.rs
@@ -134,6 +134,9 @@ impl<'de, const N: usize, F: PrimeField + Default> Deserialize<'de> for ElementD
                     let entry: u64 = entry.parse().unwrap();
                     entries.push(FGL::from(entry));
                 }
+                if entries.len() != N {
+                    return Err(de::Error::invalid_length(entries.len(), &self));
+                }
                 Ok(ElementDigest::<N, F>::new(&entries))
             }
 
@@ -146,10 +149,17 @@ impl<'de, const N: usize, F: PrimeField + Default> Deserialize<'de> for ElementD
                 if source == TypeId::of::<FGL>() {
                     // one-dim GL elements
                     let value = FGL::from_str(s).unwrap();
+                    if value.as_int().to_string() != s {
+                        return Err(de::Error::invalid_value(de::Unexpected::Str(s), &self));
+                    }
                     Ok(ElementDigest::<N, F>::new(&[value, FGL::ZERO, FGL::ZERO, FGL::ZERO]))
                 } else {
                     // BN128 or BLS12381
                     let t = F::from_str(s).unwrap();
+                    // from_str reduces, but only the number itself is this digest
+                    if helper::fr_to_biguint(&t).to_string() != s {
+                        return Err(de::Error::invalid_value(de::Unexpected::Str(s), &self));
+                    }
                     Ok(ElementDigest::<N, F>::from_scalar(&t))
                 }
             }
-- 
2.43.0


From eeb57894c922f5820b94e240adc9d88d4f1c69d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:23 +0000
Subject: [PATCH 19/40] fix: refuse R1CS files whose constraint or custom gate
 sections are longer than their content

---
 algebraic-gpu/src/r1cs_file.rs | 20 +++++++++++++++-----
 algebraic/src/r1cs_file.rs     | 20 +++++++++++++++-----
 2 files changed, 30 insertions(+), 10 deletions(-)

diff --git a/algebraic-gpu/src/r1cs_file.rs b/algebraic-gpu/src/r1cs_file.rs
index 2a65dd2..289419f 100644
--- a/algebraic-gpu/src/r1cs_file.rs
+++ b/algebraic-gpu/src/r1cs_file.rs
@@ -95,15 +95,18 @@ fn read_constraints<R: Read, E: PrimeField>(
     size: u64,
     header: &Header,
 ) -> Result<Vec<Constraint<E>>> {
-    // todo check section size
+    let mut reader = reader.by_ref().take(size);
     let mut vec = Vec::with_capacity(header.n_constraints as usize);
     for _ in 0..header.n_constraints {
         vec.push((
-            read_constraint_vec::<&mut R, E>(&mut reader, header)?,
-            read_constraint_vec::<&mut R, E>(&mut reader, header)?,
-            read_constraint_vec::<&mut R, E>(&mut reader, header)?,
+            read_constraint_vec::<_, E>(&mut reader, header)?,
+            read_constraint_vec::<_, E>(&mut reader, header)?,
+            read_constraint_vec::<_, E>(&mut reader, header)?,
         ));
     }
+    if reader.limit() != 0 {
+        return Err(Error::new(ErrorKind::InvalidData, "Invalid constraint section size"));
+    }
     Ok(vec)
 }
 
@@ -141,6 +144,7 @@ fn read_custom_gates_list<R: Read, E: PrimeField>(
     size: u64,
     header: &Header,
 ) -> Result<Vec<CustomGates<E>>> {
+    let mut reader = reader.by_ref().take(size);
     let num = reader.read_u32::<LittleEndian>()?;
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     for i in 0..num {
@@ -148,10 +152,13 @@ fn read_custom_gates_list<R: Read, E: PrimeField>(
             CustomGates::<E> { template_name: read_to_string(&mut reader)?, parameters: vec![] };
         let num_parameters = reader.read_u32::<LittleEndian>()?;
         for _i in 0..num_parameters {
-            custom_gate.parameters.push(read_field::<&mut R, E>(&mut reader)?);
+            custom_gate.parameters.push(read_field::<_, E>(&mut reader)?);
         }
         custom_gates.push(custom_gate);
     }
+    if reader.limit() != 0 {
+        return Err(Error::new(ErrorKind::InvalidData, "Invalid custom gates list section size"));
+    }
     Ok(custom_gates)
 }
 
@@ -184,6 +191,9 @@ fn read_custom_gates_uses_list<R: Read>(
         }
         custom_gates_uses.push(c);
     }
+    if size != b_r1cs_pos as u64 * 4 {
+        return Err(Error::new(ErrorKind::InvalidData, "Invalid custom gates use section size"));
+    }
     Ok(custom_gates_uses)
 }
 
diff --git a/algebraic/src/r1cs_file.rs b/algebraic/src/r1cs_file.rs
index 146b7e9..6efed01 100644
--- a/algebraic/src/r1cs_file.rs
+++ b/algebraic/src/r1cs_file.rs
@@ -90,15 +90,18 @@ fn read_constraints<R: Read, E: ScalarEngine>(
     size: u64,
     header: &Header,
 ) -> Result<Vec<Constraint<E>>> {
-    // todo check section size
+    let mut reader = reader.by_ref().take(size);
     let mut vec = Vec::with_capacity(header.n_constraints as usize);
     for _ in 0..header.n_constraints {
         vec.push((
-            read_constraint_vec::<&mut R, E>(&mut reader, header)?,
-            read_constraint_vec::<&mut R, E>(&mut reader, header)?,
-            read_constraint_vec::<&mut R, E>(&mut reader, header)?,
+            read_constraint_vec::<_, E>(&mut reader, header)?,
+            read_constraint_vec::<_, E>(&mut reader, header)?,
+            read_constraint_vec::<_, E>(&mut reader, header)?,
         ));
     }
+    if reader.limit() != 0 {
+        return Err(Error::new(ErrorKind::InvalidData, "Invalid constraint section size"));
+    }
     Ok(vec)
 }
 
@@ -136,6 +139,7 @@ fn read_custom_gates_list<R: Read, E: ScalarEngine>(
     size: u64,
     header: &Header,
 ) -> Result<Vec<CustomGates<E>>> {
+    let mut reader = reader.by_ref().take(size);
     let num = reader.read_u32::<LittleEndian>()?;
     let mut custom_gates: Vec<CustomGates<E>> = vec![];
     for i in 0..num {
@@ -143,10 +147,13 @@ fn read_custom_gates_list<R: Read, E: ScalarEngine>(
             CustomGates::<E> { template_name: read_to_string(&mut reader)?, parameters: vec![] };
         let num_parameters = reader.read_u32::<LittleEndian>()?;
         for _i in 0..num_parameters {
-            custom_gate.parameters.push(read_field::<&mut R, E>(&mut reader)?);
+            custom_gate.parameters.push(read_field::<_, E>(&mut reader)?);
         }
         custom_gates.push(custom_gate);
     }
+    if reader.limit() != 0 {
+        return Err(Error::new(ErrorKind::InvalidData, "Invalid custom gates list section size"));
+    }
     Ok(custom_gates)
 }
 
@@ -179,6 +186,9 @@ fn read_custom_gates_uses_list<R: Read>(
         }
         custom_gates_uses.push(c);
     }
+    if size != b_r1cs_pos as u64 * 4 {
+        return Err(Error::new(ErrorKind::InvalidData, "Invalid custom gates use section size"));
+    }
     Ok(custom_gates_uses)
 }
 
-- 
2.43.0


From 5030a5fc1ddab7187845573faccefb7868d60efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:49 +0000
Subject: [PATCH 20/40] fix: connections over a single column have no further
 coset factors

---
 starky/src/helper.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starky/src/helper.rs b/starky/src/helper.rs
index fd054fd..5e213cc 100644
--- a/starky/src/helper.rs
+++ b/starky/src/helper.rs
@@ -15,6 +15,9 @@ use std::ops::Mul;
 ///}
 pub fn get_ks(n: usize) -> Vec<FGL> {
     let mut ks: Vec<FGL> = vec![FGL::ZERO; n];
+    if n == 0 {
+        return ks;
+    }
     ks[0] = FGL::from(12275445934081160404u64);
     for i in 1..n {
         ks[i] = ks[i - 1].mul(ks[0])
-- 
2.43.0


From a723648e53db00a3774dbd89a1c9c785e5914b29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:26 +0000
Subject: [PATCH 21/40] fix: keep the code of each expression public at the
 index of its public

---
 starky/src/starkinfo.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/starky/src/starkinfo.rs b/starky/src/starkinfo.rs
index 7ec82e9..3432ac2 100644
--- a/starky/src/starkinfo.rs
+++ b/starky/src/starkinfo.rs
@@ -316,6 +316,9 @@ impl StarkInfo {
                 //    log::trace!("{}", pp);
                 //}
                 ctx.calculated.clear(); // TODO: useless
+            } else {
+                // publics_code is indexed like publics
+                program.publics_code.push(Segment::default());
             }
         }
         Ok(())
-- 
2.43.0


From 7c894b2423f2b9329f4f72f5230f6f89c0b3b897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 22/40] fix: the last FRI polynomial may not have one
 coefficient more than the degree bound allows

---
 starky/src/fri.rs | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/starky/src/fri.rs b/starky/src/fri.rs
index 428c878..fb79d4f 100644
--- a/starky/src/fri.rs
+++ b/starky/src/fri.rs
@@ -276,17 +276,13 @@ impl FRI {
 
         let last_pol_e = proof.last.clone();
 
-        #[allow(unused_assignments)]
-        let mut max_deg = 0usize;
-        if pol_bits < (self.in_nbits - self.max_deg_nbits) {
-            max_deg = 0;
-        } else {
-            max_deg = 1 << (pol_bits - (self.in_nbits - self.max_deg_nbits));
-        }
+        // the number of coefficients the last polynomial may have
+        let extend_bits = self.in_nbits - self.max_deg_nbits;
+        let max_len = if pol_bits < extend_bits { 1 } else { 1 << (pol_bits - extend_bits) };
 
         let last_pol_c = standard_fft.ifft(&last_pol_e);
 
-        for i in (max_deg + 1)..last_pol_c.len() {
+        for i in max_len..last_pol_c.len() {
             if !last_pol_c[i].is_zero() {
                 log::error!("check last pol c failed");
                 return Ok(false);
-- 
2.43.0


From 7cec24daf73036f2dd252606b7b289ecfce39813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:55 +0000
Subject: [PATCH 23/40] fix: refuse a last FRI polynomial with more values than
 its domain

---
 starky/src/fri.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/starky/src/fri.rs b/starky/src/fri.rs
index fb79d4f..802fbfb 100644
--- a/starky/src/fri.rs
+++ b/starky/src/fri.rs
@@ -275,6 +275,10 @@ impl FRI {
         }
 
         let last_pol_e = proof.last.clone();
+        if last_pol_e.len() != 1 << pol_bits {
+            log::error!("the last pol has {} values, not {}", last_pol_e.len(), 1 << pol_bits);
+            return Ok(false);
+        }
 
         // the number of coefficients the last polynomial may have
         let extend_bits = self.in_nbits - self.max_deg_nbits;
-- 
2.43.0


From db75d75a580776f0910b68a0ee8d0d0f0145bcbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:02 +0000
Subject: [PATCH 24/40] fix: report a circuit exception instead of returning a
 witness

---
 algebraic-gpu/src/witness/witness_calculator.rs | 5 +++--
 algebraic/src/witness/witness_calculator.rs     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/algebraic-gpu/src/witness/witness_calculator.rs b/algebraic-gpu/src/witness/witness_calculator.rs
index 5038b33..7164a4d 100644
--- a/algebraic-gpu/src/witness/witness_calculator.rs
+++ b/algebraic-gpu/src/witness/witness_calculator.rs
@@ -314,8 +314,9 @@ mod runtime {
 
     // Circom 2.0
     pub fn exception_handler(store: &mut Store) -> Function {
-        #[allow(unused)]
-        fn func(a: i32) {}
+        fn func(code: i32) -> std::result::Result<(), wasmer::RuntimeError> {
+            Err(wasmer::RuntimeError::new(format!("circuit exception {code}")))
+        }
         Function::new_typed(store, func)
     }
 
diff --git a/algebraic/src/witness/witness_calculator.rs b/algebraic/src/witness/witness_calculator.rs
index dc5d7fe..e527906 100644
--- a/algebraic/src/witness/witness_calculator.rs
+++ b/algebraic/src/witness/witness_calculator.rs
@@ -314,8 +314,9 @@ mod runtime {
 
     // Circom 2.0
     pub fn exception_handler(store: &mut Store) -> Function {
-        #[allow(unused)]
-        fn func(a: i32) {}
+        fn func(code: i32) -> std::result::Result<(), wasmer::RuntimeError> {
+            Err(wasmer::RuntimeError::new(format!("circuit exception {code}")))
+        }
         Function::new_typed(store, func)
     }
 
-- 
2.43.0


From e0aa0aa839e24b9c09eea3650d786b2461bf407b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:17 +0000
Subject: [PATCH 25/40] fix: sign of R1CS constraints with a constant factor in
 the PLONK conversion

---
 recursion/src/r1cs2plonk.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/recursion/src/r1cs2plonk.rs b/recursion/src/r1cs2plonk.rs
index 7c22587..e177b47 100644
--- a/recursion/src/r1cs2plonk.rs
+++ b/recursion/src/r1cs2plonk.rs
@@ -207,10 +207,11 @@ pub fn r1cs2plonk(r1cs: &R1CS<GL>) -> (Vec<PlonkGate>, Vec<PlonkAdd>) {
                 normalize(&mut lc_c);
                 add_constraint_sum(&lc_c, pc, pa, n_var);
             } else if lca.as_str() == "k" {
-                let lc_cc = join(&lc_b, &lc_a[&0], &lc_c);
+                // k * b = c, as c - k * b = 0
+                let lc_cc = join(&lc_b, &lc_a[&0].neg(), &lc_c);
                 add_constraint_sum(&lc_cc, pc, pa, n_var);
             } else if lcb.as_str() == "k" {
-                let lc_cc = join(&lc_a, &lc_b[&0], &lc_c);
+                let lc_cc = join(&lc_a, &lc_b[&0].neg(), &lc_c);
                 add_constraint_sum(&lc_cc, pc, pa, n_var);
             } else {
                 add_constraint_mul(&lc_a, &lc_b, &lc_c, pc, pa, n_var);
-- 
2.43.0


From 3c6c3f5efe9c94b4e73698b9e3575963cc99010c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 26/40] fix: publish each output of the circuit once in the
 compressor

num_inputs of an R1CS read from a file already counts the outputs, so circuits with outputs
declared that many private wires as public values too.
---
 recursion/src/compressor12/plonk_setup.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index a2455d0..d4a4284 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -180,7 +180,8 @@ impl PlonkSetupRenderInfo {
         let custom_gates_info = CustomGateInfo::from_r1cs(r1cs);
 
         // 4. calculate columns,rows,constraints info.
-        let n_publics = r1cs.num_inputs + r1cs.num_outputs - 1;
+        // num_inputs counts the constant one, the outputs and the public inputs.
+        let n_publics = r1cs.num_inputs - 1;
         let n_public_rows = (n_publics - 1) / 12 + 1;
 
         log::debug!("{n_publics} {n_public_rows} {} {:?}", plonk_info.N, custom_gates_info);
-- 
2.43.0


From 6adb95e305c91945fa166cd3bdf71270179a3b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 27/40] fix: lay out circuits without public values in the
 compressor

The number of public rows underflowed.
---
 recursion/src/compressor12/plonk_setup.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index d4a4284..977b51b 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -182,7 +182,7 @@ impl PlonkSetupRenderInfo {
         // 4. calculate columns,rows,constraints info.
         // num_inputs counts the constant one, the outputs and the public inputs.
         let n_publics = r1cs.num_inputs - 1;
-        let n_public_rows = (n_publics - 1) / 12 + 1;
+        let n_public_rows = n_publics.div_ceil(12);
 
         log::debug!("{n_publics} {n_public_rows} {} {:?}", plonk_info.N, custom_gates_info);
         let n_used = n_public_rows
@@ -219,7 +219,7 @@ pub fn plonk_setup_compressor(
 
     let n_used = plonk_setup_info.n_used;
     let n_publics = plonk_setup_info.n_publics;
-    let n_public_rows = (n_publics - 1) / 12 + 1;
+    let n_public_rows = n_publics.div_ceil(12);
 
     log::debug!("n_used {n_used}, n_publics {n_publics}, rows: {n_public_rows}");
     // 2. init sMap and construct it.
-- 
2.43.0


From 0e35d71dcce4f5428ef507c24fd0879e75233fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 28/40] fix: count the rows of plain gates exactly in the
 compressor

The estimate ignored half rows left over by gates used an odd number of times. Rows beyond it were
dropped (a CMulAdd gate there was left unconstrained) or made the setup panic.
---
 recursion/src/compressor12/plonk_setup.rs | 26 +++++++++++++++++------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index 977b51b..511e22f 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -53,7 +53,10 @@ pub(crate) struct NormalPlonkInfo {
 
 impl NormalPlonkInfo {
     pub(crate) fn new(plonk_constrains: &[PlonkGate]) -> Self {
-        let mut uses: BTreeMap<String, usize> = BTreeMap::new();
+        // The rows that plonk_setup_compressor needs: a row holds two gates of one kind, then two of another kind.
+        let mut partial_rows: BTreeMap<String, usize> = BTreeMap::new();
+        let mut half_rows = 0;
+        let mut N = 0;
         let plonk_constrains_len = plonk_constrains.len();
         for (i, c) in plonk_constrains.iter().enumerate() {
             if (i % 10000) == 0 {
@@ -61,13 +64,22 @@ impl NormalPlonkInfo {
             }
             let k = c.str_key();
 
-            uses.entry(k.clone()).and_modify(|e| *e += 1).or_insert_with(|| 1);
+            if let Some(n_used) = partial_rows.get_mut(&k) {
+                *n_used += 1;
+                if *n_used == 2 {
+                    half_rows += 1;
+                    partial_rows.remove(&k);
+                } else if *n_used == 4 {
+                    partial_rows.remove(&k);
+                }
+            } else if half_rows > 0 {
+                half_rows -= 1;
+                partial_rows.insert(k, 3);
+            } else {
+                N += 1;
+                partial_rows.insert(k, 1);
+            }
         }
-        let mut result = uses.values().collect::<Vec<_>>();
-        result.sort(); // sort by asc
-
-        let mut N = result.iter().fold(0, |acc, x| acc + (**x - 1) / 2 + 1);
-        N = (N - 1) / 2 + 1;
 
         Self {
             N,
-- 
2.43.0


From f488de49a4203a33e86287251974df2d1a9beb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:45 +0000
Subject: [PATCH 29/40] fix: custom gate kinds that a circuit does not use have
 no id in the compressor

Their id was that of the first gate, so that gate was taken for another kind.
---
 recursion/src/compressor12/plonk_setup.rs | 30 +++++++++++------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/recursion/src/compressor12/plonk_setup.rs b/recursion/src/compressor12/plonk_setup.rs
index 511e22f..a97d6dc 100644
--- a/recursion/src/compressor12/plonk_setup.rs
+++ b/recursion/src/compressor12/plonk_setup.rs
@@ -92,10 +92,10 @@ impl NormalPlonkInfo {
 
 #[derive(Debug)]
 pub(crate) struct CustomGateInfo {
-    pub(crate) poseidon_id: u64,
-    pub(crate) c_mul_add_id: u64,
+    pub(crate) poseidon_id: Option<u64>,
+    pub(crate) c_mul_add_id: Option<u64>,
     pub(crate) fft_params: BTreeMap<usize, Vec<FGL>>,
-    pub(crate) ev_pol_id: u64,
+    pub(crate) ev_pol_id: Option<u64>,
 
     pub(crate) n_poseidon: u64,
     pub(crate) n_c_mul_add: u64,
@@ -112,24 +112,24 @@ impl CustomGateInfo {
     }
 
     fn from_r1cs(r1cs: &R1CS<GL>) -> Self {
-        let mut c_mul_add_id = 0;
-        let mut poseidon_id = 0;
-        let mut ev_pol_id = 0;
+        let mut c_mul_add_id = None;
+        let mut poseidon_id = None;
+        let mut ev_pol_id = None;
         // let mut fft_params = vec![vec![]; r1cs.custom_gates.len()];
         let mut fft_params: BTreeMap<usize, Vec<FGL>> = BTreeMap::new();
 
         for (i, c) in r1cs.custom_gates.iter().enumerate() {
             match c.template_name.as_str() {
                 "CMulAdd" => {
-                    c_mul_add_id = i as u64;
+                    c_mul_add_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "Poseidon12" => {
-                    poseidon_id = i as u64;
+                    poseidon_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "EvPol4" => {
-                    ev_pol_id = i as u64;
+                    ev_pol_id = Some(i as u64);
                     assert!(c.parameters.is_empty());
                 }
                 "FFT4" => {
@@ -144,13 +144,13 @@ impl CustomGateInfo {
         let mut n_fft = 0;
         let mut n_ev_pol = 0;
         for c in r1cs.custom_gates_uses.iter() {
-            if c.id == c_mul_add_id {
+            if Some(c.id) == c_mul_add_id {
                 n_c_mul_add += 1;
-            } else if c.id == poseidon_id {
+            } else if Some(c.id) == poseidon_id {
                 n_poseidon += 1;
             } else if Self::check_fft_param_defined(&fft_params, c.id) {
                 n_fft += 1;
-            } else if c.id == ev_pol_id {
+            } else if Some(c.id) == ev_pol_id {
                 n_ev_pol += 1;
             } else {
                 panic!("Custom gate not defined {}", c.id);
@@ -397,7 +397,7 @@ pub fn plonk_setup_compressor(
         if (i % 10000) == 0 {
             log::trace!("Processing custom gates... {}/{}", i, r1cs.custom_gates_uses.len());
         }
-        if cgu.id == custom_gates_info.poseidon_id {
+        if Some(cgu.id) == custom_gates_info.poseidon_id {
             assert_eq!(cgu.signals.len(), 31 * 12);
             for j in 0..31 {
                 let index = r + j;
@@ -442,7 +442,7 @@ pub fn plonk_setup_compressor(
                 );
             }
             r += 31;
-        } else if cgu.id == custom_gates_info.c_mul_add_id {
+        } else if Some(cgu.id) == custom_gates_info.c_mul_add_id {
             if r < n_used {
                 for (j, map) in s_map.iter_mut().enumerate().take(12) {
                     map[r] = cgu.signals[j];
@@ -603,7 +603,7 @@ pub fn plonk_setup_compressor(
                 );
             }
             r += 2;
-        } else if cgu.id == custom_gates_info.ev_pol_id {
+        } else if Some(cgu.id) == custom_gates_info.ev_pol_id {
             for (j, map) in s_map.iter_mut().enumerate().take(12) {
                 map[r] = cgu.signals[j];
                 const_pols.set_matrix(
-- 
2.43.0


From 0620a7855e5c5892678847d36ffd45e740f6eb91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:57 +0000
Subject: [PATCH 30/40] fix: names of columns in nested namespaces

The second colon of the separator stayed in front of the name.
---
 recursion/src/pilcom/export.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/recursion/src/pilcom/export.rs b/recursion/src/pilcom/export.rs
index 15b2305..9001eea 100644
--- a/recursion/src/pilcom/export.rs
+++ b/recursion/src/pilcom/export.rs
@@ -188,7 +188,7 @@ fn fixup_name(name: &str) -> String {
     if name.contains('.') {
         name.to_string()
     } else if let Some(last) = name.rfind("::") {
-        format!("{}.{}", &name[..last], &name[last + 1..])
+        format!("{}.{}", &name[..last], &name[last + 2..])
     } else {
         panic!("Witness or intermediate column is not inside a namespace: {name}");
     }
-- 
2.43.0


From d224127a4a73c831ae5f9389d674ec498b423dbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 31/40] fix: the packed negation of zero is zero

---
 fields/src/arch/x86_64/avx2_field_gl.rs   | 4 ++--
 fields/src/arch/x86_64/avx512_field_gl.rs | 3 ++-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/fields/src/arch/x86_64/avx2_field_gl.rs b/fields/src/arch/x86_64/avx2_field_gl.rs
index 28d0a2c..dec3fba 100644
--- a/fields/src/arch/x86_64/avx2_field_gl.rs
+++ b/fields/src/arch/x86_64/avx2_field_gl.rs
@@ -351,8 +351,8 @@ unsafe fn sub(x: __m256i, y: __m256i) -> __m256i {
 
 #[inline]
 unsafe fn neg(y: __m256i) -> __m256i {
-    let y_s = shift(y);
-    _mm256_sub_epi64(SHIFTED_FIELD_ORDER, canonicalize_s(y_s))
+    // 0 - y, so that the negation of zero is zero and not the field order
+    sub(_mm256_setzero_si256(), y)
 }
 
 /// Full 64-bit by 64-bit multiplication. This emulated multiplication is 1.33x slower than the
diff --git a/fields/src/arch/x86_64/avx512_field_gl.rs b/fields/src/arch/x86_64/avx512_field_gl.rs
index c853b58..6eee5b4 100644
--- a/fields/src/arch/x86_64/avx512_field_gl.rs
+++ b/fields/src/arch/x86_64/avx512_field_gl.rs
@@ -291,7 +291,8 @@ unsafe fn sub(x: __m512i, y: __m512i) -> __m512i {
 
 #[inline]
 unsafe fn neg(y: __m512i) -> __m512i {
-    _mm512_sub_epi64(FIELD_ORDER, canonicalize(y))
+    // 0 - y, so that the negation of zero is zero and not the field order
+    sub(_mm512_setzero_si512(), y)
 }
 
 const LO_32_BITS_MASK: __mmask16 = unsafe { transmute(0b0101010101010101u16) };
-- 
2.43.0


From 24e59821896824bd0d479f1c6da4de7fa8863f34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 32/40] fix: return more than the first four outputs from the
 packed Poseidon

---
 starky/src/arch/x86_64/avx2_poseidon_gl.rs   | 8 ++++----
 starky/src/arch/x86_64/avx512_poseidon_gl.rs | 8 ++++----
 2 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/starky/src/arch/x86_64/avx2_poseidon_gl.rs b/starky/src/arch/x86_64/avx2_poseidon_gl.rs
index c1d6aa0..2cd8651 100644
--- a/starky/src/arch/x86_64/avx2_poseidon_gl.rs
+++ b/starky/src/arch/x86_64/avx2_poseidon_gl.rs
@@ -412,10 +412,10 @@ impl Poseidon {
         Self::pow7_triple(&mut st0, &mut st1, &mut st2);
         Self::mmult_avx(&mut st0, &mut st1, &mut st2, &M[0..144]);
 
-        let st0_slice = st0.as_slice();
-
-        let mut result_vec: Vec<FGL> = Vec::new();
-        result_vec.extend(st0_slice.iter().map(|&repr| FGL::from_repr(repr).unwrap()));
+        let mut result_vec: Vec<FGL> = Vec::with_capacity(t);
+        for st in [&st0, &st1, &st2] {
+            result_vec.extend(st.as_slice().iter().map(|&repr| FGL::from_repr(repr).unwrap()));
+        }
 
         Ok(result_vec[..out].to_vec())
     }
diff --git a/starky/src/arch/x86_64/avx512_poseidon_gl.rs b/starky/src/arch/x86_64/avx512_poseidon_gl.rs
index 7bd3eef..1f9c95b 100644
--- a/starky/src/arch/x86_64/avx512_poseidon_gl.rs
+++ b/starky/src/arch/x86_64/avx512_poseidon_gl.rs
@@ -442,10 +442,10 @@ impl Poseidon {
         Self::pow7_triple(&mut st0, &mut st1, &mut st2);
         Self::mmult_avx512(&mut st0, &mut st1, &mut st2, &M[0..288]);
 
-        let st0_slice = st0.as_slice();
-
-        let mut result_vec: Vec<FGL> = Vec::new();
-        result_vec.extend(st0_slice.iter().map(|&repr| FGL::from_repr(repr).unwrap()));
+        let mut result_vec: Vec<FGL> = Vec::with_capacity(t);
+        for st in [&st0, &st1, &st2] {
+            result_vec.extend(st.as_slice().iter().map(|&repr| FGL::from_repr(repr).unwrap()));
+        }
         Ok(result_vec[..out].to_vec())
     }
 }
-- 
2.43.0


From c6129fcc5b182ff9ec203855c070a4a524ed5b3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:13 +0000
Subject: [PATCH 33/40] fix: reduce PIL numbers below the negated field order

---
 starky/src/types.rs | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/starky/src/types.rs b/starky/src/types.rs
index 6e5a405..5432b9f 100644
--- a/starky/src/types.rs
+++ b/starky/src/types.rs
@@ -220,16 +220,12 @@ where
 #[inline(always)]
 pub fn parse_pil_number(raw_val: &str) -> u64 {
     //let raw_val = r.value.as_ref().unwrap();
-    let mut n_val: i128 = match raw_val.starts_with("0x") {
+    let n_val: i128 = match raw_val.starts_with("0x") {
         true => i128::from_str_radix(&raw_val[2..], 16).unwrap(),
         _ => raw_val.parse::<i128>().unwrap(),
     };
     // FIXME: Goldilocks modular, try to fetch it from FieldExtension
-    if n_val < 0 {
-        n_val += 18446744069414584321;
-    }
-    n_val %= 18446744069414584321;
-    n_val as u64
+    n_val.rem_euclid(18446744069414584321) as u64
 }
 
 #[cfg(test)]
-- 
2.43.0


From d71ceba23ca7b475e5afc49e1b998f8cd7d40e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:23 +0000
Subject: [PATCH 34/40] fix: skip inputs that are not signals of the circuit

---
 algebraic-gpu/src/witness/circom.rs             | 17 +++++++++++++++++
 algebraic-gpu/src/witness/witness_calculator.rs |  7 +++++++
 algebraic/src/witness/circom.rs                 | 17 +++++++++++++++++
 algebraic/src/witness/witness_calculator.rs     |  7 +++++++
 4 files changed, 48 insertions(+)

diff --git a/algebraic-gpu/src/witness/circom.rs b/algebraic-gpu/src/witness/circom.rs
index 46c70b6..de2bbd9 100644
--- a/algebraic-gpu/src/witness/circom.rs
+++ b/algebraic-gpu/src/witness/circom.rs
@@ -40,6 +40,23 @@ impl Wasm {
         Ok(())
     }
 
+    // Number of elements of an input signal, 0 if the circuit has no such signal;
+    // None if the module cannot be asked
+    pub(crate) fn get_input_signal_size(
+        &self,
+        store: &mut Store,
+        hmsb: u32,
+        hlsb: u32,
+    ) -> Result<Option<u32>> {
+        match self.0.exports.get_function("getInputSignalSize") {
+            Ok(func) => {
+                let result = func.call(store, &[hmsb.into(), hlsb.into()])?;
+                Ok(Some(result[0].unwrap_i32() as u32))
+            }
+            Err(_) => Ok(None),
+        }
+    }
+
     pub(crate) fn get_witness(&self, store: &mut Store, i: u32) -> Result<()> {
         let func = self.func("getWitness");
         func.call(store, &[i.into()])?;
diff --git a/algebraic-gpu/src/witness/witness_calculator.rs b/algebraic-gpu/src/witness/witness_calculator.rs
index 7164a4d..38affd0 100644
--- a/algebraic-gpu/src/witness/witness_calculator.rs
+++ b/algebraic-gpu/src/witness/witness_calculator.rs
@@ -156,6 +156,13 @@ impl WitnessCalculator {
         for (name, values) in inputs.into_iter() {
             let (msb, lsb) = fnv(&name);
 
+            // an input document may hold more than the signals of this circuit, e.g. the
+            // `rootC` of a zkin for a verifier generated with `skip_main`
+            if self.instance.get_input_signal_size(&mut self.store, msb, lsb)? == Some(0) {
+                log::warn!("{name} is not an input signal, skipped");
+                continue;
+            }
+
             for (i, value) in values.into_iter().enumerate() {
                 let f_arr = to_array32(&value, n32 as usize);
                 for j in 0..n32 {
diff --git a/algebraic/src/witness/circom.rs b/algebraic/src/witness/circom.rs
index 46c70b6..de2bbd9 100644
--- a/algebraic/src/witness/circom.rs
+++ b/algebraic/src/witness/circom.rs
@@ -40,6 +40,23 @@ impl Wasm {
         Ok(())
     }
 
+    // Number of elements of an input signal, 0 if the circuit has no such signal;
+    // None if the module cannot be asked
+    pub(crate) fn get_input_signal_size(
+        &self,
+        store: &mut Store,
+        hmsb: u32,
+        hlsb: u32,
+    ) -> Result<Option<u32>> {
+        match self.0.exports.get_function("getInputSignalSize") {
+            Ok(func) => {
+                let result = func.call(store, &[hmsb.into(), hlsb.into()])?;
+                Ok(Some(result[0].unwrap_i32() as u32))
+            }
+            Err(_) => Ok(None),
+        }
+    }
+
     pub(crate) fn get_witness(&self, store: &mut Store, i: u32) -> Result<()> {
         let func = self.func("getWitness");
         func.call(store, &[i.into()])?;
diff --git a/algebraic/src/witness/witness_calculator.rs b/algebraic/src/witness/witness_calculator.rs
index e527906..d83ff64 100644
--- a/algebraic/src/witness/witness_calculator.rs
+++ b/algebraic/src/witness/witness_calculator.rs
@@ -156,6 +156,13 @@ impl WitnessCalculator {
         for (name, values) in inputs.into_iter() {
             let (msb, lsb) = fnv(&name);
 
+            // an input document may hold more than the signals of this circuit, e.g. the
+            // `rootC` of a zkin for a verifier generated with `skip_main`
+            if self.instance.get_input_signal_size(&mut self.store, msb, lsb)? == Some(0) {
+                log::warn!("{name} is not an input signal, skipped");
+                continue;
+            }
+
             for (i, value) in values.into_iter().enumerate() {
                 let f_arr = to_array32(&value, n32 as usize);
                 for j in 0..n32 {
-- 
2.43.0


From e82b5442c3a2b4303c9e1e81db34d12733dff685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:38:55 +0000
Subject: [PATCH 35/40] fix: refuse points off the curve in JSON instead of
 panicking

---
 recursion-gnark/ffi/src/traits.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/recursion-gnark/ffi/src/traits.rs b/recursion-gnark/ffi/src/traits.rs
index 1a52991..4602ebb 100644
--- a/recursion-gnark/ffi/src/traits.rs
+++ b/recursion-gnark/ffi/src/traits.rs
@@ -160,7 +160,7 @@ mod $mod_name {
                 let x = parse_field(x)?;
                 let y = parse_field(y)?;
                 let z = parse_field(z)?;
-                let p = Self::G1Affine::from($curve::G1Projective::new(x, y, z));
+                let p = Self::G1Affine::from($curve::G1Projective::new_unchecked(x, y, z));
                 if p.is_zero() {
                     return Ok(p);
                 }
@@ -203,7 +203,7 @@ mod $mod_name {
                 let x = $curve::Fq2::new(x0, x1);
                 let y = $curve::Fq2::new(y0, y1);
                 let z = $curve::Fq2::new(z0, z1);
-                let p = $curve::G2Affine::from($curve::G2Projective::new(x, y, z));
+                let p = $curve::G2Affine::from($curve::G2Projective::new_unchecked(x, y, z));
                 if p.is_zero() {
                     return Ok(p);
                 }
-- 
2.43.0


From 159108ebb39b5f02be24d91c393d6abc02a8e4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 36/40] fix: check the roots and the first layer of FRI in
 circom verifiers with a single FRI step

---
 starky/src/stark_verifier_circom.rs | 58 ++++++++++++++---------------
 1 file changed, 29 insertions(+), 29 deletions(-)

diff --git a/starky/src/stark_verifier_circom.rs b/starky/src/stark_verifier_circom.rs
index 0f7573c..74f6e9f 100644
--- a/starky/src/stark_verifier_circom.rs
+++ b/starky/src/stark_verifier_circom.rs
@@ -1282,6 +1282,35 @@ template StarkVerifier() {{
         "#,
     );
 
+    //// Checks
+    let enable2 = if starkinfo.map_sectionsN.cm2_2ns > 0 {
+        "enable * (s0_merkle2[q].root[j] - root2[j]) === 0;"
+    } else {
+        ""
+    };
+    let enable3 = if starkinfo.map_sectionsN.cm3_2ns > 0 {
+        "enable * (s0_merkle3[q].root[j] - root3[j]) === 0;"
+    } else {
+        ""
+    };
+    res.push_str(&format!(
+        r#"
+    for (var q=0; q<{}; q++) {{
+        for (var j=0; j<4; j++) {{
+            enable * (s0_merkle1[q].root[j] - root1[j]) === 0;
+            {}
+            {}
+            enable * (s0_merkle4[q].root[j] - root4[j]) === 0;
+            enable * (s0_merkleC[q].root[j] - rootC[j]) === 0;
+        }}
+        for (var e=0; e<3; e++) {{
+            enable * (s0_lowValues[q].out[e] - verifyQueries[q].out[e]) === 0;
+        }}
+    }}
+        "#,
+        stark_struct.nQueries, enable2, enable3
+    ));
+
     for s in 1..stark_struct.steps.len() {
         res.push_str(&format!(
             r#"
@@ -1422,35 +1451,6 @@ template StarkVerifier() {{
             ));
         }
 
-        //// Checks
-        let enable2 = if starkinfo.map_sectionsN.cm2_2ns > 0 {
-            "enable * (s0_merkle2[q].root[j] - root2[j]) === 0;"
-        } else {
-            ""
-        };
-        let enable3 = if starkinfo.map_sectionsN.cm3_2ns > 0 {
-            "enable * (s0_merkle3[q].root[j] - root3[j]) === 0;"
-        } else {
-            ""
-        };
-        res.push_str(&format!(
-            r#"
-        for(var q = 0; q < {}; q ++) {{
-            for(var j = 0; j < 4; j ++) {{
-                enable * (s0_merkle1[q].root[j] - root1[j]) === 0;
-                {}
-                {}
-                enable * (s0_merkle4[q].root[j] - root4[j]) === 0;
-                enable * (s0_merkleC[q].root[j] - rootC[j]) === 0;
-            }}
-            for (var e = 0; e < 3; e ++) {{
-                enable * (s0_lowValues[q].out[e] - verifyQueries[q].out[e]) === 0;
-            }}
-        }}
-        "#,
-            stark_struct.nQueries, enable2, enable3
-        ));
-
         res.push_str(&format!(
             r#"
         for (var e=0; e<3; e++) {{
-- 
2.43.0


From f0eac205c498d6c66504595362d9501edfe432a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 37/40] fix: pass the second and third tree to circom verifiers
 exactly when they exist

---
 starky/src/stark_verifier_circom.rs | 34 ++++++++++++++++++++++-------
 1 file changed, 26 insertions(+), 8 deletions(-)

diff --git a/starky/src/stark_verifier_circom.rs b/starky/src/stark_verifier_circom.rs
index 74f6e9f..3ccc726 100644
--- a/starky/src/stark_verifier_circom.rs
+++ b/starky/src/stark_verifier_circom.rs
@@ -803,6 +803,24 @@ template MapValues() {{
 }
 
 #[time_profiler()]
+/// pass the rows of the trees that not every program has
+fn optional_trees(starkinfo: &StarkInfo, verifier: &str, prefix: &str) -> String {
+    let mut res = String::new();
+    for (i, n) in
+        [(2, starkinfo.map_sectionsN.get("cm2_2ns")), (3, starkinfo.map_sectionsN.get("cm3_2ns"))]
+    {
+        if n > 0 {
+            res.push_str(&format!(
+                r#"
+    {verifier}.s0_vals{i} <== {prefix}s0_vals{i};
+    {verifier}.s0_siblings{i} <== {prefix}s0_siblings{i};
+            "#
+            ));
+        }
+    }
+    res
+}
+
 fn stark_verifier<F: ff::PrimeField + Default>(
     starkinfo: &StarkInfo,
     pil: &PIL,
@@ -1630,11 +1648,9 @@ template Main() {{
     vA.root4 <== root4;
     vA.evals <== evals;
     vA.s0_vals1 <== s0_vals1;
-    vA.s0_vals3 <== s0_vals3;
     vA.s0_vals4 <== s0_vals4;
     vA.s0_valsC <== s0_valsC;
     vA.s0_siblings1 <== s0_siblings1;
-    vA.s0_siblings3 <== s0_siblings3;
     vA.s0_siblings4 <== s0_siblings4;
     vA.s0_siblingsC <== s0_siblingsC;
 
@@ -1642,6 +1658,8 @@ template Main() {{
             "#,
         );
 
+        res.push_str(&optional_trees(starkinfo, "vA", ""));
+
         for s in 1..(stark_struct.steps.len()) {
             res.push_str(&format!(
                 r#"
@@ -1791,11 +1809,9 @@ template Main() {{
     vA.rootC <== rootC;
     vA.evals <== evals;
     vA.s0_vals1 <== s0_vals1;
-    vA.s0_vals3 <== s0_vals3;
     vA.s0_vals4 <== s0_vals4;
     vA.s0_valsC <== s0_valsC;
     vA.s0_siblings1 <== s0_siblings1;
-    vA.s0_siblings3 <== s0_siblings3;
     vA.s0_siblings4 <== s0_siblings4;
     vA.s0_siblingsC <== s0_siblingsC;
 
@@ -1803,6 +1819,8 @@ template Main() {{
             "#,
         );
 
+        res.push_str(&optional_trees(starkinfo, "vA", ""));
+
         for s in 1..(stark_struct.steps.len()) {
             res.push_str(&format!(
                 r#"
@@ -2030,11 +2048,9 @@ template Main() {{
     vA.rootC <== a_rootC;
     vA.evals <== a_evals;
     vA.s0_vals1 <== a_s0_vals1;
-    vA.s0_vals3 <== a_s0_vals3;
     vA.s0_vals4 <== a_s0_vals4;
     vA.s0_valsC <== a_s0_valsC;
     vA.s0_siblings1 <== a_s0_siblings1;
-    vA.s0_siblings3 <== a_s0_siblings3;
     vA.s0_siblings4 <== a_s0_siblings4;
     vA.s0_siblingsC <== a_s0_siblingsC;
 
@@ -2042,6 +2058,8 @@ template Main() {{
             "#,
             pil.publics.len()
         ));
+
+        res.push_str(&optional_trees(starkinfo, "vA", "a_"));
         // component isOneBatchA = IsZero();
         // isOneBatchA.in  <== a_publics[43] - a_publics[16] - 1; a_publics[43]-> newBatchNum;  a_publics[16]-> oldBatchNum
         // TODO: "vA.rootC <== rootCSingle;" this need to change!!!
@@ -2070,11 +2088,9 @@ template Main() {{
     vB.rootC <== b_rootC;
     vB.evals <== b_evals;
     vB.s0_vals1 <== b_s0_vals1;
-    vB.s0_vals3 <== b_s0_vals3;
     vB.s0_vals4 <== b_s0_vals4;
     vB.s0_valsC <== b_s0_valsC;
     vB.s0_siblings1 <== b_s0_siblings1;
-    vB.s0_siblings3 <== b_s0_siblings3;
     vB.s0_siblings4 <== b_s0_siblings4;
     vB.s0_siblingsC <== b_s0_siblingsC;
 
@@ -2083,6 +2099,8 @@ template Main() {{
             pil.publics.len()
         ));
 
+        res.push_str(&optional_trees(starkinfo, "vB", "b_"));
+
         for s in 1..(stark_struct.steps.len()) {
             res.push_str(&format!(
                 r#"
-- 
2.43.0


From 41f7456d39f4f9b60b434a34b5b8df2c5d04a8aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 38/40] fix: a last FRI polynomial shorter than the blow-up
 factor is constant in circom verifiers

---
 starky/src/stark_verifier_circom.rs         | 2 +-
 starky/src/stark_verifier_circom_onchain.rs | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/starky/src/stark_verifier_circom.rs b/starky/src/stark_verifier_circom.rs
index 3ccc726..b11fad3 100644
--- a/starky/src/stark_verifier_circom.rs
+++ b/starky/src/stark_verifier_circom.rs
@@ -1489,7 +1489,7 @@ template StarkVerifier() {{
     ///////
     // Last FFT
     let nLastBits = stark_struct.steps[stark_struct.steps.len() - 1].nBits;
-    let maxDegBits = nLastBits - (stark_struct.nBitsExt - stark_struct.nBits);
+    let maxDegBits = nLastBits.saturating_sub(stark_struct.nBitsExt - stark_struct.nBits);
 
     res.push_str(&format!(
         r#"
diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index b712e30..e7a4325 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -1559,7 +1559,7 @@ template StarkVerifier() {{
     ///////
     // Last FFT
     let nLastBits = stark_struct.steps[stark_struct.steps.len() - 1].nBits;
-    let maxDegBits = nLastBits - (stark_struct.nBitsExt - stark_struct.nBits);
+    let maxDegBits = nLastBits.saturating_sub(stark_struct.nBitsExt - stark_struct.nBits);
 
     res.push_str(&format!(
         r#"
-- 
2.43.0


From 7a72921ba160c2a23203c0aa2eb2a4807edb7635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:26 +0000
Subject: [PATCH 39/40] fix: sums and products of base field values in on-chain
 circom verifiers

---
 starky/src/stark_verifier_circom_onchain.rs | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index e7a4325..c579f43 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -216,7 +216,7 @@ fn unrollCode(code: &Vec<Section>, starkinfo: &StarkInfo) -> (String, String) {
                 if inst.src[0].dim == 1 && inst.src[1].dim == 1 {
                     str_code.push_str(&format!(
                         r#"
-    signal {} <== {}[0] + {}[0];"#,
+    signal {} <== {} + {};"#,
                         ref_(&inst.dest),
                         ref_(&inst.src[0]),
                         ref_(&inst.src[1])
@@ -306,7 +306,7 @@ fn unrollCode(code: &Vec<Section>, starkinfo: &StarkInfo) -> (String, String) {
                 if inst.src[0].dim == 1 && inst.src[1].dim == 1 {
                     str_code.push_str(&format!(
                         r#"
-    signal {} = GLCMul1()({}, {});"#,
+    signal {} <== GLMul()({}, {});"#,
                         ref_(&inst.dest),
                         ref_(&inst.src[0]),
                         ref_(&inst.src[1])
@@ -372,12 +372,10 @@ fn unrollCode(code: &Vec<Section>, starkinfo: &StarkInfo) -> (String, String) {
                     } else {
                         str_code.push_str(&format!(
                             r#"
-    signal {}[3] <== [GLMulAdd()({}, {}, {}[0]), {}[1], {}[2]);"#,
+    signal {}[3] <== GLCMulAdd()([{}, 0, 0], [{}, 0, 0], {});"#,
                             ref_(&inst.dest),
                             ref_(&inst.src[0]),
                             ref_(&inst.src[1]),
-                            ref_(&inst.src[2]),
-                            ref_(&inst.src[2]),
                             ref_(&inst.src[2])
                         ));
                     }
-- 
2.43.0


From 8bb41461b48632577fee540118c4d9c2d80dcea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:41 +0000
Subject: [PATCH 40/40] fix: FRI layers of two groups in on-chain circom
 verifiers

---
 starky/src/stark_verifier_circom_onchain.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/starky/src/stark_verifier_circom_onchain.rs b/starky/src/stark_verifier_circom_onchain.rs
index c579f43..daa8bd8 100644
--- a/starky/src/stark_verifier_circom_onchain.rs
+++ b/starky/src/stark_verifier_circom_onchain.rs
@@ -1397,7 +1397,7 @@ template StarkVerifier() {{
             stark_struct.steps[s - 1].nBits
         ));
 
-        if stark_struct.steps[0].nBits > 1 {
+        if stark_struct.steps[s].nBits > 1 {
             res.push_str(&format!(
                 r#"
         s{}_X[q] <== s{}_sx[q][{}].out;
@@ -1409,13 +1409,12 @@ template StarkVerifier() {{
         } else {
             res.push_str(&format!(
                 r#"
-        s{}_X[q] <== {} *  ( ys[q][0] * {} +1);
+        s{}_X[q] <== ys[q][0] * ({} - {}) + {};
         "#,
                 s,
-                (F3G::from(*SHIFT)
-                    .exp(1 << (stark_struct.nBitsExt - stark_struct.steps[s - 1].nBits)))
-                .inv(),
-                F3G::from(MG.0[stark_struct.steps[s - 1].nBits]) - F3G::ONE
+                e1.as_int(),
+                e0.as_int(),
+                e0.as_int()
             ));
         }
 
-- 
2.43.0

