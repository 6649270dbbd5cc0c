From 1706ae9187d4f68d2a98073314355058ec974400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:54 +0000
Subject: [PATCH 01/16] fix: make the last attribute creations of a policy
 usable

Attribute values start at 1, but the master keys only had elements for the
indexes 0 to max_attribute_creations - 1: the last attribute (or rotation)
accepted by a policy could not be used in a user key, and encrypting for it
panicked.
---
 src/core/engine.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/core/engine.rs b/src/core/engine.rs
index 12be553..6a403f7 100644
--- a/src/core/engine.rs
+++ b/src/core/engine.rs
@@ -44,8 +44,10 @@ impl<S: AbeScheme> Engine<S> {
         ),
         FormatErr,
     > {
+        // attribute values start at 1 and go up to `max_attribute_creations`
+        // included: the element at index 0 is never used
         self.sch
-            .generate_master_key(policy.max_attribute_creations as usize)
+            .generate_master_key(policy.max_attribute_creations as usize + 1)
     }
 
     /// Generate a user decryption key
-- 
2.43.0


From b76b1414ccb2022b6e2cd3da77d2760a3489800f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:36 +0000
Subject: [PATCH 02/16] fix: return an error for attribute values beyond the
 keys' capacity

Encrypting, delegating or re-randomizing with keys generated for a smaller
policy indexed the key elements out of bounds and panicked, and the error
message of an empty public key underflowed.
---
 src/core/gpsw/scheme.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index dda938a..c944211 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -416,7 +416,15 @@ impl<G: BilinearMap> Gpsw<G> {
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
         for (i, row) in msp.matrix().iter().enumerate() {
             let prod_scal = Self::prod_scal(row, &u);
-            let gt_rho_i = &del_key.inv_t_i[msp.get_attr_from_row(i) as usize];
+            let gt_rho_i = del_key
+                .inv_t_i
+                .get(msp.get_attr_from_row(i) as usize)
+                .ok_or_else(|| {
+                    FormatErr::InternalOperation(
+                        "Monotone Span Program is invalid: msp-row larger than the delegation key"
+                            .to_string(),
+                    )
+                })?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
             //randomize key
             if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
@@ -459,7 +467,15 @@ impl<G: BilinearMap> Gpsw<G> {
         let mut raw_big_d_i = Vec::with_capacity(msp.rows());
         for (i, row) in msp.matrix().iter().enumerate() {
             let prod_scal = Self::prod_scal(row, &u);
-            let gt_rho_i = &del_key.inv_t_i[msp.get_attr_from_row(i) as usize];
+            let gt_rho_i = del_key
+                .inv_t_i
+                .get(msp.get_attr_from_row(i) as usize)
+                .ok_or_else(|| {
+                    FormatErr::InternalOperation(
+                        "Monotone Span Program is invalid: msp-row larger than the delegation key"
+                            .to_string(),
+                    )
+                })?;
             let di = self.group.g3_exp(gt_rho_i, &prod_scal);
             //randomize key
             if let Some(index) = user_key.msp.get_row_from_attr(msp.get_attr_from_row(i)) {
@@ -493,7 +509,12 @@ impl<G: BilinearMap> Gpsw<G> {
             return Err(FormatErr::InternalOperation(format!(
                 "invalid attributes: gamma value incorrect (value: {}, max expected size: {})",
                 gamma.len(),
-                pub_key.t_i.len() - 1
+                pub_key.t_i.len().saturating_sub(1)
+            )));
+        }
+        if let Some(attr) = gamma.iter().find(|i| **i as usize >= pub_key.t_i.len()) {
+            return Err(FormatErr::InternalOperation(format!(
+                "invalid attributes: value {attr} is larger than the public key capacity"
             )));
         }
         let s = self.group.gen_random_scalar()?;
-- 
2.43.0


From dedfbacd2c56c60758c328ec18394fbe3afd593e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:46 +0000
Subject: [PATCH 03/16] fix: do not panic on a policy whose axes list an
 attribute without value

Such a policy can be deserialized (and crashed the process through the
foreign function interface).
---
 src/core/msp.rs | 24 ++++++++++++++----------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/core/msp.rs b/src/core/msp.rs
index c4d9928..cc70cbd 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -455,22 +455,14 @@ fn policy_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr>
                 .iter()
                 .position(|r| r == &attr.name)
                 .ok_or_else(|| FormatErr::ExpectedAttribute(attr.name.clone(), list.clone()))?;
-            let mut val = policy.attribute_to_int[attr]
-                .iter()
-                .map(|attr| Node::Leaf(*attr))
-                .reduce(std::ops::BitOr::bitor)
-                .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))?;
+            let mut val = attribute_to_node(policy, attr)?;
             if *hierarchical {
                 for (at, elem) in list.iter().enumerate() {
                     if at >= res {
                         break;
                     }
                     val = val
-                        | policy.attribute_to_int[&(attr.axis.clone(), elem.clone()).into()]
-                            .iter()
-                            .map(|attr| Node::Leaf(*attr))
-                            .reduce(std::ops::BitOr::bitor)
-                            .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))?;
+                        | attribute_to_node(policy, &(attr.axis.clone(), elem.clone()).into())?;
                 }
             }
 
@@ -485,3 +477,15 @@ fn policy_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr>
         Err(FormatErr::MissingAxis(attr.axis.clone()))
     }
 }
+
+// The Or of all the values of a policy attribute
+fn attribute_to_node(policy: &Policy, attr: &Attribute) -> Result<Node, FormatErr> {
+    policy
+        .attribute_to_int
+        .get(attr)
+        .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))?
+        .iter()
+        .map(|attr| Node::Leaf(*attr))
+        .reduce(std::ops::BitOr::bitor)
+        .ok_or_else(|| FormatErr::AttributeNotFound(format!("{attr:?}")))
+}
-- 
2.43.0


From c1b318b7013e17e0a5e5afe65f3323df5a876c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:26 +0000
Subject: [PATCH 04/16] fix: reject malformed vectors and integers instead of
 panicking

A serialized vector announcing no element underflowed, a large element count
could overflow, and a truncated i32 was sliced out of bounds.
---
 src/core/gpsw/mod.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/core/gpsw/mod.rs b/src/core/gpsw/mod.rs
index 5e1233d..f82fa84 100644
--- a/src/core/gpsw/mod.rs
+++ b/src/core/gpsw/mod.rs
@@ -37,6 +37,12 @@ impl AsBytes for i32 {
     }
 
     fn try_from_bytes(bytes: &[u8]) -> Result<Self, FormatErr> {
+        if bytes.len() < 4 {
+            return Err(FormatErr::Deserialization(
+                "cannot deserialize i32 element since input bytes size is less than 4 bytes"
+                    .to_string(),
+            ));
+        }
         Ok(Self::from_be_bytes(bytes[0..4].try_into()?))
     }
 
@@ -74,7 +80,8 @@ impl<T: AsBytes> AsBytes for Vec<T> {
         // retrieve len of vector
         let len: [u8; 4] = bytes[0..4].try_into()?;
         let len = u32::from_be_bytes(len) as usize;
-        if len >= u32::MAX as usize {
+        // an empty vector is serialized as no bytes at all
+        if len == 0 || len >= u32::MAX as usize {
             return Err(FormatErr::Deserialization(
                 "deserializing element failed. Data altered?".to_string(),
             ));
@@ -83,7 +90,10 @@ impl<T: AsBytes> AsBytes for Vec<T> {
         let res0 = T::try_from_bytes(&bytes[4..])?;
         let res0_len_bytes = res0.len_bytes();
 
-        if 4 + (len - 1) * res0_len_bytes >= bytes.len() {
+        let last_pos = (len - 1)
+            .checked_mul(res0_len_bytes)
+            .and_then(|pos| pos.checked_add(4));
+        if !matches!(last_pos, Some(pos) if pos < bytes.len()) {
             return Err(FormatErr::Deserialization(
                 "deserializing element failed. Data altered?".to_string(),
             ));
-- 
2.43.0


From 22d6d09b277c14aba364489ccdb726c5eec07d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 05/16] fix: check the dimensions of a serialized span program
 before using them

A span program without row or column was accepted and could not be serialized
back, and the announced number of columns was allocated before being checked
against the input length.
---
 src/core/msp.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/core/msp.rs b/src/core/msp.rs
index cc70cbd..1931c6c 100644
--- a/src/core/msp.rs
+++ b/src/core/msp.rs
@@ -53,7 +53,13 @@ impl<I: AsBytes> AsBytes for MonotoneSpanProgram<I> {
         let nb_col: [u8; 4] = bytes[4..8].try_into()?;
         let nb_col = u32::from_be_bytes(nb_col) as usize;
 
-        if bytes.len() < 8 + 4 * nb_row {
+        // the input must at least hold one byte per matrix element, this bounds
+        // what is allocated below
+        let min_len = nb_row
+            .checked_mul(nb_col)
+            .and_then(|len| len.checked_add(nb_row.checked_mul(4)?))
+            .and_then(|len| len.checked_add(8));
+        if nb_row == 0 || nb_col == 0 || !matches!(min_len, Some(len) if len <= bytes.len()) {
             return Err(FormatErr::InvalidSize(
                 "invalid MSP size read from bytes".to_string(),
             ));
@@ -74,7 +80,8 @@ impl<I: AsBytes> AsBytes for MonotoneSpanProgram<I> {
         let mut matrix = Vec::with_capacity(nb_row);
         let mut row = Vec::with_capacity(nb_col);
         row.push(I::try_from_bytes(&bytes[8 + (4 * nb_row)..])?);
-        if bytes.len() < 8 + (4 * nb_row) + (nb_row * nb_col * row[0].len_bytes()) {
+        let matrix_len = (nb_row * nb_col).checked_mul(row[0].len_bytes());
+        if !matches!(matrix_len, Some(len) if len <= bytes.len() - 8 - (4 * nb_row)) {
             return Err(FormatErr::InvalidSize(
                 "invalid matrix size read from bytes".to_string(),
             ));
-- 
2.43.0


From 2d1c26fea9c319462acff99ad2c8ac809fe86be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:27 +0000
Subject: [PATCH 06/16] fix: reject user keys and ciphertexts with inconsistent
 element counts

They were accepted and made decryption or delegation panic.
---
 src/core/gpsw/scheme.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index c944211..79ea7b8 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -188,6 +188,12 @@ impl<G: BilinearMap> AsBytes for GpswDecryptionKey<G> {
         let raw_d_i = Vec::<G::G3>::try_from_bytes(bytes)?;
         let raw_d_i_len = raw_d_i.len_bytes();
         let msp = MonotoneSpanProgram::<G::Scalar>::try_from_bytes(&bytes[raw_d_i_len..])?;
+        if raw_d_i.len() != msp.rows() {
+            return Err(FormatErr::Deserialization(
+                "invalid user key: the number of elements does not match the span program"
+                    .to_string(),
+            ));
+        }
         let d_i = raw_d_i.iter().map(|g3| G::g3_to_g1(g3)).collect();
 
         Ok(Self { raw_d_i, d_i, msp })
@@ -217,6 +223,12 @@ impl<G: BilinearMap> AsBytes for GpswCipherText<G> {
         let gamma_len = gamma.len_bytes();
         let e_i = Vec::<G::G2>::try_from_bytes(&bytes[gamma_len..])?;
         let e_i_len = e_i.len_bytes();
+        if gamma.len() != e_i.len() {
+            return Err(FormatErr::Deserialization(
+                "invalid ciphertext: the number of elements does not match the attributes"
+                    .to_string(),
+            ));
+        }
         let e_prime = G::Gt::try_from_bytes(&bytes[gamma_len + e_i_len..])?;
 
         Ok(Self {
-- 
2.43.0


From bf14f403d25fd1119094d95061384611b36912a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:43:40 +0000
Subject: [PATCH 07/16] fix: reject a master private key holding a null element

It was accepted and made user key generation panic on a division by zero.
---
 src/core/gpsw/scheme.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/core/gpsw/scheme.rs b/src/core/gpsw/scheme.rs
index 79ea7b8..9e436b0 100644
--- a/src/core/gpsw/scheme.rs
+++ b/src/core/gpsw/scheme.rs
@@ -114,6 +114,12 @@ impl<G: BilinearMap> AsBytes for GpswMasterPrivateKey<G> {
         let t_i = Vec::<G::Scalar>::try_from_bytes(bytes)?;
         let t_i_len = t_i.len_bytes();
         let y = G::Scalar::try_from_bytes(&bytes[t_i_len..])?;
+        // key generation divides by these elements
+        if t_i.contains(&G::ZERO) {
+            return Err(FormatErr::Deserialization(
+                "invalid master private key: null element".to_string(),
+            ));
+        }
 
         Ok(Self { t_i, y })
     }
-- 
2.43.0


From 923b30db2b92dadaf7dcda6cbce6d3767424b395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 08/16] fix: do not panic on a header whose symmetric key is
 truncated

---
 src/interfaces/hybrid_crypto/statics.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/interfaces/hybrid_crypto/statics.rs b/src/interfaces/hybrid_crypto/statics.rs
index 501c569..630261f 100644
--- a/src/interfaces/hybrid_crypto/statics.rs
+++ b/src/interfaces/hybrid_crypto/statics.rs
@@ -39,6 +39,11 @@ impl<S: SymmetricCrypto> EncryptedHeader<S> {
         let symmetric_key_len: [u8; 4] = header[0..4].try_into()?;
         let symmetric_key_len = u32::from_be_bytes(symmetric_key_len) as usize;
         // Then split header between `symmetric_key` and `encrypted_symmetric_key`
+        if symmetric_key_len > header.len() - 4 {
+            return Err(FormatErr::InvalidSize(
+                "the symmetric key is larger than the header".to_string(),
+            ));
+        }
         let symmetric_key_bytes: Vec<u8> = header[4..(4 + symmetric_key_len)].try_into()?;
         let encrypted_header_bytes: Vec<u8> = header[(4 + symmetric_key_len)..].try_into()?;
 
@@ -75,6 +80,11 @@ impl<S: SymmetricCrypto> ClearTextHeader<S> {
         let symmetric_key_len: [u8; 4] = header[0..4].try_into()?;
         let symmetric_key_len = u32::from_be_bytes(symmetric_key_len) as usize;
         // Then split header between `symmetric_key` and `meta_data`
+        if symmetric_key_len > header.len() - 4 {
+            return Err(FormatErr::InvalidSize(
+                "the symmetric key is larger than the header".to_string(),
+            ));
+        }
         let symmetric_key_bytes: Vec<u8> = header[4..(4 + symmetric_key_len)].try_into()?;
         let meta_data_bytes: Vec<u8> = header[(4 + symmetric_key_len)..].try_into()?;
 
-- 
2.43.0


From 2b03713e923afc2bbebbf181da96633dd281f0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 09/16] fix: h_get_encrypted_header_size aborted the host on
 less than 4 bytes

---
 src/interfaces/ffi/hybrid_gpsw_aes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 05a8535..7f024a7 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -559,7 +559,7 @@ pub unsafe extern "C" fn h_get_encrypted_header_size(
     ffi_not_null!(encrypted_ptr, "Encrypted bytes pointer should not be bull");
     //
     // Check `encrypted_bytes` input param and store it locally
-    if encrypted_len == 0 {
+    if encrypted_len < 4 {
         ffi_bail!("Encrypted value must be at least 4-bytes long");
     }
     let encrypted_header_bytes =
-- 
2.43.0


From 82df853aa9e30103b12419f8c8254dae770d6ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:34 +0000
Subject: [PATCH 10/16] fix: report the required size when a block buffer is
 too small

As the other functions of the foreign function interface do (see the changelog
of version 1.1.1).
---
 src/interfaces/ffi/hybrid_gpsw_aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 7f024a7..731cda6 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -755,6 +755,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
 
     let allocated = *encrypted_len;
     let len = encrypted_block.len();
+    *encrypted_len = len as c_int;
     if (allocated as usize) < len {
         ffi_bail!(
             "The pre-allocated encrypted bytes buffer is too small; need {} bytes",
@@ -763,7 +764,6 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
     }
     std::slice::from_raw_parts_mut(encrypted_ptr.cast::<u8>(), len)
         .copy_from_slice(&encrypted_block);
-    *encrypted_len = len as c_int;
 
     0
 }
@@ -831,6 +831,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
 
     let allocated = *clear_text_len;
     let len = encrypted_block.len();
+    *clear_text_len = len as c_int;
     if (allocated as usize) < len {
         ffi_bail!(
             "The pre-allocated clear text buffer is too small; need {} bytes",
@@ -839,7 +840,6 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
     }
     std::slice::from_raw_parts_mut(clear_text_ptr.cast::<u8>(), len)
         .copy_from_slice(&encrypted_block);
-    *clear_text_len = len as c_int;
 
     0
 }
-- 
2.43.0


From 612d25e64cc541a81d93d86a7cac878fd9bcf20d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:36 +0000
Subject: [PATCH 11/16] fix: get_last_error lost the messages holding a NUL
 byte

Such a message (an attribute name in a JSON document can hold one) was replaced
by an error about the conversion.
---
 src/interfaces/ffi/error.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/interfaces/ffi/error.rs b/src/interfaces/ffi/error.rs
index d93f24f..fb6afd8 100644
--- a/src/interfaces/ffi/error.rs
+++ b/src/interfaces/ffi/error.rs
@@ -179,9 +179,9 @@ pub unsafe extern "C" fn get_last_error(
     }
     let err = LAST_ERROR.with(|prev| prev.borrow_mut().take());
 
-    // Build a CString that will cleanup NULL bytes in the middle if needed
+    // Build a CString, cleaning up NULL bytes in the middle if needed
     let cs = ffi_unwrap!(
-        CString::new(err.map_or("".to_string(), |e| e.to_string())),
+        CString::new(err.map_or("".to_string(), |e| e.to_string().replace('\0', " "))),
         "failed to convert error to CString"
     );
     // the CString as bytes
-- 
2.43.0


From 8154da1a5d030905afe9146ed40a72c24d4f398f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 12/16] fix: the Python decrypt function panicked on a
 truncated header

---
 src/interfaces/pyo3/hybrid_gpsw_aes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/interfaces/pyo3/hybrid_gpsw_aes.rs b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
index c66cf42..396b134 100644
--- a/src/interfaces/pyo3/hybrid_gpsw_aes.rs
+++ b/src/interfaces/pyo3/hybrid_gpsw_aes.rs
@@ -250,6 +250,11 @@ pub fn encrypt(
 #[pyfunction]
 pub fn decrypt(user_decryption_key_bytes: Vec<u8>, encrypted_bytes: Vec<u8>) -> PyResult<Vec<u8>> {
     let header_size = get_encrypted_header_size(encrypted_bytes.clone())?;
+    if header_size as usize > encrypted_bytes.len() - 4 {
+        return Err(PyTypeError::new_err(
+            "The encrypted value is shorter than its header",
+        ));
+    }
     let header = &encrypted_bytes[4..4 + header_size as usize];
     let ciphertext = &encrypted_bytes[4 + header_size as usize..];
 
-- 
2.43.0


From cc58ce55ab39aa157d3d4f5b43e2015aa80ad2d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:02 +0000
Subject: [PATCH 13/16] fix: return an error for unknown cache handles in the
 WebAssembly module

Using an unknown or destroyed handle trapped, with the cache lock held.
---
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs | 8 +++++---
 src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs | 8 +++++---
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
index c04d558..43691ab 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_decryption.rs
@@ -156,9 +156,11 @@ pub fn webassembly_decrypt_hybrid_header_using_cache(
     let map = DECRYPTION_CACHE_MAP
         .read()
         .expect("a read mutex on the decryption cache failed");
-    let cache = map
-        .get(&cache_handle)
-        .expect("Hybrid Cipher: no decryption cache with handle");
+    let cache = map.get(&cache_handle).ok_or_else(|| {
+        JsValue::from_str(&format!(
+            "Hybrid Cipher: no decryption cache with handle: {cache_handle}"
+        ))
+    })?;
 
     //
     // Finally decrypt symmetric key using given user decryption key
diff --git a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
index f4c5485..a1e902f 100644
--- a/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
+++ b/src/interfaces/wasm_bindgen/hybrid_gpsw_aes_encryption.rs
@@ -153,9 +153,11 @@ pub fn webassembly_encrypt_hybrid_header_using_cache(
     let map = ENCRYPTION_CACHE_MAP
         .read()
         .expect("a read mutex on the encryption cache failed");
-    let cache = map
-        .get(&cache_handle)
-        .expect("Hybrid Cipher: no encryption cache with handle");
+    let cache = map.get(&cache_handle).ok_or_else(|| {
+        JsValue::from_str(&format!(
+            "Hybrid Cipher: no encryption cache with handle: {cache_handle}"
+        ))
+    })?;
 
     //
     // Finally encrypt symmetric key using given public key
-- 
2.43.0


From 4fd1d0a49d7efc2338c3d5ab8f600840ad2bad96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:36 +0000
Subject: [PATCH 14/16] fix: refuse to rotate a policy holding more values than
 its maximum

The rotation overflowed on a policy whose last value is 2^32-1, which
ended the process in the C interface (debug builds) or reused value 0.
---
 src/interfaces/ffi/generate_gpsw_keys.rs          | 4 ++++
 src/interfaces/pyo3/generate_gpsw_keys.rs         | 6 ++++++
 src/interfaces/wasm_bindgen/generate_gpsw_keys.rs | 6 ++++++
 3 files changed, 16 insertions(+)

diff --git a/src/interfaces/ffi/generate_gpsw_keys.rs b/src/interfaces/ffi/generate_gpsw_keys.rs
index 322db96..915f20e 100644
--- a/src/interfaces/ffi/generate_gpsw_keys.rs
+++ b/src/interfaces/ffi/generate_gpsw_keys.rs
@@ -245,6 +245,10 @@ pub unsafe extern "C" fn h_rotate_attributes(
     };
     let mut policy: Policy = ffi_unwrap!(serde_json::from_str(&policy));
 
+    if policy.last_attribute_value > policy.max_attribute_creations {
+        ffi_bail!("Invalid policy: more attribute values than its maximum number of creations");
+    }
+
     //
     // Rotate attributes of the current policy
     for attr in &attributes {
diff --git a/src/interfaces/pyo3/generate_gpsw_keys.rs b/src/interfaces/pyo3/generate_gpsw_keys.rs
index 6b0c596..ced38c7 100644
--- a/src/interfaces/pyo3/generate_gpsw_keys.rs
+++ b/src/interfaces/pyo3/generate_gpsw_keys.rs
@@ -144,6 +144,12 @@ pub fn rotate_attributes(attributes_bytes: Vec<u8>, policy_bytes: Vec<u8>) -> Py
     let mut policy: Policy = serde_json::from_slice(&policy_bytes)
         .map_err(|e| PyTypeError::new_err(format!("Error deserializing policy: {e}")))?;
 
+    if policy.last_attribute_value > policy.max_attribute_creations {
+        return Err(PyTypeError::new_err(
+            "Invalid policy: more attribute values than its maximum number of creations",
+        ));
+    }
+
     for attr in &attributes {
         policy
             .rotate(attr)
diff --git a/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs b/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
index 6e33b6c..08056d5 100644
--- a/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
+++ b/src/interfaces/wasm_bindgen/generate_gpsw_keys.rs
@@ -91,6 +91,12 @@ pub fn webassembly_rotate_attributes(
     let mut policy: Policy = serde_json::from_slice(policy_bytes.to_vec().as_slice())
         .map_err(|e| JsValue::from_str(&format!("Error deserializing policy: {e}")))?;
 
+    if policy.last_attribute_value > policy.max_attribute_creations {
+        return Err(JsValue::from_str(
+            "Invalid policy: more attribute values than its maximum number of creations",
+        ));
+    }
+
     //
     // Rotate attributes of the current policy
     for attr in &attributes {
-- 
2.43.0


From 0c260537dfebbf4a5c9b5c7828889677e7677f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:03 +0000
Subject: [PATCH 15/16] fix: a header announcing nearly 2^32 bytes made the
 WebAssembly module trap

---
 src/interfaces/hybrid_crypto/statics.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/interfaces/hybrid_crypto/statics.rs b/src/interfaces/hybrid_crypto/statics.rs
index 630261f..a60c723 100644
--- a/src/interfaces/hybrid_crypto/statics.rs
+++ b/src/interfaces/hybrid_crypto/statics.rs
@@ -165,6 +165,11 @@ where
         .read_u32()
         .map_err(|e| FormatErr::CryptoError(e.to_string()))?
         as usize;
+    if encrypted_symmetric_key_size > encrypted_header.len() {
+        return Err(FormatErr::InvalidSize(
+            "the encrypted symmetric key is larger than the header".to_string(),
+        ));
+    }
     let encrypted_symmetric_key = scanner
         .next(encrypted_symmetric_key_size)
         .map_err(|e| FormatErr::CryptoError(e.to_string()))?
@@ -192,6 +197,11 @@ where
             .read_u32()
             .map_err(|e| FormatErr::CryptoError(e.to_string()))?
             as usize;
+        if encrypted_metadata_size > encrypted_header.len() {
+            return Err(FormatErr::InvalidSize(
+                "the encrypted metadata is larger than the header".to_string(),
+            ));
+        }
 
         // UID
         let encrypted_metadata = scanner
-- 
2.43.0


From 7c339e24f5af24b505fe2ad1b2d83578c1a9316d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:28 +0000
Subject: [PATCH 16/16] fix: refuse negative sizes in the C interface

A negative size for an output buffer passed the "too small" check once
converted to usize (the buffer was then overrun), and a negative size for
an input made a slice of nearly the whole address space.
---
 src/interfaces/ffi/generate_gpsw_keys.rs |  8 ++---
 src/interfaces/ffi/hybrid_gpsw_aes.rs    | 44 ++++++++++++------------
 2 files changed, 26 insertions(+), 26 deletions(-)

diff --git a/src/interfaces/ffi/generate_gpsw_keys.rs b/src/interfaces/ffi/generate_gpsw_keys.rs
index 915f20e..0a4d0d4 100644
--- a/src/interfaces/ffi/generate_gpsw_keys.rs
+++ b/src/interfaces/ffi/generate_gpsw_keys.rs
@@ -33,7 +33,7 @@ pub unsafe extern "C" fn h_generate_master_keys(
         master_keys_ptr,
         "Master keys pointer should point to pre-allocated memory"
     );
-    if *master_keys_len == 0 {
+    if *master_keys_len < 1 {
         ffi_bail!("The master keys buffer should have a size greater than zero");
     }
 
@@ -111,14 +111,14 @@ pub unsafe extern "C" fn h_generate_user_private_key(
         user_private_key_ptr,
         "User private key pointer should point to pre-allocated memory"
     );
-    if *user_private_key_len == 0 {
+    if *user_private_key_len < 1 {
         ffi_bail!("The user private key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         master_private_key_ptr,
         "Master private key pointer should not be null"
     );
-    if master_private_key_len == 0 {
+    if master_private_key_len < 1 {
         ffi_bail!("The master private key should not be empty");
     }
     ffi_not_null!(
@@ -213,7 +213,7 @@ pub unsafe extern "C" fn h_rotate_attributes(
         new_policy_ptr,
         "New policy pointer should point to pre-allocated memory"
     );
-    if *new_policy_len == 0 {
+    if *new_policy_len < 1 {
         ffi_bail!("The new policy buffer should not be empty");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
diff --git a/src/interfaces/ffi/hybrid_gpsw_aes.rs b/src/interfaces/ffi/hybrid_gpsw_aes.rs
index 731cda6..a92972c 100644
--- a/src/interfaces/ffi/hybrid_gpsw_aes.rs
+++ b/src/interfaces/ffi/hybrid_gpsw_aes.rs
@@ -73,7 +73,7 @@ pub unsafe extern "C" fn h_aes_create_encryption_cache(
 ) -> i32 {
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Public key pointer should not be null");
-    if public_key_len == 0 {
+    if public_key_len < 1 {
         ffi_bail!("The public key should not be empty");
     }
     // Policy
@@ -142,14 +142,14 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    if *symmetric_key_len < 1 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
-    if *header_bytes_len == 0 {
+    if *header_bytes_len < 1 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
@@ -179,14 +179,14 @@ pub unsafe extern "C" fn h_aes_encrypt_header_using_cache(
     let attributes: Vec<Attribute> = ffi_unwrap!(serde_json::from_str(&attributes));
 
     // UID
-    let uid = if uid_ptr.is_null() || uid_len == 0 {
+    let uid = if uid_ptr.is_null() || uid_len < 1 {
         vec![]
     } else {
         std::slice::from_raw_parts(uid_ptr.cast::<u8>(), uid_len as usize).to_vec()
     };
 
     // additional data
-    let additional_data = if additional_data_ptr.is_null() || additional_data_len == 0 {
+    let additional_data = if additional_data_ptr.is_null() || additional_data_len < 1 {
         None
     } else {
         Some(
@@ -260,19 +260,19 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    if *symmetric_key_len < 1 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         header_bytes_ptr,
         "Header bytes pointer should point to pre-allocated memory"
     );
-    if *header_bytes_len == 0 {
+    if *header_bytes_len < 1 {
         ffi_bail!("The header bytes buffer should have a size greater than zero");
     }
     ffi_not_null!(policy_ptr, "Policy pointer should not be null");
     ffi_not_null!(public_key_ptr, "Policy pointer should not be null");
-    if public_key_len == 0 {
+    if public_key_len < 1 {
         ffi_bail!("The public key should not be empty");
     }
     ffi_not_null!(attributes_ptr, "Attributes pointer should not be null");
@@ -307,14 +307,14 @@ pub unsafe extern "C" fn h_aes_encrypt_header(
     let attributes: Vec<Attribute> = ffi_unwrap!(serde_json::from_str(&attributes));
 
     // UID
-    let uid = if uid_ptr.is_null() || uid_len == 0 {
+    let uid = if uid_ptr.is_null() || uid_len < 1 {
         vec![]
     } else {
         std::slice::from_raw_parts(uid_ptr.cast::<u8>(), uid_len as usize).to_vec()
     };
 
     // additional data
-    let additional_data = if additional_data_ptr.is_null() || additional_data_len == 0 {
+    let additional_data = if additional_data_ptr.is_null() || additional_data_len < 1 {
         None
     } else {
         Some(
@@ -402,7 +402,7 @@ pub unsafe extern "C" fn h_aes_create_decryption_cache(
         user_decryption_key_ptr,
         "User decryption key pointer should not be null"
     );
-    if user_decryption_key_len == 0 {
+    if user_decryption_key_len < 1 {
         ffi_bail!("The user decryption key should not be empty");
     }
 
@@ -465,14 +465,14 @@ pub unsafe extern "C" fn h_aes_decrypt_header_using_cache(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    if *symmetric_key_len < 1 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         encrypted_header_ptr,
         "Encrypted header bytes pointer should not be bull"
     );
-    if encrypted_header_len == 0 {
+    if encrypted_header_len < 1 {
         ffi_bail!("The encrypted header bytes size should be greater than zero");
     }
 
@@ -598,21 +598,21 @@ pub unsafe extern "C" fn h_aes_decrypt_header(
         symmetric_key_ptr,
         "Symmetric key pointer should point to pre-allocated memory"
     );
-    if *symmetric_key_len == 0 {
+    if *symmetric_key_len < 1 {
         ffi_bail!("The symmetric key buffer should have a size greater than zero");
     }
     ffi_not_null!(
         encrypted_header_ptr,
         "Encrypted header bytes pointer should not be bull"
     );
-    if encrypted_header_len == 0 {
+    if encrypted_header_len < 1 {
         ffi_bail!("The encrypted header bytes size should be greater than zero");
     }
     ffi_not_null!(
         user_decryption_key_ptr,
         "The user decryption key pointer should not be null"
     );
-    if user_decryption_key_len == 0 {
+    if user_decryption_key_len < 1 {
         ffi_bail!("The user decryption key should not be empty");
     }
 
@@ -714,7 +714,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         encrypted_ptr,
         "The encrypted bytes pointer should point to pre-allocated memory"
     );
-    if *encrypted_len == 0 {
+    if *encrypted_len < 1 {
         ffi_bail!("The encrypted bytes buffer should have a size greater than zero");
     }
 
@@ -723,7 +723,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
         symmetric_key_ptr,
         "Symmetric Key pointer should not be null"
     );
-    if symmetric_key_len == 0 {
+    if symmetric_key_len < 1 {
         ffi_bail!("The Symmetric Key should not be empty");
     }
     let symmetric_key =
@@ -739,7 +739,7 @@ pub unsafe extern "C" fn h_aes_encrypt_block(
 
     // Data
     ffi_not_null!(data_ptr, "Data pointer should not be null");
-    if data_len == 0 {
+    if data_len < 1 {
         ffi_bail!("The data should not be empty");
     }
     let data = std::slice::from_raw_parts(data_ptr.cast::<u8>(), data_len as usize).to_vec();
@@ -786,7 +786,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         clear_text_ptr,
         "The clear text bytes pointer should point to pre-allocated memory"
     );
-    if *clear_text_len == 0 {
+    if *clear_text_len < 1 {
         ffi_bail!("The clear text bytes buffer should have a size greater than zero");
     }
 
@@ -795,7 +795,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
         symmetric_key_ptr,
         "Symmetric Key pointer should not be null"
     );
-    if symmetric_key_len == 0 {
+    if symmetric_key_len < 1 {
         ffi_bail!("The Symmetric Key should not be empty");
     }
     let symmetric_key =
@@ -811,7 +811,7 @@ pub unsafe extern "C" fn h_aes_decrypt_block(
 
     // Data
     ffi_not_null!(encrypted_bytes_ptr, "Data pointer should not be null");
-    if encrypted_bytes_len == 0 {
+    if encrypted_bytes_len < 1 {
         ffi_bail!("The data should not be empty");
     }
     let data = std::slice::from_raw_parts(
-- 
2.43.0

