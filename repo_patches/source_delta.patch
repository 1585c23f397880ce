From cf4a3845de416cbce70fecaaaeed95da911c1818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 01/85] fix: report a failed tag or padding check as
 SA_STATUS_VERIFICATION_FAILED

sa_crypto_cipher_process_last documents SA_STATUS_VERIFICATION_FAILED for an invalid padding value or tag, but
symmetric_context_decrypt_last returned SA_STATUS_INTERNAL_ERROR.
---
 reference/src/taimpl/src/internal/symmetric.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/symmetric.c b/reference/src/taimpl/src/internal/symmetric.c
index 2d50a4d..5524768 100644
--- a/reference/src/taimpl/src/internal/symmetric.c
+++ b/reference/src/taimpl/src/internal/symmetric.c
@@ -1443,7 +1443,7 @@ sa_status symmetric_context_decrypt_last(
     int final_length = 0;
     if (EVP_DecryptFinal(context->evp_cipher, out + update_length, &final_length) != 1) {
         ERROR("EVP_DecryptFinal failed");
-        return SA_STATUS_INTERNAL_ERROR;
+        return SA_STATUS_VERIFICATION_FAILED;
     }
 
     *out_length = update_length + final_length;
-- 
2.43.0


From ae2ec46ce45cd5d275683f6ccf767a0970f50374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 02/85] fix: release the cipher and client when a buffer type
 is invalid

The early return left the cipher locked and both objects referenced, so releasing the cipher or closing the session never returned.
---
 reference/src/taimpl/src/ta_sa_crypto_cipher_process.c      | 6 ++++--
 reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
index d47c986..92f552b 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
@@ -428,12 +428,14 @@ sa_status ta_sa_crypto_cipher_process(
 
         if (out->buffer_type != SA_BUFFER_TYPE_CLEAR && out->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid out buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         if (in->buffer_type != SA_BUFFER_TYPE_CLEAR && in->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid in buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         sa_cipher_algorithm cipher_algorithm = cipher_get_algorithm(cipher);
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
index 7612d87..dedef13 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
@@ -555,12 +555,14 @@ sa_status ta_sa_crypto_cipher_process_last(
 
         if (out->buffer_type != SA_BUFFER_TYPE_CLEAR && out->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid out buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         if (in->buffer_type != SA_BUFFER_TYPE_CLEAR && in->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid in buffer type");
-            return SA_STATUS_INVALID_PARAMETER;
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
         }
 
         sa_cipher_algorithm cipher_algorithm = cipher_get_algorithm(cipher);
-- 
2.43.0


From 3f73b1ed023dba0cbc7363500ce0344a16b82eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 03/85] fix: refuse data after the last chunk of a cipher

sa_crypto_cipher_process_last documents SA_STATUS_INVALID_PARAMETER when the context has already processed its last
chunk, but it was not tracked: a second call was carried out, for example restarting the ChaCha20-Poly1305 tag so that
a rejected message could be followed by an accepted empty one.
---
 .../taimpl/include/internal/cipher_store.h    | 18 ++++++++++++++++
 .../src/taimpl/src/internal/cipher_store.c    | 21 +++++++++++++++++++
 .../taimpl/src/ta_sa_crypto_cipher_process.c  |  6 ++++++
 .../src/ta_sa_crypto_cipher_process_last.c    |  9 ++++++++
 .../src/ta_sa_crypto_cipher_update_iv.c       |  2 ++
 5 files changed, 56 insertions(+)

diff --git a/reference/src/taimpl/include/internal/cipher_store.h b/reference/src/taimpl/include/internal/cipher_store.h
index 3ec2231..18a89af 100644
--- a/reference/src/taimpl/include/internal/cipher_store.h
+++ b/reference/src/taimpl/include/internal/cipher_store.h
@@ -56,6 +56,24 @@ sa_cipher_algorithm cipher_get_algorithm(const cipher_t* cipher);
  */
 sa_cipher_mode cipher_get_mode(const cipher_t* cipher);
 
+/**
+ * Get whether the cipher has processed its last data chunk.
+ *
+ * @param[in] cipher cipher.
+ * @return true if the last data chunk was processed and no new IV was set since then.
+ */
+bool cipher_get_finished(const cipher_t* cipher);
+
+/**
+ * Set whether the cipher has processed its last data chunk.
+ *
+ * @param[in] cipher cipher.
+ * @param[in] finished true if the last data chunk was processed.
+ */
+void cipher_set_finished(
+        cipher_t* cipher,
+        bool finished);
+
 /**
  * Get the symmetric context.
  *
diff --git a/reference/src/taimpl/src/internal/cipher_store.c b/reference/src/taimpl/src/internal/cipher_store.c
index bbe2afc..ec95baf 100644
--- a/reference/src/taimpl/src/internal/cipher_store.c
+++ b/reference/src/taimpl/src/internal/cipher_store.c
@@ -26,6 +26,7 @@
 struct cipher_s {
     sa_cipher_algorithm cipher_algorithm;
     sa_cipher_mode cipher_mode;
+    bool finished;
     symmetric_context_t* symmetric_context;
     stored_key_t* stored_key;
     sa_digest_algorithm oaep_digest_algorithm;
@@ -53,6 +54,26 @@ sa_cipher_mode cipher_get_mode(const cipher_t* cipher) {
     return cipher->cipher_mode;
 }
 
+bool cipher_get_finished(const cipher_t* cipher) {
+    if (cipher == NULL) {
+        ERROR("NULL cipher");
+        return false;
+    }
+
+    return cipher->finished;
+}
+
+void cipher_set_finished(
+        cipher_t* cipher,
+        bool finished) {
+    if (cipher == NULL) {
+        ERROR("NULL cipher");
+        return;
+    }
+
+    cipher->finished = finished;
+}
+
 symmetric_context_t* cipher_get_symmetric_context(const cipher_t* cipher) {
     if (cipher == NULL) {
         ERROR("NULL cipher");
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
index 92f552b..a29ea84 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
@@ -426,6 +426,12 @@ sa_status ta_sa_crypto_cipher_process(
             break;
         }
 
+        if (cipher_get_finished(cipher)) {
+            ERROR("Last data chunk has already been processed");
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
+        }
+
         if (out->buffer_type != SA_BUFFER_TYPE_CLEAR && out->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid out buffer type");
             status = SA_STATUS_INVALID_PARAMETER;
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
index dedef13..b403755 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
@@ -553,6 +553,12 @@ sa_status ta_sa_crypto_cipher_process_last(
             break;
         }
 
+        if (cipher_get_finished(cipher)) {
+            ERROR("Last data chunk has already been processed");
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
+        }
+
         if (out->buffer_type != SA_BUFFER_TYPE_CLEAR && out->buffer_type != SA_BUFFER_TYPE_SVP) {
             ERROR("Invalid out buffer type");
             status = SA_STATUS_INVALID_PARAMETER;
@@ -665,6 +671,9 @@ sa_status ta_sa_crypto_cipher_process_last(
         }
     } while (false);
 
+    if (cipher != NULL && out != NULL && (status == SA_STATUS_OK || status == SA_STATUS_VERIFICATION_FAILED))
+        cipher_set_finished(cipher, true);
+
     if (in_svp != NULL)
         svp_store_release_exclusive(client_get_svp_store(client), in->context.svp.buffer, in_svp, caller_uuid);
 
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_update_iv.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_update_iv.c
index 22f2a07..c41b211 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_update_iv.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_update_iv.c
@@ -80,6 +80,8 @@ sa_status ta_sa_crypto_cipher_update_iv(
                 ERROR("symmetric_context_set_iv failed");
                 break;
             }
+
+            cipher_set_finished(cipher, false);
         } else {
             status = SA_STATUS_INVALID_PARAMETER;
             ERROR("Invalid algorithm");
-- 
2.43.0


From c574ba170e63d925c131681e99445ea4fa9d9fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:54:06 +0000
Subject: [PATCH 04/85] fix: refuse an empty input when unwrapping with ECB or
 CBC

---
 reference/src/taimpl/src/ta_sa_key_unwrap.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_key_unwrap.c b/reference/src/taimpl/src/ta_sa_key_unwrap.c
index 47edab4..61553f6 100644
--- a/reference/src/taimpl/src/ta_sa_key_unwrap.c
+++ b/reference/src/taimpl/src/ta_sa_key_unwrap.c
@@ -65,7 +65,7 @@ static sa_status ta_sa_key_unwrap_aes_ecb(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    if (in_length % AES_BLOCK_SIZE != 0) {
+    if (in_length == 0 || in_length % AES_BLOCK_SIZE != 0) {
         ERROR("Invalid in_length");
         return SA_STATUS_INVALID_PARAMETER;
     }
@@ -175,7 +175,7 @@ static sa_status ta_sa_key_unwrap_aes_cbc(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    if (in_length % AES_BLOCK_SIZE != 0) {
+    if (in_length == 0 || in_length % AES_BLOCK_SIZE != 0) {
         ERROR("Invalid in_length");
         return SA_STATUS_INVALID_PARAMETER;
     }
-- 
2.43.0


From a013ca38e7ceba0802341bdb462c2ec316642d3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 05/85] fix: refuse a protected buffer whose memory is not
 valid

---
 reference/src/taimpl/src/porting/svp.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/porting/svp.c b/reference/src/taimpl/src/porting/svp.c
index 7dfb5c4..b7372eb 100644
--- a/reference/src/taimpl/src/porting/svp.c
+++ b/reference/src/taimpl/src/porting/svp.c
@@ -39,7 +39,7 @@ static bool svp_validate_buffer(const svp_buffer_t* svp_buffer) {
 
     if (!memory_is_valid_svp(svp_buffer->svp_memory, svp_buffer->size)) {
         ERROR("memory range is not within SVP memory");
-        return SA_STATUS_INVALID_PARAMETER;
+        return false;
     }
 
     return true;
@@ -62,7 +62,7 @@ bool svp_create_buffer(
 
     if (!memory_is_valid_svp(svp_memory, size)) {
         ERROR("memory range is not within SVP memory");
-        return SA_STATUS_INVALID_PARAMETER;
+        return false;
     }
 
     *svp_buffer = memory_internal_alloc(sizeof(svp_buffer_t));
-- 
2.43.0


From 48d012e623c7f996f5a913cdadcb83f6264b2543 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:34 +0000
Subject: [PATCH 06/85] fix: give up a protected buffer that another call is
 already releasing

---
 reference/src/taimpl/src/internal/svp_store.c | 3 ++-
 reference/src/taimpl/src/porting/svp.c        | 5 +++++
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/svp_store.c b/reference/src/taimpl/src/internal/svp_store.c
index bc04ffe..4a871d1 100644
--- a/reference/src/taimpl/src/internal/svp_store.c
+++ b/reference/src/taimpl/src/internal/svp_store.c
@@ -232,7 +232,8 @@ sa_status svp_store_release(
 
     if (!svp_release_buffer(svp_memory, size, svp->buffer)) {
         ERROR("svp_release_buffer failed");
-        return status;
+        svp_store_release_exclusive(store, svp_buffer, svp, caller_uuid);
+        return SA_STATUS_INVALID_SVP_BUFFER;
     }
 
     svp->buffer = NULL;
diff --git a/reference/src/taimpl/src/porting/svp.c b/reference/src/taimpl/src/porting/svp.c
index b7372eb..3d10270 100644
--- a/reference/src/taimpl/src/porting/svp.c
+++ b/reference/src/taimpl/src/porting/svp.c
@@ -301,6 +301,11 @@ bool svp_digest(
         size_t offset,
         size_t length) {
 
+    if (svp_buffer == NULL) {
+        ERROR("NULL svp_buffer");
+        return false;
+    }
+
     size_t range;
     if (add_overflow(offset, length, &range)) {
         ERROR("Integer overflow");
-- 
2.43.0


From 2dacda607e5d56d0777eb93ea687deded2268276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:24 +0000
Subject: [PATCH 07/85] fix: release what was allocated when an OAEP label or
 DH padding is refused

---
 reference/src/taimpl/src/internal/dh.c     | 2 +-
 reference/src/taimpl/src/internal/unwrap.c | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/dh.c b/reference/src/taimpl/src/internal/dh.c
index 5342212..173ad8b 100644
--- a/reference/src/taimpl/src/internal/dh.c
+++ b/reference/src/taimpl/src/internal/dh.c
@@ -197,7 +197,7 @@ sa_status dh_compute_shared_secret(
 #if OPENSSL_VERSION_NUMBER >= 0x10100000
         if (EVP_PKEY_CTX_set_dh_pad(evp_pkey_ctx, 1) != 1) {
             ERROR("EVP_PKEY_CTX_set_dh_pad failed");
-            return false;
+            break;
         }
 #endif
 
diff --git a/reference/src/taimpl/src/internal/unwrap.c b/reference/src/taimpl/src/internal/unwrap.c
index ccfdc03..b1b8db0 100644
--- a/reference/src/taimpl/src/internal/unwrap.c
+++ b/reference/src/taimpl/src/internal/unwrap.c
@@ -802,7 +802,8 @@ sa_status unwrap_rsa(
             sa_unwrap_parameters_rsa_oaep* oaep_parameters = (sa_unwrap_parameters_rsa_oaep*) algorithm_parameters;
             if (oaep_parameters->label == NULL && oaep_parameters->label_length != 0) {
                 ERROR("Invalid label_length");
-                return SA_STATUS_INVALID_PARAMETER;
+                status = SA_STATUS_INVALID_PARAMETER;
+                break;
             }
 
             status = rsa_decrypt_oaep(unwrapped_key, &unwrapped_key_length, stored_key_wrapping,
-- 
2.43.0


From dcae2fe52e9aced5e41bd2bea3aff0d599937217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 08/85] fix: check allocations and do not free twice when a
 TypeJ container is refused

---
 reference/src/taimpl/src/internal/typej.c | 57 +++++++++++++++++++----
 1 file changed, 49 insertions(+), 8 deletions(-)

diff --git a/reference/src/taimpl/src/internal/typej.c b/reference/src/taimpl/src/internal/typej.c
index 08792c4..39680f1 100644
--- a/reference/src/taimpl/src/internal/typej.c
+++ b/reference/src/taimpl/src/internal/typej.c
@@ -135,6 +135,10 @@ static typej_unpacked_t* unpack_typej(
     typej_unpacked_t* unpacked = NULL;
     do {
         unpacked = typej_unpacked_create();
+        if (unpacked == NULL) {
+            ERROR("typej_unpacked_create failed");
+            break;
+        }
 
         unpacked->in = in;
         unpacked->in_length = in_length;
@@ -173,27 +177,39 @@ static typej_unpacked_t* unpack_typej(
         unpacked->mac_b64_length = mac_b64_end - unpacked->mac_b64;
         unpacked->header_length = b64_decoded_length(unpacked->header_b64_length);
         unpacked->header = memory_internal_alloc(unpacked->header_length);
+        if (unpacked->header == NULL) {
+            ERROR("memory_internal_alloc failed");
+            break;
+        }
+
         if (!b64_decode(unpacked->header, &unpacked->header_length, unpacked->header_b64,
                     unpacked->header_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->header);
             break;
         }
 
         unpacked->payload_length = b64_decoded_length(unpacked->payload_b64_length);
         unpacked->payload = memory_internal_alloc(unpacked->payload_length);
+        if (unpacked->payload == NULL) {
+            ERROR("memory_internal_alloc failed");
+            break;
+        }
+
         if (!b64_decode(unpacked->payload, &unpacked->payload_length, unpacked->payload_b64,
                     unpacked->payload_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->payload);
             break;
         }
 
         unpacked->mac_length = b64_decoded_length(unpacked->mac_b64_length);
         unpacked->mac = memory_internal_alloc(unpacked->mac_length);
+        if (unpacked->mac == NULL) {
+            ERROR("memory_internal_alloc failed");
+            break;
+        }
+
         if (!b64_decode(unpacked->mac, &unpacked->mac_length, unpacked->mac_b64, unpacked->mac_b64_length, true)) {
             ERROR("b64_decode failed");
-            memory_secure_free(unpacked->mac);
             break;
         }
 
@@ -385,9 +401,14 @@ static sa_status fields_to_rights(
 
     size_t rights_count = b64_decoded_length(rights_field_size);
     uint8_t* rights_bytes = memory_internal_alloc(rights_count);
+    if (rights_bytes == NULL) {
+        ERROR("memory_internal_alloc failed");
+        return SA_STATUS_INTERNAL_ERROR;
+    }
+
     if (!b64_decode(rights_bytes, &rights_count, rights_field_string, rights_field_size, false)) {
         ERROR("Invalid contentKeyRights");
-        memory_secure_free(rights_bytes);
+        memory_internal_free(rights_bytes);
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -474,6 +495,11 @@ static sa_status fields_to_rights(
     } else {
         size_t entitled_ta_ids_length;
         entitled_ta_ids = json_value_as_array(&entitled_ta_ids_length, entitled_ta_ids_field->value);
+        if (entitled_ta_ids == NULL) {
+            ERROR("json_value_as_array failed");
+            return SA_STATUS_INVALID_KEY_FORMAT;
+        }
+
         if (entitled_ta_ids_length > MAX_NUM_ALLOWED_TA_IDS) {
             memory_internal_free(entitled_ta_ids);
             ERROR("Invalid entitled_ta_ids_length");
@@ -483,7 +509,7 @@ static sa_status fields_to_rights(
         for (size_t i = 0; i < entitled_ta_ids_length; i++) {
             size_t ta_id_length;
             const char* ta_id = json_value_as_string(&ta_id_length, entitled_ta_ids[i]);
-            if (ta_id_length != UUID_LENGTH) {
+            if (ta_id == NULL || ta_id_length != UUID_LENGTH) {
                 memory_internal_free(entitled_ta_ids);
                 ERROR("Invalid ta_id");
                 return SA_STATUS_INVALID_KEY_FORMAT;
@@ -540,9 +566,14 @@ static sa_status unwrap_key_v1(
 
         size_t content_key_size = b64_decoded_length(content_key_b64_size);
         content_key = memory_internal_alloc(content_key_size);
+        if (content_key == NULL) {
+            ERROR("memory_internal_alloc failed");
+            status = SA_STATUS_INTERNAL_ERROR;
+            break;
+        }
+
         if (!b64_decode(content_key, &content_key_size, content_key_b64, content_key_b64_size, false)) {
             ERROR("Invalid contentKey");
-            memory_secure_free(content_key);
             status = SA_STATUS_INVALID_KEY_FORMAT;
             break;
         }
@@ -653,9 +684,14 @@ static sa_status unwrap_key_v2(
 
         size_t content_key_size = b64_decoded_length(content_key_b64_size);
         content_key = memory_internal_alloc(content_key_size);
+        if (content_key == NULL) {
+            ERROR("memory_internal_alloc failed");
+            status = SA_STATUS_INTERNAL_ERROR;
+            break;
+        }
+
         if (!b64_decode(content_key, &content_key_size, content_key_b64, content_key_b64_size, false)) {
             ERROR("json_key_value_find failed");
-            memory_secure_free(content_key);
             status = SA_STATUS_INVALID_KEY_FORMAT;
             break;
         }
@@ -697,9 +733,14 @@ static sa_status unwrap_key_v2(
 
             size_t iv_size = b64_decoded_length(iv_b64_size);
             iv = memory_internal_alloc(iv_size);
+            if (iv == NULL) {
+                ERROR("memory_internal_alloc failed");
+                status = SA_STATUS_INTERNAL_ERROR;
+                break;
+            }
+
             if (!b64_decode(iv, &iv_size, iv_b64, iv_b64_size, false) || iv_size != SYM_128_KEY_SIZE) {
                 ERROR("Invalid contentKeyTransportIv");
-                memory_secure_free(iv);
                 status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
             }
-- 
2.43.0


From baad0f4e50c60c4fc6efd9fd91be88ec17cb0d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 09/85] fix: fail JSON parsing when memory runs out

---
 reference/src/taimpl/src/internal/json.c | 69 +++++++++++++-----------
 1 file changed, 38 insertions(+), 31 deletions(-)

diff --git a/reference/src/taimpl/src/internal/json.c b/reference/src/taimpl/src/internal/json.c
index c2a3bac..e05873e 100644
--- a/reference/src/taimpl/src/internal/json.c
+++ b/reference/src/taimpl/src/internal/json.c
@@ -417,7 +417,7 @@ static json_stack_t* json_parse_context_push(
     return context->stack;
 }
 
-static void json_parse_context_set_value(
+static bool json_parse_context_set_value(
         json_parse_context_t* context,
         json_value_t* value) {
     do {
@@ -428,7 +428,7 @@ static void json_parse_context_set_value(
 
         if (context->stack == NULL) {
             json_parse_context_set_root(context, value);
-            return;
+            return true;
         }
 
         // stack exists, but no value set. should never get here
@@ -446,7 +446,7 @@ static void json_parse_context_set_value(
             }
 
             json_map_set_value(obj, value);
-            return;
+            return true;
         }
 
         // array
@@ -457,8 +457,12 @@ static void json_parse_context_set_value(
                 break;
             }
 
-            json_array_add(arr, value);
-            return;
+            if (json_array_add(arr, value) == NULL) {
+                ERROR("json_array_add failed");
+                break;
+            }
+
+            return true;
         }
 
         ERROR("Invalid context stack state detected");
@@ -466,25 +470,24 @@ static void json_parse_context_set_value(
 
     // since an error was detected, free the val
     json_value_free(value);
+    return false;
 }
 
-static json_stack_t* json_parse_context_pop(json_parse_context_t* context) {
+static bool json_parse_context_pop(json_parse_context_t* context) {
     if (context == NULL) {
         ERROR("NULL context");
-        return NULL;
+        return false;
     }
 
     if (context->stack == NULL) {
         ERROR("NULL stack");
-        return NULL;
+        return false;
     }
 
     json_value_t* value = NULL;
     context->stack = json_stack_pop(context->stack, &value);
 
-    json_parse_context_set_value(context, value);
-
-    return context->stack;
+    return json_parse_context_set_value(context, value);
 }
 
 static char* string_new(
@@ -687,9 +690,7 @@ static int bool_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
-
-    return 1;
+    return json_parse_context_set_value(session, value) ? 1 : 0;
 }
 
 static int double_callback(
@@ -703,9 +704,7 @@ static int double_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
-
-    return 1;
+    return json_parse_context_set_value(session, value) ? 1 : 0;
 }
 
 #if YAJL_MAJOR < 2
@@ -725,17 +724,13 @@ static int integer_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
-
-    return 1;
+    return json_parse_context_set_value(session, value) ? 1 : 0;
 }
 
 static int null_callback(void* context) {
     json_parse_context_t* session = (json_parse_context_t*) context;
 
-    json_parse_context_set_value(session, NULL);
-
-    return 1;
+    return json_parse_context_set_value(session, NULL) ? 1 : 0;
 }
 
 #if YAJL_MAJOR < 2
@@ -758,9 +753,7 @@ static int string_callback(
         return 0;
     }
 
-    json_parse_context_set_value(session, value);
-
-    return 1;
+    return json_parse_context_set_value(session, value) ? 1 : 0;
 }
 
 #if YAJL_MAJOR < 2
@@ -808,7 +801,13 @@ static int map_key_callback(
         return 0;
     }
 
-    json_map_set_key(new_key_value, string_new(key, key_length), key_length);
+    char* new_key = string_new(key, key_length);
+    if (new_key == NULL) {
+        ERROR("string_new failed");
+        return 0;
+    }
+
+    json_map_set_key(new_key_value, new_key, key_length);
 
     return 1;
 }
@@ -834,8 +833,7 @@ static int start_map_callback(void* context) {
 
 static int end_map_callback(void* context) {
     json_parse_context_t* session = (json_parse_context_t*) context;
-    json_parse_context_pop(session);
-    return 1;
+    return json_parse_context_pop(session) ? 1 : 0;
 }
 
 static int start_array_callback(void* context) {
@@ -859,8 +857,7 @@ static int start_array_callback(void* context) {
 
 static int end_array_callback(void* context) {
     json_parse_context_t* session = (json_parse_context_t*) context;
-    json_parse_context_pop(session);
-    return 1;
+    return json_parse_context_pop(session) ? 1 : 0;
 }
 
 json_value_t* json_parse_bytes(
@@ -994,6 +991,11 @@ json_value_t** json_value_as_array(
     size_t size = json_array_size(array_payload);
 
     json_value_t** values_array = memory_internal_alloc(sizeof(json_value_t*) * size);
+    if (values_array == NULL) {
+        ERROR("memory_internal_alloc failed");
+        return NULL;
+    }
+
     for (size_t i = 0; i < size; ++i) {
         array_payload = array_payload->next;
         values_array[i] = array_payload->value;
@@ -1029,6 +1031,11 @@ json_key_value_t* json_value_as_map(
     size_t size = json_map_size(map_payload);
 
     json_key_value_t* map_key_values = memory_internal_alloc(sizeof(json_key_value_t) * size);
+    if (map_key_values == NULL) {
+        ERROR("memory_internal_alloc failed");
+        return NULL;
+    }
+
     for (size_t i = 0; i < size; ++i) {
         map_payload = map_payload->next;
         map_key_values[i].key = map_payload->key;
-- 
2.43.0


From e230ff1dcde5225b0be08c1a9942b6849f85a89f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:10 +0000
Subject: [PATCH 10/85] fix: bound the fields of a SoC key container and report
 an invalid EC key

---
 .../taimpl/src/internal/soc_key_container.c   | 177 +++++++++++-------
 1 file changed, 112 insertions(+), 65 deletions(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 9608297..6a5e986 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -111,6 +111,10 @@ static soc_kc_unpacked_t* unpack_soc_kc(
     soc_kc_unpacked_t* unpacked = NULL;
     do {
         unpacked = soc_kc_unpacked_create();
+        if (unpacked == NULL) {
+            ERROR("soc_kc_unpacked_create failed");
+            break;
+        }
 
         unpacked->in = in;
         unpacked->in_length = in_length;
@@ -304,6 +308,46 @@ static sa_status parse_header(
     return SA_STATUS_OK;
 }
 
+// Decodes a base64 field that has to be exactly value_length bytes.
+static sa_status parse_fixed_value(
+        uint8_t* value,
+        size_t value_length,
+        const json_key_value_t* field,
+        bool url_decode) {
+
+    size_t b64_length = 0;
+    const char* b64 = json_value_as_string(&b64_length, field->value);
+    if (b64 == NULL) {
+        ERROR("json_value_as_string failed");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
+    size_t length = b64_decoded_length(b64_length);
+    uint8_t* decoded = memory_internal_alloc(length);
+    if (decoded == NULL) {
+        ERROR("memory_internal_alloc failed");
+        return SA_STATUS_INTERNAL_ERROR;
+    }
+
+    sa_status status = SA_STATUS_OK;
+    if (!b64_decode(decoded, &length, b64, b64_length, url_decode) || length != value_length) {
+        ERROR("b64_decode failed");
+        status = SA_STATUS_INVALID_KEY_FORMAT;
+    } else {
+        memcpy(value, decoded, value_length);
+    }
+
+    memory_internal_free(decoded);
+    return status;
+}
+
+static bool string_equals(
+        const char* string,
+        size_t string_length,
+        const char* name) {
+    return string_length == strlen(name) && memory_memcmp_constant(string, name, string_length) == 0;
+}
+
 static sa_status parse_payload(
         json_key_value_t* fields,
         size_t fields_count,
@@ -334,12 +378,12 @@ static sa_status parse_payload(
         if (root_key_type_field == NULL) {
             payload->root_key_type = UNDEFINED;
         } else {
-            size_t root_key_type_length;
+            size_t root_key_type_length = 0;
             const char* root_key_type = json_value_as_string(&root_key_type_length,
                     root_key_type_field->value);
-            if (memory_memcmp_constant(root_key_type, UNIQUE_STR, root_key_type_length) == 0) {
+            if (root_key_type != NULL && string_equals(root_key_type, root_key_type_length, UNIQUE_STR)) {
                 payload->root_key_type = UNIQUE;
-            } else if (memory_memcmp_constant(root_key_type, COMMON_STR, root_key_type_length) == 0) {
+            } else if (root_key_type != NULL && string_equals(root_key_type, root_key_type_length, COMMON_STR)) {
                 payload->root_key_type = COMMON;
             } else {
                 ERROR("Invalid rootKeyType");
@@ -372,6 +416,11 @@ static sa_status parse_payload(
 
     size_t b64_encrypted_key_length;
     const char* encrypted_key = json_value_as_string(&b64_encrypted_key_length, encrypted_key_field->value);
+    if (encrypted_key == NULL) {
+        ERROR("Invalid encryptedKey");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     payload->encrypted_key_length = b64_decoded_length(b64_encrypted_key_length);
     payload->encrypted_key = memory_internal_alloc(payload->encrypted_key_length);
     if (payload->encrypted_key == NULL) {
@@ -382,7 +431,6 @@ static sa_status parse_payload(
     if (!b64_decode(payload->encrypted_key, &payload->encrypted_key_length, encrypted_key, b64_encrypted_key_length,
                 false)) {
         ERROR("b64_decode failed");
-        memory_internal_free(payload->encrypted_key);
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
@@ -393,12 +441,10 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_iv_length;
-    const char* iv = json_value_as_string(&b64_iv_length, iv_field->value);
-    size_t iv_length = b64_decoded_length(b64_iv_length);
-    if (!b64_decode(payload->iv, &iv_length, iv, b64_iv_length, false) && iv_length != GCM_IV_LENGTH) {
-        ERROR("b64_decode failed");
-        return SA_STATUS_INVALID_KEY_FORMAT;
+    sa_status status = parse_fixed_value(payload->iv, GCM_IV_LENGTH, iv_field, false);
+    if (status != SA_STATUS_OK) {
+        ERROR("Invalid iv");
+        return status;
     }
 
     // read key usage
@@ -431,10 +477,21 @@ static sa_status parse_payload(
         payload->entitled_ta_ids_length = 0;
     } else {
         entitled_ta_ids = json_value_as_array(&payload->entitled_ta_ids_length, entitled_ta_ids_field->value);
+        if (entitled_ta_ids == NULL) {
+            ERROR("json_value_as_array failed");
+            return SA_STATUS_INVALID_KEY_FORMAT;
+        }
+
+        if (payload->entitled_ta_ids_length > MAX_NUM_ALLOWED_TA_IDS) {
+            memory_internal_free(entitled_ta_ids);
+            ERROR("Too many entitled_ta_ids");
+            return SA_STATUS_INVALID_KEY_FORMAT;
+        }
+
         for (size_t i = 0; i < payload->entitled_ta_ids_length; i++) {
             size_t ta_id_length;
             const char* ta_id = json_value_as_string(&ta_id_length, entitled_ta_ids[i]);
-            if (ta_id_length != UUID_LENGTH) {
+            if (ta_id == NULL || ta_id_length != UUID_LENGTH) {
                 memory_internal_free(entitled_ta_ids);
                 ERROR("Invalid ta_id");
                 return SA_STATUS_INVALID_KEY_FORMAT;
@@ -453,13 +510,10 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c1_length;
-    const char* c1 = json_value_as_string(&b64_c1_length, c1_field->value);
-    size_t c1_length = b64_decoded_length(b64_c1_length);
-    if (!b64_decode(payload->key_ladder_inputs.c1, &c1_length, c1, b64_c1_length, false) &&
-            c1_length != AES_BLOCK_SIZE) {
-        ERROR("b64_decode failed");
-        return SA_STATUS_INVALID_KEY_FORMAT;
+    status = parse_fixed_value(payload->key_ladder_inputs.c1, AES_BLOCK_SIZE, c1_field, false);
+    if (status != SA_STATUS_OK) {
+        ERROR("Invalid c1");
+        return status;
     }
 
     // read c2
@@ -469,13 +523,10 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c2_length;
-    const char* c2 = json_value_as_string(&b64_c2_length, c2_field->value);
-    size_t c2_length = b64_decoded_length(b64_c2_length);
-    if (!b64_decode(payload->key_ladder_inputs.c2, &c2_length, c2, b64_c2_length, true) &&
-            c2_length != AES_BLOCK_SIZE) {
-        ERROR("b64_decode failed");
-        return SA_STATUS_INVALID_KEY_FORMAT;
+    status = parse_fixed_value(payload->key_ladder_inputs.c2, AES_BLOCK_SIZE, c2_field, true);
+    if (status != SA_STATUS_OK) {
+        ERROR("Invalid c2");
+        return status;
     }
 
     // read c3
@@ -485,13 +536,10 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    size_t b64_c3_length;
-    const char* c3 = json_value_as_string(&b64_c3_length, c3_field->value);
-    size_t c3_length = b64_decoded_length(b64_c3_length);
-    if (!b64_decode(payload->key_ladder_inputs.c3, &c3_length, c3, b64_c3_length, false) &&
-            c3_length != AES_BLOCK_SIZE) {
-        ERROR("b64_decode failed");
-        return SA_STATUS_INVALID_KEY_FORMAT;
+    status = parse_fixed_value(payload->key_ladder_inputs.c3, AES_BLOCK_SIZE, c3_field, false);
+    if (status != SA_STATUS_OK) {
+        ERROR("Invalid c3");
+        return status;
     }
 
     return SA_STATUS_OK;
@@ -564,12 +612,9 @@ static size_t build_aad(
     }
 
     if (payload->key_usage == KEY_ONLY &&
-            (memory_memcmp_constant(payload->key_type_string, "HMAC-128",
-                     payload->key_type_string_length) == 0 ||
-                    memory_memcmp_constant(payload->key_type_string, "HMAC-160",
-                            payload->key_type_string_length) == 0 ||
-                    memory_memcmp_constant(payload->key_type_string, "HMAC-256",
-                            payload->key_type_string_length) == 0)) {
+            (string_equals(payload->key_type_string, payload->key_type_string_length, "HMAC-128") ||
+                    string_equals(payload->key_type_string, payload->key_type_string_length, "HMAC-160") ||
+                    string_equals(payload->key_type_string, payload->key_type_string_length, "HMAC-256"))) {
         ERROR("Invalid key_usage for HMAC key");
         return 0;
     }
@@ -641,97 +686,97 @@ static bool get_key_type_and_size(
         return false;
     }
 
-    if (memory_memcmp_constant(key_type_string, "AES-128", key_type_string_length) == 0) {
+    if (string_equals(key_type_string, key_type_string_length, "AES-128")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_128_KEY_SIZE;
         *subtype = AES_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-128", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "HMAC-128")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_128_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "AES-256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "AES-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = AES_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "CHACHA20-256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "CHACHA20-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = CHACHA20_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "HMAC-256")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_256_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "HMAC-160", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "HMAC-160")) {
         *key_type = SA_KEY_TYPE_SYMMETRIC;
         *key_size = SYM_160_KEY_SIZE;
         *subtype = HMAC_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-1024", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-1024")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_1024_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-2048", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-2048")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_2048_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-3072", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-3072")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_3072_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "RSA-4096", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "RSA-4096")) {
         *key_type = SA_KEY_TYPE_RSA;
         *key_size = RSA_4096_BYTE_LENGTH;
         *subtype = PRIVATE_SUBTYPE;
         *curve = UINT32_MAX;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P192", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P192")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P192_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P192;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P224", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P224")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P224_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P224;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P256", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P256")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P256_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P256;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P384", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P384")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P384_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P384;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-P521", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-P521")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_P521_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_NIST_P521;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-ED25519", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-ED25519")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_25519_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_ED25519;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-ED448", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-ED448")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_ED448_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_ED448;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-X25519", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-X25519")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_25519_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
         *curve = SA_ELLIPTIC_CURVE_X25519;
-    } else if (memory_memcmp_constant(key_type_string, "ECC-X448", key_type_string_length) == 0) {
+    } else if (string_equals(key_type_string, key_type_string_length, "ECC-X448")) {
         *key_type = SA_KEY_TYPE_EC;
         *key_size = EC_X448_KEY_SIZE;
         *subtype = PRIVATE_SUBTYPE;
@@ -770,13 +815,6 @@ static sa_status decrypt_key_and_verify_mac(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    uint8_t aad[MAX_AAD_SIZE];
-    size_t aad_length = build_aad(aad, header, payload);
-    if (aad_length == 0) {
-        ERROR("build_aad failed");
-        return SA_STATUS_INVALID_KEY_FORMAT;
-    }
-
     sa_key_type key_type;
     size_t key_size;
     key_subtype subtype;
@@ -787,6 +825,14 @@ static sa_status decrypt_key_and_verify_mac(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
+    // The key type is known here to be one of the supported names, so that it fits into the AAD.
+    uint8_t aad[MAX_AAD_SIZE];
+    size_t aad_length = build_aad(aad, header, payload);
+    if (aad_length == 0) {
+        ERROR("build_aad failed");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     void* key = NULL;
     sa_status status;
     do {
@@ -832,6 +878,7 @@ static sa_status decrypt_key_and_verify_mac(
             size_t ec_key_size = ec_validate_private(curve, key, payload->encrypted_key_length);
             if (ec_key_size == 0) {
                 ERROR("Invalid key size");
+                status = SA_STATUS_INVALID_KEY_FORMAT;
                 break;
             }
 
@@ -894,7 +941,7 @@ sa_status soc_kc_unwrap(
     soc_kc_header_t header;
     soc_kc_payload_t payload;
 
-    memory_memset_unoptimizable(&payload, 0, sizeof(soc_kc_unpacked_t));
+    memory_memset_unoptimizable(&payload, 0, sizeof(soc_kc_payload_t));
     sa_status status = SA_STATUS_INVALID_KEY_FORMAT;
     do {
         unpacked = unpack_soc_kc(in, in_length);
-- 
2.43.0


From 9b056d42c9707201ba4265714b49934ddd8f1b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:39 +0000
Subject: [PATCH 11/85] fix: verify the whole authentication tag of a SoC key
 container

---
 reference/src/taimpl/src/internal/soc_key_container.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index 6a5e986..d4a9aee 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -815,6 +815,12 @@ static sa_status decrypt_key_and_verify_mac(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    // A shorter tag would let the container choose how little of it is verified.
+    if (unpacked->mac_length != AES_BLOCK_SIZE) {
+        ERROR("Invalid mac_length");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     sa_key_type key_type;
     size_t key_size;
     key_subtype subtype;
-- 
2.43.0


From 9c7db07ee522ace6da5c4cd98a20c048f0b97b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:40 +0000
Subject: [PATCH 12/85] fix: free a wrapped key whose ciphertext could not be
 allocated

---
 reference/src/taimpl/src/internal/key_store.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/key_store.c b/reference/src/taimpl/src/internal/key_store.c
index 88d2535..23e0f39 100644
--- a/reference/src/taimpl/src/internal/key_store.c
+++ b/reference/src/taimpl/src/internal/key_store.c
@@ -253,8 +253,10 @@ static void wrapped_key_free(void* obj) {
 
     wrapped_key_t* wrapped_key = (wrapped_key_t*) obj;
 
-    memory_memset_unoptimizable(wrapped_key->ciphertext, 0, wrapped_key->cipher_parameters.ciphertext_length);
-    memory_secure_free(wrapped_key->ciphertext);
+    if (wrapped_key->ciphertext != NULL) {
+        memory_memset_unoptimizable(wrapped_key->ciphertext, 0, wrapped_key->cipher_parameters.ciphertext_length);
+        memory_secure_free(wrapped_key->ciphertext);
+    }
 
     memory_memset_unoptimizable(wrapped_key, 0, sizeof(wrapped_key_t));
     memory_secure_free(wrapped_key);
-- 
2.43.0


From 85faaf7b53a237907e6f3562d35121aa2820f601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:57 +0000
Subject: [PATCH 13/85] fix: remove the cipher when its OAEP parameters cannot
 be set

---
 reference/src/taimpl/src/ta_sa_crypto_cipher_init.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
index 87aed5f..1db70a3 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_init.c
@@ -1005,6 +1005,13 @@ sa_status ta_sa_crypto_cipher_init(
                     caller_uuid);
             if (status != SA_STATUS_OK) {
                 ERROR("ta_sa_crypto_cipher_init_rsa_oaep failed");
+                if (*context != INVALID_HANDLE) {
+                    // the cipher owns the stored key already and frees it when it is removed
+                    stored_key = NULL;
+                    cipher_store_remove(client_get_cipher_store(client), *context, caller_uuid);
+                    *context = INVALID_HANDLE;
+                }
+
                 break;
             }
         } else { // cipher_algorithm == SA_CIPHER_ALGORITHM_EC_ELGAMAL
-- 
2.43.0


From 58d3cf8757ca121aef752d58361760ee7b6255dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 14/85] fix: keys unwrapped by a key-only key inherit its
 output restrictions

---
 reference/src/taimpl/src/internal/stored_key.c | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/reference/src/taimpl/src/internal/stored_key.c b/reference/src/taimpl/src/internal/stored_key.c
index bb47d1c..b5819a2 100644
--- a/reference/src/taimpl/src/internal/stored_key.c
+++ b/reference/src/taimpl/src/internal/stored_key.c
@@ -42,13 +42,11 @@ static void restrict_child_rights(sa_rights* rights, const sa_rights* rootrights
         return;
     }
 
-    if ((rootrights->usage_flags & KEY_ONLY_MASK) || (rootrights->child_usage_flags == 0)) {
-        uint64_t disallowed = ~rootrights->usage_flags & SA_USAGE_OUTPUT_PROTECTIONS_MASK;
-        rights->usage_flags &= ~disallowed;
-    } else {
-        uint64_t disallowed = ~rootrights->child_usage_flags & SA_KEY_USAGE_MASK;
-        rights->usage_flags &= ~disallowed;
-    }
+    uint64_t disallowed = ~rootrights->usage_flags & SA_USAGE_OUTPUT_PROTECTIONS_MASK;
+    if (!(rootrights->usage_flags & KEY_ONLY_MASK) && rootrights->child_usage_flags != 0)
+        disallowed |= ~rootrights->child_usage_flags & SA_KEY_USAGE_MASK;
+
+    rights->usage_flags &= ~disallowed;
 }
 
 const void* stored_key_get_key(const stored_key_t* stored_key) {
-- 
2.43.0


From 5c033a6da77a99bbd83f95908087e1fd70e313f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:47 +0000
Subject: [PATCH 15/85] fix: a Netflix wrapping key inherits the output
 restrictions of both its parents

---
 reference/src/taimpl/src/ta_sa_key_derive.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_key_derive.c b/reference/src/taimpl/src/ta_sa_key_derive.c
index d1b1954..876bb89 100644
--- a/reference/src/taimpl/src/ta_sa_key_derive.c
+++ b/reference/src/taimpl/src/ta_sa_key_derive.c
@@ -646,8 +646,10 @@ static sa_status ta_sa_key_derive_netflix(
             break;
         }
 
-        status = kdf_netflix_wrapping(&stored_key_derived, rights, &enc_header->rights, stored_key_enc,
-                stored_key_hmac);
+        // Both keys are parents: an output protection flag that either of them lacks is lost.
+        sa_rights parent_rights = enc_header->rights;
+        parent_rights.usage_flags &= hmac_header->rights.usage_flags | ~SA_USAGE_OUTPUT_PROTECTIONS_MASK;
+        status = kdf_netflix_wrapping(&stored_key_derived, rights, &parent_rights, stored_key_enc, stored_key_hmac);
         if (status != SA_STATUS_OK) {
             ERROR("kdf_netflix_wrapping failed");
             break;
-- 
2.43.0


From e06a4d4cacb7cea3e28b6d2250406f1b545762f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:02 +0000
Subject: [PATCH 16/85] fix: keys of an authenticated DH exchange inherit the
 private key's output restrictions

---
 reference/src/taimpl/src/internal/netflix.c   |  9 +++++----
 reference/src/taimpl/src/ta_sa_key_exchange.c | 10 +++++++++-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/internal/netflix.c b/reference/src/taimpl/src/internal/netflix.c
index c0d2994..e0f9294 100644
--- a/reference/src/taimpl/src/internal/netflix.c
+++ b/reference/src/taimpl/src/internal/netflix.c
@@ -188,8 +188,9 @@ sa_status kdf_netflix_shared_secret(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    const sa_header* in_key_header = stored_key_get_header(stored_key_in);
-    if (in_key_header == NULL) {
+    // The shared secret has the rights of the input key, less the output protection flags the private key lacks.
+    const sa_header* shared_secret_header = stored_key_get_header(stored_key_shared_secret);
+    if (shared_secret_header == NULL) {
         ERROR("stored_key_get_header failed");
         return SA_STATUS_NULL_PARAMETER;
     }
@@ -269,14 +270,14 @@ sa_status kdf_netflix_shared_secret(
 
         sa_type_parameters type_parameters;
         memory_memset_unoptimizable(&type_parameters, 0, sizeof(sa_type_parameters));
-        status = stored_key_create(stored_key_enc, rights_enc, &in_key_header->rights, SA_KEY_TYPE_SYMMETRIC,
+        status = stored_key_create(stored_key_enc, rights_enc, &shared_secret_header->rights, SA_KEY_TYPE_SYMMETRIC,
                 &type_parameters, SYM_128_KEY_SIZE, key_bytes, SYM_128_KEY_SIZE);
         if (status != SA_STATUS_OK) {
             ERROR("stored_key_create failed");
             break;
         }
 
-        status = stored_key_create(stored_key_hmac, rights_hmac, &in_key_header->rights, SA_KEY_TYPE_SYMMETRIC,
+        status = stored_key_create(stored_key_hmac, rights_hmac, &shared_secret_header->rights, SA_KEY_TYPE_SYMMETRIC,
                 &type_parameters, SYM_256_KEY_SIZE, key_bytes + SYM_128_KEY_SIZE, SHA256_DIGEST_LENGTH);
         if (status != SA_STATUS_OK) {
             ERROR("stored_key_create failed");
diff --git a/reference/src/taimpl/src/ta_sa_key_exchange.c b/reference/src/taimpl/src/ta_sa_key_exchange.c
index c6b8a82..6dc5e99 100644
--- a/reference/src/taimpl/src/ta_sa_key_exchange.c
+++ b/reference/src/taimpl/src/ta_sa_key_exchange.c
@@ -325,6 +325,13 @@ static sa_status ta_sa_key_exchange_netflix_dh(
             break;
         }
 
+        const sa_header* shared_secret_header = stored_key_get_header(stored_key_shared_secret);
+        if (shared_secret_header == NULL) {
+            ERROR("stored_key_get_header failed");
+            status = SA_STATUS_NULL_PARAMETER;
+            break;
+        }
+
         status = kdf_netflix_shared_secret(&stored_key_enc, parameters->rights_ke, &stored_key_hmac,
                 parameters->rights_kh, stored_key_in, stored_key_shared_secret);
         if (status != SA_STATUS_OK) {
@@ -344,7 +351,8 @@ static sa_status ta_sa_key_exchange_netflix_dh(
             break;
         }
 
-        status = kdf_netflix_wrapping(&stored_key_wrap, rights, &in_header->rights, stored_key_enc, stored_key_hmac);
+        status = kdf_netflix_wrapping(&stored_key_wrap, rights, &shared_secret_header->rights, stored_key_enc,
+                stored_key_hmac);
         if (status != SA_STATUS_OK) {
             ERROR("kdf_netflix_wrapping failed");
             break;
-- 
2.43.0


From 7d764b06edad287b3f0bd54bf2aaa039784264d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 17/85] fix: refuse malformed base64 in key containers

---
 reference/src/taimpl/src/internal/json.c | 32 ++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/reference/src/taimpl/src/internal/json.c b/reference/src/taimpl/src/internal/json.c
index e05873e..0d56248 100644
--- a/reference/src/taimpl/src/internal/json.c
+++ b/reference/src/taimpl/src/internal/json.c
@@ -1143,6 +1143,33 @@ const json_key_value_t* json_key_value_find(
     return NULL;
 }
 
+/**
+ * Checks that the input consists of base64 characters only and has a possible length and padding.
+ */
+static bool b64_is_well_formed(
+        const void* in,
+        size_t in_length,
+        bool url_decode) {
+
+    const uint8_t* bytes = (const uint8_t*) in;
+    size_t data_length = in_length;
+    while (data_length > 0 && in_length - data_length < 2 && bytes[data_length - 1] == '=')
+        data_length--;
+
+    // Padding is optional only in the URL encoding.
+    if (in_length % 4 != 0 && (!url_decode || data_length != in_length || in_length % 4 == 1))
+        return false;
+
+    for (size_t i = 0; i < data_length; i++) {
+        if (!(bytes[i] >= 'A' && bytes[i] <= 'Z') && !(bytes[i] >= 'a' && bytes[i] <= 'z') &&
+                !(bytes[i] >= '0' && bytes[i] <= '9') && bytes[i] != '+' && bytes[i] != '/' &&
+                !(url_decode && (bytes[i] == '-' || bytes[i] == '_')))
+            return false;
+    }
+
+    return true;
+}
+
 bool b64_decode(
         void* out,
         size_t* out_length,
@@ -1160,6 +1187,11 @@ bool b64_decode(
         return false;
     }
 
+    if (!b64_is_well_formed(in, in_length, url_decode)) {
+        ERROR("Invalid base64 encoding");
+        return false;
+    }
+
     bool status = false;
     size_t data_length = (in_length / 4 + (in_length % 4 > 0 ? 1 : 0)) * 4;
     uint8_t* data = NULL;
-- 
2.43.0


From 6ecb28629eb724a94fb73d7ebe5742a0c0411282 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:08 +0000
Subject: [PATCH 18/85] fix: unwrap authenticated keys that have no additional
 data

---
 reference/src/taimpl/src/internal/ta.c | 10 ----------
 1 file changed, 10 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index e7955d1..647187e 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -596,11 +596,6 @@ static sa_status ta_invoke_key_unwrap(
                 return SA_STATUS_INVALID_PARAMETER;
             }
 
-            if (params[3].mem_ref == NULL) {
-                ERROR("NULL params[3].mem_ref");
-                return SA_STATUS_NULL_PARAMETER;
-            }
-
             memcpy(&parameters_aes_gcm_s, params[2].mem_ref, params[2].mem_ref_size);
             parameters_aes_gcm.iv = &parameters_aes_gcm_s.iv;
             parameters_aes_gcm.iv_length = parameters_aes_gcm_s.iv_length;
@@ -641,11 +636,6 @@ static sa_status ta_invoke_key_unwrap(
                 return SA_STATUS_INVALID_PARAMETER;
             }
 
-            if (params[3].mem_ref == NULL) {
-                ERROR("NULL params[3].mem_ref");
-                return SA_STATUS_NULL_PARAMETER;
-            }
-
             memcpy(&parameters_chacha_20_poly_1305_s, params[2].mem_ref, params[2].mem_ref_size);
             parameters_chacha20_poly1305.nonce = &parameters_chacha_20_poly_1305_s.nonce;
             parameters_chacha20_poly1305.nonce_length = parameters_chacha_20_poly_1305_s.nonce_length;
-- 
2.43.0


From 9e2ecc3be41d87eecc32d1680a2d7310e7c67c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 19/85] fix: count the blocks of a counter mode sample across
 partial blocks

---
 reference/src/taimpl/src/internal/cenc.c | 99 ++++++++----------------
 1 file changed, 32 insertions(+), 67 deletions(-)

diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index 84af6b3..a26abb0 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -47,82 +47,47 @@ static sa_status decrypt(
     // treat all 16 bytes as a counter. This code accounts for the rollover condition.
 
     // Determine if the iv will rollover. If not, decrypt the whole block.
-    size_t leading_partial_block_size =
-            *enc_byte_count % AES_BLOCK_SIZE == 0 ? 0 : AES_BLOCK_SIZE - *enc_byte_count % AES_BLOCK_SIZE;
-    size_t number_of_full_blocks = (bytes_to_process - leading_partial_block_size) / AES_BLOCK_SIZE;
     uint64_t* counter_buffer = (uint64_t*) (iv + 8);
-    size_t num_blocks_before_rollover = UINT64_MAX - be64toh(*counter_buffer) + 1;
-    bool counter_rollover =
-            num_blocks_before_rollover <= (number_of_full_blocks + (leading_partial_block_size > 0 ? 1 : 0));
-
-    for (size_t bytes_encrypted = 0; bytes_to_process > bytes_encrypted;) {
-        if (counter_rollover && cipher_algorithm == SA_CIPHER_ALGORITHM_AES_CTR) {
+    size_t block_offset = *enc_byte_count % AES_BLOCK_SIZE;
+    size_t bytes_encrypted = 0;
+    while (bytes_encrypted < bytes_to_process) {
+        size_t bytes_to_decrypt = bytes_to_process - bytes_encrypted;
+        // The number of blocks that are completed. A partially processed leading block counts once it is complete and a
+        // trailing partial block doesn't count.
+        size_t number_of_full_blocks =
+                bytes_to_decrypt / AES_BLOCK_SIZE + (block_offset + bytes_to_decrypt % AES_BLOCK_SIZE) / AES_BLOCK_SIZE;
+        // 0 if it takes 2^64 blocks.
+        uint64_t num_blocks_before_rollover = UINT64_MAX - be64toh(*counter_buffer) + 1;
+        bool counter_rollover = cipher_algorithm == SA_CIPHER_ALGORITHM_AES_CTR && num_blocks_before_rollover != 0 &&
+                                num_blocks_before_rollover <= number_of_full_blocks;
+        if (counter_rollover) {
             // This is an AES-CTR cipher and the counter portion of the IV is going to rollover, so encrypt all blocks
             // up to the rollover block and manually increment the IV.
-            if (leading_partial_block_size > 0) {
-                size_t length = leading_partial_block_size;
-                sa_status status = symmetric_context_decrypt(symmetric_context, out_bytes + bytes_encrypted,
-                        &length, in_bytes + bytes_encrypted, leading_partial_block_size);
-                if (status != SA_STATUS_OK) {
-                    ERROR("symmetric_context_decrypt failed");
-                    return status;
-                }
-
-                // Increment the IV by the number of full blocks just decrypted.
-                (*counter_buffer) = htobe64(be64toh(*counter_buffer) + 1);
-                status = symmetric_context_set_iv(symmetric_context, iv, AES_BLOCK_SIZE);
-                if (status != SA_STATUS_OK) {
-                    ERROR("symmetric_context_set_iv failed");
-                    return status;
-                }
-
-                *enc_byte_count += length;
-                bytes_encrypted += length;
-                leading_partial_block_size = 0;
-            }
-
-            size_t full_blocks_to_encrypt = MIN(num_blocks_before_rollover, number_of_full_blocks);
-            if (full_blocks_to_encrypt > 0) {
-                size_t length = full_blocks_to_encrypt * AES_BLOCK_SIZE;
-                sa_status status = symmetric_context_decrypt(symmetric_context, out_bytes + bytes_encrypted,
-                        &length, in_bytes + bytes_encrypted, full_blocks_to_encrypt * AES_BLOCK_SIZE);
-                if (status != SA_STATUS_OK) {
-                    ERROR("symmetric_context_decrypt failed");
-                    return status;
-                }
-
-                // Increment the IV by the number of full blocks just decrypted.
-                (*counter_buffer) = htobe64(be64toh(*counter_buffer) + full_blocks_to_encrypt);
-                status = symmetric_context_set_iv(symmetric_context, iv, AES_BLOCK_SIZE);
-                if (status != SA_STATUS_OK) {
-                    ERROR("symmetric_context_set_iv failed");
-                    return status;
-                }
+            number_of_full_blocks = num_blocks_before_rollover;
+            bytes_to_decrypt = number_of_full_blocks * AES_BLOCK_SIZE - block_offset;
+        }
 
-                *enc_byte_count += length;
-                bytes_encrypted += length;
-                number_of_full_blocks -= full_blocks_to_encrypt;
-                num_blocks_before_rollover = 0;
-            }
+        size_t length = bytes_to_decrypt;
+        sa_status status = symmetric_context_decrypt(symmetric_context, out_bytes + bytes_encrypted, &length,
+                in_bytes + bytes_encrypted, bytes_to_decrypt);
+        if (status != SA_STATUS_OK) {
+            ERROR("symmetric_context_decrypt failed");
+            return status;
+        }
 
-            counter_rollover = false;
-        } else {
-            // The IV counter is not going to rollover or this is an AES-CBC CIPHER. Openssl and other implementations
-            // handle this automatically.
-            size_t length = bytes_to_process - bytes_encrypted;
-            sa_status status = symmetric_context_decrypt(symmetric_context, out_bytes + bytes_encrypted,
-                    &length, in_bytes + bytes_encrypted, bytes_to_process - bytes_encrypted);
+        // Increment the IV by the number of full blocks just decrypted.
+        (*counter_buffer) = htobe64(be64toh(*counter_buffer) + number_of_full_blocks);
+        if (counter_rollover) {
+            status = symmetric_context_set_iv(symmetric_context, iv, AES_BLOCK_SIZE);
             if (status != SA_STATUS_OK) {
-                ERROR("symmetric_context_decrypt failed");
+                ERROR("symmetric_context_set_iv failed");
                 return status;
             }
-
-            uint64_t new_iv = be64toh(*counter_buffer);
-            new_iv += number_of_full_blocks + (leading_partial_block_size > 0 ? 1 : 0);
-            (*counter_buffer) = htobe64(new_iv);
-            *enc_byte_count += length;
-            bytes_encrypted = bytes_to_process; // length?
         }
+
+        *enc_byte_count += bytes_to_decrypt;
+        bytes_encrypted += bytes_to_decrypt;
+        block_offset = *enc_byte_count % AES_BLOCK_SIZE;
     }
 
     return SA_STATUS_OK;
-- 
2.43.0


From 37c9f1e05bd04a6fe0e1db5fd72109f39bfaa97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:13 +0000
Subject: [PATCH 20/85] fix: patterns of very many blocks

---
 reference/src/taimpl/src/internal/cenc.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index a26abb0..d2b1303 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -229,8 +229,7 @@ sa_status cenc_process_sample(
                     while (bytes_left >= AES_BLOCK_SIZE) {
                         // Calculate the number of bytes in the encrypted pattern stripe and decrypt them into the
                         // output buffer. Account for any remainder partial block at the end of the protected data.
-                        size_t block = MIN(sample->crypt_byte_block * AES_BLOCK_SIZE,
-                                (bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE);
+                        size_t block = MIN(sample->crypt_byte_block, bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE;
                         if (block > 0) {
                             status = decrypt(out_bytes + offset, in_bytes + offset, block, &enc_byte_count, iv,
                                     cipher_algorithm, symmetric_context);
@@ -246,8 +245,7 @@ sa_status cenc_process_sample(
                         // Calculate the number of bytes in the skipped pattern stripe and copy them into the output
                         // buffer. Account for any remainder partial block at the end of the protected data.
                         if (sample->skip_byte_block > 0) {
-                            block = MIN(sample->skip_byte_block * AES_BLOCK_SIZE,
-                                    (bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE);
+                            block = MIN(sample->skip_byte_block, bytes_left / AES_BLOCK_SIZE) * AES_BLOCK_SIZE;
                             if (block > 0) {
                                 memcpy(out_bytes + offset, in_bytes + offset, block);
                                 offset += block;
-- 
2.43.0


From c57d5414438861d40f3f6561c0c4701c83b35b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 21/85] fix: copy overlapping ranges within a protected buffer

---
 reference/src/taimpl/src/porting/svp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/porting/svp.c b/reference/src/taimpl/src/porting/svp.c
index 3d10270..460c39a 100644
--- a/reference/src/taimpl/src/porting/svp.c
+++ b/reference/src/taimpl/src/porting/svp.c
@@ -230,7 +230,7 @@ bool svp_copy(
             return false;
         }
 
-        memcpy((void*) out_position, (void*) in_position, offsets[i].length); // NOLINT
+        memmove((void*) out_position, (void*) in_position, offsets[i].length); // NOLINT
     }
     return true;
 }
-- 
2.43.0


From 13ae5846d03a57cccd6955f98f201aeb2ef3e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 22/85] fix: write every range of a list of ranges

---
 reference/src/clientimpl/src/sa_svp_buffer_write.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/reference/src/clientimpl/src/sa_svp_buffer_write.c b/reference/src/clientimpl/src/sa_svp_buffer_write.c
index 30d9738..5c4150d 100644
--- a/reference/src/clientimpl/src/sa_svp_buffer_write.c
+++ b/reference/src/clientimpl/src/sa_svp_buffer_write.c
@@ -67,9 +67,9 @@ sa_status sa_svp_buffer_write(
         }
 
         for (size_t i = 0; i < offsets_length; i++) {
-            offset_s[i].out_offset = offsets->out_offset;
-            offset_s[i].in_offset = offsets->in_offset;
-            offset_s[i].length = offsets->length;
+            offset_s[i].out_offset = offsets[i].out_offset;
+            offset_s[i].in_offset = offsets[i].in_offset;
+            offset_s[i].length = offsets[i].length;
         }
 
         CREATE_PARAM(param2, offset_s, param2_size);
-- 
2.43.0


From 7ea1cf26024a8bceb2da0213b0c6af873751db81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:26 +0000
Subject: [PATCH 23/85] fix: refuse to check a protected buffer with an unknown
 digest

---
 reference/src/taimpl/src/ta_sa_svp_buffer_check.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reference/src/taimpl/src/ta_sa_svp_buffer_check.c b/reference/src/taimpl/src/ta_sa_svp_buffer_check.c
index 94c8de8..cd4f9cc 100644
--- a/reference/src/taimpl/src/ta_sa_svp_buffer_check.c
+++ b/reference/src/taimpl/src/ta_sa_svp_buffer_check.c
@@ -44,6 +44,10 @@ sa_status ta_sa_svp_buffer_check(
     }
 
     size_t required_length = digest_length(digest_algorithm);
+    if (required_length == SIZE_MAX) {
+        ERROR("Invalid digest");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
 
     if (hash_length != required_length) {
         ERROR("Invalid hash_length");
-- 
2.43.0


From 2fa75dc504cb664bb4288bacc0417415ea7baa21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:19 +0000
Subject: [PATCH 24/85] fix: report RSA-PSS signatures that could not be
 computed

---
 reference/src/taimpl/src/internal/rsa.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/rsa.c b/reference/src/taimpl/src/internal/rsa.c
index 010b53e..c161209 100644
--- a/reference/src/taimpl/src/internal/rsa.c
+++ b/reference/src/taimpl/src/internal/rsa.c
@@ -467,7 +467,7 @@ sa_status rsa_sign_pss(
         return SA_STATUS_NULL_PARAMETER;
     }
 
-    sa_status status = SA_STATUS_OK;
+    sa_status status = SA_STATUS_INTERNAL_ERROR;
     EVP_MD_CTX* evp_md_ctx = NULL;
     EVP_PKEY* evp_pkey = NULL;
     EVP_PKEY_CTX* evp_pkey_ctx = NULL;
-- 
2.43.0


From f4e6dfecffa24b8d7b190848b70c5f5a8cdbf08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 25/85] fix: encode shared secrets with several leading zero
 bytes as MSL defines

---
 reference/src/taimpl/src/internal/netflix.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/reference/src/taimpl/src/internal/netflix.c b/reference/src/taimpl/src/internal/netflix.c
index e0f9294..d89621d 100644
--- a/reference/src/taimpl/src/internal/netflix.c
+++ b/reference/src/taimpl/src/internal/netflix.c
@@ -259,6 +259,13 @@ sa_status kdf_netflix_shared_secret(
             break;
         }
 
+        // The shared secret has the size of the modulus: leave out all but one of its leading zero bytes.
+        while (shared_secret_length > 1 && ((const uint8_t*) shared_secret)[0] == 0 &&
+                ((const uint8_t*) shared_secret)[1] == 0) {
+            shared_secret = (const uint8_t*) shared_secret + 1;
+            shared_secret_length--;
+        }
+
         const uint8_t zero = 0;
         bool pre_zero = (((const uint8_t*) shared_secret)[0] != 0);
         status = hmac_internal(key_bytes, &key_bytes_length, SA_DIGEST_ALGORITHM_SHA384, &zero, pre_zero ? 1 : 0,
-- 
2.43.0


From 6c5d101061ac0e4686c72c6cfa3be848de03ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:15 +0000
Subject: [PATCH 26/85] fix: refuse elliptic curve keys that are out of range
 or do not match their public key

---
 reference/src/taimpl/src/internal/ec.c | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ec.c b/reference/src/taimpl/src/internal/ec.c
index 16b2d19..6ef48a4 100644
--- a/reference/src/taimpl/src/internal/ec.c
+++ b/reference/src/taimpl/src/internal/ec.c
@@ -269,7 +269,9 @@ size_t ec_validate_private(
 
     size_t result = 0;
     EVP_PKEY* evp_pkey = NULL;
-#if OPENSSL_VERSION_NUMBER < 0x30000000
+#if OPENSSL_VERSION_NUMBER >= 0x30000000
+    EVP_PKEY_CTX* evp_pkey_ctx = NULL;
+#else
     EC_KEY* ec_key = NULL;
     EC_GROUP* ec_group2 = NULL;
 #endif
@@ -296,6 +298,17 @@ size_t ec_validate_private(
                 break;
             }
 
+            evp_pkey_ctx = EVP_PKEY_CTX_new(evp_pkey, NULL);
+            if (evp_pkey_ctx == NULL) {
+                ERROR("EVP_PKEY_CTX_new failed");
+                break;
+            }
+
+            // The private value is in range and belongs to the public key.
+            if (EVP_PKEY_check(evp_pkey_ctx) != 1) {
+                ERROR("EVP_PKEY_check failed");
+                break;
+            }
 #else
             ec_key = EVP_PKEY_get1_EC_KEY(evp_pkey);
             if (ec_key == NULL) {
@@ -314,6 +327,11 @@ size_t ec_validate_private(
                 ERROR("EC_GROUP_cmp failed");
                 break;
             }
+
+            if (EC_KEY_check_key(ec_key) != 1) {
+                ERROR("EC_KEY_check_key failed");
+                break;
+            }
 #endif
         }
 
@@ -321,7 +339,9 @@ size_t ec_validate_private(
     } while (false);
 
     EVP_PKEY_free(evp_pkey);
-#if OPENSSL_VERSION_NUMBER < 0x30000000
+#if OPENSSL_VERSION_NUMBER >= 0x30000000
+    EVP_PKEY_CTX_free(evp_pkey_ctx);
+#else
     EC_KEY_free(ec_key);
     EC_GROUP_free(ec_group2);
 #endif
-- 
2.43.0


From ea07f4e058b10d452a4ec8d7f5e3ebeead09fb2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:17 +0000
Subject: [PATCH 27/85] fix: refuse RSA keys whose modulus is not a whole
 number of bytes

---
 reference/src/taimpl/src/internal/rsa.c | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/rsa.c b/reference/src/taimpl/src/internal/rsa.c
index c161209..edcb275 100644
--- a/reference/src/taimpl/src/internal/rsa.c
+++ b/reference/src/taimpl/src/internal/rsa.c
@@ -40,9 +40,14 @@ size_t rsa_validate_private(
         return 0;
     }
 
-    size_t key_size = EVP_PKEY_bits(evp_pkey) / 8;
+    size_t key_bits = EVP_PKEY_bits(evp_pkey);
     EVP_PKEY_free(evp_pkey);
-    return key_size;
+    if (key_bits % 8 != 0) {
+        ERROR("Invalid modulus size");
+        return 0;
+    }
+
+    return key_bits / 8;
 }
 
 sa_status rsa_get_public(
-- 
2.43.0


From 21dfa00c09db48cedca9a5269f5943af9a74c251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 28/85] fix: refuse Type-J containers whose usage is not an
 integer

---
 reference/src/taimpl/src/internal/typej.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/reference/src/taimpl/src/internal/typej.c b/reference/src/taimpl/src/internal/typej.c
index 39680f1..282f42f 100644
--- a/reference/src/taimpl/src/internal/typej.c
+++ b/reference/src/taimpl/src/internal/typej.c
@@ -426,6 +426,12 @@ static sa_status fields_to_rights(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
+    // Anything else would be read as 0, which allows every usage.
+    if (json_value_get_type(usage_field->value) != JSON_TYPE_INT) {
+        ERROR("Invalid contentKeyUsage");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
     long long usage = json_value_as_integer(usage_field->value);
     status = key_usage_to_usage_flags(&rights->usage_flags, usage, SA_KEY_TYPE_SYMMETRIC, AES_SUBTYPE);
     if (status != SA_STATUS_OK) {
-- 
2.43.0


From 4d4274eb5b95d7a12c46dd2036ea59464b688bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 29/85] fix: refuse key containers that list an invalid TA
 identifier

---
 reference/src/taimpl/src/internal/soc_key_container.c | 7 +++++--
 reference/src/taimpl/src/internal/typej.c             | 6 +++++-
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index d4a9aee..c4ba981 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -269,8 +269,11 @@ static sa_status fields_to_rights(
         memcpy(&rights->allowed_tas[0], &ALL_MATCH, sizeof(sa_uuid));
     } else {
         for (size_t i = 0; i < payload->entitled_ta_ids_length; i++) {
-            convert_uuid(payload->entitled_ta_ids[i].ta_id, sizeof(payload->entitled_ta_ids[i].ta_id),
-                    &rights->allowed_tas[i]);
+            if (!convert_uuid(payload->entitled_ta_ids[i].ta_id, sizeof(payload->entitled_ta_ids[i].ta_id),
+                        &rights->allowed_tas[i])) {
+                ERROR("Invalid ta_id");
+                return SA_STATUS_INVALID_KEY_FORMAT;
+            }
         }
     }
 
diff --git a/reference/src/taimpl/src/internal/typej.c b/reference/src/taimpl/src/internal/typej.c
index 282f42f..964e320 100644
--- a/reference/src/taimpl/src/internal/typej.c
+++ b/reference/src/taimpl/src/internal/typej.c
@@ -521,7 +521,11 @@ static sa_status fields_to_rights(
                 return SA_STATUS_INVALID_KEY_FORMAT;
             }
 
-            convert_uuid(ta_id, ta_id_length, &rights->allowed_tas[i]);
+            if (!convert_uuid(ta_id, ta_id_length, &rights->allowed_tas[i])) {
+                memory_internal_free(entitled_ta_ids);
+                ERROR("Invalid ta_id");
+                return SA_STATUS_INVALID_KEY_FORMAT;
+            }
         }
 
         memory_internal_free(entitled_ta_ids);
-- 
2.43.0


From 3559104453201506ab330c653b155b6a7809d7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:41 +0000
Subject: [PATCH 30/85] fix: refuse SoC containers whose integers do not fit
 the fields they are read into

---
 .../taimpl/src/internal/soc_key_container.c   | 37 +++++++++++++++++--
 1 file changed, 33 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/internal/soc_key_container.c b/reference/src/taimpl/src/internal/soc_key_container.c
index c4ba981..3ed62c8 100644
--- a/reference/src/taimpl/src/internal/soc_key_container.c
+++ b/reference/src/taimpl/src/internal/soc_key_container.c
@@ -344,6 +344,21 @@ static sa_status parse_fixed_value(
     return status;
 }
 
+// Reads an integer field that has to fit into the byte that is authenticated for it.
+static sa_status parse_small_integer(
+        uint8_t* value,
+        const json_key_value_t* field) {
+
+    int64_t integer = json_value_as_integer(field->value);
+    if (integer < 0 || integer > UINT8_MAX) {
+        ERROR("Value out of range");
+        return SA_STATUS_INVALID_KEY_FORMAT;
+    }
+
+    *value = integer;
+    return SA_STATUS_OK;
+}
+
 static bool string_equals(
         const char* string,
         size_t string_length,
@@ -366,6 +381,8 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
+    sa_status status;
+
     // read container version
     const json_key_value_t* container_version_field = json_key_value_find("containerVersion", fields, fields_count);
     if (container_version_field == NULL) {
@@ -373,7 +390,11 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    payload->container_version = json_value_as_integer(container_version_field->value);
+    status = parse_small_integer(&payload->container_version, container_version_field);
+    if (status != SA_STATUS_OK) {
+        ERROR("Invalid containerVersion");
+        return status;
+    }
 
     // read the root key type
     if (payload->container_version >= 5) {
@@ -444,7 +465,7 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    sa_status status = parse_fixed_value(payload->iv, GCM_IV_LENGTH, iv_field, false);
+    status = parse_fixed_value(payload->iv, GCM_IV_LENGTH, iv_field, false);
     if (status != SA_STATUS_OK) {
         ERROR("Invalid iv");
         return status;
@@ -457,7 +478,11 @@ static sa_status parse_payload(
         return SA_STATUS_INVALID_KEY_FORMAT;
     }
 
-    payload->key_usage = json_value_as_integer(key_usage_field->value);
+    status = parse_small_integer(&payload->key_usage, key_usage_field);
+    if (status != SA_STATUS_OK) {
+        ERROR("Invalid keyUsage");
+        return status;
+    }
 
     if (payload->key_usage == KEY_ONLY) {
         // read decrypted key usage
@@ -467,7 +492,11 @@ static sa_status parse_payload(
             // For sake of compatibility,sometimes there is no field of decrypted_key_usage.
             payload->decrypted_key_usage = 0;
         } else {
-            payload->decrypted_key_usage = json_value_as_integer(decrypted_key_usage_field->value);
+            status = parse_small_integer(&payload->decrypted_key_usage, decrypted_key_usage_field);
+            if (status != SA_STATUS_OK) {
+                ERROR("Invalid decryptedKeyUsage");
+                return status;
+            }
         }
     } else {
         payload->decrypted_key_usage = 0;
-- 
2.43.0


From 912f5057b35aab0a35db02d557b97770b9749802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:53 +0000
Subject: [PATCH 31/85] fix: check the size of the SoC parameters of a key
 import

---
 reference/src/taimpl/src/internal/ta.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 647187e..5ac5b08 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -358,6 +358,11 @@ static sa_status ta_invoke_key_import(
                     return SA_STATUS_NULL_PARAMETER;
                 }
 
+                if (params[2].mem_ref_size != sizeof(sa_import_parameters_soc)) {
+                    ERROR("params[2].mem_ref_size is invalid");
+                    return SA_STATUS_INVALID_PARAMETER;
+                }
+
                 memcpy(&parameters_soc, params[2].mem_ref, params[2].mem_ref_size);
                 parameters = &parameters_soc;
             }
-- 
2.43.0


From 47350591fc7b935057f6bf73b33b478d8e742c98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 32/85] fix: lock two protected buffers in one order, so that
 concurrent calls do not deadlock

---
 .../src/taimpl/include/internal/buffer.h      | 28 ++++++++++++++
 reference/src/taimpl/src/internal/buffer.c    | 38 +++++++++++++++++++
 reference/src/taimpl/src/internal/cenc.c      | 11 ++----
 .../taimpl/src/ta_sa_crypto_cipher_process.c  | 11 ++----
 .../src/ta_sa_crypto_cipher_process_last.c    | 11 ++----
 .../src/ta_sa_process_common_encryption.c     | 14 ++-----
 .../src/taimpl/src/ta_sa_svp_buffer_copy.c    |  9 ++++-
 7 files changed, 86 insertions(+), 36 deletions(-)

diff --git a/reference/src/taimpl/include/internal/buffer.h b/reference/src/taimpl/include/internal/buffer.h
index f1239fd..df1c164 100644
--- a/reference/src/taimpl/include/internal/buffer.h
+++ b/reference/src/taimpl/include/internal/buffer.h
@@ -52,6 +52,34 @@ sa_status convert_buffer(
         const client_t* client,
         const sa_uuid* caller_uuid);
 
+/**
+ * Converts an output and an input sa_buffer as convert_buffer does. When both are SVP buffers, they are locked in the
+ * order of their handles, so that concurrent calls that use the same buffers in opposite roles do not deadlock.
+ *
+ * @param[out] out_bytes the array of output bytes.
+ * @param[out] out_svp the output svp object.
+ * @param[in] out the output buffer to convert.
+ * @param[in] out_bytes_to_process the number of bytes that will be written to the output buffer.
+ * @param[out] in_bytes the array of input bytes.
+ * @param[out] in_svp the input svp object.
+ * @param[in] in the input buffer to convert.
+ * @param[in] in_bytes_to_process the number of bytes that will be read from the input buffer.
+ * @param[in] client the client from which to retrieve the SVP store.
+ * @param[in] caller_uuid the UUID of the caller.
+ * @return the status of the validity check.
+ */
+sa_status convert_buffers(
+        uint8_t** out_bytes,
+        svp_t** out_svp,
+        const sa_buffer* out,
+        size_t out_bytes_to_process,
+        uint8_t** in_bytes,
+        svp_t** in_svp,
+        const sa_buffer* in,
+        size_t in_bytes_to_process,
+        const client_t* client,
+        const sa_uuid* caller_uuid);
+
 #ifdef __cplusplus
 }
 #endif
diff --git a/reference/src/taimpl/src/internal/buffer.c b/reference/src/taimpl/src/internal/buffer.c
index 159f755..b282761 100644
--- a/reference/src/taimpl/src/internal/buffer.c
+++ b/reference/src/taimpl/src/internal/buffer.c
@@ -119,3 +119,41 @@ sa_status convert_buffer(
 
     return SA_STATUS_OK;
 }
+
+sa_status convert_buffers(
+        uint8_t** out_bytes,
+        svp_t** out_svp,
+        const sa_buffer* out,
+        size_t out_bytes_to_process,
+        uint8_t** in_bytes,
+        svp_t** in_svp,
+        const sa_buffer* in,
+        size_t in_bytes_to_process,
+        const client_t* client,
+        const sa_uuid* caller_uuid) {
+
+    if (out == NULL) {
+        ERROR("NULL out");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
+    if (in == NULL) {
+        ERROR("NULL in");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
+    bool in_first = out->buffer_type == SA_BUFFER_TYPE_SVP && in->buffer_type == SA_BUFFER_TYPE_SVP &&
+                    in->context.svp.buffer < out->context.svp.buffer;
+
+    sa_status status = SA_STATUS_OK;
+    if (in_first)
+        status = convert_buffer(in_bytes, in_svp, in, in_bytes_to_process, client, caller_uuid);
+
+    if (status == SA_STATUS_OK)
+        status = convert_buffer(out_bytes, out_svp, out, out_bytes_to_process, client, caller_uuid);
+
+    if (status == SA_STATUS_OK && !in_first)
+        status = convert_buffer(in_bytes, in_svp, in, in_bytes_to_process, client, caller_uuid);
+
+    return status;
+}
diff --git a/reference/src/taimpl/src/internal/cenc.c b/reference/src/taimpl/src/internal/cenc.c
index d2b1303..bd9b1d3 100644
--- a/reference/src/taimpl/src/internal/cenc.c
+++ b/reference/src/taimpl/src/internal/cenc.c
@@ -142,16 +142,11 @@ sa_status cenc_process_sample(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, sample->out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, sample->in, required_length, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, sample->out, required_length, &in_bytes, &in_svp, sample->in, required_length,
+                client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
index a29ea84..625ca39 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process.c
@@ -476,16 +476,11 @@ sa_status ta_sa_crypto_cipher_process(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, in, *bytes_to_process, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, out, required_length, &in_bytes, &in_svp, in, *bytes_to_process,
+                client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
index b403755..bc8e177 100644
--- a/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
+++ b/reference/src/taimpl/src/ta_sa_crypto_cipher_process_last.c
@@ -602,16 +602,11 @@ sa_status ta_sa_crypto_cipher_process_last(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, in, *bytes_to_process, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, out, required_length, &in_bytes, &in_svp, in, *bytes_to_process,
+                client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_process_common_encryption.c b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
index 449b84f..f9c42a8 100644
--- a/reference/src/taimpl/src/ta_sa_process_common_encryption.c
+++ b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
@@ -126,7 +126,7 @@ static sa_status verify_sample(
             break;
         }
 
-        // Check out buffer length.
+        // Check the buffer lengths.
         size_t required_length = cenc_get_required_length(sample->subsample_lengths, sample->subsample_count);
         if (required_length == CENC_OVERFLOW) {
             ERROR("cenc_get_required_length integer overflow");
@@ -135,17 +135,11 @@ static sa_status verify_sample(
         }
 
         uint8_t* out_bytes = NULL;
-        status = convert_buffer(&out_bytes, &out_svp, sample->out, required_length, client, caller_uuid);
-        if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
-            break;
-        }
-
-        // Check in buffer length.
         uint8_t* in_bytes = NULL;
-        status = convert_buffer(&in_bytes, &in_svp, sample->in, required_length, client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, sample->out, required_length, &in_bytes, &in_svp, sample->in, required_length,
+                client, caller_uuid);
         if (status != SA_STATUS_OK) {
-            ERROR("convert_buffer failed");
+            ERROR("convert_buffers failed");
             break;
         }
 
diff --git a/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c b/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
index 9009171..cda4068 100644
--- a/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
+++ b/reference/src/taimpl/src/ta_sa_svp_buffer_copy.c
@@ -51,14 +51,19 @@ sa_status ta_sa_svp_buffer_copy(
             break;
         }
 
+        // Lock the buffers in the order of their handles, so that concurrent copies in opposite directions do not
+        // deadlock.
         svp_store = client_get_svp_store(client);
-        status = svp_store_acquire_exclusive(&out_svp, svp_store, out, caller_uuid);
+        bool in_first = in < out;
+        status = svp_store_acquire_exclusive(in_first ? &in_svp : &out_svp, svp_store, in_first ? in : out,
+                caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("svp_store_acquire_exclusive failed");
             break;
         }
 
-        status = svp_store_acquire_exclusive(&in_svp, svp_store, in, caller_uuid);
+        status = svp_store_acquire_exclusive(in_first ? &out_svp : &in_svp, svp_store, in_first ? out : in,
+                caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("svp_store_acquire_exclusive failed");
             break;
-- 
2.43.0


From 2206160ceafdd96a5e8521f5ab432edd6a4b8d1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:33 +0000
Subject: [PATCH 33/85] fix: hold the cipher from the verification of a sample
 to the end of its processing

---
 .../src/ta_sa_process_common_encryption.c     | 34 +++++++++++++++++--
 1 file changed, 32 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_process_common_encryption.c b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
index f9c42a8..96a49a9 100644
--- a/reference/src/taimpl/src/ta_sa_process_common_encryption.c
+++ b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
@@ -169,6 +169,36 @@ static sa_status verify_sample(
     return status;
 }
 
+static sa_status process_sample(
+        sa_sample* sample,
+        client_t* client,
+        cipher_store_t* cipher_store,
+        const sa_uuid* caller_uuid) {
+
+    // The context that was verified can have been released, and its handle used for another one, since then. Hold the
+    // context from its verification to the end of the processing.
+    cipher_t* cipher = NULL;
+    sa_status status = cipher_store_acquire_exclusive(&cipher, cipher_store, sample->context, caller_uuid);
+    if (status != SA_STATUS_OK) {
+        ERROR("cipher_store_acquire_exclusive failed");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
+    status = verify_sample(sample, client, cipher_store, caller_uuid);
+    if (status != SA_STATUS_OK) {
+        ERROR("verify_sample failed");
+    } else {
+        status = cenc_process_sample(sample, client, cipher_store, caller_uuid);
+        if (status != SA_STATUS_OK) {
+            ERROR("cenc_process_sample failed");
+        }
+    }
+
+    cipher_store_release_exclusive(cipher_store, sample->context, cipher, caller_uuid);
+
+    return status;
+}
+
 sa_status ta_sa_process_common_encryption(
         size_t samples_length,
         sa_sample* samples,
@@ -206,9 +236,9 @@ sa_status ta_sa_process_common_encryption(
         }
 
         for (size_t i = 0; status == SA_STATUS_OK && i < samples_length; i++) {
-            status = cenc_process_sample(&samples[i], client, cipher_store, caller_uuid);
+            status = process_sample(&samples[i], client, cipher_store, caller_uuid);
             if (status != SA_STATUS_OK) {
-                ERROR("cenc_process_sample failed");
+                ERROR("process_sample failed");
             }
         }
     } while (false);
-- 
2.43.0


From 457e5d2eb147362d319469d75e7d546fae9a3097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 34/85] fix: make the check for an existing session table safe
 from concurrent creation

---
 reference/src/taimpl/src/internal/client_store.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/client_store.c b/reference/src/taimpl/src/internal/client_store.c
index 39a749e..10a3c57 100644
--- a/reference/src/taimpl/src/internal/client_store.c
+++ b/reference/src/taimpl/src/internal/client_store.c
@@ -180,7 +180,7 @@ static void client_store_global_create() {
 }
 
 client_store_t* client_store_global() {
-    static client_store_t* global = NULL;
+    static _Atomic(client_store_t*) global = NULL;
 
     if (global != NULL) {
         if (global_shutdown)
-- 
2.43.0


From 4a7bc2d9654eb3cfdc4a8418e8cc333def0a91ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 35/85] fix: make the check for an existing client session safe
 from concurrent creation

---
 reference/src/clientimpl/src/internal/client.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reference/src/clientimpl/src/internal/client.c b/reference/src/clientimpl/src/internal/client.c
index 1c6e8c7..db58cc2 100644
--- a/reference/src/clientimpl/src/internal/client.c
+++ b/reference/src/clientimpl/src/internal/client.c
@@ -23,7 +23,7 @@
 #include <stdlib.h>
 #include <threads.h>
 
-static void* session = NULL;
+static _Atomic(void*) session = NULL;
 static once_flag mutex_flag = ONCE_FLAG_INIT;
 static once_flag shutdown_flag = ONCE_FLAG_INIT;
 static mtx_t mutex;
@@ -68,12 +68,15 @@ void* client_session() {
             break;
         }
 
-        sa_status status = ta_open_session(&session);
+        void* new_session = NULL;
+        sa_status status = ta_open_session(&new_session);
         if (status != SA_STATUS_OK) {
             ERROR("ta_sa_init failed: %d", status);
             break;
         }
 
+        session = new_session;
+
         // Call after the open session so that client_shutdown handler runs after the TA handler in the reference
         // implementation.
         call_once(&shutdown_flag, client_create);
-- 
2.43.0


From d2305110b73dfe4beebb1f74a969eeb06b40afac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:04 +0000
Subject: [PATCH 36/85] fix: install the OpenSSL allocator once when the first
 sessions open concurrently

---
 reference/src/taimpl/src/ta_sa_init.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_init.c b/reference/src/taimpl/src/ta_sa_init.c
index 1897023..c88b572 100644
--- a/reference/src/taimpl/src/ta_sa_init.c
+++ b/reference/src/taimpl/src/ta_sa_init.c
@@ -20,16 +20,14 @@
 #include "log.h"
 #include "porting/init.h"
 #include "ta_sa.h"
+#include <threads.h>
 
 sa_status ta_sa_init(
         ta_client* client_slot,
         const sa_uuid* caller_uuid) {
 
-    static bool openssl_allocator_inited = false;
-    if (!openssl_allocator_inited) {
-        openssl_allocator_inited = true;
-        init_openssl_allocator();
-    }
+    static once_flag openssl_allocator_flag = ONCE_FLAG_INIT;
+    call_once(&openssl_allocator_flag, init_openssl_allocator);
 
     if (client_slot == NULL) {
         ERROR("NULL client_slot");
-- 
2.43.0


From 22f0ac48c95f4ca8b7fcf21cddbfc6a4b38de547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:16:38 +0000
Subject: [PATCH 37/85] fix: load the root keys from the keystore under a lock

---
 reference/src/taimpl/src/porting/otp.c | 125 ++++++++++++++++++-------
 1 file changed, 89 insertions(+), 36 deletions(-)

diff --git a/reference/src/taimpl/src/porting/otp.c b/reference/src/taimpl/src/porting/otp.c
index 98a283d..b793486 100644
--- a/reference/src/taimpl/src/porting/otp.c
+++ b/reference/src/taimpl/src/porting/otp.c
@@ -27,14 +27,39 @@
 #include <ctype.h>
 #include <openssl/evp.h>
 #include <openssl/x509.h>
+#include <threads.h>
 #if OPENSSL_VERSION_NUMBER < 0x30000000
 #include <memory.h>
 #endif
 
 #define MAX_DEVICE_NAME_LENGTH 16
 
+// Protects the keys and the device ID that are loaded from the keystore on first use.
+static once_flag keystore_flag = ONCE_FLAG_INIT;
+static mtx_t keystore_mutex;
 static uint64_t device_id;
 
+static void keystore_mutex_create() {
+    if (mtx_init(&keystore_mutex, mtx_plain) != thrd_success)
+        ERROR("mtx_init failed");
+}
+
+static bool keystore_lock() {
+    call_once(&keystore_flag, keystore_mutex_create);
+
+    if (mtx_lock(&keystore_mutex) != thrd_success) {
+        ERROR("mtx_lock failed");
+        return false;
+    }
+
+    return true;
+}
+
+static void keystore_unlock() {
+    if (mtx_unlock(&keystore_mutex) != thrd_success)
+        ERROR("mtx_unlock failed");
+}
+
 static uint64_t convert_str_to_int(
         const char* str,
         size_t str_length) {
@@ -80,30 +105,41 @@ static bool get_root_key(
         return false;
     }
 
-    if (key_length == 0) {
-        char device_name[MAX_DEVICE_NAME_LENGTH];
-        size_t device_name_length = MAX_DEVICE_NAME_LENGTH;
-        device_name[0] = '\0';
-        if (load_pkcs12_secret_key(key, &key_length, device_name, &device_name_length) != 1) {
-            ERROR("load_pkcs12_secret_key failed");
-            return false;
+    if (!keystore_lock()) {
+        ERROR("keystore_lock failed");
+        return false;
+    }
+
+    bool status = false;
+    do {
+        if (key_length == 0) {
+            char device_name[MAX_DEVICE_NAME_LENGTH];
+            size_t device_name_length = MAX_DEVICE_NAME_LENGTH;
+            device_name[0] = '\0';
+            if (load_pkcs12_secret_key(key, &key_length, device_name, &device_name_length) != 1) {
+                ERROR("load_pkcs12_secret_key failed");
+                break;
+            }
+
+            device_id = convert_str_to_int(device_name, device_name_length);
+            if (device_id == 0) {
+                ERROR("Invalid device ID in keystore");
+                break;
+            }
         }
 
-        device_id = convert_str_to_int(device_name, device_name_length);
-        if (device_id == 0) {
-            ERROR("Invalid device ID in keystore");
-            return false;
+        if (*root_key_length < key_length) {
+            ERROR("root key too short");
+            break;
         }
-    }
 
-    if (*root_key_length < key_length) {
-        ERROR("root key too short");
-        return false;
-    }
+        memcpy(root_key, key, key_length);
+        *root_key_length = key_length;
+        status = true;
+    } while (false);
 
-    memcpy(root_key, key, key_length);
-    *root_key_length = key_length;
-    return true;
+    keystore_unlock();
+    return status;
 }
 
 static bool get_common_root_key(
@@ -122,24 +158,35 @@ static bool get_common_root_key(
         return false;
     }
 
-    if (key_length == 0) {
-        char name[MAX_NAME_SIZE];
-        size_t name_length = MAX_NAME_SIZE;
-        strcpy(name, COMMON_ROOT_NAME);
-        if (load_pkcs12_secret_key(key, &key_length, name, &name_length) != 1) {
-            ERROR("load_pkcs12_secret_key failed");
-            return false;
-        }
-    }
-
-    if (*common_root_key_length < key_length) {
-        ERROR("root key too short");
+    if (!keystore_lock()) {
+        ERROR("keystore_lock failed");
         return false;
     }
 
-    memcpy(common_root_key, key, key_length);
-    *common_root_key_length = key_length;
-    return true;
+    bool status = false;
+    do {
+        if (key_length == 0) {
+            char name[MAX_NAME_SIZE];
+            size_t name_length = MAX_NAME_SIZE;
+            strcpy(name, COMMON_ROOT_NAME);
+            if (load_pkcs12_secret_key(key, &key_length, name, &name_length) != 1) {
+                ERROR("load_pkcs12_secret_key failed");
+                break;
+            }
+        }
+
+        if (*common_root_key_length < key_length) {
+            ERROR("root key too short");
+            break;
+        }
+
+        memcpy(common_root_key, key, key_length);
+        *common_root_key_length = key_length;
+        status = true;
+    } while (false);
+
+    keystore_unlock();
+    return status;
 }
 
 static sa_status wrap_aes_cbc(
@@ -636,10 +683,16 @@ sa_status otp_device_id(uint64_t* id) {
     // If not initialized yet, attempt to set the device id and ignore the result.
     uint8_t root_key[SYM_256_KEY_SIZE];
     size_t root_key_length = SYM_256_KEY_SIZE;
-    if (device_id == 0)
-        get_root_key(root_key, &root_key_length);
+    get_root_key(root_key, &root_key_length);
+    memory_memset_unoptimizable(root_key, 0, sizeof(root_key));
+
+    if (!keystore_lock()) {
+        ERROR("keystore_lock failed");
+        return SA_STATUS_INTERNAL_ERROR;
+    }
 
     *id = device_id;
+    keystore_unlock();
     return SA_STATUS_OK;
 }
 
-- 
2.43.0


From aeedaba6e5af3c555cc5efc0c38528e4c06bffe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 38/85] fix: read the command parameter only if it is a memory
 reference

---
 reference/src/taimpl/src/internal/ta.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 5ac5b08..211d859 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -1935,6 +1935,13 @@ sa_status ta_invoke_command_handler(
             break;
         }
 
+        // Only a memory reference can be dereferenced.
+        if (CHECK_NOT_TA_PARAM_IN(param_types[0]) && CHECK_NOT_TA_PARAM_INOUT(param_types[0])) {
+            ERROR("Invalid param[0] type");
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
+        }
+
         // Cache the command parameter to prevent Time-of-use Time-of-check errors.
         command_parameter = memory_secure_alloc(params[0].mem_ref_size);
         if (command_parameter == NULL) {
-- 
2.43.0


From f77c7c4e3e35d2c5819aa6818f0eb1fc625830a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 39/85] fix: refuse key derivation parameters of the wrong size

---
 reference/src/taimpl/src/internal/ta.c | 30 ++++++++++++++++++++++++++
 1 file changed, 30 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 211d859..7e54d31 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -769,6 +769,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_root_key_ladder_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_root_key_ladder_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_root_key_ladder.c1 = parameters_root_key_ladder_s.c1;
             parameters_root_key_ladder.c1_length = AES_BLOCK_SIZE;
@@ -787,6 +792,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_hkdf_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             // params[2].mem_ref and params[3].mem_ref can be null.
             memcpy(&parameters_hkdf_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_hkdf.key_length = parameters_hkdf_s.key_length;
@@ -805,6 +815,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_concat_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             // params[2].mem_ref can be null.
             memcpy(&parameters_concat_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_concat.key_length = parameters_concat_s.key_length;
@@ -821,6 +836,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_ansi_x963_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             // params[2].mem_ref can be null.
             memcpy(&parameters_ansi_x963_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_ansi_x963.key_length = parameters_ansi_x963_s.key_length;
@@ -837,6 +857,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_cmac_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             // params[2].mem_ref can be null.
             memcpy(&parameters_cmac_s, params[1].mem_ref, params[1].mem_ref_size);
             parameters_cmac.key_length = parameters_cmac_s.key_length;
@@ -853,6 +878,11 @@ static sa_status ta_invoke_key_derive(
                 return SA_STATUS_NULL_PARAMETER;
             }
 
+            if (params[1].mem_ref_size != sizeof(sa_kdf_parameters_netflix_s)) {
+                ERROR("params[1].mem_ref_size is invalid");
+                return SA_STATUS_INVALID_PARAMETER;
+            }
+
             memcpy(&parameters_netflix, params[1].mem_ref, params[1].mem_ref_size);
             algorithm_parameters = &parameters_netflix;
             break;
-- 
2.43.0


From af985564a56af35140fefd277b3818f83f665e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 40/85] fix: refuse a key header request without memory for the
 header

---
 reference/src/taimpl/src/internal/ta.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 7e54d31..8d25d4f 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -996,6 +996,11 @@ static sa_status ta_invoke_key_header(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
+    if (params[1].mem_ref == NULL) {
+        ERROR("NULL params[1].mem_ref");
+        return SA_STATUS_NULL_PARAMETER;
+    }
+
     sa_header header;
     memory_memset_unoptimizable(&header, 0, sizeof(sa_header));
     sa_status status = ta_sa_key_header(&header, key_header->key, context->client, uuid);
-- 
2.43.0


From 73919aa937210aaa24a94d55218b8e75e3fdbfbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 41/85] fix: use the trusted copy of the EC ElGamal unwrap
 parameters

---
 reference/src/taimpl/src/internal/ta.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 8d25d4f..e9e2264 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -663,7 +663,7 @@ static sa_status ta_invoke_key_unwrap(
             }
 
             memcpy(&parameters_ec_elgamal, params[2].mem_ref, params[2].mem_ref_size);
-            algorithm_parameters = params[2].mem_ref;
+            algorithm_parameters = &parameters_ec_elgamal;
             break;
 
         case SA_CIPHER_ALGORITHM_RSA_OAEP:
-- 
2.43.0


From 14ee7a4d9fa04f1057f4572070880bcdf56b2c5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 42/85] fix: check the buffers of a cipher process request
 before using them

---
 reference/src/taimpl/src/internal/ta.c | 28 +++++++++++++++++++++-----
 1 file changed, 23 insertions(+), 5 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index e9e2264..4ce2af8 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -1261,7 +1261,8 @@ static sa_status ta_invoke_crypto_cipher_process(
 
     if (CHECK_NOT_TA_PARAM_INOUT(param_types[0]) ||
             params[0].mem_ref_size != sizeof(sa_crypto_cipher_process_s) ||
-            (CHECK_TA_PARAM_INOUT(param_types[1]) && CHECK_NOT_TA_PARAM_NULL(param_types[1], params[1])) ||
+            (CHECK_NOT_TA_PARAM_IN(param_types[1]) && CHECK_NOT_TA_PARAM_OUT(param_types[1]) &&
+                    CHECK_NOT_TA_PARAM_NULL(param_types[1], params[1])) ||
             CHECK_NOT_TA_PARAM_IN(param_types[2]) ||
             (CHECK_NOT_TA_PARAM_INOUT(param_types[3]) &&
                     CHECK_NOT_TA_PARAM_NULL(param_types[3], params[3]))) {
@@ -1282,12 +1283,25 @@ static sa_status ta_invoke_crypto_cipher_process(
 
     sa_buffer out;
     out.buffer_type = crypto_cipher_process->out_buffer_type;
-    if (crypto_cipher_process->out_buffer_type == SA_BUFFER_TYPE_CLEAR) {
+    if (params[1].mem_ref == NULL) {
+        // A NULL output is a query for the required length.
+        memory_memset_unoptimizable(&out.context, 0, sizeof(out.context));
+    } else if (crypto_cipher_process->out_buffer_type == SA_BUFFER_TYPE_CLEAR) {
+        if (CHECK_NOT_TA_PARAM_OUT(param_types[1])) {
+            ERROR("Invalid param type");
+            return SA_STATUS_INVALID_PARAMETER;
+        }
+
         out.context.clear.buffer = params[1].mem_ref;
         out.context.clear.length = params[1].mem_ref_size;
         out.context.clear.offset = crypto_cipher_process->out_offset;
     } else {
-        out.context.svp.buffer = *(sa_svp_buffer*) params[1].mem_ref;
+        if (CHECK_NOT_TA_PARAM_IN(param_types[1]) || params[1].mem_ref_size != sizeof(sa_svp_buffer)) {
+            ERROR("Invalid param type or params[1].mem_ref_size");
+            return SA_STATUS_INVALID_PARAMETER;
+        }
+
+        memcpy(&out.context.svp.buffer, params[1].mem_ref, sizeof(sa_svp_buffer));
         out.context.svp.offset = crypto_cipher_process->out_offset;
     }
 
@@ -1298,8 +1312,12 @@ static sa_status ta_invoke_crypto_cipher_process(
         in.context.clear.length = params[2].mem_ref_size;
         in.context.clear.offset = crypto_cipher_process->in_offset;
     } else {
-        in.buffer_type = crypto_cipher_process->in_buffer_type;
-        in.context.svp.buffer = *(sa_svp_buffer*) params[2].mem_ref;
+        if (params[2].mem_ref_size != sizeof(sa_svp_buffer)) {
+            ERROR("Invalid params[2].mem_ref_size");
+            return SA_STATUS_INVALID_PARAMETER;
+        }
+
+        memcpy(&in.context.svp.buffer, params[2].mem_ref, sizeof(sa_svp_buffer));
         in.context.svp.offset = crypto_cipher_process->in_offset;
     }
 
-- 
2.43.0


From 097aacb53b156e22522766365cbd1630c401cb33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 43/85] fix: check the size of the buffer handle of a key check
 request

---
 reference/src/taimpl/src/internal/ta.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 4ce2af8..8e6b8dc 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -1804,8 +1804,12 @@ static sa_status ta_invoke_svp_key_check(
         in.context.clear.length = params[1].mem_ref_size;
         in.context.clear.offset = svp_key_check->in_offset;
     } else {
-        in.buffer_type = svp_key_check->in_buffer_type;
-        in.context.svp.buffer = *(sa_svp_buffer*) params[1].mem_ref;
+        if (params[1].mem_ref_size != sizeof(sa_svp_buffer)) {
+            ERROR("Invalid params[1].mem_ref_size");
+            return SA_STATUS_INVALID_PARAMETER;
+        }
+
+        memcpy(&in.context.svp.buffer, params[1].mem_ref, sizeof(sa_svp_buffer));
         in.context.svp.offset = svp_key_check->in_offset;
     }
 
-- 
2.43.0


From 6f986b90ed0864e7b26b676376753f562a92314e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 44/85] fix: compare the subsample count with the subsamples
 given without overflow

---
 reference/src/taimpl/src/internal/ta.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 8e6b8dc..2098731 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -1891,7 +1891,8 @@ static sa_status ta_invoke_process_common_encryption(
     sa_sample sample;
     do {
         sample.subsample_count = process_common_encryption->subsample_count;
-        if (params[1].mem_ref_size != sizeof(sa_subsample_length) * sample.subsample_count) {
+        if (params[1].mem_ref_size % sizeof(sa_subsample_length_s) != 0 ||
+                params[1].mem_ref_size / sizeof(sa_subsample_length_s) != sample.subsample_count) {
             ERROR("params[1].mem_ref_size is invalid");
             return SA_STATUS_INVALID_PARAMETER;
         }
-- 
2.43.0


From 1028372ca947b1a589255c94701942c18ef12451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:38 +0000
Subject: [PATCH 45/85] fix: check the buffers of a common encryption request
 before using them

---
 reference/src/taimpl/src/internal/ta.c | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 2098731..4663a71 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -1921,11 +1921,23 @@ static sa_status ta_invoke_process_common_encryption(
         sample.out = &out;
         out.buffer_type = process_common_encryption->out_buffer_type;
         if (process_common_encryption->out_buffer_type == SA_BUFFER_TYPE_CLEAR) {
+            if (CHECK_NOT_TA_PARAM_OUT(param_types[2])) {
+                ERROR("Invalid param type");
+                status = SA_STATUS_INVALID_PARAMETER;
+                break;
+            }
+
             out.context.clear.buffer = params[2].mem_ref;
             out.context.clear.length = params[2].mem_ref_size;
             out.context.clear.offset = process_common_encryption->out_offset;
         } else {
-            out.context.svp.buffer = *(sa_svp_buffer*) params[2].mem_ref;
+            if (params[2].mem_ref_size != sizeof(sa_svp_buffer)) {
+                ERROR("Invalid params[2].mem_ref_size");
+                status = SA_STATUS_INVALID_PARAMETER;
+                break;
+            }
+
+            memcpy(&out.context.svp.buffer, params[2].mem_ref, sizeof(sa_svp_buffer));
             out.context.svp.offset = process_common_encryption->out_offset;
         }
 
@@ -1937,8 +1949,13 @@ static sa_status ta_invoke_process_common_encryption(
             in.context.clear.length = params[3].mem_ref_size;
             in.context.clear.offset = process_common_encryption->in_offset;
         } else {
-            in.buffer_type = process_common_encryption->in_buffer_type;
-            in.context.svp.buffer = *(sa_svp_buffer*) params[3].mem_ref;
+            if (params[3].mem_ref_size != sizeof(sa_svp_buffer)) {
+                ERROR("Invalid params[3].mem_ref_size");
+                status = SA_STATUS_INVALID_PARAMETER;
+                break;
+            }
+
+            memcpy(&in.context.svp.buffer, params[3].mem_ref, sizeof(sa_svp_buffer));
             in.context.svp.offset = process_common_encryption->in_offset;
         }
 
-- 
2.43.0


From 49a2b1f1fd8c5de3ac1fd8873dffeed09c3961bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 46/85] fix: check the parameters of a provisioning request
 before using them

---
 reference/src/taimpl/src/internal/ta.c | 80 ++++++++++++++++++++------
 1 file changed, 61 insertions(+), 19 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 4663a71..e5dbbfd 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -410,12 +410,36 @@ static sa_status ta_invoke_key_provision(
             return SA_STATUS_NULL_PARAMETER;
         }
 
+        if (params[2].mem_ref_size != sizeof(sa_import_parameters_soc)) {
+            ERROR("params[2].mem_ref_size is invalid");
+            return SA_STATUS_INVALID_PARAMETER;
+        }
+
          memcpy(&parameters_soc, params[2].mem_ref, params[2].mem_ref_size);
          parameters = &parameters_soc;
      }
-    
-     sa_key_type_ta ta_key_type = *(int*)(params[3].mem_ref);
 
+     if (key_provision_ta->key_format != SA_KEY_FORMAT_PROVISION_TA) {
+         ERROR("Invalid key_format");
+         return SA_STATUS_INVALID_PARAMETER;
+     }
+
+     if (params[3].mem_ref == NULL) {
+         ERROR("NULL params[3].mem_ref");
+         return SA_STATUS_NULL_PARAMETER;
+     }
+
+     sa_key_type_ta ta_key_type;
+     if (params[3].mem_ref_size != sizeof(ta_key_type)) {
+         ERROR("params[3].mem_ref_size is invalid");
+         return SA_STATUS_INVALID_PARAMETER;
+     }
+
+     memcpy(&ta_key_type, params[3].mem_ref, sizeof(ta_key_type));
+
+     WidevineOemProvisioning widevine_oem;
+     PlayReadyProvisioning playready;
+     NetflixProvisioning netflix;
      void   *in = NULL;
      size_t in_length = 0;
      void   *in_hmac = NULL;
@@ -424,61 +448,79 @@ static sa_status ta_invoke_key_provision(
      size_t in_wrapping_key_length = 0;
      switch(ta_key_type) {
          case WIDEVINE_OEM_PROVISIONING:
-	      in = ((WidevineOemProvisioning*)params[1].mem_ref)->oemDevicePrivateKey;
-	      in_length = ((WidevineOemProvisioning*)params[1].mem_ref)->oemDevicePrivateKeyLength;
+	      if (params[1].mem_ref_size != sizeof(widevine_oem)) {
+	          ERROR("params[1].mem_ref_size is invalid");
+	          return SA_STATUS_INVALID_PARAMETER;
+	      }
+
+	      memcpy(&widevine_oem, params[1].mem_ref, sizeof(widevine_oem));
+	      in = widevine_oem.oemDevicePrivateKey;
+	      in_length = widevine_oem.oemDevicePrivateKeyLength;
 	      
 	      /*TODO SoC Vendor:here just provide an example to pass certificate data,
                 how to use it is all up to SOC vendor.
                */
 	      {
 	           void *oemDeviceCertificate =
-                      ((WidevineOemProvisioning*)params[1].mem_ref)->oemDeviceCertificate;
+                      widevine_oem.oemDeviceCertificate;
 	           size_t oemDeviceCertificateLength =
-                      ((WidevineOemProvisioning*)params[1].mem_ref)->oemDeviceCertificateLength;
+                      widevine_oem.oemDeviceCertificateLength;
 	           INFO("oemDeviceCertificate:0x%x, oemDeviceCertificateLength:%d",
                       oemDeviceCertificate, oemDeviceCertificateLength);
 	      }
 	      break;
 	  case PLAYREADY_MODEL_PROVISIONING:
-	       in = ((PlayReadyProvisioning*)params[1].mem_ref)->privateKey;
-	       in_length = ((PlayReadyProvisioning*)params[1].mem_ref)->privateKeyLength;
+	      if (params[1].mem_ref_size != sizeof(playready)) {
+	          ERROR("params[1].mem_ref_size is invalid");
+	          return SA_STATUS_INVALID_PARAMETER;
+	      }
+
+	      memcpy(&playready, params[1].mem_ref, sizeof(playready));
+	       in = playready.privateKey;
+	       in_length = playready.privateKeyLength;
 
 	       /*TODO SoC Vendor:here just provide an example to pass certificate data
                  and model type. How to use them is all up to SOC vendor.
                 */
 	       {
                    void *modelCertificate =
-	              ((PlayReadyProvisioning*)params[1].mem_ref)->modelCertificate;
+	              playready.modelCertificate;
 	              size_t modelCertificateLength =
-                      ((PlayReadyProvisioning*)params[1].mem_ref)->modelCertificateLength;
+                      playready.modelCertificateLength;
 		   INFO("modelCertificate:0x%x, modelCertificateLength:%d",
                       modelCertificate, modelCertificateLength);
 		   INFO("Model type : %s",
-                      (((PlayReadyProvisioning*)params[1].mem_ref)->modelType == PLAYREADY_MODEL_2K)?
+                      (playready.modelType == PLAYREADY_MODEL_2K)?
 		      "model 2000" :
-                      ((((PlayReadyProvisioning*)params[1].mem_ref)->modelType == PLAYREADY_MODEL_3K)?
+                      ((playready.modelType == PLAYREADY_MODEL_3K)?
                       "model 3000":
                       "No such model type"));
 	       }
                break;
 	  case NETFLIX_PROVISIONING:
-	       in_hmac = ((NetflixProvisioning*)params[1].mem_ref)->hmacKey;
-	       in_hmac_length = ((NetflixProvisioning*)params[1].mem_ref)->hmacKeyLength;
-	       in_wrapping_key = ((NetflixProvisioning*)params[1].mem_ref)->wrappingKey;
-	       in_wrapping_key_length = ((NetflixProvisioning*)params[1].mem_ref)->wrappingKeyLength;
+	      if (params[1].mem_ref_size != sizeof(netflix)) {
+	          ERROR("params[1].mem_ref_size is invalid");
+	          return SA_STATUS_INVALID_PARAMETER;
+	      }
+
+	      memcpy(&netflix, params[1].mem_ref, sizeof(netflix));
+	       in_hmac = netflix.hmacKey;
+	       in_hmac_length = netflix.hmacKeyLength;
+	       in_wrapping_key = netflix.wrappingKey;
+	       in_wrapping_key_length = netflix.wrappingKeyLength;
 
 	       /*TODO SoC Vendor:here just provide an example to pass ESN data,
                  how to use it is all up to SOC vendor.
                 */
               {
-	         void *esn = ((NetflixProvisioning*)params[1].mem_ref)->esnContainer;
-	         size_t esnLength = ((NetflixProvisioning*)params[1].mem_ref)->esnContainerLength;
+	         void *esn = netflix.esnContainer;
+	         size_t esnLength = netflix.esnContainerLength;
 	         INFO("esn:0x%x, esnLength:%d", esn, esnLength);
 	      }
               break;
 	  default:
 	      ERROR("unknown key provisioning type");
-              break;
+	      return SA_STATUS_INVALID_PARAMETER;
      }
      INFO("ta_key_type: %d", ta_key_type);
      INFO("in_length: %d", in_length);
-- 
2.43.0


From 7ed051883d390c6da5f088ed08718bc3e2de2586 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:03 +0000
Subject: [PATCH 47/85] fix: closing a session that is not there does nothing

---
 reference/src/taimpl/src/internal/ta.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index e5dbbfd..19d03ae 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -2291,6 +2291,10 @@ sa_status ta_open_session_handler(void** session_context) {
 void ta_close_session_handler(void* session_context) {
 
     ta_session_context* context = session_context;
+    if (context == NULL) {
+        ERROR("NULL session_context");
+        return;
+    }
 
     do {
         sa_uuid uuid;
-- 
2.43.0


From bac05a68a9e70191d8609e62aecff54656e7f705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:14 +0000
Subject: [PATCH 48/85] fix: provisioning without memory for its request
 reports the failure

---
 reference/src/clientimpl/src/sa_key_provision.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/clientimpl/src/sa_key_provision.c b/reference/src/clientimpl/src/sa_key_provision.c
index 74f808e..ba3d10d 100644
--- a/reference/src/clientimpl/src/sa_key_provision.c
+++ b/reference/src/clientimpl/src/sa_key_provision.c
@@ -99,7 +99,7 @@ sa_status sa_key_provision_ta (
     } while (false);
 
     // ATTENTION: If you dont release the key, you will get resource leaked.
-    if (INVALID_HANDLE != key_provision_ta->key) {
+    if (NULL != key_provision_ta && INVALID_HANDLE != key_provision_ta->key) {
         sa_key_release(key_provision_ta->key);
     }
     RELEASE_COMMAND(key_provision_ta);
-- 
2.43.0


From ae9bdcf23477e36be0cce4958661c7e34e658e20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:01 +0000
Subject: [PATCH 49/85] fix: refuse to generate RSA keys of invalid sizes
 before generating them

---
 reference/src/taimpl/src/ta_sa_key_generate.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/taimpl/src/ta_sa_key_generate.c b/reference/src/taimpl/src/ta_sa_key_generate.c
index f66e830..7c4535f 100644
--- a/reference/src/taimpl/src/ta_sa_key_generate.c
+++ b/reference/src/taimpl/src/ta_sa_key_generate.c
@@ -183,6 +183,11 @@ static sa_status ta_sa_key_generate_rsa(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    if (!key_type_supports_rsa(SA_KEY_TYPE_RSA, parameters->modulus_length)) {
+        ERROR("Invalid modulus_length");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     sa_status status;
     stored_key_t* stored_key = NULL;
     do {
-- 
2.43.0


From 781740f49b5b5c712b4dc9675cb75c22bc1f3fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:45 +0000
Subject: [PATCH 50/85] fix: import keys from a trusted copy of the key data

---
 reference/src/taimpl/src/internal/ta.c | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/reference/src/taimpl/src/internal/ta.c b/reference/src/taimpl/src/internal/ta.c
index 19d03ae..6e7a0c6 100644
--- a/reference/src/taimpl/src/internal/ta.c
+++ b/reference/src/taimpl/src/internal/ta.c
@@ -373,8 +373,20 @@ static sa_status ta_invoke_key_import(
             parameters = NULL;
     }
 
-    return ta_sa_key_import(&key_import->key, key_import->key_format, params[1].mem_ref, params[1].mem_ref_size,
-            parameters, context->client, uuid);
+    // Cache the key data to prevent Time-of-use Time-of-check errors.
+    size_t in_length = params[1].mem_ref_size;
+    void* in = memory_secure_alloc(in_length);
+    if (in == NULL) {
+        ERROR("memory_secure_alloc failed");
+        return SA_STATUS_INTERNAL_ERROR;
+    }
+
+    memcpy(in, params[1].mem_ref, in_length);
+    sa_status status = ta_sa_key_import(&key_import->key, key_import->key_format, in, in_length, parameters,
+            context->client, uuid);
+    memory_memset_unoptimizable(in, 0, in_length);
+    memory_secure_free(in);
+    return status;
 }
 
 static sa_status ta_invoke_key_provision(
-- 
2.43.0


From 2419abc37079c95d23d9713659c264f50b4c57a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:45 +0000
Subject: [PATCH 51/85] fix: check all the samples of a request that share
 buffers before processing the first

---
 .../src/ta_sa_process_common_encryption.c     | 47 +++++++++++++++++--
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/reference/src/taimpl/src/ta_sa_process_common_encryption.c b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
index 96a49a9..5c983ee 100644
--- a/reference/src/taimpl/src/ta_sa_process_common_encryption.c
+++ b/reference/src/taimpl/src/ta_sa_process_common_encryption.c
@@ -20,9 +20,38 @@
 #include "cenc.h"
 #include "common.h"
 #include "log.h"
+#include "porting/overflow.h"
 #include "rights.h"
 
+// A sample that uses the buffers of samples processed before it by the same call starts where they end. Adds the lengths
+// of the samples from preceding_samples up to sample to the lengths sample requires. preceding_samples is sample if all
+// the samples before it have been processed.
+static bool add_preceding_lengths(
+        size_t* out_required_length,
+        size_t* in_required_length,
+        const sa_sample* preceding_samples,
+        const sa_sample* sample) {
+
+    for (const sa_sample* preceding = preceding_samples; preceding != sample; preceding++) {
+        if (preceding->out != sample->out && preceding->in != sample->in)
+            continue;
+
+        size_t length = cenc_get_required_length(preceding->subsample_lengths, preceding->subsample_count);
+        if (length == CENC_OVERFLOW)
+            return false;
+
+        if (preceding->out == sample->out && add_overflow(*out_required_length, length, out_required_length))
+            return false;
+
+        if (preceding->in == sample->in && add_overflow(*in_required_length, length, in_required_length))
+            return false;
+    }
+
+    return true;
+}
+
 static sa_status verify_sample(
+        const sa_sample* preceding_samples,
         sa_sample* sample,
         client_t* client,
         cipher_store_t* cipher_store,
@@ -134,16 +163,26 @@ static sa_status verify_sample(
             break;
         }
 
+        size_t out_required_length = required_length;
+        size_t in_required_length = required_length;
+        if (!add_preceding_lengths(&out_required_length, &in_required_length, preceding_samples, sample)) {
+            ERROR("add_preceding_lengths integer overflow");
+            status = SA_STATUS_INVALID_PARAMETER;
+            break;
+        }
+
         uint8_t* out_bytes = NULL;
         uint8_t* in_bytes = NULL;
-        status = convert_buffers(&out_bytes, &out_svp, sample->out, required_length, &in_bytes, &in_svp, sample->in, required_length,
-                client, caller_uuid);
+        status = convert_buffers(&out_bytes, &out_svp, sample->out, out_required_length, &in_bytes, &in_svp, sample->in,
+                in_required_length, client, caller_uuid);
         if (status != SA_STATUS_OK) {
             ERROR("convert_buffers failed");
             break;
         }
 
         // Check if the buffers overlap.
+        out_bytes += out_required_length - required_length;
+        in_bytes += in_required_length - required_length;
         uint8_t* out_bytes_end = out_bytes + required_length;
         uint8_t* in_bytes_end = in_bytes + required_length;
         if ((out_bytes >= in_bytes && out_bytes <= in_bytes_end) ||
@@ -184,7 +223,7 @@ static sa_status process_sample(
         return SA_STATUS_INVALID_PARAMETER;
     }
 
-    status = verify_sample(sample, client, cipher_store, caller_uuid);
+    status = verify_sample(sample, sample, client, cipher_store, caller_uuid);
     if (status != SA_STATUS_OK) {
         ERROR("verify_sample failed");
     } else {
@@ -229,7 +268,7 @@ sa_status ta_sa_process_common_encryption(
         cipher_store = client_get_cipher_store(client);
 
         for (size_t i = 0; status == SA_STATUS_OK && i < samples_length; i++) {
-            status = verify_sample(&samples[i], client, cipher_store, caller_uuid);
+            status = verify_sample(samples, &samples[i], client, cipher_store, caller_uuid);
             if (status != SA_STATUS_OK) {
                 ERROR("verify_sample failed");
             }
-- 
2.43.0


From 272a4bf33d82333493863d3ed6334740ea4aa227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:48 +0000
Subject: [PATCH 52/85] fix: refuse to process more data than the crypto
 library takes in one call

---
 reference/src/taimpl/src/internal/symmetric.c | 21 +++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/reference/src/taimpl/src/internal/symmetric.c b/reference/src/taimpl/src/internal/symmetric.c
index 5524768..bbc0973 100644
--- a/reference/src/taimpl/src/internal/symmetric.c
+++ b/reference/src/taimpl/src/internal/symmetric.c
@@ -24,6 +24,7 @@
 #include "porting/rand.h"
 #include "sa_types.h"
 #include "stored_key_internal.h"
+#include <limits.h>
 #include <memory.h>
 #include <openssl/evp.h>
 
@@ -1273,6 +1274,11 @@ sa_status symmetric_context_encrypt(
         }
     }
 
+    if (in_length > INT_MAX) {
+        ERROR("Invalid in_length");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     int length = (int) *out_length;
     if (EVP_EncryptUpdate(context->evp_cipher, out, &length, in, (int) in_length) != 1) {
         ERROR("EVP_EncryptUpdate failed");
@@ -1328,6 +1334,11 @@ sa_status symmetric_context_encrypt_last(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    if (in_length > INT_MAX) {
+        ERROR("Invalid in_length");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     int update_length = (int) in_length;
     if (EVP_EncryptUpdate(context->evp_cipher, out, &update_length, in, (int) in_length) != 1) {
         ERROR("EVP_EncryptUpdate failed");
@@ -1381,6 +1392,11 @@ sa_status symmetric_context_decrypt(
         }
     }
 
+    if (in_length > INT_MAX) {
+        ERROR("Invalid in_length");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     int length = (int) *out_length;
     if (EVP_DecryptUpdate(context->evp_cipher, out, &length, in, (int) in_length) != 1) {
         ERROR("EVP_DecryptUpdate failed");
@@ -1434,6 +1450,11 @@ sa_status symmetric_context_decrypt_last(
         return SA_STATUS_NULL_PARAMETER;
     }
 
+    if (in_length > INT_MAX) {
+        ERROR("Invalid in_length");
+        return SA_STATUS_INVALID_PARAMETER;
+    }
+
     int update_length = (int) in_length;
     if (EVP_DecryptUpdate(context->evp_cipher, out, &update_length, in, (int) in_length) != 1) {
         ERROR("EVP_DecryptUpdate failed");
-- 
2.43.0


From 4227564aa1038eae15a62200a1b64083d3d41da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:48 +0000
Subject: [PATCH 53/85] fix: refuse associated data longer than the crypto
 library takes in one call

---
 reference/src/taimpl/src/internal/symmetric.c | 20 +++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/reference/src/taimpl/src/internal/symmetric.c b/reference/src/taimpl/src/internal/symmetric.c
index bbc0973..7baaac2 100644
--- a/reference/src/taimpl/src/internal/symmetric.c
+++ b/reference/src/taimpl/src/internal/symmetric.c
@@ -455,6 +455,11 @@ symmetric_context_t* symmetric_create_aes_gcm_encrypt_context(
 
         // set aad
         if (aad != NULL) {
+            if (aad_length > INT_MAX) {
+                ERROR("Invalid aad_length");
+                break;
+            }
+
             int out_length = 0;
             if (EVP_EncryptUpdate(context->evp_cipher, NULL, &out_length, aad, (int) aad_length) != 1) {
                 ERROR("EVP_EncryptUpdate failed");
@@ -662,6 +667,11 @@ symmetric_context_t* symmetric_create_chacha20_poly1305_encrypt_context(
 
         // set aad
         if (aad != NULL) {
+            if (aad_length > INT_MAX) {
+                ERROR("Invalid aad_length");
+                break;
+            }
+
             int out_length = 0;
             if (EVP_EncryptUpdate(context->evp_cipher, NULL, &out_length, aad, (int) aad_length) != 1) {
                 ERROR("EVP_EncryptUpdate failed");
@@ -1011,6 +1021,11 @@ symmetric_context_t* symmetric_create_aes_gcm_decrypt_context(
 
         // set aad
         if (aad != NULL) {
+            if (aad_length > INT_MAX) {
+                ERROR("Invalid aad_length");
+                break;
+            }
+
             int out_length = 0;
             if (EVP_DecryptUpdate(context->evp_cipher, NULL, &out_length, aad, (int) aad_length) != 1) {
                 ERROR("EVP_DecryptUpdate failed");
@@ -1218,6 +1233,11 @@ symmetric_context_t* symmetric_create_chacha20_poly1305_decrypt_context(
 
         // set aad
         if (aad != NULL) {
+            if (aad_length > INT_MAX) {
+                ERROR("Invalid aad_length");
+                break;
+            }
+
             int out_length = 0;
             if (EVP_DecryptUpdate(context->evp_cipher, NULL, &out_length, aad, (int) aad_length) != 1) {
                 ERROR("EVP_DecryptUpdate failed");
-- 
2.43.0


From d0f69b8125b0d5777ede58f90f5ee909ab812aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:30 +0000
Subject: [PATCH 54/85] fix: keep all the buffered input of a provider cipher

---
 reference/src/client/src/sa_provider_cipher.c | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index 746bf0a..295735b 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -153,6 +153,7 @@ static int cipher_init(
     sa_provider_cipher_context* cipher_context = cctx;
     do {
         cipher_context->mode = mode;
+        cipher_context->remaining_block_length = 0;
         if (cipher_context->cipher_context != INVALID_HANDLE) {
             sa_crypto_cipher_release(cipher_context->cipher_context);
             cipher_context->cipher_context = INVALID_HANDLE;
@@ -357,7 +358,7 @@ static int cipher_cipher(
                 // If inl is not a multiple of block size, store the leftover data in remaining_block. Then, the
                 // next time this function is called, start with the remaining data and add data from in to it. Then
                 // process the remainder of in.
-                while (total_length >= cipher_context->block_size) {
+                while (status == SA_STATUS_OK && total_length >= cipher_context->block_size) {
                     if (cipher_context->remaining_block_length > 0) {
                         // Start with remaining_block and add in to it.
                         memcpy(cipher_context->remaining_block + cipher_context->remaining_block_length, in + position,
@@ -387,10 +388,10 @@ static int cipher_cipher(
                 }
 
                 // Store any leftover data in remaining_block for processing on the next call to update.
-                if (position < inl) {
-                    cipher_context->remaining_block_length = inl - position;
-                    memcpy(cipher_context->remaining_block, in + position,
-                            cipher_context->remaining_block_length);
+                if (status == SA_STATUS_OK && position < inl) {
+                    memcpy(cipher_context->remaining_block + cipher_context->remaining_block_length, in + position,
+                            inl - position);
+                    cipher_context->remaining_block_length += inl - position;
                 }
             } else if (cipher_context->cipher_algorithm != SA_CIPHER_ALGORITHM_AES_CBC &&
                        cipher_context->cipher_algorithm != SA_CIPHER_ALGORITHM_AES_ECB) {
-- 
2.43.0


From 9ecf4a7a5703b313356c66e3a0add44181aac0b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 55/85] fix: honour the tag length in the provider's
 authenticated ciphers

---
 reference/src/client/src/sa_provider_cipher.c | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index 295735b..dfc197c 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -47,6 +47,7 @@ typedef struct {
     bool padded;
     bool aead;
     uint8_t tag[AES_BLOCK_SIZE];
+    size_t tag_length;
     bool delete_key;
     uint8_t remaining_block[AES_BLOCK_SIZE];
     size_t remaining_block_length;
@@ -111,6 +112,7 @@ static void* cipher_newctx(
     cipher_context->block_size = block_size;
     cipher_context->iv_length = iv_length;
     cipher_context->aead = aead;
+    cipher_context->tag_length = AES_BLOCK_SIZE;
     cipher_context->key = INVALID_HANDLE;
     cipher_context->cipher_context = INVALID_HANDLE;
     cipher_context->padded =
@@ -406,7 +408,8 @@ static int cipher_cipher(
                 sa_cipher_end_parameters_aes_gcm end_parameters;
                 if (cipher_context->aead) {
                     end_parameters.tag = cipher_context->tag;
-                    end_parameters.tag_length = MAX_GCM_TAG_LENGTH;
+                    end_parameters.tag_length = cipher_context->mode == SA_CIPHER_MODE_ENCRYPT ? MAX_GCM_TAG_LENGTH :
+                                                                                                 cipher_context->tag_length;
                     parameters = &end_parameters;
                 }
 
@@ -554,7 +557,9 @@ static int cipher_get_ctx_params(
     }
 
     param = OSSL_PARAM_locate(params, OSSL_CIPHER_PARAM_AEAD_TAG);
-    if (param != NULL && !OSSL_PARAM_set_octet_string(param, cipher_context->tag, AES_BLOCK_SIZE)) {
+    if (param != NULL && !OSSL_PARAM_set_octet_string(param, cipher_context->tag,
+                                 param->data != NULL && param->data_size < AES_BLOCK_SIZE ? param->data_size :
+                                                                                            AES_BLOCK_SIZE)) {
         ERROR("OSSL_PARAM_set_octet_string failed");
         return 0;
     }
@@ -629,6 +634,8 @@ static int cipher_set_ctx_params(void* cctx,
             ERROR("OSSL_PARAM_get_octet_string failed");
             return 0;
         }
+
+        cipher_context->tag_length = length;
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY);
-- 
2.43.0


From 352e50b70a842f4f83eb3bb1fa3a4078dbbecf6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 56/85] fix: finish a provider cipher when told to, and only
 then

---
 reference/src/client/src/sa_provider_cipher.c | 31 +++++++++++++++----
 1 file changed, 25 insertions(+), 6 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index dfc197c..7aa8109 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -69,6 +69,8 @@ ossl_unused static OSSL_FUNC_cipher_decrypt_init_fn cipher_decrypt_init;
 ossl_unused static OSSL_FUNC_cipher_update_fn cipher_update;
 ossl_unused static OSSL_FUNC_cipher_final_fn cipher_final;
 ossl_unused static OSSL_FUNC_cipher_cipher_fn cipher_cipher;
+static int cipher_process(sa_provider_cipher_context* cipher_context, unsigned char* out, size_t* outl, size_t outsize,
+        const unsigned char* in, size_t inl, bool last);
 ossl_unused static OSSL_FUNC_cipher_get_params_fn cipher_aes_ecb_128_get_params;
 ossl_unused static OSSL_FUNC_cipher_get_params_fn cipher_aes_ecb_256_get_params;
 ossl_unused static OSSL_FUNC_cipher_get_params_fn cipher_aes_cbc_128_get_params;
@@ -236,7 +238,7 @@ static int cipher_update(
         size_t outsize,
         const unsigned char* in,
         size_t inl) {
-    return cipher_cipher(cctx, out, outl, outsize, in, inl);
+    return cipher_process(cctx, out, outl, outsize, in, inl, false);
 }
 
 static int cipher_final(
@@ -244,7 +246,7 @@ static int cipher_final(
         unsigned char* out,
         size_t* outl,
         size_t outsize) {
-    return cipher_cipher(cctx, out, outl, outsize, NULL, 0);
+    return cipher_process(cctx, out, outl, outsize, NULL, 0, true);
 }
 
 static int cipher_cipher(
@@ -254,8 +256,19 @@ static int cipher_cipher(
         size_t outsize,
         const unsigned char* in,
         size_t inl) {
+    return cipher_process(cctx, out, outl, outsize, in, inl, in == NULL);
+}
 
-    if (cctx == NULL) {
+static int cipher_process(
+        sa_provider_cipher_context* cipher_context,
+        unsigned char* out, //NOLINT
+        size_t* outl,
+        size_t outsize,
+        const unsigned char* in,
+        size_t inl,
+        bool last) {
+
+    if (cipher_context == NULL) {
         ERROR("NULL cctx");
         return 0;
     }
@@ -266,7 +279,6 @@ static int cipher_cipher(
     }
 
     int result = 0;
-    sa_provider_cipher_context* cipher_context = cctx;
     do {
         if (cipher_context->key == INVALID_HANDLE) {
             ERROR("cipher_context->key is invalid");
@@ -276,7 +288,7 @@ static int cipher_cipher(
         if (cipher_context->cipher_context == INVALID_HANDLE) {
             void* aad = NULL;
             size_t aad_length;
-            if (out == NULL) {
+            if (out == NULL && !last) {
                 aad = (void*) in;
                 aad_length = inl;
             } else {
@@ -345,11 +357,18 @@ static int cipher_cipher(
         }
 
         size_t total_processed = 0;
+        // A final call without an output buffer still has to process the tag of an authenticated cipher.
+        uint8_t no_output = 0;
+        if (last && out == NULL) {
+            out = &no_output;
+            outsize = 0;
+        }
+
         if (out != NULL) {
             sa_status status = SA_STATUS_OK;
             size_t bytes_to_process = 0;
 
-            if (in != NULL) {
+            if (!last) {
                 // Process an update call.
                 sa_buffer out_buffer = {SA_BUFFER_TYPE_CLEAR, {.clear = {out, outsize, 0}}};
                 sa_buffer in_buffer;
-- 
2.43.0


From b8b54df6a105c7a97cba755dcbf82acc68d5360e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 57/85] fix: use all of the associated data given to a provider
 cipher

---
 reference/src/client/src/sa_provider_cipher.c | 41 +++++++++++++++----
 1 file changed, 33 insertions(+), 8 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index 7aa8109..2aeb8a7 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -51,6 +51,8 @@ typedef struct {
     bool delete_key;
     uint8_t remaining_block[AES_BLOCK_SIZE];
     size_t remaining_block_length;
+    uint8_t* associated_data;
+    size_t associated_data_length;
 } sa_provider_cipher_context;
 
 ossl_unused static OSSL_FUNC_cipher_newctx_fn cipher_aes_ecb_128_newctx;
@@ -136,6 +138,7 @@ static void cipher_freectx(void* cctx) {
 
     cipher_context->key = INVALID_HANDLE;
     cipher_context->cipher_context = INVALID_HANDLE;
+    OPENSSL_free(cipher_context->associated_data);
     OPENSSL_free(cipher_context);
 }
 
@@ -158,6 +161,7 @@ static int cipher_init(
     do {
         cipher_context->mode = mode;
         cipher_context->remaining_block_length = 0;
+        cipher_context->associated_data_length = 0;
         if (cipher_context->cipher_context != INVALID_HANDLE) {
             sa_crypto_cipher_release(cipher_context->cipher_context);
             cipher_context->cipher_context = INVALID_HANDLE;
@@ -285,16 +289,37 @@ static int cipher_process(
             break;
         }
 
-        if (cipher_context->cipher_context == INVALID_HANDLE) {
-            void* aad = NULL;
-            size_t aad_length;
-            if (out == NULL && !last) {
-                aad = (void*) in;
-                aad_length = inl;
-            } else {
-                aad_length = 0;
+        if (!last && inl == 0) {
+            *outl = 0;
+            result = 1;
+            break;
+        }
+
+        if (!last && out == NULL) {
+            // Collect the associated data, it is used when the first data is processed.
+            if (!cipher_context->aead || cipher_context->cipher_context != INVALID_HANDLE) {
+                ERROR("Associated data is not allowed");
+                break;
             }
 
+            uint8_t* associated_data = OPENSSL_realloc(cipher_context->associated_data,
+                    cipher_context->associated_data_length + inl);
+            if (associated_data == NULL) {
+                ERROR("OPENSSL_realloc failed");
+                break;
+            }
+
+            memcpy(associated_data + cipher_context->associated_data_length, in, inl);
+            cipher_context->associated_data = associated_data;
+            cipher_context->associated_data_length += inl;
+            *outl = inl;
+            result = 1;
+            break;
+        }
+
+        if (cipher_context->cipher_context == INVALID_HANDLE) {
+            void* aad = cipher_context->associated_data_length > 0 ? cipher_context->associated_data : NULL;
+            size_t aad_length = cipher_context->associated_data_length;
             sa_cipher_parameters_aes_cbc parameters_aes_cbc;
             sa_cipher_parameters_aes_ctr parameters_aes_ctr;
             sa_cipher_parameters_chacha20 parameters_chacha20;
-- 
2.43.0


From f0e902d55b42a56058e11b675351e79cd7f0edc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 58/85] fix: release only the keys a provider cipher owns

---
 reference/src/client/src/sa_provider_cipher.c | 31 +++++++++----------
 1 file changed, 15 insertions(+), 16 deletions(-)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index 2aeb8a7..3c68562 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -177,29 +177,25 @@ static int cipher_init(
         }
 
         if (key != NULL) {
-            if (cipher_context->key != INVALID_HANDLE)
-                sa_key_release(cipher_context->key);
+            if (cipher_context->key_size != keylen) {
+                ERROR("Key size mismtach for algorithm");
+                break;
+            }
 
+            sa_key new_key = INVALID_HANDLE;
             sa_rights rights;
             sa_rights_set_allow_all(&rights);
             sa_import_parameters_symmetric parameters_symmetric = {&rights};
-            if (sa_key_import(&cipher_context->key, SA_KEY_FORMAT_SYMMETRIC_BYTES, key, keylen,
+            if (sa_key_import(&new_key, SA_KEY_FORMAT_SYMMETRIC_BYTES, key, keylen,
                         &parameters_symmetric) != SA_STATUS_OK) {
                 ERROR("sa_key_import failed");
                 break;
             }
 
-            sa_header header;
-            if (sa_key_header(&header, cipher_context->key) != SA_STATUS_OK) {
-                ERROR("sa_key_header failed");
-                break;
-            }
-
-            if (cipher_context->key_size != header.size) {
-                ERROR("Key size mismtach for algorithm");
-                break;
-            }
+            if (cipher_context->delete_key && cipher_context->key != INVALID_HANDLE)
+                sa_key_release(cipher_context->key);
 
+            cipher_context->key = new_key;
             cipher_context->delete_key = true;
         }
 
@@ -701,10 +697,13 @@ static int cipher_set_ctx_params(void* cctx,
             return 0;
         }
 
-        if (cipher_context->key != INVALID_HANDLE)
-            sa_key_release(cipher_context->key);
+        if (cipher_context->key != key) {
+            if (cipher_context->delete_key && cipher_context->key != INVALID_HANDLE)
+                sa_key_release(cipher_context->key);
 
-        cipher_context->key = key;
+            cipher_context->key = key;
+            cipher_context->delete_key = false;
+        }
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY_DELETE);
-- 
2.43.0


From f37fd0470756968580add8534b9e9f33ae209af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:03:58 +0000
Subject: [PATCH 59/85] fix: refuse IV lengths a provider cipher does not
 support

---
 reference/src/client/src/sa_provider_cipher.c | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/reference/src/client/src/sa_provider_cipher.c b/reference/src/client/src/sa_provider_cipher.c
index 3c68562..add6982 100644
--- a/reference/src/client/src/sa_provider_cipher.c
+++ b/reference/src/client/src/sa_provider_cipher.c
@@ -678,6 +678,20 @@ static int cipher_set_ctx_params(void* cctx,
         cipher_context->tag_length = length;
     }
 
+    param = OSSL_PARAM_locate_const(params, OSSL_CIPHER_PARAM_IVLEN);
+    if (param != NULL) {
+        size_t iv_length;
+        if (!OSSL_PARAM_get_size_t(param, &iv_length)) {
+            ERROR("OSSL_PARAM_get_size_t failed");
+            return 0;
+        }
+
+        if (iv_length != cipher_context->iv_length) {
+            ERROR("Unsupported IV length");
+            return 0;
+        }
+    }
+
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY);
     if (param != NULL) {
         uint64_t key;
-- 
2.43.0


From 1eca2fa143be4c332a892616913cf61f8ef09e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:55 +0000
Subject: [PATCH 60/85] fix: release only the keys a provider MAC owns

---
 reference/src/client/src/sa_provider_mac.c | 28 +++++++++++-----------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/reference/src/client/src/sa_provider_mac.c b/reference/src/client/src/sa_provider_mac.c
index ff7570d..e9ff36c 100644
--- a/reference/src/client/src/sa_provider_mac.c
+++ b/reference/src/client/src/sa_provider_mac.c
@@ -115,24 +115,20 @@ static int mac_init(
         }
 
         if (key != NULL) {
-            if (mac_context->key != INVALID_HANDLE)
-                sa_key_release(mac_context->key);
-
+            sa_key new_key = INVALID_HANDLE;
             sa_rights rights;
             sa_rights_set_allow_all(&rights);
             sa_import_parameters_symmetric parameters_symmetric = {&rights};
-            if (sa_key_import(&mac_context->key, SA_KEY_FORMAT_SYMMETRIC_BYTES, key, keylen,
+            if (sa_key_import(&new_key, SA_KEY_FORMAT_SYMMETRIC_BYTES, key, keylen,
                         &parameters_symmetric) != SA_STATUS_OK) {
                 ERROR("sa_key_import failed");
                 break;
             }
 
-            sa_header header;
-            if (sa_key_header(&header, mac_context->key) != SA_STATUS_OK) {
-                ERROR("sa_key_header failed");
-                break;
-            }
+            if (mac_context->delete_key && mac_context->key != INVALID_HANDLE)
+                sa_key_release(mac_context->key);
 
+            mac_context->key = new_key;
             mac_context->delete_key = true;
         }
 
@@ -309,15 +305,19 @@ static int mac_set_ctx_params(
             return 0;
         }
 
-        if (mac_context->key != INVALID_HANDLE)
-            sa_key_release(mac_context->key);
-
-        mac_context->key = key;
         sa_header header;
-        if (sa_key_header(&header, mac_context->key) != SA_STATUS_OK) {
+        if (sa_key_header(&header, key) != SA_STATUS_OK) {
             ERROR("sa_key_header failed");
             return 0;
         }
+
+        if (mac_context->key != key) {
+            if (mac_context->delete_key && mac_context->key != INVALID_HANDLE)
+                sa_key_release(mac_context->key);
+
+            mac_context->key = key;
+            mac_context->delete_key = false;
+        }
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY_DELETE);
-- 
2.43.0


From ce754602fa9eabd582aa7de7c21cb8fb8e3e66e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:05:55 +0000
Subject: [PATCH 61/85] fix: free the digest a provider MAC replaces

---
 reference/src/client/src/sa_provider_mac.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reference/src/client/src/sa_provider_mac.c b/reference/src/client/src/sa_provider_mac.c
index e9ff36c..5374f2e 100644
--- a/reference/src/client/src/sa_provider_mac.c
+++ b/reference/src/client/src/sa_provider_mac.c
@@ -290,6 +290,7 @@ static int mac_set_ctx_params(
             properties[0] = 0;
         }
 
+        EVP_MD_free(mac_context->evp_md);
         mac_context->evp_md = EVP_MD_fetch(mac_context->provider_context->lib_ctx, name, properties);
         if (mac_context->evp_md == NULL) {
             ERROR("EVP_MD_fetch failed");
-- 
2.43.0


From 857e75362eb521553fb518c27110d1b594525ee9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:32 +0000
Subject: [PATCH 62/85] fix: identify RSA signatures by their own algorithm

---
 reference/src/client/src/sa_provider_signature.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 9ee41b6..201f9ae 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -72,7 +72,7 @@ ossl_unused static OSSL_FUNC_signature_gettable_ctx_md_params_fn signature_getta
 ossl_unused static OSSL_FUNC_signature_set_ctx_md_params_fn signature_set_ctx_md_params;
 ossl_unused static OSSL_FUNC_signature_settable_ctx_md_params_fn signature_settable_ctx_md_params;
 
-static uint8_t rsa_sha1_oid[] = {0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0b, 0x05,
+static uint8_t rsa_sha1_oid[] = {0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x05, 0x05,
         0x00};
 static uint8_t rsa_sha256_oid[] = {0x30, 0x0d, 0x06, 0x09, 0x2a, 0x86, 0x48, 0x86, 0xf7, 0x0d, 0x01, 0x01, 0x0b, 0x05,
         0x00};
@@ -747,6 +747,11 @@ static int signature_get_ctx_params(
         uint8_t* algorithm_id = NULL;
         size_t algorithm_id_length = 0;
         if (signature_context->key_data->type == EVP_PKEY_RSA) {
+            if (signature_context->padding_mode != RSA_PKCS1_PADDING) {
+                ERROR("No algorithm id for this padding mode");
+                return 0;
+            }
+
             switch (EVP_MD_get_type(signature_context->evp_md)) {
                 case NID_sha1:
                     algorithm_id = rsa_sha1_oid;
-- 
2.43.0


From e304160dc76e77597a215561f0db83886d030442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:32 +0000
Subject: [PATCH 63/85] fix: duplicate a provider signature context in every
 state

---
 .../src/client/src/sa_provider_signature.c    | 24 ++++++++++++-------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 201f9ae..6f3a4dd 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -146,16 +146,20 @@ static void* signature_dupctx(void* ctx) {
         }
 
         new_signature_context->provider_context = signature_context->provider_context;
-        new_signature_context->key_data = sa_provider_key_data_dup(signature_context->key_data);
-        new_signature_context->evp_md_ctx = EVP_MD_CTX_new();
-        if (new_signature_context->evp_md_ctx == NULL) {
-            ERROR("EVP_MD_CTX_new failed");
-            break;
-        }
+        if (signature_context->key_data != NULL)
+            new_signature_context->key_data = sa_provider_key_data_dup(signature_context->key_data);
 
-        if (EVP_MD_CTX_copy(new_signature_context->evp_md_ctx, signature_context->evp_md_ctx) != 1) {
-            ERROR("EVP_MD_CTX_copy failed");
-            break;
+        if (signature_context->evp_md_ctx != NULL) {
+            new_signature_context->evp_md_ctx = EVP_MD_CTX_new();
+            if (new_signature_context->evp_md_ctx == NULL) {
+                ERROR("EVP_MD_CTX_new failed");
+                break;
+            }
+
+            if (EVP_MD_CTX_copy(new_signature_context->evp_md_ctx, signature_context->evp_md_ctx) != 1) {
+                ERROR("EVP_MD_CTX_copy failed");
+                break;
+            }
         }
 
         new_signature_context->evp_md = signature_context->evp_md;
@@ -178,10 +182,12 @@ static void* signature_dupctx(void* ctx) {
     } while (false);
 
     if (result == 0 && new_signature_context != NULL) {
+        sa_provider_key_data_free(new_signature_context->key_data);
         EVP_MD_CTX_free(new_signature_context->evp_md_ctx);
         EVP_MD_free(new_signature_context->evp_md);
         EVP_MD_free(new_signature_context->mgf1_md);
         OPENSSL_free(new_signature_context);
+        new_signature_context = NULL;
     }
 
     return new_signature_context;
-- 
2.43.0


From c81a82ce5ff7def497e9d14742fa1b1aff60185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:32 +0000
Subject: [PATCH 64/85] fix: report the failure to start a provider signature

---
 reference/src/client/src/sa_provider_signature.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 6f3a4dd..c42fb3c 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -209,7 +209,9 @@ static int signature_sign_init(
     }
 
     sa_provider_signature_context* signature_context = ctx;
-    signature_context->key_data = sa_provider_key_data_dup(provkey);
+    sa_provider_key_data* key_data = sa_provider_key_data_dup(provkey);
+    sa_provider_key_data_free(signature_context->key_data);
+    signature_context->key_data = key_data;
     return signature_set_ctx_params(ctx, params);
 }
 
@@ -506,10 +508,11 @@ static int signature_digest_sign_init(
         EVP_MD_CTX_free(signature_context->evp_md_ctx);
         signature_context->evp_md = NULL;
         signature_context->evp_md_ctx = NULL;
+        sa_provider_key_data_free(signature_context->key_data);
         signature_context->key_data = NULL;
     }
 
-    return 1;
+    return result;
 }
 
 static int signature_digest_sign_update(
-- 
2.43.0


From 74dd4ebe0accb1c01b21c2787373619705921562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:32 +0000
Subject: [PATCH 65/85] fix: mask provider PSS signatures with the digest of
 the signature by default

---
 reference/src/client/src/sa_provider_signature.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index c42fb3c..51504cf 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -265,7 +265,7 @@ static int signature_sign(
                     parameters_rsa_pss.digest_algorithm = SA_DIGEST_ALGORITHM_SHA256;
 
                 if (parameters_rsa_pss.mgf1_digest_algorithm == UINT32_MAX)
-                    parameters_rsa_pss.mgf1_digest_algorithm = SA_DIGEST_ALGORITHM_SHA256;
+                    parameters_rsa_pss.mgf1_digest_algorithm = parameters_rsa_pss.digest_algorithm;
 
                 parameters_rsa_pss.precomputed_digest = true;
                 int salt_length;
-- 
2.43.0


From 181e3ffe5b9df8588effd6ea0ecb3c114c83c8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:32 +0000
Subject: [PATCH 66/85] fix: respect the size of the buffer of a provider
 signature

---
 .../src/client/src/sa_provider_signature.c    | 23 ++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 51504cf..2f0c135 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -219,7 +219,7 @@ static int signature_sign(
         void* ctx,
         unsigned char* sig,
         size_t* siglen,
-        ossl_unused size_t sigsize,
+        size_t sigsize,
         const unsigned char* tbs,
         size_t tbslen) {
 
@@ -332,17 +332,34 @@ static int signature_sign(
         // Take the SecApi 3 signature and encode it like OpenSSL would so that it looks like it came from
         // OpenSSL
         if (sig != NULL) {
-            if (!ec_encode_signature(sig, siglen, local_signature, local_signature_length)) {
+            uint8_t encoded_signature[MAX_SIGNATURE_LENGTH];
+            size_t encoded_signature_length = MAX_SIGNATURE_LENGTH;
+            if (!ec_encode_signature(encoded_signature, &encoded_signature_length, local_signature,
+                        local_signature_length)) {
                 ERROR("ec_encode_signature failed");
                 return 0;
             }
+
+            if (sigsize < encoded_signature_length) {
+                ERROR("sig too short");
+                return 0;
+            }
+
+            memcpy(sig, encoded_signature, encoded_signature_length);
+            *siglen = encoded_signature_length;
         } else {
             // Add the most number of bytes that can be added by ASN.1 encoding (9). It could be as few as 6.
             *siglen = local_signature_length + 9;
         }
     } else {
-        if (sig != NULL)
+        if (sig != NULL) {
+            if (sigsize < local_signature_length) {
+                ERROR("sig too short");
+                return 0;
+            }
+
             memcpy(sig, local_signature, local_signature_length);
+        }
 
         *siglen = local_signature_length;
     }
-- 
2.43.0


From ef4ce441b8d80611069c8d359fce67a9df9e8f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:07 +0000
Subject: [PATCH 67/85] fix: recognise the NIST curves of raw EC keys given to
 the provider

---
 reference/src/client/src/sa_provider_keymgt.c | 19 +++----------------
 1 file changed, 3 insertions(+), 16 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index 2ceb34d..30c3871 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -129,6 +129,8 @@ ossl_unused static OSSL_FUNC_keymgmt_gen_settable_params_fn keymgmt_ed448_gen_se
 ossl_unused static OSSL_FUNC_keymgmt_gen_fn keymgmt_gen;
 ossl_unused static OSSL_FUNC_keymgmt_gen_cleanup_fn keymgmt_gen_cleanup;
 
+static sa_elliptic_curve ec_get_curve_from_name(const char* name);
+
 static sa_elliptic_curve ec_get_curve_from_type(EVP_PKEY* evp_pkey) {
     int type = EVP_PKEY_get_id(evp_pkey);
     char group_name[MAX_NAME_SIZE];
@@ -151,22 +153,7 @@ static sa_elliptic_curve ec_get_curve_from_type(EVP_PKEY* evp_pkey) {
             if (EVP_PKEY_get_group_name(evp_pkey, group_name, MAX_NAME_SIZE, &group_name_length) != 1)
                 return UINT32_MAX;
 
-            if (strcmp(group_name, "P-192") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P192;
-
-            if (strcmp(group_name, "P-224") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P224;
-
-            if (strcmp(group_name, "P-256") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P256;
-
-            if (strcmp(group_name, "P-384") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P384;
-
-            if (strcmp(group_name, "P-521") == 0)
-                return SA_ELLIPTIC_CURVE_NIST_P521;
-
-            return UINT32_MAX;
+            return ec_get_curve_from_name(group_name);
 
         default:
             return UINT32_MAX;
-- 
2.43.0


From 4c7e3d461d3e2728b8a218270e40d8d282a6a959 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:07 +0000
Subject: [PATCH 68/85] fix: read back the salt length of a provider PSS
 signature

---
 reference/src/client/src/sa_provider_signature.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/reference/src/client/src/sa_provider_signature.c b/reference/src/client/src/sa_provider_signature.c
index 2f0c135..69b0839 100644
--- a/reference/src/client/src/sa_provider_signature.c
+++ b/reference/src/client/src/sa_provider_signature.c
@@ -915,6 +915,7 @@ static int signature_get_ctx_params(
             }
         } else if (param->data_type == OSSL_PARAM_UTF8_STRING) {
             const char* value;
+            char salt_length[16];
             switch (signature_context->pss_salt_length) {
                 case RSA_PSS_SALTLEN_DIGEST:
                     value = OSSL_PKEY_RSA_PSS_SALT_LEN_DIGEST;
@@ -929,8 +930,9 @@ static int signature_get_ctx_params(
                     break;
 
                 default:
-                    ERROR("Unknown salt length");
-                    return 0;
+                    snprintf(salt_length, sizeof(salt_length), "%d", signature_context->pss_salt_length);
+                    value = salt_length;
+                    break;
             }
 
             if (OSSL_PARAM_set_utf8_string(param, value) != 1) {
-- 
2.43.0


From a4770363ad563535f8fb9c4ebdd6e83e3545dd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:58 +0000
Subject: [PATCH 69/85] fix: duplicate a provider encryption context in every
 state

---
 .../src/client/src/sa_provider_asym_cipher.c  | 30 ++++++++++++-------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/reference/src/client/src/sa_provider_asym_cipher.c b/reference/src/client/src/sa_provider_asym_cipher.c
index f7af18d..0a26e60 100644
--- a/reference/src/client/src/sa_provider_asym_cipher.c
+++ b/reference/src/client/src/sa_provider_asym_cipher.c
@@ -120,20 +120,28 @@ static void* asym_cipher_dupctx(void* ctx) {
 
     new_asym_cipher_context->provider_context = asym_cipher_context->provider_context;
     new_asym_cipher_context->cipher_algorithm = asym_cipher_context->cipher_algorithm;
-    new_asym_cipher_context->key_data = sa_provider_key_data_dup(asym_cipher_context->key_data);
+    if (asym_cipher_context->key_data != NULL)
+        new_asym_cipher_context->key_data = sa_provider_key_data_dup(asym_cipher_context->key_data);
+
     new_asym_cipher_context->padding_mode = asym_cipher_context->padding_mode;
     new_asym_cipher_context->oaep_md = asym_cipher_context->oaep_md;
-    EVP_MD_up_ref(new_asym_cipher_context->oaep_md);
+    if (new_asym_cipher_context->oaep_md != NULL)
+        EVP_MD_up_ref(new_asym_cipher_context->oaep_md);
+
     new_asym_cipher_context->oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md;
-    EVP_MD_up_ref(new_asym_cipher_context->oaep_mgf1_md);
-    new_asym_cipher_context->oaep_label_length = asym_cipher_context->oaep_label_length;
-    new_asym_cipher_context->oaep_label = OPENSSL_malloc(new_asym_cipher_context->oaep_label_length);
-    if (new_asym_cipher_context->oaep_label == NULL) {
-        ERROR("OPENSSL_malloc failed");
-        EVP_MD_free(new_asym_cipher_context->oaep_md);
-        EVP_MD_free(new_asym_cipher_context->oaep_mgf1_md);
-        OPENSSL_free(new_asym_cipher_context);
-        return NULL;
+    if (new_asym_cipher_context->oaep_mgf1_md != NULL)
+        EVP_MD_up_ref(new_asym_cipher_context->oaep_mgf1_md);
+
+    if (asym_cipher_context->oaep_label_length > 0) {
+        new_asym_cipher_context->oaep_label = OPENSSL_memdup(asym_cipher_context->oaep_label,
+                asym_cipher_context->oaep_label_length);
+        if (new_asym_cipher_context->oaep_label == NULL) {
+            ERROR("OPENSSL_memdup failed");
+            asym_cipher_freectx(new_asym_cipher_context);
+            return NULL;
+        }
+
+        new_asym_cipher_context->oaep_label_length = asym_cipher_context->oaep_label_length;
     }
 
     return new_asym_cipher_context;
-- 
2.43.0


From d657c80677bf07805975dbaf018410425f85f67a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:58 +0000
Subject: [PATCH 70/85] fix: use the mask digest given to a provider OAEP
 context

---
 .../src/client/src/sa_provider_asym_cipher.c  | 22 +++++++------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/reference/src/client/src/sa_provider_asym_cipher.c b/reference/src/client/src/sa_provider_asym_cipher.c
index 0a26e60..02431c9 100644
--- a/reference/src/client/src/sa_provider_asym_cipher.c
+++ b/reference/src/client/src/sa_provider_asym_cipher.c
@@ -216,13 +216,10 @@ static int asym_cipher_encrypt(
         }
 
         if (asym_cipher_context->padding_mode == RSA_PKCS1_OAEP_PADDING) {
-            EVP_MD* oaep_md;
-            if (asym_cipher_context->oaep_md != NULL)
-                oaep_md = asym_cipher_context->oaep_md;
-            else
-                oaep_md = EVP_MD_fetch(asym_cipher_context->provider_context->lib_ctx, DEFAULT_OAEP_DIGEST, NULL);
-
-            EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? oaep_md : asym_cipher_context->oaep_md;
+            const EVP_MD* oaep_md = asym_cipher_context->oaep_md != NULL ? asym_cipher_context->oaep_md :
+                                                                            EVP_get_digestbyname(DEFAULT_OAEP_DIGEST);
+            const EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? asym_cipher_context->oaep_mgf1_md :
+                                                                                       oaep_md;
             if (EVP_PKEY_CTX_set_rsa_oaep_md(encrypt_pkey_ctx, oaep_md) != 1) {
                 ERROR("EVP_PKEY_CTX_set_rsa_oaep_md failed");
                 break;
@@ -302,13 +299,10 @@ static int asym_cipher_decrypt(void* ctx,
     void* parameters = NULL;
     if (asym_cipher_context->padding_mode == RSA_PKCS1_OAEP_PADDING) {
         cipher_algorithm = SA_CIPHER_ALGORITHM_RSA_OAEP;
-        EVP_MD* oaep_md;
-        if (asym_cipher_context->oaep_md != NULL)
-            oaep_md = asym_cipher_context->oaep_md;
-        else
-            oaep_md = EVP_MD_fetch(asym_cipher_context->provider_context->lib_ctx, DEFAULT_OAEP_DIGEST, NULL);
-
-        EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? oaep_md : asym_cipher_context->oaep_md;
+        const EVP_MD* oaep_md = asym_cipher_context->oaep_md != NULL ? asym_cipher_context->oaep_md :
+                                                                        EVP_get_digestbyname(DEFAULT_OAEP_DIGEST);
+        const EVP_MD* oaep_mgf1_md = asym_cipher_context->oaep_mgf1_md != NULL ? asym_cipher_context->oaep_mgf1_md :
+                                                                                   oaep_md;
         parameters_rsa_oaep.digest_algorithm = digest_algorithm_from_md(oaep_md);
         parameters_rsa_oaep.mgf1_digest_algorithm = digest_algorithm_from_md(oaep_mgf1_md);
         parameters_rsa_oaep.label = asym_cipher_context->oaep_label;
-- 
2.43.0


From 276458d0b968aafeb2961137e260db4ff2efba90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:58 +0000
Subject: [PATCH 71/85] fix: read back the padding mode of a provider
 encryption context

---
 reference/src/client/src/sa_provider_asym_cipher.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_asym_cipher.c b/reference/src/client/src/sa_provider_asym_cipher.c
index 02431c9..20d481f 100644
--- a/reference/src/client/src/sa_provider_asym_cipher.c
+++ b/reference/src/client/src/sa_provider_asym_cipher.c
@@ -363,7 +363,7 @@ static int asym_cipher_get_ctx_params(
     if (param != NULL) {
         switch (param->data_type) {
             case OSSL_PARAM_INTEGER:
-                if (OSSL_PARAM_set_int(param, asym_cipher_context->padding_mode)) {
+                if (!OSSL_PARAM_set_int(param, asym_cipher_context->padding_mode)) {
                     ERROR("OSSL_PARAM_set_int failed");
                     return 0;
                 }
-- 
2.43.0


From bd0da3de2b68ff143763fa5985130e535e3c4dd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:58 +0000
Subject: [PATCH 72/85] fix: refuse to decrypt unpadded data in the provider

---
 reference/src/client/src/sa_provider_asym_cipher.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reference/src/client/src/sa_provider_asym_cipher.c b/reference/src/client/src/sa_provider_asym_cipher.c
index 20d481f..aa5c82e 100644
--- a/reference/src/client/src/sa_provider_asym_cipher.c
+++ b/reference/src/client/src/sa_provider_asym_cipher.c
@@ -308,6 +308,9 @@ static int asym_cipher_decrypt(void* ctx,
         parameters_rsa_oaep.label = asym_cipher_context->oaep_label;
         parameters_rsa_oaep.label_length = asym_cipher_context->oaep_label_length;
         parameters = &parameters_rsa_oaep;
+    } else if (asym_cipher_context->padding_mode != RSA_PKCS1_PADDING) {
+        ERROR("Unsupported padding mode");
+        return UNSUPPORTED_OPERATION;
     } else {
         cipher_algorithm = SA_CIPHER_ALGORITHM_RSA_PKCS1V15;
     }
-- 
2.43.0


From 7533e05f88a23f36b538d7683a399eb0bcc0c8bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:58 +0000
Subject: [PATCH 73/85] fix: duplicate a provider key exchange context in every
 state

---
 reference/src/client/src/sa_provider_keyexch.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keyexch.c b/reference/src/client/src/sa_provider_keyexch.c
index 8e9a962..4c1f480 100644
--- a/reference/src/client/src/sa_provider_keyexch.c
+++ b/reference/src/client/src/sa_provider_keyexch.c
@@ -95,8 +95,12 @@ void* keyexch_dupctx(void* ctx) {
     }
 
     new_keyexch_context->provider_context = keyexch_context->provider_context;
-    new_keyexch_context->key_data = sa_provider_key_data_dup(keyexch_context->key_data);
-    new_keyexch_context->peer_key_data = sa_provider_key_data_dup(keyexch_context->peer_key_data);
+    if (keyexch_context->key_data != NULL)
+        new_keyexch_context->key_data = sa_provider_key_data_dup(keyexch_context->key_data);
+
+    if (keyexch_context->peer_key_data != NULL)
+        new_keyexch_context->peer_key_data = sa_provider_key_data_dup(keyexch_context->peer_key_data);
+
     return new_keyexch_context;
 }
 
-- 
2.43.0


From 424b290df56a6f65ffcea47092c9cfb6fcb0d404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:58 +0000
Subject: [PATCH 74/85] fix: release the keys a provider key exchange replaces

---
 reference/src/client/src/sa_provider_keyexch.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keyexch.c b/reference/src/client/src/sa_provider_keyexch.c
index 4c1f480..a1eace1 100644
--- a/reference/src/client/src/sa_provider_keyexch.c
+++ b/reference/src/client/src/sa_provider_keyexch.c
@@ -120,7 +120,9 @@ int keyexch_init(
     }
 
     sa_provider_keyexch_context* keyexch_context = ctx;
-    keyexch_context->key_data = sa_provider_key_data_dup(provkey);
+    sa_provider_key_data* key_data = sa_provider_key_data_dup(provkey);
+    sa_provider_key_data_free(keyexch_context->key_data);
+    keyexch_context->key_data = key_data;
     return keyexch_set_ctx_params(keyexch_context, params);
 }
 
@@ -223,7 +225,9 @@ int keyexch_set_peer(
     }
 
     sa_provider_keyexch_context* keyexch_context = ctx;
-    keyexch_context->peer_key_data = sa_provider_key_data_dup(provkey);
+    sa_provider_key_data* peer_key_data = sa_provider_key_data_dup(provkey);
+    sa_provider_key_data_free(keyexch_context->peer_key_data);
+    keyexch_context->peer_key_data = peer_key_data;
     return 1;
 }
 
-- 
2.43.0


From af342a786596978708869e08cf4696fe47fa869a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:58 +0000
Subject: [PATCH 75/85] fix: refuse a provider key exchange without a key or a
 peer

---
 reference/src/client/src/sa_provider_keyexch.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/reference/src/client/src/sa_provider_keyexch.c b/reference/src/client/src/sa_provider_keyexch.c
index a1eace1..04344a9 100644
--- a/reference/src/client/src/sa_provider_keyexch.c
+++ b/reference/src/client/src/sa_provider_keyexch.c
@@ -153,6 +153,11 @@ int keyexch_derive(
     }
 
     sa_provider_keyexch_context* keyexch_context = ctx;
+    if (keyexch_context->key_data == NULL || keyexch_context->peer_key_data == NULL) {
+        ERROR("NULL key_data or peer_key_data");
+        return 0;
+    }
+
     int result = 0;
     sa_key_exchange_algorithm key_exchange_algorithm;
     uint8_t* other_public = NULL;
-- 
2.43.0


From d2ae67fbac85ae0dbb7768de16052fb275b27336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:58 +0000
Subject: [PATCH 76/85] fix: duplicate all of a provider key derivation context

---
 reference/src/client/src/sa_provider_kdf.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index aaa2c93..143875d 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -120,6 +120,8 @@ void* kdf_dupctx(void* kctx) {
     }
 
     new_kdf_context->provider_context = kdf_context->provider_context;
+    new_kdf_context->kdf_algorithm = kdf_context->kdf_algorithm;
+    new_kdf_context->key = INVALID_HANDLE;
     new_kdf_context->digest_algorithm = kdf_context->digest_algorithm;
     new_kdf_context->use_separator = kdf_context->use_separator;
     new_kdf_context->use_l = kdf_context->use_l;
@@ -147,12 +149,13 @@ void* kdf_dupctx(void* kctx) {
         memcpy(new_kdf_context->info, kdf_context->info, kdf_context->info_length);
     }
 
-    if (new_kdf_context->delete_key) {
+    if (!kdf_context->delete_key || kdf_context->key == INVALID_HANDLE) {
+        new_kdf_context->key = kdf_context->key;
+    } else {
         // We are managing the lifetime of the key, so copy the key by exporting and reimporting it.
         size_t exported_key_length = 0;
-        if (sa_key_export(NULL, &exported_key_length, NULL, 0, new_kdf_context->key) != SA_STATUS_OK) {
+        if (sa_key_export(NULL, &exported_key_length, NULL, 0, kdf_context->key) != SA_STATUS_OK) {
             ERROR("sa_key_export failed");
-            OPENSSL_free(new_kdf_context);
             kdf_freectx(new_kdf_context);
             return NULL;
         }
@@ -160,7 +163,6 @@ void* kdf_dupctx(void* kctx) {
         uint8_t* exported_key = OPENSSL_malloc(exported_key_length);
         if (exported_key == NULL) {
             ERROR("OPENSSL_malloc failed");
-            OPENSSL_free(new_kdf_context);
             kdf_freectx(new_kdf_context);
             return NULL;
         }
@@ -180,6 +182,8 @@ void* kdf_dupctx(void* kctx) {
             kdf_freectx(new_kdf_context);
             return NULL;
         }
+
+        new_kdf_context->delete_key = true;
     }
 
     return new_kdf_context;
-- 
2.43.0


From 94ee9d894f2aa719474d5a2772c950dfbc6d7d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:58 +0000
Subject: [PATCH 77/85] fix: release only the keys a provider key derivation
 owns

---
 reference/src/client/src/sa_provider_kdf.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index 143875d..f97afb0 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -388,7 +388,7 @@ int kdf_set_ctx_params(
     const OSSL_PARAM* param = OSSL_PARAM_locate_const(params, OSSL_KDF_PARAM_KEY);
     if (param != NULL) {
         size_t length;
-        unsigned long key;
+        sa_key key = INVALID_HANDLE;
         void* p_key = &key;
         if (OSSL_PARAM_get_octet_string(param, &p_key, sizeof(sa_key), &length) != 1) {
             ERROR("OSSL_PARAM_get_octet_string failed");
@@ -401,10 +401,11 @@ int kdf_set_ctx_params(
             return 0;
         }
 
-        if (kdf_context->key != INVALID_HANDLE)
+        if (kdf_context->delete_key && kdf_context->key != INVALID_HANDLE)
             sa_key_release(kdf_context->key);
 
         kdf_context->key = key;
+        kdf_context->delete_key = false;
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY);
@@ -421,10 +422,11 @@ int kdf_set_ctx_params(
             return 0;
         }
 
-        if (kdf_context->key != INVALID_HANDLE)
+        if (kdf_context->delete_key && kdf_context->key != INVALID_HANDLE)
             sa_key_release(kdf_context->key);
 
         kdf_context->key = key;
+        kdf_context->delete_key = false;
     }
 
     param = OSSL_PARAM_locate_const(params, OSSL_PARAM_SA_KEY_DELETE);
-- 
2.43.0


From c5191c478a224e22a0efc572832fba214d6fda80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 78/85] fix: derive a provider key from the parameters set
 before

---
 reference/src/client/src/sa_provider_kdf.c | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index f97afb0..16d2d54 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -379,10 +379,8 @@ int kdf_set_ctx_params(
         return 0;
     }
 
-    if (params == NULL) {
-        ERROR("NULL params");
-        return 0;
-    }
+    if (params == NULL)
+        return 1;
 
     sa_provider_kdf_context* kdf_context = kctx;
     const OSSL_PARAM* param = OSSL_PARAM_locate_const(params, OSSL_KDF_PARAM_KEY);
-- 
2.43.0


From c51a76698ae2ace8ff4469e159a93e854c10f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 79/85] fix: reset all of a provider key derivation context

---
 reference/src/client/src/sa_provider_kdf.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index 16d2d54..30c4904 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -203,8 +203,11 @@ void kdf_reset(void* kctx) {
     kdf_context->delete_key = false;
     OPENSSL_free(kdf_context->salt);
     kdf_context->salt = NULL;
+    kdf_context->salt_length = 0;
     OPENSSL_free(kdf_context->info);
     kdf_context->info = NULL;
+    kdf_context->info_length = 0;
+    kdf_context->digest_algorithm = UINT32_MAX;
     kdf_context->use_separator = 0;
     kdf_context->use_l = 0;
 }
-- 
2.43.0


From e1c2c7488e0149f5cb0ff5c3fbb17f270953efb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 80/85] fix: count the blocks of a provider CMAC key derivation
 from one

---
 reference/src/client/src/sa_provider_kdf.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reference/src/client/src/sa_provider_kdf.c b/reference/src/client/src/sa_provider_kdf.c
index 30c4904..04287dc 100644
--- a/reference/src/client/src/sa_provider_kdf.c
+++ b/reference/src/client/src/sa_provider_kdf.c
@@ -309,7 +309,7 @@ int kdf_derive(
                 }
 
                 parameters_cmac.key_length = keylen;
-                parameters_cmac.counter = (keylen / SYM_128_KEY_SIZE) + (keylen % SYM_128_KEY_SIZE == 0 ? 0 : 1);
+                parameters_cmac.counter = 1;
                 parameters_cmac.parent = kdf_context->key;
                 parameters_cmac.other_data_length = position;
                 parameters_cmac.other_data = other_data;
-- 
2.43.0


From 2adf73ea7c999b80bfa5bb70a3446cc5a9b0dbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 81/85] fix: compare the keys given to the provider's key
 comparison

---
 reference/src/client/src/sa_provider_keymgt.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index 30c3871..9ebf59f 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -279,8 +279,11 @@ static int keymgmt_match(
     }
 
     const sa_provider_key_data* key_data1 = keydata1;
-    const sa_provider_key_data* key_data2 = keydata1;
-    return key_data1->private_key == key_data2->private_key;
+    const sa_provider_key_data* key_data2 = keydata2;
+    if (key_data1->public_key == NULL || key_data2->public_key == NULL)
+        return key_data1->private_key != INVALID_HANDLE && key_data1->private_key == key_data2->private_key;
+
+    return EVP_PKEY_eq(key_data1->public_key, key_data2->public_key) == 1;
 }
 
 static int keymgmt_import(
-- 
2.43.0


From eae92e06d1c4c7a88f69ebe18aa471c1804dffe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:59 +0000
Subject: [PATCH 82/85] fix: release only the keys a provider key owns when it
 is replaced

---
 reference/src/client/src/sa_provider_keymgt.c | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/reference/src/client/src/sa_provider_keymgt.c b/reference/src/client/src/sa_provider_keymgt.c
index 9ebf59f..9db3591 100644
--- a/reference/src/client/src/sa_provider_keymgt.c
+++ b/reference/src/client/src/sa_provider_keymgt.c
@@ -424,7 +424,6 @@ static int keymgmt_import(
 
                     if (OSSL_PARAM_get_BN(g_param, &g) != 1) {
                         ERROR("OSSL_PARAM_get_BN failed");
-                        BN_free(p);
                         break;
                     }
 
@@ -484,7 +483,7 @@ static int keymgmt_import(
             }
         }
 
-        if (key_data->private_key != INVALID_HANDLE)
+        if (key_data->delete_key && key_data->private_key != INVALID_HANDLE)
             sa_key_release(key_data->private_key);
 
         EVP_PKEY_free(key_data->public_key);
@@ -501,16 +500,9 @@ static int keymgmt_import(
     EVP_PKEY_free(evp_pkey);
     BN_free(p);
     BN_free(g);
-    if (result != 1) {
-        if (key_data->private_key != INVALID_HANDLE) {
-            sa_key_release(key_data->private_key);
-            key_data->private_key = INVALID_HANDLE;
-        }
+    if (result != 1 && delete_key && private_key != INVALID_HANDLE)
+        sa_key_release(private_key);
 
-        EVP_PKEY_free(key_data->public_key);
-        key_data->public_key = NULL;
-        memset(&key_data->private_key_header, 0, sizeof(sa_header));
-    }
 
     return result;
 }
-- 
2.43.0


From 099f46232d1c3ae783c06dfb2c14468890ce91cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:26 +0000
Subject: [PATCH 83/85] fix: refuse a provider HMAC without a digest

---
 reference/src/client/src/sa_provider_mac.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reference/src/client/src/sa_provider_mac.c b/reference/src/client/src/sa_provider_mac.c
index 5374f2e..d11fe14 100644
--- a/reference/src/client/src/sa_provider_mac.c
+++ b/reference/src/client/src/sa_provider_mac.c
@@ -145,6 +145,10 @@ static int mac_init(
         sa_mac_parameters_hmac parameters_hmac;
         void* parameters = NULL;
         if (mac_context->mac_algorithm == SA_MAC_ALGORITHM_HMAC) {
+            if (mac_context->evp_md == NULL) {
+                ERROR("NULL evp_md");
+                break;
+            }
 
             parameters_hmac.digest_algorithm = digest_algorithm_from_name(EVP_MD_get0_name(mac_context->evp_md));
             parameters = &parameters_hmac;
-- 
2.43.0


From 017dc095a03981ec4ba8a7f823a67cd6d9de6634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 84/85] fix: fill random output of any length or fail

---
 reference/src/taimpl/src/porting/rand.c | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/reference/src/taimpl/src/porting/rand.c b/reference/src/taimpl/src/porting/rand.c
index 7951669..63537a1 100644
--- a/reference/src/taimpl/src/porting/rand.c
+++ b/reference/src/taimpl/src/porting/rand.c
@@ -18,7 +18,9 @@
 
 #include "porting/rand.h" // NOLINT
 #include "log.h"
+#include <limits.h>
 #include <openssl/rand.h>
+#include <stdint.h>
 
 bool rand_bytes(void* out, size_t out_length) {
     if (out == NULL) {
@@ -26,9 +28,16 @@ bool rand_bytes(void* out, size_t out_length) {
         return false;
     }
 
-    if (!RAND_bytes(out, (int) out_length)) {
-        ERROR("RAND_bytes failed");
-        return false;
+    uint8_t* out_bytes = out;
+    while (out_length > 0) {
+        int length = out_length > INT_MAX ? INT_MAX : (int) out_length;
+        if (RAND_bytes(out_bytes, length) != 1) {
+            ERROR("RAND_bytes failed");
+            return false;
+        }
+
+        out_bytes += length;
+        out_length -= length;
     }
 
     return true;
-- 
2.43.0


From 200823f2406522308fb5b61c6ea459951da82cb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 85/85] fix: report the length of the name that was copied

---
 reference/src/taimpl/src/ta_sa_get_name.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reference/src/taimpl/src/ta_sa_get_name.c b/reference/src/taimpl/src/ta_sa_get_name.c
index 1593b6f..4ad513c 100644
--- a/reference/src/taimpl/src/ta_sa_get_name.c
+++ b/reference/src/taimpl/src/ta_sa_get_name.c
@@ -52,6 +52,7 @@ sa_status ta_sa_get_name(
     }
 
     memcpy(name, implementation_name, required_length);
+    *name_length = required_length;
 
     return SA_STATUS_OK;
 }
-- 
2.43.0

